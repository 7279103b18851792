#[macro_use]
mod sx;
#[allow(dead_code)]
mod gram;

/// One module per property, compiled only when its feature is on; every entry is a symbol of its own, so that
/// the symbolic executor can start from it, and can be run natively by name (replay of a counterexample).
macro_rules! entries {
    ($($feat:literal $m:ident { $($f:ident),* $(,)? })*) => {
        $(#[cfg(feature = $feat)] mod $m;)*
        fn main() {
            let n = std::env::args().nth(1).unwrap_or_default();
            let f: fn() = match n.as_str() {
                $($(#[cfg(feature = $feat)] stringify!($f) => || $m::$f(),)*)*
                _ => { eprintln!("no such harness"); std::process::exit(2) }
            };
            f();
            sx::end();
        }
    };
}
entries! {
    "C01" p_sym { source_history, dense_u8, dense_u16, dense_u32, symbol_order, fresh_stream }
    "C02" p_serde { symbol_u8, symbol_u16, symbol_u32, symbol_negative, symbol_json, name_json, mapping_json, set_json, symbol_bin, ids }
    "C03" p_set { sets, set_ops }
    "C04" p_limit { limit, split, limit_history }
    "C05" p_null { nulling }
    "C06" p_closure { closure, closure_values }
    "C07" p_first { first, last, first_string }
    "C08" p_follow { follow_sets }
    "C09" p_ll { ll }
    "C10" p_lr { lr0 }
    "C11" p_cycle { cycle_find, cycle_rewrite }
    "C12" p_useful { useful, proper }
    "C13" p_rec { recursion, matrix, square }
    "C15" p_remap { reorder, remove_unused, translate, remap_many }
    "C16" p_seq { sequences, large, ranges }
    "C17" p_prec { precedence, levels, one_parse }
    "C18" p_ops { reversal, sorting, equivalence, wrapping, columns, text }
    "C19" p_dist { distances, recursive_distances }
    "C20" p_hist { history_limit, history_null, history_prec, history_seq, history_ops, history_nodes }
    "C21" p_load { load_text, load_char, load_tokens, load_many, round_trip }
    "C22" p_lex { lexer_map, lexer_chars, literal_only }
    "C23" p_regex { regexp, not_regexp, regexp_wide, regexp_count }
    "C24" p_gen { generate, negative, attempts, reversals, bytes }
    "C25" p_adv { adv_text, adv_char, adv_tokens, adv_meaning, adv_many }
    "C26" p_pipe { pipeline }
}
