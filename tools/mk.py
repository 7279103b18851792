#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and the stages of spec.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import spec

P = []


def prop(id, title, statement, text, why, files, mech, observe, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


prop('C01', 'Symbol sources hand out dense, distinct symbols and keep their names',
     'Every way of generating symbols (one, several, named, as an iterator) returns the next unused numeric value, starting from 0, so no two live symbols are equal and the number of symbols is their count; this holds across the whole 8-bit space and past the 8-bit and 16-bit boundaries for wider symbols. '
     'A symbol keeps exactly the name it was given: looking up the name, the formatted name (g followed by the number for nameless symbols), the list of names and the map from names agree. '
     'Truncation to a length removes exactly the symbols and names from that number on, and generation continues from there.',
     'every history of up to four generating or truncating operations with any one-letter names; every symbol of the 8-bit space; sources of 66000 symbols',
     'the tests generate a few dozen 32-bit symbols and never truncate; freshness must hold after every history',
     ['cfg-symbol/src/source.rs', 'cfg-symbol/src/symbol.rs'],
     [('SymbolSource::next_sym and advance', 'cfg-symbol/src/source.rs'), ('SymbolSource::truncate', 'cfg-symbol/src/source.rs'), ('SymbolSource::name_map', 'cfg-symbol/src/source.rs')],
     ['SymbolSource::num_syms', 'Symbol::usize', 'SymbolSource::original_name_of'], ('histories', 'inputs'))
prop('C02', 'Serialized symbols, names, mappings and symbol sets read back unchanged',
     'A symbol is read from exactly the numbers 0 to one below the largest value of its integer type, becomes the symbol with that number, and every other number or kind of value is an error, never a wrapped or different symbol. '
     'Symbols, symbol names (all of ASCII), symbol mappings and symbol sets written as JSON by miniserde read back equal. '
     'In the binary form of nanoserde a symbol is four bytes other than zero, anything else (fewer bytes, zero) is an error and never a panic, and symbols and the numbers in histories read back equal.',
     'every 64-bit number for 8-, 16- and 32-bit symbols; any four bytes; all ASCII names of two characters; all small mappings and sets',
     'no test serializes anything; off-by-one at the top of a type or truncation to 32 bits needs one number out of 2^64',
     ['cfg-symbol/src/symbol.rs', 'cfg-symbol/src/source.rs', 'cfg-symbol/src/intern.rs', 'cfg-grammar/src/symbol_bit_set.rs'],
     [('Visitor for Symbol', 'cfg-symbol/src/symbol.rs'), ('Serialize for Symbol', 'cfg-symbol/src/symbol.rs'), ('DeBin and SerBin for Symbol', 'cfg-symbol/src/symbol.rs')],
     ['miniserde::json::to_string', 'miniserde::json::from_str'])
prop('C03', 'Symbol sets hold exactly the symbols they are documented to hold',
     'Of a grammar, the terminal symbols are those that are the left-hand side of no rule, the nulling symbols those with an empty rule, used symbols those that occur in a rule and unused symbols the rest, whatever the set held before; adding nulling or productive symbols keeps the members and subtracting productive symbols removes exactly the left-hand sides. '
     'Negation, union, membership update, growth, the test for all members and iteration in ascending order behave as set operations on the symbols there is space for.',
     'every grammar and every previous content of the set within the bounds',
     'the tests look at one or two sets of one grammar',
     ['cfg-grammar/src/symbol_bit_set.rs'],
     [('SymbolBitSet::terminal, used, unused, nulling, productive, subtract_productive', 'cfg-grammar/src/symbol_bit_set.rs')],
     ['SymbolBitSet index and iter'])
prop('C04', 'Limiting rule length bounds every rule and preserves the language',
     'After the right-hand side length is limited to n (at least 2), no rule has more than n symbols on its right-hand side, including rules added later one by one, by the builder or by extending with another grammar, until the limit is changed. '
     'Every symbol of the original grammar derives exactly the strings it derived before; adding a rule returns the number of rules it was split into, whose expansion is the original right-hand side in order. '
     'Limiting again changes nothing, and lifting the limit changes no rule.',
     'every grammar, limit, order of additions and word within the bounds',
     'the tests binarize a handful of fixed grammars and compare the rules textually; none extends a limited grammar',
     ['cfg-grammar/src/cfg.rs', 'cfg-grammar/src/rule_builder.rs'],
     [('Cfg::add_rule', 'cfg-grammar/src/cfg.rs'), ('Cfg::limit_rhs_len', 'cfg-grammar/src/cfg.rs'), ('Cfg::extend', 'cfg-grammar/src/cfg.rs')],
     ['Cfg::rules'], ('inputs', 'histories'))
prop('C05', 'Eliminating nulling rules preserves the language but for the empty string',
     'Binarization with nulling elimination leaves only rules of one or two symbols; every symbol of the original grammar derives exactly the non-empty terminal strings it derived before, and no former nonterminal is left as an apparent terminal. '
     'The returned nulling grammar has rules for exactly the nullable symbols, derives the empty string from each of them and mentions no other symbol. '
     'Doing it a second time returns an empty nulling grammar and changes no rule.',
     'every grammar and word within the bounds: chains and cycles of nullable symbols, nulling next to nullable, empty alternatives',
     'the tests cover a few hand-written grammars; the elimination depends on the interplay of all rules',
     ['cfg-grammar/src/cfg.rs'],
     [('Cfg::binarize_and_eliminate_nulling_rules', 'cfg-grammar/src/cfg.rs'), ('Cfg::rhs_closure', 'cfg-grammar/src/cfg.rs')],
     ['Cfg::rules of both grammars'])
prop('C06', 'Closures over rules compute the least fixpoint',
     'The closure of a symbol set "for all" adds exactly the symbols of the least set closed under: if every right-hand side symbol of a non-empty rule is a member, so is its left-hand side; "for any" does so for rules with at least one member on the right. '
     'The closure with values gives every symbol the least value derivable from the given ones, where a rule is worth the sum of its right-hand side, and leaves symbols without a derivation unset.',
     'every grammar, seed set and small weights within the bounds',
     'the tests reach the closures through other features with a few grammars; a missed or premature propagation needs a particular rule order',
     ['cfg-grammar/src/cfg.rs', 'cfg-grammar/src/occurence_map.rs'],
     [('Cfg::rhs_closure', 'cfg-grammar/src/cfg.rs'), ('Cfg::rhs_closure_with_values', 'cfg-grammar/src/cfg.rs'), ('OccurenceMap::from_rules', 'cfg-grammar/src/occurence_map.rs')],
     ['the set or values passed in'])
prop('C07', 'FIRST and LAST sets are exact',
     'The FIRST set of every nonterminal holds exactly the terminals with which a string derived from it can begin, and records exactly whether it derives the empty string; the LAST set the same for ends. '
     'The FIRST set of a string of symbols looks past exactly its nullable prefix and records emptiness iff every symbol is nullable.',
     'every grammar within the bounds, with nullable, recursive and unused symbols; every string of up to three symbols',
     'the tests check one grammar; missing a nullable prefix or stopping the fixpoint early needs particular shapes',
     ['cfg-predict-sets/src/first.rs', 'cfg-predict-sets/src/last.rs', 'cfg-predict-sets/src/sets.rs'],
     [('FirstSets::new and first_set_for_string', 'cfg-predict-sets/src/first.rs'), ('LastSets::new', 'cfg-predict-sets/src/last.rs')],
     ['PredictSets::predict_sets'])
prop('C08', 'FOLLOW sets are exact',
     'The FOLLOW set of every nonterminal holds exactly the terminals that the FOLLOW equations put there: what can begin the rest of a rule after an occurrence, and what follows the left-hand side when that rest is nullable. '
     'It records the end of input exactly for symbols that the equations reach from a root.',
     'every grammar and root within the bounds',
     'one grammar is tested; propagation through right-recursive and nullable tails needs particular rules',
     ['cfg-predict-sets/src/follow.rs', 'cfg-predict-sets/src/first.rs'],
     [('FollowSets::new', 'cfg-predict-sets/src/follow.rs')],
     ['PredictSets::predict_sets'])
prop('C09', 'LL(1) classification reports exactly the conflicting nonterminals',
     'A nonterminal is classified as context-free exactly when two of its rules are selected by the same lookahead (a terminal, or the end of input), or when it derives through a rule that mentions such a nonterminal; otherwise it is classified as LL(1). '
     'Every nonterminal with a selectable rule gets a class.',
     'every grammar and root within the bounds',
     'two grammars are tested; a missed conflict needs overlapping FIRST/FOLLOW sets',
     ['cfg-classify/src/ll.rs', 'cfg-predict-sets/src/follow.rs', 'cfg-predict-sets/src/first.rs'],
     [('LlParseTable::new and classify', 'cfg-classify/src/ll.rs')],
     ['LlClassification::classes'])
prop('C10', 'The LR(0) automaton has exactly the reachable item sets',
     'State 0 is the closure of the augmented start rule; from every state there is a link for exactly the terminals after a dot in it, leading to the state that is the closure of the advanced items. '
     'No two states are equal, every state is reachable, and every item is a rule of the grammar with a dot inside it. '
     'Stated for grammars in which no item set would contain one rule with two different dots.',
     'every grammar and start symbol within the bounds',
     'one grammar is tested; state identity and closure depend on the whole grammar',
     ['cfg-classify/src/lr.rs'],
     [('Lr0ClosureBuilder::closure and advance', 'cfg-classify/src/lr.rs'), ('Lr0FsmBuilder::make_lr0_fsm', 'cfg-classify/src/lr.rs')],
     ['Lr0Node items and link'])
prop('C11', 'Unit cycles are found exactly and rewritten without changing the language',
     'A grammar is reported free of cycles exactly when no symbol derives itself through unit rules other than self-loops, and the rules reported as participating are exactly the unit rules on such a cycle; removing cycles removes exactly them. '
     'Rewriting cycles leaves a grammar free of cycles in which the (translated) roots, wrapped ones too, derive the same terminal strings as before, and so does every symbol that still has rules.',
     'every grammar, root and word within the bounds',
     'the tests have a few fixed cycles; overlapping cycles and cycles through several rules of one symbol are not covered',
     ['cfg-classify/src/cyclical.rs', 'cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs'],
     [('Cycles::cycle_free, classify, remove_cycles, rewrite_cycles', 'cfg-classify/src/cyclical.rs')],
     ['Cfg::rules', 'Cfg::roots'])
prop('C12', 'Usefulness is decided exactly and making a grammar proper keeps its language',
     'Every symbol is reported productive exactly when it derives a terminal string, every rule productive exactly when all its symbols are, and reachable exactly when its left-hand side can be reached from a root; the useless rules reported are exactly the others. '
     'Making a grammar proper keeps, in order, exactly the productive rules reachable from the roots through productive rules, so the roots derive the same strings; it reports whether there was nothing to remove, and a second time there is nothing to remove.',
     'every grammar, roots and word within the bounds',
     'a few grammars are tested; rules reachable only through unproductive rules are not',
     ['cfg-classify/src/useful.rs'],
     [('Usefulness::new, useless_rules', 'cfg-classify/src/useful.rs'), ('make_proper', 'cfg-classify/src/lib.rs')],
     ['Usefulness queries', 'Cfg::rules'])
prop('C13', 'Recursive rules are found and classified exactly',
     'The recursive rules of a grammar are exactly those with a right-hand side symbol that derives, in one or more steps, a string containing the left-hand side; they are reported in rule order. '
     'Each is reported as left, right or middle recursive exactly according to which positions (first, last, any between) such symbols have.',
     'every grammar within the bounds',
     'the tests have three small grammars; indirect recursion through several rules at each position is not covered',
     ['cfg-classify/src/recursive.rs', 'cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs'],
     [('Recursion::recursive_rules', 'cfg-classify/src/recursive.rs')],
     ['RecursiveRule'])
prop('C14', 'Derivation matrices are exact',
     'The direct derivation matrix relates a symbol to exactly the symbols in its right-hand sides; the reachability matrix to exactly the symbols it derives in one or more steps, and its reflexive version to itself too; the unit derivation matrix to exactly those reached by unit rules other than self-loops. '
     'Each matrix is square over all symbols, iterating over a row gives exactly its members, and a matrix of bits becomes one over symbols, unchanged, exactly when it is square.',
     'every grammar within the bounds',
     'no test reads a matrix; other features use them on small grammars',
     ['cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs', 'cfg-symbol-bit-matrix/src/lib.rs'],
     [('DirectDerivationMatrix, ReachabilityMatrix, UnitDerivationMatrix', 'cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs')],
     ['SymbolBitMatrix index and iter_row_syms'])
prop('C15', 'Reordering and removing symbols is a consistent renaming',
     'Reordering symbols by a comparison gives a permutation sorted by it: rules (as a multiset, with their histories), roots and wrapped roots in order, and symbol names are renamed by it, and the recorded mapping is exactly that permutation with its two halves inverse to each other; after several reorderings it is their combination. '
     'Removing unused symbols leaves exactly the used symbols, numbered densely from 0, renamed consistently as the mapping says, and generation of symbols continues after them. '
     'Translating a mapping by another gives their combination in both directions.',
     'every grammar, roots, wrapping and order within the bounds; all pairs of small mappings',
     'one test removes unused symbols from one grammar; a mapping that is wrong for some permutation, such as one that is not its own inverse, is not covered',
     ['cfg-symbol-bit-matrix/src/remap_symbols.rs', 'cfg-symbol/src/intern.rs', 'cfg-symbol/src/source.rs'],
     [('Remap::reorder_symbols, remap_symbols, remove_unused_symbols', 'cfg-symbol-bit-matrix/src/remap_symbols.rs'), ('Mapping::translate', 'cfg-symbol/src/intern.rs'), ('SymbolSource::remap_symbols and truncate', 'cfg-symbol/src/source.rs')],
     ['Cfg::rules, roots, wrapped_roots', 'Remap::get_mapping', 'SymbolSource::original_name_of'])
prop('C16', 'Sequence rules derive exactly the stated repetitions',
     'A sequence with minimum and (optional) maximum count, defined for a left-hand side without other rules, makes it derive exactly the strings of at least the minimum and at most the maximum number of items with the stated separation: none, between items, after every item, or between items with an optional last one; zero items is the empty string. '
     'This holds for all counts up to the largest 32-bit number, with several sequences in one grammar (the separator is reset for each), and under a length limit. '
     'Builder ranges of every form (inclusive, exclusive, open) mean the counts they contain.',
     'every count, separation and word within the bounds, counts next to powers of two up to 2^32, all ranges',
     'the tests compare the produced rules for a few counts; the halving of ranges is different for every count',
     ['cfg-sequence/src/rewrite.rs', 'cfg-sequence/src/builder.rs', 'cfg-sequence/src/lib.rs', 'cfg-sequence/src/ext.rs', 'cfg-sequence/src/destination.rs'],
     [('SequencesToProductions::rewrite and reduce', 'cfg-sequence/src/rewrite.rs'), ('SequenceRuleBuilder::range and rhs_with_history', 'cfg-sequence/src/builder.rs'), ('Sequence::range', 'cfg-sequence/src/lib.rs')],
     ['Cfg::rules', 'Sequence fields'])
prop('C17', 'Precedenced rules become the layered grammar of the declared levels',
     'A precedenced rule gives each level of precedence a fresh symbol, from tightest to loosest, linked by one unit rule per level and one from the left-hand side to the loosest; every alternative belongs to its level. '
     'In an alternative, the outermost occurrence of the left-hand side on the associative side (leftmost by default, rightmost if declared right) stays on its level, the others move to the next tighter level (the same one on the tightest), and a group alternative takes the loosest level everywhere; an associativity holds for exactly the next alternative, and other symbols are untouched. '
     'So an expression of binary operators has exactly one parse, in which looser operators are applied last and equal ones are grouped by their associativity.',
     'every history of up to five builder calls with any alternatives; every expression of nine symbols over three levels of operators',
     'the tests have three fixed tables of operators; associativity and level interact over the whole sequence of calls',
     ['cfg-grammar/src/precedenced_rule.rs', 'cfg-grammar/src/rule_builder.rs'],
     [('PrecedencedRuleBuilder::rhs_with_history, lower_precedence, finalize', 'cfg-grammar/src/precedenced_rule.rs')],
     ['Cfg::rules'], ('histories', 'inputs'))
prop('C18', 'Whole-grammar operations do what they say and nothing else',
     'Reversal makes every symbol derive exactly the reversed strings and undoes itself; sorting gives a sorted permutation (stable for a given comparison), removing consecutive duplicates removes exactly the rules equal to their predecessor, and comparison is true exactly for equal lists of rules. '
     'Wrapping the input gives each root, in order, three fresh symbols and a new root that derives exactly start, a string of the inner root, end, and leaves the other rules alone; a grammar with nothing but the wrapping still counts as empty. '
     'A column lists for each rule in order the symbols before and after the dot, and the text of a grammar lists each rule in order with its symbols, their names and numbers.',
     'every grammar, root and word within the bounds',
     'the tests use a few grammars for each operation, and none for most',
     ['cfg-grammar/src/cfg.rs', 'cfg-grammar/src/compare.rs'],
     [('Cfg::reverse, sort, dedup, wrap_input, is_empty, column, stringify_to_bnf', 'cfg-grammar/src/cfg.rs'), ('Cfg::equivalent', 'cfg-grammar/src/compare.rs')],
     ['Cfg::rules', 'Cfg::wrapped_roots'])
prop('C19', 'Minimal distances are the least numbers of terminals to the given dots',
     'For a grammar whose symbols are all productive, the forward distance of a dot in a rule is the least number of terminals between it and one of the given dots, going through the rest of the rule, into (possibly several levels of) rules of a symbol, or past the end of the rule to wherever its left-hand side occurs; there is no distance exactly when no given dot can be reached. '
     'The backward distance is the same in the reversed grammar, and the symmetric one the lesser of both; none depends on the order of rules or on what was asked before. '
     'Recursive rules with distances are the recursive rules with the symmetric distances of their first and last dots to the dots before recursive symbols.',
     'every grammar and choice of dots within the bounds, in all three directions',
     'one grammar with one dot is tested; shortest paths through later rules need several passes',
     ['cfg-predict-distance/src/lib.rs', 'cfg-classify/src/recursive.rs', 'cfg-grammar/src/cfg.rs'],
     [('MinimalDistance::minimal_distances', 'cfg-predict-distance/src/lib.rs'), ('Recursion::minimal_distances', 'cfg-classify/src/recursive.rs')],
     ['MinimalDistance::distances', 'RecursiveRule::distances'])
prop('C20', 'Rule histories follow every rule through transformations',
     'A history attached to a right-hand side belongs to that rule alone and stays unchanged when the rule is copied, reversed, sorted, limited without being split or carried to another grammar; when binarization splits a rule, the rule with the original left-hand side keeps the original rule number and the helper rules have none, the middle dots of the helpers are different positions in the rule, and all parts keep weight, nulling and sequence information. '
     'After nulling elimination every rule whose history names an eliminated symbol and its side gives the rule it came from when the symbol is put back there, and carries that rule\'s number. '
     'Alternatives of precedenced rules keep their histories while the rules between levels have none, and every production of a sequence records the item, the separator, and whether it is outermost.',
     'every history of a rule (all origins, weights, dots), every rule, limit, grammar and sequence within the bounds',
     'no test looks at histories except one that prints them; a parser uses them to find its way back to the user\'s rules',
     ['cfg-history/src/earley/mod.rs', 'cfg-history/src/lib.rs', 'cfg-grammar/src/cfg.rs', 'cfg-grammar/src/rule_builder.rs', 'cfg-grammar/src/precedenced_rule.rs', 'cfg-sequence/src/rewrite.rs', 'cfg-sequence/src/builder.rs'],
     [('process_linked', 'cfg-history/src/earley/mod.rs'), ('Cfg::add_rule', 'cfg-grammar/src/cfg.rs'), ('Cfg::binarize_and_eliminate_nulling_rules', 'cfg-grammar/src/cfg.rs')],
     ['CfgRule::history'])
prop('C21', 'Loading BNF text gives the grammar it describes or an error',
     'Loading any text never panics: texts of rules `name ::= alternatives ;` give a grammar with one symbol per name, the first left-hand side as root, alternatives numbered as written, in which every name derives what the text says (* for any number, + for at least one, () for nothing), and every other text is an error. '
     'A character that starts no token is reported with its line and column. '
     'The text written for a grammar loads as the same rules over the same names, in the same order.',
     'every text of three characters after several beginnings, every sequence of up to seven tokens, every grammar within the bounds',
     'the tests load a handful of valid texts; none loads a malformed one or goes there and back',
     ['cfg-load/src/basic.rs', 'cfg-load/src/string_interner.rs', 'cfg-load/src/lib.rs'],
     [('Cfg::load', 'cfg-load/src/basic.rs'), ('Lexer', 'cfg-load/src/basic.rs'), ('Cfg::to_bnf', 'cfg-load/src/basic.rs')],
     ['Cfg::load', 'LoadError', 'Cfg::rules'])
prop('C22', 'The lexer map finds exactly the classes of a character',
     'After computing a lexer map (again), looking up any character gives the symbols of exactly those classes that contain it, each once, in whatever way the classes overlap or touch, for classes of several ranges, of bytes, and of single characters, up to the last character. '
     'A literal belongs to its own character only.',
     'every set of one to three classes with ends at characters around every boundary of the map, and every character',
     'the tests look up seven characters of one map',
     ['cfg-regexp-logic/src/lib.rs'],
     [('LexerMap::compute', 'cfg-regexp-logic/src/lib.rs'), ('LexerMap::get', 'cfg-regexp-logic/src/lib.rs'), ('From<char> for LexerClasses', 'cfg-regexp-logic/src/lib.rs')],
     ['LexerMap::get'])
prop('C23', 'A regular expression becomes a grammar of the same language',
     'The grammar made from a regular expression without look-around has one root, derives from it exactly the words the expression matches as a whole when each terminal stands for its character class, and its terminals are the classes of the returned lexer map, one symbol for each class. '
     'Text that is no regular expression is an error.',
     'every expression of up to three operators over the given atoms and repetitions, and every word of up to four letters',
     'the test counts the rules of one expression and looks at no word',
     ['cfg-regexp-logic/src/lib.rs', 'cfg-regexp-logic/src/ext.rs', 'cfg-sequence/src/rewrite.rs'],
     [('Translator::walk_hir', 'cfg-regexp-logic/src/lib.rs'), ('Translator::cfg_from_hir', 'cfg-regexp-logic/src/lib.rs')],
     ['Cfg::from_regexp'])
prop('C24', 'Random generation yields words of the language, within its limits',
     'Whatever numbers are drawn, generation from a symbol gives the word of the leftmost derivation in which every draw picks the rule whose share of the weights holds the number (a rule without weight counts as one, a rule of weight zero is never picked by a number inside a share), with the characters of its terminals in order; more terminals than the limit are an error, never a longer or cut word. '
     'With negative rules the word is derived with no negative symbol standing right before its forbidden text, and more attempts at one place than the limit are an error. '
     'The same bytes give the same word.',
     'every grammar, weight and sequence of up to four draws within the bounds',
     'the tests compare two outputs for fixed seeds; backtracking over several states and the ends of the draw intervals are not reached',
     ['cfg-generate/src/weighted/random.rs', 'cfg-generate/src/weighted/weighted_rhs_by_lhs.rs'],
     [('Random::random', 'cfg-generate/src/weighted/random.rs'), ('WeightedRhsByLhs::pick_rhs', 'cfg-generate/src/weighted/weighted_rhs_by_lhs.rs')],
     ['Random::random'], ('inputs', 'histories'))
prop('C25', 'Loading rich BNF text gives the grammar, lexer and actions it describes',
     'Loading any text with the advanced loader (regular expressions with look-around aside) never panics: rules and lexer blocks, in any order and number, give a grammar with one symbol per name and per distinct string (__lex0, __lex1 and so on), the first rule outside lexer blocks giving the root, in which every name derives exactly what the text says of items joined by ~, alternatives, * and +, strings with backslash escapes, and regular expressions, over the characters of the lexer map. '
     'The lexemes are exactly the strings and the left-hand sides in lexer blocks, and rules are numbered from 1 (those of lexer blocks last) with exactly the stated actions. '
     'Every other text, a left-hand side both inside and outside lexer blocks, an unknown function and a malformed regular expression are errors, with line and column of the first offending character or token.',
     'every text of three characters after several beginnings, every sequence of up to eight tokens, every text of the given shapes, every word',
     'the tests load three valid texts and count rules; none loads a malformed text, a lexer block first, or two of them',
     ['cfg-load/src/advanced.rs', 'cfg-load/src/string_interner.rs', 'cfg-regexp-logic/src/lib.rs', 'cfg-symbol-bit-matrix/src/remap_symbols.rs'],
     [('Cfg::load_advanced', 'cfg-load/src/advanced.rs'), ('Lexer', 'cfg-load/src/advanced.rs'), ('Evaluator::product', 'cfg-load/src/advanced.rs')],
     ['AdvancedGrammar', 'LoadError'])
prop('C26', 'Transformations can be combined in any order',
     'Applying transformations one after the other (limiting the length of rules, binarization with nulling elimination, rewriting unit cycles, making proper, sorting with removal of duplicates, reversal, wrapping, reordering and removing symbols, moving the rules to another grammar over the same symbols), in any order and with repetitions, leaves exactly one root for one root, and that root derives exactly the non-empty words it derived before, renamed, reversed and wrapped as the transformations say. '
     'What one of them establishes (no rule longer than the limit, no empty rules, no unit cycles until nulling rules are eliminated again) still holds after the others, and no rule names a symbol outside the grammar.',
     'every pair and triple of ten transformations on every grammar within the bounds, all words of length one or two',
     'the tests apply one transformation to one grammar; only a combination shows a root, a limit or a wrapped root that one transformation forgets to carry over',
     ['cfg-grammar/src/cfg.rs', 'cfg-classify/src/cyclical.rs', 'cfg-classify/src/useful.rs', 'cfg-symbol-bit-matrix/src/remap_symbols.rs'],
     [('Cfg::binarize_and_eliminate_nulling_rules, wrap_input, extend, add_rule', 'cfg-grammar/src/cfg.rs'), ('Cycles::rewrite_cycles', 'cfg-classify/src/cyclical.rs'), ('make_proper', 'cfg-classify/src/lib.rs'), ('Remap', 'cfg-symbol-bit-matrix/src/remap_symbols.rs')],
     ['Cfg::rules', 'Cfg::roots'])

NOTES = {
    'default': 'Holds for every input within the bounds of the completed stages (stated in spec.py and the evidence); nothing is claimed beyond them. Trusts rustc/LLVM up to the bitcode, the executor in symex/ (cross-checked against native runs of sampled paths in every run) and Z3.',
}
NA = []


def main():
    P.sort(key=lambda p: p['id'])
    claimed = [p for p in P if p['id'] in spec.STAGES]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['id'] in spec.STAGES or p['id'] in [n['property'] for n in NA]:
                assert len(p['title']) <= 80, p['id']
                assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
                f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=NA,
             notes='Checks build the executor and the harness for their property from /verif and /repo, see DESIGN.md. No hooks in /repo.')
    for p in claimed:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                                evidence_file='evidence/%s.json' % p['id'],
                                technique='symbolic execution of the compiled code (LLVM bitcode) with Z3, bounded', level='model_checking',
                                level_note=NOTES.get(p['id'], NOTES['default'])))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
