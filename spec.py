"""Stages of every check: entry of the harness, its parameters (the bounds), and time limits in seconds per tier."""

ASSUMPTIONS = [
    'the bitcode is what rustc 1.88 emits for the harness and /repo with optimisation, fat LTO, overflow checks and panic=abort; a panic is a violation',
    'heap, memcpy and friends are modelled by the executor; allocation succeeds',
    'hash maps are seeded with fixed keys (the kernel entropy source is stubbed); the native replays use real random keys',
    'Z3 is trusted for unsat answers; branch conditions over at most 8 variables with at most 64 values each may be refuted by the executor without Z3, assertions never',
    'nothing is claimed beyond the bounds of each completed stage',
]
EXTRA = {}


def S(entry, params, bounds, quick=0, thorough=0, covers=(), **kw):
    return dict(entry=entry, params=params, bounds=bounds, quick=quick, thorough=thorough or quick, covers=list(covers), **kw)


GRAM = '%d symbols, LHS %s, %d rules with %d to %d RHS symbols'


def gram(ns, nl, r, lo, hi):
    return GRAM % (ns, 'any of the first %d' % nl if nl < 10 else 'of rule i is i mod %d' % (nl - 10), r, lo, hi)


def GS(entry, params, more='', **kw):
    """stage of a harness whose first five parameters describe the symbolic grammar"""
    return S(entry, params, gram(*params[:5]) + (', ' + more if more else ''), **kw)


def WS(entry, params, shapes, offset, more='', **kw):
    """stage of larger grammars: the LHS and length of every rule come from one of a number of fixed shapes, every RHS position is one of two symbols"""
    p = list(params) + [0] * (8 - len(params)) + [shapes, offset]
    ns, nl, r, lo, hi = params[:5]
    b = '%d shapes of %d rules over %d symbols with %d to %d RHS symbols, each of which is one of two' % (shapes, r, ns, lo, hi)
    if offset:
        b += ', symbols numbered from %d' % offset
    return S(entry, p, b + (', ' + more if more else ''), **kw)


def CS(entry, params, shapes, offset=0, more='', **kw):
    """stage of chains: one rule for each of the first symbols, which mentions the next one"""
    p = list(params) + [0] * (8 - len(params)) + [1000 + shapes, offset]
    ns, nl, r, lo, hi = params[:5]
    b = '%d chains of %d rules, each mentioning the next LHS, over %d symbols with %d to %d RHS symbols, the others one of two' % (shapes, r, ns, lo, hi)
    if offset:
        b += ', symbols numbered from %d' % offset
    return S(entry, p, b + (', ' + more if more else ''), **kw)


STAGES = {
    'C01': [
        S('source_history', [4, 1, 0], 'histories of 4 operations with at most one truncation, one-letter names', quick=40, covers=[2]),
        S('source_history', [2, 1, 1], 'histories of 2 operations, name map', quick=40, covers=[1]),
        S('dense_u8', [254, 8], '254 symbols (all of 8 bits), truncation to the last 8 lengths', quick=30),
        S('dense_u16', [300, 8], '300 symbols of 16 bits', quick=30),
        S('dense_u32', [66000, 3], '66000 symbols of 32 bits', quick=40),
        S('symbol_order', [], 'all pairs of 32-bit symbols', quick=20),
        S('fresh_stream', [60], 'the first 60 symbols', quick=20),
        S('source_history', [5, 1, 0], 'histories of 5 operations with at most one truncation', thorough=300, covers=[2]),
        S('source_history', [3, 1, 1], 'histories of 3 operations, name map', thorough=300, covers=[1]),
    ],
    'C02': [
        S('symbol_u8', [], 'all 64-bit numbers', quick=20, covers=[1, 2]),
        S('symbol_u16', [], 'all 64-bit numbers', quick=20, covers=[1, 2]),
        S('symbol_u32', [], 'all 64-bit numbers', quick=20, covers=[1, 2]),
        S('symbol_negative', [], 'all negative numbers', quick=20),
        S('symbol_json', [10], '10 symbols from each of 13 numbers around powers of ten and of two', quick=60),
        S('name_json', [1], 'all ASCII names of 1 character', quick=30),
        S('mapping_json', [2, 2], '2 external and 2 internal symbols below 12', quick=30),
        S('set_json', [6], 'all sets of 6 symbols', quick=30),
        S('symbol_bin', [3], 'any four bytes at an offset up to 3', quick=20, covers=[1, 2, 3]),
        S('ids', [0], '4 numbers from each of 11 numbers around powers of ten and the largest', quick=30),
        S('ids', [1], 'all 32-bit numbers', quick=20),
        S('name_json', [2], 'all ASCII names of 2 characters', thorough=200),
        S('mapping_json', [3, 2], '3 external and 2 internal symbols below 12', thorough=200),
    ],
    'C03': [
        GS('sets', [4, 2, 2, 0, 2], 'any previous set', quick=30, covers=[1]),
        GS('sets', [4, 2, 3, 0, 3], 'any previous set', quick=60, covers=[1]),
        S('set_ops', [5], 'all pairs of sets of 5 symbols', quick=30),
        WS('sets', [6, 4, 8, 0, 3], 16, 31, 'any previous set', quick=40, covers=[1]),
        S('set_ops', [5, 0, 0, 0, 0, 0, 0, 0, 0, 31], 'all pairs of sets of the last 5 of 36 symbols', quick=30),
        WS('sets', [7, 4, 12, 0, 4], 60, 63, 'any previous set', thorough=200, covers=[1]),
        WS('sets', [6, 3, 4, 0, 6], 8, 60, 'any previous set', quick=30, covers=[1]),
    ],
    'C04': [
        GS('limit_history', [4, 2, 2, 0, 4, 3], 'limits 2, 3 or none before each addition, by add_rule or extend, words of 3', quick=40, covers=[1]),
        S('split', [4, 9, 5], 'one rule of 0 to 9 RHS symbols, limit 2 to 5', quick=30, covers=[1]),
        GS('limit', [4, 2, 2, 3, 5, 3, 4], 'limit 3, words of 4', quick=30, covers=[1]),
        GS('limit', [4, 2, 2, 0, 4, 2, 3], 'limit 2, words of 3', quick=30, covers=[1]),
        WS('limit', [6, 4, 7, 2, 7, 3, 4], 40, 31, 'limit 3, words of 4', quick=40, covers=[1]),
        WS('limit_history', [5, 3, 4, 0, 5, 3], 3, 31, 'limits 2, 3 or none before each addition, words of 3', quick=50, covers=[1]),
        WS('limit', [6, 4, 9, 0, 9, 2, 4], 100, 0, 'limit 2, words of 4', thorough=200, covers=[1]),
    ],
    'C05': [
        GS('nulling', [4, 2, 2, 0, 2, 2], 'words of 1 and 2', quick=30, covers=[1, 2, 3]),
        GS('nulling', [3, 12, 4, 0, 2, 2], 'words of 1 and 2', quick=60, covers=[1, 2, 3]),
        GS('nulling', [5, 13, 3, 0, 2, 2], 'words of 1 and 2', quick=60, covers=[1, 2, 3]),
        GS('nulling', [3, 11, 2, 0, 4, 2], 'words of 1 and 2', quick=40, covers=[1, 2, 3]),
        GS('nulling', [4, 12, 4, 0, 2, 1], 'words of 1', thorough=300, covers=[1, 2]),
        GS('nulling', [4, 2, 3, 0, 2, 2], 'words of 1 and 2', thorough=300, covers=[1, 2, 3]),
        WS('nulling', [5, 3, 6, 0, 2, 2], 16, 31, 'words of 1 and 2', quick=50, covers=[1, 2, 3]),
        WS('nulling', [6, 4, 7, 0, 2, 3], 12, 0, 'words of 1 to 3', thorough=200, covers=[1, 2, 3]),
        WS('nulling', [6, 4, 7, 0, 4, 2], 8, 0, 'words of 1 and 2', thorough=300, covers=[1, 2, 3]),
        WS('nulling', [5, 2, 3, 0, 5, 2], 3, 0, 'words of 1 and 2', quick=30, covers=[1, 2, 3]),
        CS('nulling', [9, 8, 8, 0, 2, 2], 12, 0, 'words of 1 and 2', quick=20, covers=[1]),
    ],
    'C06': [
        GS('closure', [4, 2, 2, 0, 2, 1], 'any seed set', quick=60, covers=[1, 2]),
        GS('closure', [4, 13, 4, 1, 1, 2], 'any seed set, asked twice', quick=40, covers=[1, 2]),
        GS('closure', [4, 13, 3, 1, 2, 1], 'any seed set', thorough=300, covers=[1, 2]),
        GS('closure_values', [4, 2, 2, 0, 2, 4], 'weights 0 to 3', quick=60, covers=[1]),
        GS('closure_values', [4, 13, 3, 0, 2, 3], 'weights 0 to 2', quick=60, covers=[1]),
        GS('closure_values', [5, 13, 3, 1, 2, 3], 'weights 0 to 2', thorough=300, covers=[1]),
        WS('closure_values', [6, 4, 6, 0, 2, 3], 8, 31, 'weights 0 to 2', quick=50, covers=[1]),
        WS('closure', [5, 14, 5, 1, 2, 1], 2, 31, 'any seed set', quick=40, covers=[1, 2]),
        WS('closure_values', [6, 4, 7, 0, 3, 3], 24, 31, 'weights 0 to 2', thorough=300, covers=[1]),
        WS('closure_values', [5, 3, 3, 2, 4, 2], 1, 62, 'weights 0 and 1', quick=30, covers=[1]),
        WS('closure', [5, 3, 3, 2, 4, 1], 1, 62, 'any seed set', quick=40, covers=[1, 2]),
        CS('closure', [7, 5, 5, 1, 2, 1], 3, 0, 'any seed set', quick=40, covers=[1, 2]),
        CS('closure_values', [9, 7, 7, 1, 2, 3], 9, 0, 'weights 0 to 2', quick=30, covers=[1]),
    ],
    'C07': [
        GS('first', [5, 13, 3, 0, 2], quick=30, covers=[1]),
        GS('first', [6, 14, 4, 1, 2], quick=40),
        GS('first', [4, 2, 3, 0, 2], quick=40, covers=[1]),
        GS('last', [4, 2, 2, 0, 2], quick=30, covers=[1]),
        GS('first_string', [4, 2, 2, 0, 2, 3], 'strings of 3', quick=30),
        WS('first', [6, 4, 8, 0, 3], 16, 31, quick=50, covers=[1]),
        WS('last', [6, 4, 8, 0, 3], 8, 31, quick=40, covers=[1]),
        WS('first_string', [6, 3, 6, 0, 2, 3], 16, 31, 'strings of 3', quick=40),
        WS('first', [7, 5, 10, 0, 3], 30, 31, thorough=200, covers=[1]),
        WS('first', [6, 3, 5, 0, 6], 16, 62, quick=30, covers=[1, 2]),
        WS('last', [6, 3, 5, 0, 6], 12, 62, quick=30, covers=[1, 2]),
        CS('first', [14, 12, 12, 0, 2], 15, quick=20, covers=[1]),
        CS('first', [12, 10, 10, 1, 2], 15, 62, quick=20),
        CS('last', [14, 12, 12, 0, 2], 15, quick=20, covers=[1]),
    ],
    'C08': [
        GS('follow_sets', [4, 2, 2, 0, 2, 1], '1 root', quick=40),
        GS('follow_sets', [6, 14, 4, 1, 1, 1], '1 root', quick=40),
        GS('follow_sets', [5, 13, 3, 0, 2, 1], '1 root', quick=90),
        WS('follow_sets', [6, 3, 6, 0, 2, 1], 8, 31, '1 root', quick=50),
        WS('follow_sets', [6, 4, 8, 0, 3, 1], 8, 31, '1 root', thorough=300),
        WS('follow_sets', [6, 3, 3, 0, 6, 1], 3, 62, '1 root', quick=40, covers=[1, 2]),
        CS('follow_sets', [11, 9, 9, 0, 2, 1], 9, 0, '1 root', quick=30, covers=[1, 2]),
        CS('follow_sets', [9, 7, 7, 1, 2, 1], 12, 62, '1 root', quick=20, covers=[1, 2]),
    ],
    'C09': [
        GS('ll', [4, 2, 2, 0, 2, 1], '1 root', quick=40),
        GS('ll', [4, 12, 3, 0, 2, 1], '1 root', quick=60),
        GS('ll', [4, 2, 3, 0, 2, 1], '1 root', thorough=300),
        GS('ll', [5, 13, 3, 0, 2, 1], '1 root', thorough=300),
        WS('ll', [6, 3, 6, 0, 2, 1], 16, 31, '1 root', quick=50),
        WS('ll', [6, 4, 7, 0, 3, 1], 12, 31, '1 root', thorough=300),
        WS('ll', [6, 3, 4, 0, 5, 1], 2, 62, '1 root', quick=40, covers=[1, 2]),
        CS('ll', [10, 8, 8, 0, 2, 1], 12, 0, '1 root', quick=40, covers=[2]),
    ],
    'C10': [
        GS('lr0', [4, 12, 3, 0, 2, 0, 1], quick=40),
        GS('lr0', [4, 2, 2, 0, 3, 0, 1], quick=60),
        GS('lr0', [5, 13, 3, 0, 2, 0, 1], quick=40),
        GS('lr0', [4, 2, 2, 0, 2, 0, 2], 'two automata by one builder', quick=40),
        GS('lr0', [5, 13, 4, 1, 2, 0, 1], thorough=300),
        WS('lr0', [6, 4, 7, 0, 3, 0, 1], 16, 31, quick=50),
        WS('lr0', [6, 4, 7, 0, 3, 0, 2], 16, 0, 'two automata by one builder', thorough=200),
        WS('lr0', [7, 4, 9, 0, 3, 0, 1], 30, 31, thorough=300),
        WS('lr0', [6, 2, 3, 2, 6, 0, 1], 8, 62, quick=40, covers=[1, 2]),
        CS('lr0', [9, 8, 8, 0, 2, 0, 1], 9, quick=20, covers=[1, 2]),
    ],
    'C11': [
        GS('cycle_find', [4, 13, 4, 1, 1], quick=30, covers=[1]),
        GS('cycle_find', [4, 3, 3, 1, 2], quick=40, covers=[1]),
        GS('cycle_rewrite', [4, 13, 4, 1, 2, 2], 'words of 2', quick=40, covers=[1]),
        GS('cycle_rewrite', [5, 14, 6, 1, 1, 1], 'words of 1', quick=60, covers=[1]),
        GS('cycle_find', [4, 14, 5, 1, 1], thorough=100, covers=[1]),
        WS('cycle_find', [6, 5, 8, 1, 2], 16, 31, quick=40, covers=[1]),
        WS('cycle_rewrite', [6, 4, 7, 1, 2, 2], 12, 31, 'words of 2', quick=50, covers=[1]),
        WS('cycle_rewrite', [7, 5, 9, 1, 2, 2], 16, 0, 'words of 2', thorough=300, covers=[1]),
        WS('cycle_find', [6, 3, 8, 1, 4], 40, 62, quick=30, covers=[1]),
        WS('cycle_rewrite', [5, 3, 7, 1, 4, 4], 20, 62, 'words of 4', quick=30, covers=[1]),
        CS('cycle_find', [12, 10, 10, 1, 1], 15, 62, quick=20, covers=[1]),
        CS('cycle_find', [12, 10, 10, 1, 2], 15, quick=20),
        CS('cycle_rewrite', [10, 8, 8, 1, 1, 1], 15, 0, 'words of 1', quick=20),
        CS('cycle_rewrite', [10, 8, 8, 1, 2, 2], 12, 62, 'words of 2', quick=20),
    ],
    'C12': [
        GS('useful', [4, 2, 2, 0, 2, 1], '1 root', quick=40, covers=[1, 2]),
        GS('useful', [4, 13, 4, 1, 1, 1], '1 root', quick=40, covers=[1, 2]),
        GS('useful', [5, 13, 3, 0, 2, 1], '1 root', thorough=300, covers=[1, 2]),
        GS('proper', [4, 2, 2, 0, 2, 1, 2], '1 root, words of 2', quick=40, covers=[1, 2]),
        GS('proper', [4, 13, 3, 0, 2, 1, 2], '1 root, words of 2', quick=60, covers=[1, 2]),
        GS('proper', [5, 13, 3, 0, 2, 1, 2], '1 root, words of 2', thorough=300, covers=[1, 2]),
        WS('useful', [5, 3, 4, 0, 2, 1], 6, 31, '1 root', quick=40, covers=[1, 2]),
        WS('proper', [5, 3, 5, 0, 2, 1, 2], 6, 31, '1 root, words of 2', quick=50, covers=[1, 2]),
        WS('proper', [6, 4, 7, 0, 3, 1, 2], 8, 0, '1 root, words of 2', thorough=300, covers=[1, 2]),
        WS('useful', [6, 4, 7, 0, 3, 1], 8, 0, '1 root', thorough=300, covers=[2]),
        WS('useful', [6, 3, 4, 0, 5, 1], 1, 62, '1 root', quick=30, covers=[1]),
        WS('proper', [6, 3, 4, 0, 4, 1, 3], 2, 62, '1 root, words of 3', quick=30, covers=[1, 2]),
        CS('useful', [9, 7, 7, 0, 2, 1], 6, 0, '1 root', quick=30, covers=[1, 2]),
        CS('proper', [10, 8, 8, 0, 2, 1, 2], 6, 0, '1 root, words of 2', quick=30, covers=[1, 2]),
        WS('useful', [5, 3, 2, 1, 2, 4], 3, 0, '4 roots', quick=60, covers=[1, 2]),
        WS('proper', [5, 3, 4, 1, 2, 4, 2], 3, 0, '4 roots, words of 2', quick=50, covers=[1, 2]),
    ],
    'C13': [
        GS('recursion', [4, 12, 3, 1, 3], quick=60),
        GS('recursion', [4, 12, 2, 1, 4], quick=30),
        GS('recursion', [4, 11, 1, 5, 5], quick=30),
        GS('recursion', [4, 2, 3, 1, 2], thorough=300),
        WS('recursion', [6, 4, 6, 0, 4], 8, 31, quick=50, covers=[1, 2]),
        WS('recursion', [7, 5, 8, 0, 5], 12, 0, thorough=300, covers=[1, 2]),
        CS('recursion', [10, 8, 8, 0, 3], 9, quick=20, covers=[1, 2]),
        WS('recursion', [5, 3, 3, 4, 9], 4, 0, quick=30, covers=[1, 2]),
    ],
    'C14': [
        GS('matrix', [4, 2, 2, 0, 2, 0], 'direct derivation', quick=30),
        GS('matrix', [4, 2, 2, 0, 2, 1], 'transitive closure', quick=30),
        GS('matrix', [4, 3, 3, 0, 2, 2], 'unit derivations', quick=30),
        GS('matrix', [4, 2, 2, 0, 2, 3], 'reflexive closure', quick=30),
        GS('matrix', [5, 14, 5, 1, 1, 1], 'transitive closure', quick=30),
        S('square', [3], 'all matrices of up to 3 rows and columns', quick=20, covers=[1]),
        GS('matrix', [4, 3, 3, 0, 2, 1], 'transitive closure', thorough=300),
        WS('matrix', [6, 4, 7, 0, 3, 0], 8, 31, 'direct derivation', quick=40),
        WS('matrix', [6, 4, 7, 0, 3, 1], 12, 31, 'transitive closure', quick=50),
        WS('matrix', [6, 4, 7, 1, 2, 2], 16, 31, 'unit derivations', quick=30),
        WS('matrix', [6, 4, 7, 0, 3, 3], 8, 31, 'reflexive closure', quick=40),
        WS('matrix', [7, 5, 9, 0, 3, 1], 30, 31, 'transitive closure', thorough=300),
        WS('matrix', [6, 4, 3, 3, 6, 1], 4, 62, 'transitive closure', quick=30, covers=[1]),
        CS('matrix', [9, 7, 7, 0, 3, 1], 6, 62, 'transitive closure', quick=30),
        CS('matrix', [10, 8, 8, 1, 2, 2], 15, 62, 'unit derivations', quick=20),
    ],
    'C15': [
        GS('reorder', [4, 2, 2, 0, 2, 1, 0, 1], '1 root, any order', quick=30, covers=[1]),
        GS('reorder', [4, 2, 2, 0, 3, 2, 1, 1], '2 roots, wrapped, any order', quick=40, covers=[1]),
        GS('reorder', [3, 2, 2, 0, 2, 1, 1, 2], '1 root, wrapped, any two orders one after the other', quick=60, covers=[1]),
        GS('remove_unused', [4, 2, 2, 0, 3, 0, 0], 'no roots', quick=40, covers=[1]),
        GS('remove_unused', [4, 2, 2, 0, 3, 2, 1], '2 wrapped roots, after a reordering', quick=40, covers=[1]),
        S('remap_many', [70], '70 named symbols in a chain of rules, one of 8 orders, one of 8 symbols unused', quick=20, covers=[1]),
        S('translate', [4, 4, 4], 'all pairs of mappings of 4 symbols', quick=40),
        GS('remove_unused', [5, 3, 3, 0, 2, 0, 1], 'after a reordering', thorough=300, covers=[1]),
        GS('reorder', [4, 2, 2, 0, 3, 2, 1, 2], '2 roots, wrapped, any two orders one after the other', thorough=300, covers=[1]),
        WS('reorder', [6, 4, 6, 0, 3, 2, 1, 1], 2, 0, '2 roots, wrapped, any order', quick=40, covers=[1]),
        WS('remove_unused', [7, 4, 6, 0, 3, 1, 1], 16, 0, '1 wrapped root, after a reordering', quick=40, covers=[1]),
        WS('remove_unused', [8, 4, 7, 0, 3, 2, 1], 60, 0, '2 wrapped roots, after a reordering', thorough=200, covers=[1]),
        WS('reorder', [5, 3, 3, 3, 6, 1, 0, 1], 2, 0, '1 root, any order', quick=20, covers=[1]),
        WS('remove_unused', [8, 3, 3, 3, 6, 1], 6, 0, '1 wrapped root', quick=30, covers=[1]),
    ],
    'C16': [
        S('sequences', [5, 9, 0, 0], 'counts 0 to 5 or unbounded, every separator, words of 0 to 9', quick=60, covers=[1]),
        S('sequences', [4, 8, 1, 2], 'two sequences by one builder, counts 0 to 4, length limit 2, words of 0 to 8', quick=60, covers=[1]),
        S('sequences', [3, 7, 2, 0], 'two sequences from a list, counts 0 to 3, words of 0 to 7', quick=40, covers=[1]),
        S('large', [2], 'counts 0 to 2 and within 2 of 4 and 8, all words', quick=20, covers=[1]),
        S('large', [3], 'counts 0 to 2 and within 2 of 8 and 16, all words', quick=20, covers=[1]),
        S('large', [5], 'counts 0 to 2 and within 2 of 32 and 64, all words', quick=20, covers=[1]),
        S('large', [31], 'counts 0 to 2 and within 2 of 2^31 and 2^32, all words', quick=30, covers=[1]),
        S('ranges', [0], 'all non-empty ranges of 32-bit counts', quick=20),
        S('sequences', [8, 17, 0, 0], 'counts 0 to 8 or unbounded, every separator, words of 0 to 17', thorough=400, covers=[1]),
        S('large', [16], 'counts 0 to 2 and within 2 of 2^16 and 2^17, all words', thorough=30, covers=[1]),
        S('large', [30], 'counts 0 to 2 and within 2 of 2^30 and 2^31, all words', thorough=30, covers=[1]),
    ],
    'C17': [
        S('precedence', [3, 3, 0], '3 builder calls, RHS of up to 3 symbols of 4', quick=40, covers=[1]),
        S('precedence', [4, 2, 0], '4 builder calls, RHS of up to 2 symbols of 4', quick=40, covers=[1]),
        S('precedence', [5, 1, 0], '5 builder calls, RHS of up to 1 symbol of 4', quick=40, covers=[1]),
        S('precedence', [2, 2, 2], '2 builder calls for each of two symbols, RHS of up to 2 symbols of 4', quick=40, covers=[1]),
        S('one_parse', [3, 9], 'binary operators on 3 levels of any associativity, all expressions of 9 symbols', quick=30, covers=[1]),
        S('one_parse', [4, 9], 'binary operators on 4 levels of any associativity, all expressions of 9 symbols', thorough=100, covers=[1]),
        S('precedence', [4, 3, 0], '4 builder calls, RHS of up to 3 symbols of 4', thorough=400, covers=[1]),
        S('levels', [8, 4], 'one alternative on each of 8 levels, one of which has any associativity and up to 4 symbols of 2', quick=20, covers=[1]),
    ],
    'C18': [
        GS('reversal', [4, 2, 2, 0, 3, 3], 'words of 3', quick=30, covers=[1]),
        GS('sorting', [3, 2, 3, 0, 2], quick=40, covers=[1]),
        GS('equivalence', [4, 2, 2, 0, 2], 'each of two grammars with at most that many rules', quick=30, covers=[1]),
        GS('wrapping', [4, 2, 2, 0, 2, 1, 0, 2], '1 root, words of 2', quick=30, covers=[1]),
        GS('wrapping', [4, 2, 1, 0, 2, 2, 2, 2], '2 roots, limit 2, words of 2', quick=30, covers=[1]),
        GS('wrapping', [4, 2, 0, 0, 2, 2, 2, 1], '2 roots, limit 2, words of 1', quick=20, covers=[1]),
        GS('wrapping', [4, 2, 0, 0, 2, 3, 0, 1], '3 roots, words of 1', quick=20, covers=[1]),
        GS('columns', [4, 2, 2, 0, 3], 'any subset retained', quick=30),
        GS('text', [4, 2, 2, 0, 2, 0], 'no names', quick=30),
        GS('text', [4, 2, 2, 0, 2, 1], 'one named symbol', quick=30),
        WS('reversal', [6, 4, 6, 0, 3, 4], 16, 31, 'words of 4', quick=40, covers=[1]),
        WS('sorting', [6, 4, 7, 0, 3], 24, 31, quick=40, covers=[1]),
        WS('equivalence', [5, 3, 3, 0, 2], 16, 31, 'each of two grammars', quick=40, covers=[1]),
        WS('wrapping', [6, 4, 7, 0, 3, 1, 0, 3], 24, 31, '1 root, words of 3', quick=40, covers=[1]),
        WS('columns', [6, 4, 7, 0, 4], 8, 31, 'any subset retained', quick=30),
        WS('text', [6, 4, 6, 0, 3, 1], 8, 0, 'one named symbol', quick=30),
        WS('text', [6, 4, 8, 0, 4, 1], 30, 0, 'one named symbol', thorough=300),
        WS('reversal', [6, 3, 5, 0, 6, 5], 12, 62, 'words of 5', quick=20, covers=[1]),
        WS('sorting', [6, 3, 4, 0, 6], 12, 62, quick=20),
        WS('wrapping', [6, 3, 4, 0, 6, 1, 3, 4], 8, 62, '1 root, limit 3, words of 4', quick=20, covers=[1]),
        WS('columns', [6, 3, 4, 0, 7], 3, 62, 'any subset retained', quick=20),
        WS('text', [5, 3, 4, 0, 3, 1], 4, 60, 'one named symbol', quick=20),
    ],
    'C19': [
        GS('distances', [3, 2, 2, 0, 2, 0, 1], 'forward, 1 dot', quick=40, covers=[1]),
        GS('distances', [3, 2, 2, 0, 2, 1, 1], 'backward, 1 dot', quick=40, covers=[1]),
        GS('distances', [3, 12, 3, 0, 2, 0, 1], 'forward, 1 dot', quick=60, covers=[1]),
        GS('distances', [3, 12, 2, 0, 2, 2, 2], 'both directions, 2 dots', quick=40, covers=[1]),
        GS('distances', [3, 12, 2, 0, 2, 2, 1, 1], 'both directions, 1 dot, after asking for another one', quick=50, covers=[1]),
        GS('distances', [3, 11, 3, 0, 2, 0, 1, 1], 'forward, 1 dot, after asking for another one', thorough=200, covers=[1]),
        GS('recursive_distances', [4, 2, 2, 0, 2], quick=40, covers=[1]),
        GS('recursive_distances', [4, 12, 2, 1, 3], quick=30),
        GS('distances', [4, 13, 3, 0, 2, 0, 1], 'forward, 1 dot', thorough=300, covers=[1]),
        GS('distances', [3, 12, 3, 0, 2, 1, 1], 'backward, 1 dot', thorough=200, covers=[1]),
        GS('recursive_distances', [4, 12, 3, 0, 2], thorough=200, covers=[1]),
        WS('distances', [4, 2, 4, 0, 2, 0, 1], 4, 31, 'forward, 1 dot', quick=40, covers=[1]),
        WS('distances', [4, 2, 4, 0, 2, 1, 1], 4, 0, 'backward, 1 dot', quick=40, covers=[1]),
        WS('recursive_distances', [5, 3, 5, 0, 2], 3, 31, quick=50),
        WS('recursive_distances', [6, 4, 6, 0, 3], 8, 0, thorough=300),
        WS('distances', [4, 3, 5, 0, 3, 0, 1], 4, 0, 'forward, 1 dot', thorough=300, covers=[1]),
        WS('distances', [4, 2, 2, 1, 5, 0, 1], 2, 62, 'forward, 1 dot', quick=20, covers=[1]),
        WS('distances', [4, 2, 2, 1, 5, 1, 1], 2, 62, 'backward, 1 dot', quick=20, covers=[1]),
        CS('distances', [6, 5, 5, 1, 2, 0, 1], 6, 0, 'forward, 1 dot', quick=30, covers=[1]),
        CS('distances', [6, 5, 5, 1, 2, 1, 1], 6, 0, 'backward, 1 dot', quick=30, covers=[1]),
        CS('recursive_distances', [8, 6, 6, 1, 2], 12, quick=20),
    ],
    'C20': [
        S('history_limit', [4, 8, 4], 'one rule of up to 8 symbols of 4 with any history, limits 2 to 4 or none, added in 5 ways', quick=30, covers=[1]),
        GS('history_null', [3, 2, 2, 0, 2], quick=30, covers=[1]),
        GS('history_null', [3, 12, 2, 0, 3], quick=30, covers=[1]),
        GS('history_null', [4, 12, 3, 0, 2], quick=40, covers=[1]),
        S('history_prec', [2], '2 alternatives with any history, level and associativity', quick=40),
        S('history_seq', [4], 'counts 0 to 4 or unbounded, every separator, any history', quick=30, covers=[1]),
        GS('history_ops', [3, 2, 2, 0, 2], 'reversed, sorted, deduplicated or made proper', quick=30),
        S('history_nodes', [0], 'any history, 5 weights', quick=20),
        GS('history_null', [3, 12, 3, 0, 3], thorough=200, covers=[1]),
        GS('history_ops', [3, 12, 3, 0, 2], 'reversed, sorted, deduplicated or made proper', thorough=200),
        S('history_limit', [4, 12, 6], 'one rule of up to 12 symbols of 4 with any history, limits 2 to 6 or none, added in 5 ways', thorough=100, covers=[1]),
        WS('history_null', [5, 3, 5, 0, 3], 8, 31, quick=40, covers=[1]),
        WS('history_ops', [5, 3, 5, 0, 3], 8, 0, 'reversed, sorted, deduplicated or made proper', quick=30),
        WS('history_null', [6, 4, 7, 0, 4], 16, 31, thorough=300, covers=[1]),
        WS('history_null', [5, 3, 3, 0, 6], 2, 62, quick=30),
        WS('history_ops', [5, 3, 3, 1, 6], 3, 0, 'reversed, sorted, deduplicated or made proper', quick=20),
    ],
    'C21': [
        S('load_text', [3, 0], 'any 3 characters after nothing', quick=40),
        S('load_text', [3, 1], 'any 3 characters after `a::=`', quick=40, covers=[1]),
        S('load_text', [3, 2], 'any 3 characters after `a::=b`', quick=40, covers=[1]),
        S('load_text', [3, 3], 'any 3 characters after `a::=b;`', quick=40, covers=[1]),
        S('load_text', [3, 4], 'any 3 characters after `\\nab ::= b\\n |`', quick=40, covers=[1]),
        S('load_text', [3, 5], 'any 3 characters after `a ::= b*c+ (); b :`', quick=40, covers=[1]),
        S('load_char', [0], 'each of the first 256 characters in 6 places', quick=30, covers=[1]),
        S('load_tokens', [7, 2, 2, 0], 'up to 7 tokens, 2 names, words of 2', quick=40, covers=[1]),
        S('load_many', [6, 2, 1, 2], '6 rules with up to 2 tokens of 9 kinds added in one of 3 places, words of 1', quick=20, covers=[1]),
        S('load_many', [7, 1, 2, 0], '7 rules with up to 1 token of 9 kinds added in one of 3 places, words of 2', quick=20, covers=[1]),
        S('load_many', [12, 1, 1, 300], '12 rules far apart, in lines of 9 blanks, with up to 1 token added, words of 1', quick=20, covers=[1]),
        S('load_many', [9, 3, 2, 1], '9 rules with up to 3 tokens of 9 kinds added in one of 3 places, words of 2', thorough=100, covers=[1]),
        GS('round_trip', [3, 2, 2, 0, 2, 2], '2 named symbols', quick=30),
        S('load_text', [4, 2], 'any 4 characters after `a::=b`', thorough=200, covers=[1]),
        S('load_text', [4, 1], 'any 4 characters after `a::=`', thorough=200, covers=[1]),
        S('load_tokens', [6, 2, 2, 1], 'up to 6 tokens, 2 names, line breaks, words of 2', thorough=100, covers=[1]),
        GS('round_trip', [3, 2, 3, 0, 2, 2], '2 named symbols', thorough=100),
    ],
    'C22': [
        S('lexer_chars', [1, 6, 2, 5], '1 class of any kind, ranges between 12 characters around 0, a, U+7F, U+100, the surrogates and the end; 392 characters', quick=40),
        S('lexer_chars', [2, 4, 2, 2], '2 ranges or literals between 8 characters, 392 characters', quick=30),
        S('lexer_map', [1, 6, 2, 5], '1 class of any kind, ranges between 12 characters around 0, a, U+7F, U+100, the surrogates and the end; all characters', quick=40, covers=[1]),
        S('lexer_map', [2, 6, 2, 1], '2 ranges between those 12 characters, all characters', quick=40, covers=[1]),
        S('lexer_map', [2, 3, 2, 2], '2 ranges or literals of 6 ASCII characters, all characters', quick=30),
        S('lexer_map', [3, 3, 2, 1], '3 ranges between 6 ASCII characters, all characters', quick=40),
        S('lexer_map', [1, 6, 2, 1, 40], '1 range between those 12 characters and 40 fixed ones one inside the other, all characters', quick=60, covers=[1]),
        S('lexer_map', [2, 3, 2, 2, 8], '2 ranges or literals of 6 ASCII characters and 8 fixed ranges one inside the other, all characters', quick=40, covers=[1]),
        S('lexer_map', [1, 6, 2, 5, 12], '1 class of any kind and 12 fixed ranges one inside the other, all characters', thorough=300, covers=[1]),
        S('lexer_chars', [2, 6, 2, 1], '2 ranges between those 12 characters, 392 characters', thorough=100),
        S('lexer_chars', [2, 3, 2, 5], '2 classes of any kind, ranges between 6 characters, 392 characters', thorough=200),
        S('lexer_map', [1, 6, 3, 5], '1 class of any kind, ranges between 18 characters', thorough=100, covers=[1]),
        S('lexer_map', [2, 6, 2, 2], '2 ranges or literals between 12 characters', thorough=100, covers=[1]),
        S('lexer_map', [2, 4, 2, 5], '2 classes of any kind, ranges between 8 characters', thorough=300, covers=[1]),
    ],
    'C23': [
        S('regexp', [1, 13, 10, 4], '1 operator over 13 atoms and 10 repetitions, words of up to 4 letters of 4', quick=30, covers=[1]),
        S('regexp', [2, 8, 10, 3], '2 operators over 8 atoms and 10 repetitions, words of up to 3 letters of 4', quick=50, covers=[1]),
        S('regexp', [3, 2, 2, 3], '3 operators over 2 atoms and 2 repetitions, words of up to 3 letters of 4', quick=40, covers=[1]),
        S('not_regexp', [0], '9 malformed expressions', quick=20),
        S('regexp_wide', [6, 2], '6 parts or alternatives, one of them any atom with 2 repetitions or none, words near theirs', quick=50, covers=[1]),
        S('regexp_wide', [15, 0], '15 parts or alternatives, one of them any atom, words near theirs', quick=40, covers=[1]),
        S('regexp_wide', [12, 4], '12 parts or alternatives, one of them any atom with 4 repetitions or none, words near theirs', thorough=300, covers=[1]),
        S('regexp_count', [6], 'a class counted 0 to 2, around 64 and around 128 times', quick=20, covers=[1]),
        S('regexp_count', [13], 'a class counted 0 to 2, around 8192 and around 16384 times', quick=20, covers=[1]),
        S('regexp_count', [30], 'a class counted 0 to 2, around 2^30 and around 2^31 times', quick=20, covers=[1]),
        S('regexp', [3, 4, 3, 3], '3 operators over 4 atoms and 3 repetitions, words of up to 3 letters of 4', thorough=200, covers=[1]),
        S('regexp', [2, 13, 10, 4], '2 operators over 13 atoms and 10 repetitions, words of up to 4 letters of 4', thorough=300, covers=[1]),
    ],
    'C24': [
        GS('generate', [4, 2, 2, 0, 2, 4, 0, 0], '4 draws of 4 values, equal weights, no limit', quick=30, covers=[1]),
        GS('generate', [3, 12, 3, 0, 2, 3, 4, 0], '3 draws, limit of 3 terminals', quick=30, covers=[1, 2]),
        GS('generate', [4, 11, 3, 0, 1, 2, 0, 3], '2 draws, weights 0 to 2 or none', quick=30),
        GS('generate', [3, 11, 2, 0, 2, 3, 3, 4], '3 draws, weights 0 to 3 or none, limit of 2 terminals', quick=30, covers=[1, 2]),
        GS('negative', [3, 1, 2, 0, 2, 4, 0, 3], 'forbidden text of one letter, 3 attempts, 4 draws', quick=30, covers=[1, 2]),
        GS('negative', [4, 12, 2, 1, 4, 4, 2, 2], 'forbidden text of two letters, 2 attempts, 4 draws', quick=50, covers=[1, 2]),
        S('attempts', [3], 'up to 3 attempts', quick=20, covers=[1, 2]),
        S('reversals', [4], 'up to 4 attempts, any draws', quick=20, covers=[1, 2]),
        GS('bytes', [3, 1, 2, 0, 2, 3], '3 bytes of 8 values', quick=30, covers=[1]),
        GS('negative', [3, 1, 2, 0, 3, 4, 0, 3], 'forbidden text of one letter, 3 attempts, 4 draws', thorough=100, covers=[1, 2]),
        GS('negative', [3, 11, 3, 0, 2, 4, 2, 3], 'forbidden text of two letters, 3 attempts, 4 draws', thorough=100, covers=[1, 2]),
        GS('generate', [4, 11, 4, 0, 1, 2, 0, 2], '2 draws, weights 0 to 1 or none', thorough=100),
        GS('generate', [4, 2, 3, 1, 2, 3, 3, 0], '3 draws, limit of 2 terminals', thorough=100, covers=[1, 2]),
        GS('bytes', [3, 2, 3, 0, 2, 2], '2 bytes of 8 values', thorough=200, covers=[1]),
        WS('generate', [6, 4, 7, 0, 3, 4, 0, 0], 3, 31, '4 draws, no limit', quick=50, covers=[1]),
        WS('negative', [5, 3, 6, 0, 3, 4, 0, 2], 8, 0, 'forbidden text of one letter, 2 attempts, 4 draws', quick=40, covers=[1, 2]),
        WS('generate', [6, 4, 6, 0, 2, 4, 4, 3], 2, 31, '4 draws, weights 0 to 2 or none, limit of 3 terminals', thorough=300, covers=[1, 2]),
        WS('bytes', [6, 3, 6, 0, 3, 3], 4, 0, '3 bytes of 8 values', thorough=100, covers=[1]),
    ],
    'C25': [
        S('adv_text', [3, 0], "any 3 characters of 18 kinds after nothing", quick=40),
        S('adv_text', [2, 1], "any 2 characters of 18 kinds after `a::=`", quick=40),
        S('adv_text', [3, 2], "any 3 characters of 18 kinds after `a::=\"x`", quick=40, covers=[1]),
        S('adv_text', [2, 3], "any 2 characters of 18 kinds after `a::=b;`", quick=40),
        S('adv_text', [2, 4], "any 2 characters of 18 kinds after `\\nb ::= a\\n>`", quick=40),
        S('adv_text', [3, 5], "any 3 characters of 18 kinds after `a::=\"\\\\`", quick=40, covers=[1]),
        S('adv_text', [2, 6], "any 2 characters of 18 kinds after `lexer{a::=\"x\";\\n`", quick=40),
        S('adv_text', [3, 7], "any 3 characters of 18 kinds after `a ::=\\n \"q\\\\`", quick=40, covers=[1]),
        S('adv_char', [0], 'each of the first 256 characters in 7 places', quick=30, covers=[1]),
        S('adv_meaning', [1, 0, 2, 109, 2, 0, 1, 1], '1 rule of up to 2 strings of 9, with escapes, words of 2', quick=30, covers=[1]),
        S('adv_meaning', [1, 1, 1, 109, 2, 0, 1, 1], '1 rule and 1 lexer rule of a string of 9, with escapes, words of 2', quick=30, covers=[1]),
        S('adv_tokens', [8, 2, 1, 1], 'up to 8 tokens of 15, line breaks, words of 1', quick=50, covers=[1]),
        S('adv_many', [5, 1, 2, 0], '5 rules and 3 lexer rules in 2 blocks with up to 1 token of 12 kinds added in one of 4 places, words of 2', quick=20, covers=[1]),
        S('adv_many', [6, 2, 1, 1], '6 rules and 4 lexer rules in 3 blocks with up to 2 tokens of 12 kinds added in one of 4 places, words of 1', quick=30, covers=[1]),
        S('adv_many', [7, 1, 1, 120], '7 rules and 4 lexer rules in 3 blocks, far apart, in lines of 9 blanks, with up to 1 token added, words of 1', quick=20, covers=[1]),
        S('adv_many', [8, 2, 2, 1], '8 rules and 4 lexer rules in 3 blocks with up to 2 tokens of 12 kinds added in one of 4 places, words of 2', thorough=100, covers=[1]),
        S('adv_meaning', [1, 1, 2, 4, 2, 0, 2, 1], '1 rules and 1 lexer rules (lexer last), 2 names of rules, up to 1 alternatives of up to 2 items of 4 kinds, actions, words of 2', quick=40, covers=[1, 2]),
        S('adv_meaning', [1, 1, 1, 12, 2, 1, 3, 1], '1 rules and 1 lexer rules (lexer first), 3 names of rules, up to 1 alternatives of up to 1 items of 12 kinds, actions, words of 2', quick=40, covers=[1, 2]),
        S('adv_meaning', [1, 2, 1, 3, 1, 2, 2, 1], '1 rules and 2 lexer rules (two lexer blocks), 2 names of rules, up to 1 alternatives of up to 1 items of 3 kinds, actions, words of 1', quick=40, covers=[1, 2]),
        S('adv_meaning', [2, 0, 2, 3, 2, 2, 2, 1], '2 rules and 0 lexer rules (two lexer blocks), 2 names of rules, up to 1 alternatives of up to 2 items of 3 kinds, actions, words of 2', quick=40, covers=[1]),
        S('adv_tokens', [10, 2, 1, 0], 'up to 10 tokens of 15, words of 1', thorough=300, covers=[1, 2]),
        S('adv_meaning', [1, 1, 1, 5, 1, 2, 3, 2], '1 rules and 1 lexer rules (two lexer blocks), 3 names of rules, up to 2 alternatives of up to 1 items of 5 kinds, actions, words of 1', thorough=200, covers=[1, 2]),
        S('adv_meaning', [2, 1, 1, 9, 2, 0, 3, 1], '2 rules and 1 lexer rules (lexer last), 3 names of rules, up to 1 alternatives of up to 1 items of 9 kinds, actions, words of 2', thorough=200, covers=[1, 2]),
        S('adv_meaning', [1, 1, 2, 8, 2, 0, 2, 1], '1 rules and 1 lexer rules (lexer last), 2 names of rules, up to 1 alternatives of up to 2 items of 8 kinds, actions, words of 2', thorough=200, covers=[1, 2]),
    ],
    'C26': [
        GS('pipeline', [3, 12, 2, 0, 2, 2, 0, 1], 'any 2 transformations of 10, all words of 1', quick=60, covers=[1]),
        WS('pipeline', [4, 2, 3, 0, 3, 2, 0, 2], 3, 0, 'any 2 transformations of 10, all words of 2', quick=60, covers=[1]),
        WS('pipeline', [4, 2, 3, 0, 3, 3, 0, 1], 3, 0, 'any 3 transformations of 10, all words of 1', quick=150, covers=[1]),
        WS('pipeline', [5, 3, 5, 0, 3, 2, 0, 2], 1, 0, 'any 2 transformations of 10, all words of 2', quick=90, covers=[1]),
        WS('pipeline', [5, 3, 5, 0, 3, 2, 0, 2], 4, 0, 'any 2 transformations of 10, all words of 2', thorough=300, covers=[1]),
        GS('pipeline', [4, 12, 3, 0, 3, 2, 0, 2], 'any 2 transformations of 10, all words of 2', thorough=250, covers=[1]),
        WS('pipeline', [4, 2, 2, 2, 5, 2, 0, 3], 2, 0, 'any 2 transformations of 10, all words of 3', quick=50, covers=[1]),
        CS('pipeline', [6, 5, 5, 0, 2, 2, 0, 1], 3, 0, 'any 2 transformations of 10, all words of 1', quick=40, covers=[1]),
    ],
}


def known(path, prop):
    """open findings: known: property=ID entry=E params=1,2 inputs=3,4 :: what"""
    out = []
    try:
        lines = open(path).read().splitlines()
    except OSError:
        return out
    for l in lines:
        if not l.startswith('known: '):
            continue
        head, what = l[7:].split(' :: ', 1)
        kv = dict(x.split('=', 1) for x in head.split())
        if kv['property'] == prop:
            n = lambda s: [int(x) for x in s.split(',') if x]
            out.append(dict(entry=kv['entry'], params=n(kv.get('params', '')), inputs=n(kv.get('inputs', '')), what=what))
    return out
