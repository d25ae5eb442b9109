W = 'widths {1,4,5,8,16,32,64,65,127,128}'; WT = W[:-1] + ',2,3,7,31,33,63}'
def E(name, bound, bound_t=None, reach=None, **k):
    e = {'name': name, 'bound': bound, **k}
    if bound_t: e['bound_t'] = bound_t
    if reach: e['reach'] = reach
    return e
TOY = 'harness language with operators of arity 1,1,2,3,4, constants and variables (toy.rs)'
MODEL = 'all models over a two-element carrier'
PROPS = {
 'P01': {'entries': [
   E('h_ops', 'all operand pairs; ' + W, 'all operand pairs; ' + WT, [0]),
   E('h_mul', 'all operand pairs; ' + W, 'all operand pairs; ' + WT),
   E('h_shift', 'all operand pairs; ' + W, 'all operand pairs; ' + WT, [0, 1]),
   E('h_make', 'all u128 integers; ' + W, 'all u128 integers; ' + WT),
   E('h_interp', 'every operator, two valuations with any defined/undefined pattern and any values; widths 8 and 128; literals over 0..3 valuations'),
 ]},
 'P02': {'entries': [
   E('h_dec', 'every printable string of at most 4 characters (not starting with #b); widths {4,8,64,128}', 'strings of at most 5 characters', [0, 1]),
   E('h_bin', '#b and at most 9 characters: any binary digits with any printable character at any one position; widths {4,8,64,128}', 'at most 14 characters', [0, 1]),
   E('h_wide', '#b and 2, 65 or 128 digits, first, last and middle digits symbolic; widths {4,8,64,128}'),
   E('h_print', 'any byte shifted by 0,30,60,90 or 120 bits; widths {4,8,64,128}'),
   E('h_term', 'every operator applied to any two-digit literal and a variable, width 8'),
 ]},
 'P03': {'entries': [
   E('h_one', 'one operator over variables and literals (three shapes) against a variable or literal, either side; any literals, any assignment of the variables; widths {1,4,8,64,65,128}', 'widths {1,4,8,32,64,65,127,128}'),
   E('h_two', 'two nested operators (two shapes) against nothing or one operator with and without a literal; any literals, any assignment; widths {4,128}', 'widths {4,8,32,64,128}'),
   E('h_verdict', 'five rules of known status, each solver answer; widths {4,32,64}'),
 ]},
 'P04': {'entries': [
   E('h_product', '1..5 constants and 0..5 variables with at most 100 rows', 'at most 300 rows'),
   E('h_init', '0..3 variables (4 for widths 1 and 2) of any names; widths {1,2,3,4,8,32,64,128}', '0..4 variables'),
   E('h_egraph', 'workloads of 1..3 terms op(l, r), three operators, l and r any of two variables and a literal; width 8', 'eight operators'),
 ]},
 'P05': {'entries': [
   E('h_text', 'terms of at most 5 nodes, lists of at most 2, atoms of at most 2 arbitrary printable characters without spaces, parentheses or a leading quote', 'at most 6 nodes'),
   E('h_space', 'a nested list with any of 0..2 spaces in each of six places'),
   E('h_pattern', 'a nested pattern of tokens of at most 2 arbitrary printable characters'),
   E('h_file', 'workloads of at most 3 terms of at most 4 nodes with arbitrary tokens, plain, appended or filtered', 'terms of at most 6 nodes'),
 ]},
 'P06': {'entries': [E('h_metric', 'every term of at most 9 nodes (lists of at most 3), every metric, every bound (64-bit)', 'at most 11 nodes', [0, 1])]},
 'P07': {'entries': [E('h_canon', 'every term of at most 7 nodes over five atoms, every list of at most 3 distinct symbols of four', 'at most 8 nodes, 4 symbols', [0, 1])]},
 'P08': {'entries': [
   E('h_pattern', 'every pattern of at most 5 nodes against every term of at most 6 nodes', 'patterns of at most 6 nodes, terms of at most 7', [0, 1]),
   E('h_nonlinear', 'three patterns with three variable occurrences (names symbolic), three term shapes with subterms of at most 3 nodes', None, [0, 1]),
   E('h_bool', 'filter trees of depth 2 with at most 2 children over six leaf kinds, any bounds; four term shapes', 'depth 3', [0, 1]),
   E('h_chain', 'two filters in a row (three kinds), any bounds, terms of at most 3 nodes', 'three filters', [0, 1]),
 ]},
 'P09': {'entries': [
   E('h_plug', '1..2 terms of six shapes, 0..2 pegs, any atoms', '0..3 pegs', [0, 1]),
   E('h_name', 'names and atoms that are *, ? or x; three shapes, 0..2 pegs', None, [0, 1]),
   E('h_push', 'a filter of eleven kinds (bounds symbolic) over a plug whose pegs are a set, a plug or a filtered set', None, [0, 1]),
   E('h_push2', 'two filters of eleven kinds over a plug', 'over larger terms', [0, 1]),
   E('h_replug', 'plug, filter, plug, possibly filter', None, [0, 1]),
   E('h_append', 'append of two parts of four kinds, then nothing, plug or filter', 'append of up to three parts', [0, 1]),
 ]},
 'P10': {'entries': [
   E('h_iter', '1..3 productions of four shapes with symbolic holes, every metric, n <= 3', 'n <= 4', [0, 1]),
   E('h_base', 'n <= 5'), E('h_subst', '0..2 terms of four shapes, 0..2 pegs, symbolic atoms'),
 ]},
 'P11': {'assumptions': [TOY], 'entries': [
   E('h_rule', 'every pair of sides of at most 4 nodes, three arrows, padding', 'at most 5 nodes'),
   E('h_new', 'every pair of sides of at most 4 nodes', None, [0, 1]),
   E('h_bad', 'every string of at most 4 characters of six without an arrow', 'at most 6 characters'),
   E('h_file', 'rulesets of at most 3 rules of five shapes with symbolic names and constants, one or both directions'),
 ]},
 'P12': {'assumptions': [TOY], 'entries': [
   E('h_ops', 'any two lists of at most 3 rules of a pool of six (with reverses and alpha-variants); each operation', 'at most 4 rules'),
   E('h_partition', 'any list of at most 4 rules, any predicate'),
   E('h_bidir', 'any list of at most 5 rules', None, [0, 1]),
 ]},
 'P13': {'assumptions': [TOY], 'entries': [
   E('h_pair', 'every pair of terms of at most 4 nodes over three sets of four variable names, any digit', 'at most 5 nodes'),
   E('h_many', '1..26 distinct variables'),
 ]},
 'P14': {'assumptions': [TOY], 'entries': [
   E('h_score', 'every pair of a side of at most 4 nodes and one of at most 3 against nine rules of neighbouring rank', 'at most 5 and 4 nodes'),
   E('h_sat', 'every pair of sides of at most 4 nodes', 'at most 5 nodes', [0, 1]),
 ]},
 'P15': {'assumptions': [TOY], 'entries': [
   E('h_cost', 'every term of at most 6 nodes, any set of allowed operators', 'at most 7 nodes', [0, 1]),
   E('h_extract', 'nine terms, any 1..2 merges, any set of allowed operators', '1..3 merges', [0, 1]),
 ]},
 'P16': {'assumptions': [TOY], 'entries': [
   E('h_values', 'all pairs of value vectors of equal length at most 4, any definedness, any byte values', 'length at most 5', [0, 1]),
   E('h_interval', 'all pairs of intervals with byte bounds or none', None, [0, 1]),
   E('h_simplest', 'all pairs of eight representatives, any set of allowed operators'),
   E('h_egraph', 'ten terms, two samples, any values and partial tables, five merges', 'three samples'),
   E('h_modify', 'any two constants below 50, six merges of an interval domain', None, [0, 1]),
 ]},
 'P17': {'assumptions': [TOY, MODEL], 'entries': [
   E('h_apply', 'nine rules, at most 2 samples of any values, any partial operator tables on which the rule does not contradict itself', None, [0, 1, 2]),
   E('h_sound', 'every pair of eleven rules, three start term sets, an optional merge; two rounds', 'three rounds', [0]),
 ]},
 'P18': {'assumptions': [TOY, MODEL], 'entries': [
   E('h_sound', 'every 1..2 of ten rules, three start term sets, three start merges, six limits, four runs', '1..3 rules', [0]),
   E('h_compress', 'every 1..3 of ten rules, three start term sets, three start merges, six limits', '1..4 rules', [0]),
   E('h_saturate', 'every 1..3 of ten rules, three start term sets, three start merges, 0..2 rounds', '1..4 rules', [0]),
 ]},
 'P19': {'assumptions': [TOY], 'entries': [
   E('h_three', 'three classes, 0..4 samples, any definedness, any of 255 values', '0..5 samples', [0, 1]),
   E('h_five', 'five classes with two samples or six with one, three values', 'also four classes with three samples', [0, 1]),
   E('h_four', 'four classes, three samples, two values', 'four samples', [0, 1]),
 ]},
 'P20': {'assumptions': [TOY], 'entries': [
   E('h_three', 'three classes, 0..4 samples, any definedness, any of 255 values', '0..5 samples', [0, 1]),
   E('h_five', 'five classes with two samples or six with one, three values', 'also four classes with three samples', [0, 1]),
   E('h_four', 'four classes, three samples, two values', 'four samples', [0, 1]),
 ]},
 'P21': {'assumptions': [TOY], 'entries': [
   E('h_small', 'six terms, any 0..2 merges, optional earlier merge, any set of allowed operators', '0..3 merges', [0, 1]),
   E('h_deep', 'seven deeper terms, any 0..2 merges, optional earlier merges, any set of allowed unary and binary operators', None, [0, 1]),
 ]},
 'P22': {'assumptions': [TOY, MODEL], 'entries': [
   E('h_verdicts', 'three pools of six candidates, every choice of 1..4, four prior sets, every verdict for every rule, three schedulers, two limits', 'every choice of 1..5', [0, 1, 2]),
   E('h_valid', 'three pools of six candidates, every choice, four prior sets, all valid, three schedulers, two limits', None, [0, 1]),
 ]},
 'P23': {'assumptions': [TOY, MODEL], 'entries': [
   E('h_derive', 'every 0..2 of nine rules, fifteen targets, four limits, both modes', 'every 0..3 of nine rules', [0, 1, 2, 3]),
   E('h_split', 'every 0..2 of nine rules, every 0..2 targets, both modes', 'every 0..3 targets', [0, 1]),
 ]},
 'P24': {'assumptions': [TOY, MODEL], 'entries': [
   E('h_verdicts', 'three workloads of four terms, one sample of any values or none, partial operators, every valid/other verdict for every rule, both matching modes', 'workloads of seven terms', [0]),
   E('h_complete', 'three workloads of seven terms, all four samples of two variables, any tables for the unary operators and three for the binary one, three prior sets, both matching modes', None, [0, 1]),
   E('h_recursive', 'six languages with operators of arity 1..4, all samples, any unary tables, bounds up to depth 2, one list or three atoms', 'any verdicts on two of the languages', [0, 1]),
   E('h_forward', 'three workloads, any subset of four exploratory and four prior rules, all valid', None, [0, 1]),
   E('h_forward_verdicts', 'three workloads, 1..2 exploratory and 0..1 prior rules, every verdict for every rule', '1..4 exploratory rules', [0]),
 ]},
 'P25': {'assumptions': [TOY], 'entries': [
   E('h_append', 'missing, empty or 1..2 earlier rows of five kinds, compact or pretty; two appended rows over any rulesets of five rules', '1..3 earlier rows'),
   E('h_bv', 'any generated ruleset of three rules, any ported ruleset of five, every valid/other verdict', 'generated rulesets of five rules', [0]),
   E('h_baseline', 'any ruleset of five against any of four, five pairs of names', 'any of five', [0, 1]),
 ]},
}
