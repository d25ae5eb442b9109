#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from props import PROPS
T = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, hook=None):
    T.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
      anchors={'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state], 'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'hook_needed': hook}), na))

P('P01', 'Bit-vector arithmetic is exact modulo 2^N at every width',
  'Every bit-vector operation (add, subtract, multiply, negate, complement, and, or, xor, shift left, logical shift right), construction, conversion and random sampling at width N from 1 to 128 yields exactly the N-bit result modulo 2^N, a value that fits N bits; shifts by N or more give zero; the named constants are the signed/unsigned extremes. The interpreter of a bit-vector language applies exactly these operations to its operand value vectors in operand order, position by position, with a result undefined exactly where an operand is undefined.',
  ['inputs', 'configurations'], 'all operand pairs, all widths in the stated set',
  'The one unit test checks five concrete 4-bit facts; recipes at 4 bits exercise a few corner constants.',
  ['src/bv.rs', 'src/util.rs'], [('BV::<N>::new masks to N bits', 'src/bv.rs'), ('my_shl/my_shr', 'src/bv.rs'), ('impl_bv! eval and map!', 'src/bv.rs, src/util.rs')])
P('P02', 'Bit-vector literals parse and print faithfully',
  'Parsing a decimal or #b-prefixed binary numeral yields the value of the numeral modulo 2^N, anything that is not a numeral is rejected as a literal rather than read as some value, and parsing the printed form of any value gives that value back.',
  ['inputs'], 'all values of the stated widths; all numeral strings up to the stated length',
  'No unit test parses or prints a bit-vector; recipes use a handful of literals.',
  ['src/bv.rs'], [('FromStr for BV', 'src/bv.rs'), ('Display for BV', 'src/bv.rs')])
P('P03', 'A rule is declared valid only if it holds for all values',
  'For a bit-vector language of any width, the validator accepts a rule exactly when the solver proves both sides equal, the question put to the solver is true for exactly those variable assignments on which the interpreter of the language gives the two sides different values (including literals of the full width), and an undecided answer never counts as valid.',
  ['inputs', 'configurations'], 'all values of variables and literals; all pairs of operators of the language; all solver verdicts',
  'The tests validate recipe rules at width 4 whose literals are small; agreement of the two encodings of each operator over all values is never tested.',
  ['src/bv.rs', 'src/enumo/rule.rs', 'src/language.rs'], [('impl_bv! validate', 'src/bv.rs'), ('Rule::is_valid', 'src/enumo/rule.rs')])
P('P04', 'Variables are sampled over a full aligned cross product',
  'Initialising the variables of a bit-vector domain gives every variable one value vector of the same length as the e-graph declares, such that every combination of corner values over the variables (0, 1, -1, the signed extremes and their neighbours, without duplicates) occurs at exactly one position; the underlying self-product does so for any list of constants and any number of variables.',
  ['inputs', 'configurations'], 'all constant lists and variable counts up to the stated sizes; widths in the stated set',
  'No test looks at the sampled vectors; a skewed product only shows up as unsound candidates filtered later or missed ones.',
  ['src/bv.rs', 'src/util.rs', 'src/enumo/workload.rs'], [('self_product', 'src/util.rs'), ('impl_bv! initialize_vars', 'src/bv.rs')])
P('P05', 'Terms and workloads survive printing, parsing and files',
  'Printing any s-expression whose atoms are plain tokens and parsing it back gives the same s-expression; writing a workload to a file and reading it back gives exactly the terms it denotes, in order.',
  ['inputs'], 'all s-expression shapes and atoms up to the stated size',
  'Tests parse about thirty fixed strings and never write a workload to a file.',
  ['src/enumo/sexp.rs', 'src/enumo/workload.rs'], [('FromStr and Display for Sexp', 'src/enumo/sexp.rs'), ('Workload::to_file/from_file', 'src/enumo/workload.rs')])
P('P06', 'Size metrics measure what they say for every term',
  'For every s-expression, including empty lists, the metric filters accept exactly the terms whose number of atoms, number of lists, or nesting depth is below (or equal to) the bound.',
  ['inputs'], 'all s-expression shapes up to the stated size, all bounds',
  'The tests measure seven fixed terms per metric, none with an empty list.',
  ['src/enumo/sexp.rs', 'src/enumo/metric.rs', 'src/enumo/filter.rs'], [('Sexp::measure', 'src/enumo/sexp.rs')])
P('P07', 'The canonical-form filter keeps exactly one representative',
  'A term passes the canonicity filter for an ordered symbol list exactly when the listed symbols it mentions first occur in list order starting from the first symbol without gaps; hence for every term exactly one renaming class representative passes.',
  ['inputs'], 'all terms up to the stated size, all symbol lists up to the stated length',
  'The test canonicalises fifteen fixed terms over one symbol list.',
  ['src/enumo/sexp.rs', 'src/enumo/filter.rs'], [('Sexp::canon', 'src/enumo/sexp.rs'), ('Filter::Canon', 'src/enumo/filter.rs')])
P('P08', 'Filters decide pattern containment and boolean logic exactly',
  'A containment filter accepts a term exactly when some subterm is an instance of the pattern (wildcards match anything, a repeated pattern variable must match equal subterms, literals match only themselves, lists match lists of the same length), an exclusion filter accepts exactly the others, and conjunction, disjunction and inversion are the boolean connectives, however filters are nested or chained.',
  ['inputs'], 'all patterns, terms and filter trees up to the stated size',
  'The tests evaluate each filter kind on at most seven fixed terms with two or three patterns.',
  ['src/enumo/pattern.rs', 'src/enumo/filter.rs', 'src/enumo/workload.rs'], [('Pattern::matches', 'src/enumo/pattern.rs'), ('Filter::test, Filter::and', 'src/enumo/filter.rs')])
P('P09', 'A workload denotes exactly the terms its definition says',
  'Forcing a workload built by any nesting of plug, append and filter yields exactly the terms, with multiplicity, obtained by forcing the parts first and then substituting pegs at each occurrence of the name independently, concatenating, or dropping the terms that fail the filter; the shortcuts for plugging nothing, merging filters and pushing filters inside plugs never change the result.',
  ['inputs', 'programs'], 'all workload expressions up to the stated depth over all small term sets and filters',
  'Tests force about a dozen fixed workloads; the push-down and merge shortcuts are only counted, not compared with the plain meaning.',
  ['src/enumo/workload.rs', 'src/enumo/filter.rs', 'src/enumo/sexp.rs'], [('Workload::plug/append/filter/force', 'src/enumo/workload.rs'), ('Filter::is_monotonic, Filter::subsumed_by', 'src/enumo/filter.rs')])
P('P10', 'Grammar enumeration is complete and exact up to its bound',
  'Iterating a grammar to a metric bound n yields every closed derivation of the grammar of measure at most n, each exactly once, and nothing larger; the base grammar has one production per arity; substituting a workload for an atom yields each instance in which all occurrences are replaced by the same term.',
  ['inputs', 'configurations'], 'all small grammars, metrics and bounds up to the stated size',
  'Tests only compare the counts for one fixed grammar.',
  ['src/recipe_utils.rs', 'src/enumo/workload.rs'], [('iter_metric', 'src/recipe_utils.rs'), ('substitute', 'src/recipe_utils.rs'), ('base_lang', 'src/recipe_utils.rs')])
P('P11', 'Rules and rulesets survive printing, parsing and files',
  'A rule string parses to a rule whose sides are the two terms written, named "lhs ==> rhs", with the reverse rule exactly when the arrow is bidirectional; a string without an arrow is an error; rulesets written to a file and read back are equal, rule for rule and in order.',
  ['inputs'], 'all rules over the harness language up to the stated size and all three arrows',
  'One test parses three fixed strings of one shape; ruleset files are read in recipes but never compared with what was written.',
  ['src/enumo/rule.rs', 'src/enumo/ruleset.rs'], [('Rule::from_string', 'src/enumo/rule.rs'), ('Ruleset::to_file/from_file/new', 'src/enumo/ruleset.rs')])
P('P12', 'Rulesets behave as ordered sets of rules keyed by their text',
  'Union, extension, addition and removal of rulesets have set semantics keyed by rule text (no duplicates, removal of exactly the named rules), partition splits a ruleset into exactly the rules satisfying and not satisfying the predicate, the bidirectional length counts a rule and its reverse once, and equality compares the rules in order.',
  ['inputs', 'histories'], 'all rulesets drawn from the stated rule pool and all sequences of two operations',
  'No unit test calls these operations directly; recipes only check final lengths.',
  ['src/enumo/ruleset.rs'], [('Ruleset::union/extend/add_all/remove_all/partition/bidir_len', 'src/enumo/ruleset.rs')])
P('P13', 'Generalising a pair of terms renames variables consistently',
  'Generalising terms into patterns replaces each distinct variable by a distinct pattern variable, the same one in both sides of a candidate, and leaves operators, constants and structure untouched; instantiating the pattern gives the terms back up to that renaming.',
  ['inputs'], 'all pairs of terms of the harness language up to the stated size',
  'No test calls generalisation; a clash of names would yield unsound or lost candidates.',
  ['src/language.rs', 'src/util.rs'], [('SynthLanguage::generalize/instantiate', 'src/language.rs'), ('letter', 'src/util.rs')])
P('P14', 'Candidate ranking follows the documented score',
  'The score of a rule orders candidates by number of distinct variables, then fewest constants (distinct ones, counted per side), then smaller larger side, then smaller total size, then fewest distinct operators over both sides; and a rule is classified as saturating exactly when its application can add no new e-class.',
  ['inputs'], 'all rules of the harness language up to the stated size',
  'No test checks a score or the classification; both only steer which rules a recipe learns.',
  ['src/language.rs', 'src/enumo/rule.rs'], [('SynthLanguage::score', 'src/language.rs'), ('Rule::is_saturating', 'src/enumo/rule.rs')])
P('P15', 'Extraction never returns a forbidden operator if avoidable',
  'The extractable cost of a term is its size, or the maximal cost as soon as it contains an operator the domain disallows, so that extraction returns a smallest allowed term of the class whenever one exists.',
  ['inputs', 'configurations'], 'all terms of the harness language up to the stated size, any set of disallowed operators',
  'Only fast-forwarding recipes on two domains touch this cost function.',
  ['src/lib.rs', 'src/language.rs'], [('ExtractableAstSize', 'src/lib.rs')])
P('P16', 'Merging e-classes keeps what is known about both',
  'When two e-classes are merged, a position of the value vector is defined afterwards if it was defined in either, with that value; the interval is the intersection; the representative term is the smaller one; the outcome is reported as changed for each side whenever it differs from that side; contradicting values or empty intervals are refused, not silently accepted.',
  ['inputs', 'histories'], 'all pairs of class data with value vectors up to the stated length',
  'The merge is only exercised by recipes whose classes agree already.',
  ['src/language.rs', 'src/lib.rs'], [('SynthAnalysis::merge/make/modify', 'src/language.rs'), ('Interval::new', 'src/lib.rs')])
P('P17', 'Applying a rule equates only what the rule says, where defined',
  'Running a rule over an e-graph merges a matched class with the corresponding instance of the right-hand side if both are defined on at least one sample (or carry no samples), never merges an everywhere-undefined class with another, and adds no equation that is not an instance of a rule in the set.',
  ['inputs', 'histories'], 'all sample vectors of the harness e-graph, all rules of the pool, all models of the rules',
  'Undefinedness guards matter only for partial operators, which the tested recipes meet on a few terms.',
  ['src/enumo/rule.rs', 'src/language.rs'], [('Rhs::apply_one', 'src/enumo/rule.rs'), ('Signature::is_defined', 'src/language.rs')])
P('P18', 'Schedulers stay sound, compress never grows, input is untouched',
  'Whatever the rules and limits, every scheduler leaves its input e-graph unchanged and merges two terms only if the equality follows from the rules; compressing never adds an e-class and merges exactly those original classes that the simple scheduler with the same limits merges; the saturating scheduler applies the saturating rules to a fixpoint and so merges at least what they imply.',
  ['inputs', 'histories', 'configurations'], 'all rule subsets of the pool, start terms and limits up to the stated bounds',
  'Schedulers are only used inside recipes; no test compares their outcomes.',
  ['src/enumo/scheduler.rs', 'src/enumo/rule.rs'], [('Scheduler::run_internal', 'src/enumo/scheduler.rs')])
P('P19', 'Value-vector matching proposes exactly the agreeing pairs',
  'Matching an e-graph proposes, in both directions where the direction is a legal rule, exactly the pairs of distinct classes that agree at every position where both are defined and are both defined at one position at least; classes undefined everywhere take no part.',
  ['inputs'], 'all assignments of (possibly undefined) values to the classes of the harness e-graph within the stated sizes',
  'No unit test of the matcher exists; recipes only count final rules.',
  ['src/enumo/ruleset.rs'], [('Ruleset::cvec_match', 'src/enumo/ruleset.rs')])
P('P20', 'Fast matching proposes exactly the identical vectors',
  'Fast matching proposes a rule for every pair of distinct defined classes with identical value vectors, and for no other pair.',
  ['inputs'], 'all assignments of (possibly undefined) values to the classes of the harness e-graph within the stated sizes',
  'No unit test of the matcher exists; recipes only count final rules.',
  ['src/enumo/ruleset.rs'], [('Ruleset::fast_cvec_match', 'src/enumo/ruleset.rs')])
P('P21', 'Merge-based candidates are exactly the newly merged pairs',
  'Comparing an e-graph before and after a run proposes, for each pair of classes that were distinct before and are merged after, the rules between their smallest allowed terms, in both directions where legal, and proposes nothing else, in particular nothing mentioning a disallowed operator.',
  ['inputs', 'histories'], 'all merge sets over the harness e-graph and all sets of disallowed operators within the stated sizes',
  'Only whole fast-forwarding recipes reach it.',
  ['src/enumo/ruleset.rs'], [('Ruleset::extract_candidates', 'src/enumo/ruleset.rs')])
P('P22', 'Minimisation keeps only valid rules and loses no derivable power',
  'Whatever the candidates, the prior rules and the validator\'s verdicts, minimisation terminates and returns as chosen only rules that were candidates, that the validator accepts and that are not prior rules, returns as invalid only candidates that the validator does not accept, and every candidate accepted by the validator that is not returned is equated by the prior and chosen rules.',
  ['inputs', 'histories'], 'all subsets of a candidate pool, all prior subsets, all verdict tables over the pool',
  'Recipes run one fixed verdict table and check counts.',
  ['src/enumo/ruleset.rs'], [('Ruleset::minimize, select, shrink', 'src/enumo/ruleset.rs')])
P('P23', 'Derivability is sound and splits a ruleset exactly',
  'If a ruleset is reported to derive a rule then the rule holds in every model of the ruleset; a rule that is in the ruleset is always derivable when both sides are given; deriving partitions the target ruleset into the derivable and the others, nothing lost or duplicated; and deriving from the left side alone never succeeds where both sides fail.',
  ['inputs', 'configurations'], 'all rule subsets of the pool, all targets, all finite models over the stated carrier, both modes',
  'Tests check a few derivations expected to succeed; soundness quantifies over all models.',
  ['src/enumo/ruleset.rs', 'src/enumo/scheduler.rs'], [('Ruleset::can_derive/derive', 'src/enumo/ruleset.rs')])
P('P24', 'Rule inference returns only new, valid rules',
  'Whatever the workload, the prior rules and the validator\'s verdicts, running rule inference in either matching mode, recursively over a grammar with operators of any arity, or by fast-forwarding returns only rules the validator accepts, over the operators of the workload, that are not merely the prior rules again; when every candidate is accepted, workload terms that agree on every sample are equated by the prior and learned rules together; rules found by fast-forwarding follow from the prior and exploratory rules and mention no disallowed operator.',
  ['inputs', 'histories', 'configurations'], 'all verdict tables and sample tables over the harness workloads',
  'Each recipe test is one run of one domain.',
  ['src/recipe_utils.rs', 'src/enumo/ruleset.rs'], [('run_workload, run_fast_forwarding, recursive_rules', 'src/recipe_utils.rs')])
P('P25', 'The result log appends and never loses rows',
  'Each logging call appends exactly one row to the JSON array in the result file, keeping all earlier rows unchanged and in order, and the row lists exactly the rules, names and derivability split it was given.',
  ['inputs', 'histories'], 'all rulesets of the pool, all earlier contents up to the stated number of rows',
  'Tests that log never read the file back.',
  ['src/logger.rs'], [('add_json_to_file, write_baseline, write_bv_derivability, write_ff_phase', 'src/logger.rs')])
P('P26', 'Rule inference is insensitive to worker-thread interleaving',
  'Partitioning and deriving give the same answer whatever the number and interleaving of worker threads.',
  ['schedules'], 'all interleavings of the worker pool',
  'A test run takes one schedule.',
  ['src/enumo/ruleset.rs'], [('Ruleset::partition', 'src/enumo/ruleset.rs')],
  na='needs the work-stealing pool (rayon/crossbeam lock-free deques and futex parking) executed under symbolic schedules; the executor runs the pool on one thread, so interleavings are outside its encoding (the sequential meaning of partition is decided by P12)')
P('P27', 'The nightly report shows what the log contains',
  'The generated report tables show one row per logged row with the logged counts and times.',
  ['inputs'], 'all log files', 'The report is never tested.',
  ['infra'], [('report generator', 'infra')],
  na='the report generator is browser/Node JavaScript and shell, for which no symbolic encoding is within reach here; the rows it reads are decided by P25')

LEVEL = 'bounded symbolic execution of the optimised LLVM IR of ruler, egg, rayon (one thread) and std as compiled from the current tree; every path condition and assertion decided by z3 for all values within the bounds listed in the evidence; counterexamples and sampled paths are replayed natively. Trusts the executor (cross-checked by the replays), z3, rustc and the stated stubs (constant hash functions, deterministic clock, in-memory files).'
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for t, _ in T: f.write(json.dumps(t) + '\n')
    na = [{'property': t['id'], 'reason': n or 'check not built yet'} for t, n in T if n or t['id'] not in PROPS]
    m = dict(json.load(open(V + '/manifest.base.json')))
    m['checks'] = [{'property': t['id'], 'quick_cmd': f'VERIF_TIER=quick python3 check.py {t["id"]}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {t["id"]}', 'evidence_file': f'evidence/{t["id"]}.json',
        'technique': 'symbolic execution of the compiled code (LLVM IR) with z3', 'level': 'model_checking', 'level_note': LEVEL} for t, n in T if t['id'] in PROPS]
    m['not_applicable'] = na
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
main()
