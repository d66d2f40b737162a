"""Author-side tool: DESIGN.md from the properties, the check modules, the planted-bug results and the text here."""
import glob, importlib, json, sys
sys.path[:0] = ['/verif', '/repo']
sys.dont_write_bytecode = True

HEAD = '''# ModularCalculator runtime monitors: design

ModularCalculator is a pure-Python, single-threaded library: a text goes in, typed results, a variable store and an
annotated parse come out. There is no native code, no shared memory and no I/O of its own (except reading the file of an
external function), so the compiler sanitizers and race detectors of the family have nothing to instrument. What is left
of the technique - and what every property here is decided with - is *the real code, driven through its public
interface by generated workloads, with an online oracle judging every observed result*. `not_applicable` is empty.

## How every check works (`rv/core.py`)

* `./run.sh Cxx --tier quick|thorough --seed N` imports the working tree of /repo (nothing is built or cached; byte code
  is not written), forks 8 workers with a memory limit, and runs `gen(rng, i) -> case`, `run(case, monitor)`. A case is
  JSON, depends only on (seed, property, i), and is written to `evidence/replays/` with the violation; `--replay FILE`
  repeats it, and modules with `shrink` minimise it first.
* The oracle is one of: an **independent reference model** (exact rationals, a day-count calendar, a position-by-position
  decoder, a table of published unit factors, an interpreter of the function calls ...), a **metamorphic relation**
  between executions (layouts, orders, histories, notations, array positions), or a **deep-snapshot monitor** (state
  before/after). None looks at the source text or at internals other than the documented objects (`vars`,
  `unit_normaliser`, `feature_options`, results and items).
* `monitor.obs(kind, key)` counts every deciding comparison and the distinct inputs observed. `NEED` in each module is a
  minimum per kind of observation: a run that did not observe enough ends with INCONCLUSIVE (exit 3) and never as "held".
* An unexpected exception coming out of the code under test, a case that burns 40 s of CPU (cases cost milliseconds), or
  memory exhaustion is a violation; an exception raised by the harness is a harness error (exit 3).
* No oracle depends on the wall clock, on machine load or on the order of hashing (`PYTHONHASHSEED=0`, `TZ=UTC`); `now()` is
  only judged against the clock read before and after.
* Cases outside the stated domain of a property are skipped and counted (`skips` in the evidence).
* Resource hostility is avoided on purpose: no `10^10^10`, no factorials of huge numbers, no places in the millions, no
  unit products with more than about ten different units (merging them is exponential in the code).
* External-function files are written to a scratch directory made and removed by the check; the code under test only
  reads them.

No hooks were added to /repo: everything needed is observable from outside (`hooks` in MANIFEST.json is empty). The only commits
are repairs (`fix:`).

## Levels

All checks are dynamic: *held* means held on everything explored, which the evidence file quantifies. They are not proofs.
The thorough tiers use 10 to 50 times the cases of the quick ones.
'''

REACH = {
'C01': 'Unit tests hold a few dozen expressions; precedence, associativity and exactness interact for every operator sequence, literal form and preset. The model is a separate precedence-climbing evaluator over fractions.',
'C02': 'Every tree, statement and highlight offset is re-added up on every text, including texts damaged at a random point; the generator knows its own tokens, so a token boundary moved by one character is seen.',
'C03': 'Failing operations of known kind and offset are planted at any nesting level (brackets, arrays, functions, several statements), as is junk; what must come out is the kind of exception, the results before it and the exact position.',
'C04': 'A hidden cache or a half-undone change needs a particular earlier call. One calculator lives through a long history of valid, failing, parse-only, stateless and configuration-changing calls; a fresh one only through what should matter.',
'C05': 'Each step is judged twice: by a model of the map, and against the plain operator. Aliasing between variables, arrays and quantities shows in the read-back of *all* variables after *every* step.',
'C06': 'The store is compared deeply (identity included) before/after flagged calls with texts that attempt to write; snapshots are checked when taken and again after later mutations.',
'C07': 'Snapshots of all variables, constants and of results handed out earlier; reading twice must give the same twice.',
'C08': 'The reference interpreter implements dynamic scope, positional PARAMs, declared inputs of external files, restoration after success and failure, recursion limits; external files are rewritten, replaced and removed between calls.',
'C09': 'All units x all units of a dimension, products and powers with prefixes; exact rationals against published factors, which the tests sample.',
'C10': 'Physical value and dimension are two conserved quantities, computed independently; simplification on and off must agree physically. Roots raised back check that powers are exact.',
'C11': 'Parts are added up again with the independent table, signs, zeros, temperatures, ambiguous names and every order of systems included.',
'C12': 'Independent positional decoder for every literal form, malformed literals one digit off, read-back of everything printed.',
'C13': 'Exact rounding of the rational value, every setting of places, size and rounding, and number types.',
'C14': 'The calculator itself is the oracle for each position: scalar operations of the element expression. Errors in single positions and mismatched lengths are planted.',
'C15': 'List model over exact rationals; ranges with tiny, huge, decimal and unit-mixed steps; close values, sorting stability and uniqueness.',
'C16': 'Lazy evaluation is only visible when a branch fails: failing sub-expressions are planted everywhere; order laws are checked on triples.',
'C17': 'Texts over the whole character range including those that mean something to the parser; trees of operations against character lists; literal round trip.',
'C18': 'The pattern and text space is sampled by construction (a pattern is generated together with texts that do and do not match); complement and rejoin laws are independent of the library.',
'C19': 'An independent day-count calendar with microsecond integers judges all arithmetic; edges of months, years, calendar and zones are over-sampled.',
'C20': 'Layout is a dimension tests cannot enumerate; each program is executed in several renderings.',
'C21': 'Subsets and orders of ~75 features; the tests build one preset in one order.',
'C22': 'Interleavings call by call (deterministic), threads handed a calculator, and preemptive threads with a tiny switch interval; the reference is a pristine process forked before any calculator existed. Distinct interleavings are in the evidence.',
'C23': 'Exact definitions for what is rational, series of 50 digits for what is not, near-integers and values closer than a float can tell apart.',
'C24': 'Every object of a random operation history is shadowed by a Fraction and re-checked, so in-place changes of operands are seen later.',
'C25': 'Integer model carrying representation and written width.',
'C26': 'Each signature is attacked in each position: count, type, dimension.',
'C27': 'All names, plurals, symbols and prefixes in all surroundings; reading back what is displayed.',
'C28': 'Library reference plus identities that do not use it.',
'C29': 'Programs over every construct translated token by token; options set before first use, on a used calculator, and set again.',
'C30': 'The monitor is the host: its callables log every call they get. The model is the declaration itself (counts, types, ranges, dimensions, flags), grouping by levels, exact unit factors, and the declared order of features.',
}

FALSE = '''
## False alarms corrected on the way

These were mistakes of a check or of the property as first worded; the check was corrected, nothing was listed as a finding.

* C01: powers with non-integer exponents and intermediates over 97 digits are not exact by design: outside the property.
* C02: zero-length items (an empty range step) are legal; highlight lists may merge neighbouring whitespace.
* C03: the position of a failure inside a function *called through a pointer* is that of the call, not of the body.
* C03: "does not finish" was alarmed for `exp(10000)`, which takes 35 s of honest work at the default precision: the generator asks for arguments up to 1000, and in every check a time-out only counts when the case also overruns three times its budget on a second run (otherwise it is a skipped case, reported in the evidence; `slowest_case_cpu_s` shows the margin).
* C04: error *messages* quote representations that may differ with the stored number type; outcomes are compared by kind, position, values.
* C05: a compound assignment keeps the representation of the variable, not of the operand (was a defect, fixed); `||=` evaluates its right side only when unset.
* C09/C10: the sum or comparison of two quantities whose dimensions cancelled out is unspecified and skipped; zero in an offset unit is not zero.
* C10: the mixed-workload monitor shared a calculator whose simplification had been switched on by an earlier case; it now states the setting it needs.
* C13/C29: a number read back from its displayed text is only the number rounded to the places: read-back is judged by text.
* C14: broadcasting an aggregate over arrays with a failing position is unspecified.
* C15: `step 0`, index 0 and negative indexes are unspecified and not generated.
* C18: patterns with several groups return tuples by definition of the library; not generated.
* C19: durations below a microsecond are judged to one microsecond.
* C20: minimal layouts must not glue characters that could form a longer token (`- -5`, `2 E`, `5 %`): the renderer has the rule, not the oracle.
* C21: the order of *separate* install calls has to respect the declared `after()`; within one call it is free.
* C28: scipy gives `nan` in places where its documentation gives an error; either is accepted at such points, conditioning near poles is measured.
* C29: symbols that begin like an operator or a name change the meaning of other text: the generator keeps them apart.
* Parsing while typing is not free of evaluation: a terminator makes the statement before it be tried; generated programs stay within cheap operations.
'''

QUIET = '''
## Staying quiet on edits that keep the behaviour

Checks judge only observable behaviour, so renamed helpers, reordered statements, rewritten loops, other exception *texts* and
other internal attributes do not matter. What a check does rely on: the public names used by the README (calculate, vars,
install_features, feature_options, unit_simplification_set, unit_normaliser.systems_preference, number settings), the result,
item and number objects, and feature identifiers. Error *messages* are never compared with a constant; C26 only asks that the
message names the operation.
'''


def main():
    props = {json.loads(l)['id']: json.loads(l) for l in open('/verif/properties.jsonl')}
    kf = json.load(open('/verif/known_findings.json'))['findings']
    seeded = json.load(open('/verif/tools/seeded.json'))
    out = [HEAD, '\n## Properties\n']
    for m in sorted(glob.glob('/verif/rv/checks/c??_*.py')):
        C = importlib.import_module('rv.checks.' + m.split('/')[-1][:-3])
        p = props[C.ID]
        out.append('### {} {}\n'.format(C.ID, p['title']))
        out.append(p['statement'] + '\n')
        out.append('* **Decided by** ({}): {}.'.format('rv/checks/' + m.split('/')[-1], C.TECHNIQUE))
        out.append('* **Workload**: {}.'.format(C.RULE))
        if getattr(C, 'ASSUMPTIONS', None):
            out.append('* **Outside / assumed**: {}.'.format('; '.join(C.ASSUMPTIONS)))
        out.append('* **Bounds**: {} generated cases quick, {} thorough{}; must observe at least: {}.'.format(C.BUDGET['quick'], C.BUDGET['thorough'], ' plus enumerated ones' if hasattr(C, 'fixed') else '', ', '.join('{} {}'.format(v, k.replace('_', ' ')) for k, v in C.NEED.items())))
        try:
            e = json.load(open('/verif/tools/cost.json'))[C.ID]
            out.append('* **Cost** (8 cores): about {} s quick{}.'.format(e['quick'], ', {} s thorough'.format(e['thorough']) if e.get('thorough') else ''))
        except (OSError, KeyError):
            pass
        out.append('* **Reach**: ' + REACH[C.ID])
        mine = sorted(k for k, v in seeded.items() if v['property'] == C.ID)
        if mine:
            out.append('* **Planted bugs**: ' + ', '.join('{} ({})'.format(k, 'caught' if seeded[k]['results'][C.ID]['caught'] else 'MISSED') for k in mine) + '.')
        fx = [f for f in kf if f['property'] == C.ID]
        if fx:
            out.append('* **Defects found and fixed**: ' + '; '.join('{} {}'.format(f['commit'], f['what'].split(f['commit'] + ' ', 1)[1]) for f in fx if f['status'] == 'fixed') + '.')
            for f in fx:
                if f['status'] != 'fixed':
                    out.append('* **Known finding**: ' + f['what'])
        out.append('')
    out.append(FALSE)
    out.append(QUIET)
    out.append('## Planted bugs\n')
    out.append('`seeded/<id>/` holds patch, demonstration and what it needs. Each passes the 1080 tests. First column of checks: the check of its property; '
               '"cases" is how many cases the check had judged when it stopped.\n')
    out.append('| bug | property | needs | breaks | caught by | cases |')
    out.append('|---|---|---|---|---|---|')
    for k in sorted(seeded):
        v = seeded[k]
        by = [c for c, r in v['results'].items() if r['caught']]
        out.append('| {} | {} | {} | {} | {} | {} |'.format(k, v['property'], v['needs'].replace('|', '\\|'), v['breaks'].replace('|', '\\|'), ', '.join(by) or 'MISSED', v['results'][v['property']]['cases']))
    out.append('')
    out.append(open('/verif/tools/design_tail.md').read())
    open('/verif/DESIGN.md', 'w').write('\n'.join(out))


main()
