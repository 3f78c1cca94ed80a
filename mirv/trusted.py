"""What the checks rest on without proving it."""
BASE = [
    'rustc: the MIR that the nightly compiler makes of the current source (mir-opt-level=0, overflow checks on) means what the compiled crate does',
    'mirx: the dump of that MIR, monomorphised, and mirv: its symbolic execution and rewriting',
    'models of std, pyo3, regex and anyhow functions (mirv/models.py), each a contract assumed on a dependency',
    'nom: the leaf recognisers (tag, take_while, one_of, digit1, multispace, ...) and the repetitions (many0, many1, separated_list) by contract (mirv/nomm.py); '
    'all other combinators are executed from their own MIR',
    'black: an assumed contract, what it does (a text or an exception) is determined by the arguments it is given, and the text it returns means the same code',
    'pyo3 calls into Python (import, getattr, call): the result or the exception is determined by the operands',
    'the specifications themselves (mirv/spec/*.py)',
]


def assumptions(res):
    a = ['Python strings, lists and numbers cross the pyo3 boundary unchanged; spans and reference counts do not influence results',
         'allocation does not fail and recursion over the syntax tree does not exhaust the stack',
         'HashMap and HashSet: iteration order is arbitrary, contents are as for mathematical sets and maps',
         'logging calls have no effect on results',
         'termination is not proved (partial correctness)']
    us = sorted({m for r in res for m in r.get('models', ())})
    if us:
        a.append('models assumed of external functions (%d): %s' % (len(us), ', '.join(us)))
    ex = sorted({m for r in res for m in r.get('ext', ())})
    if ex:
        a.append('external functions left uninterpreted (a value that their arguments determine, no panic): ' + ', '.join(ex))
    return a
