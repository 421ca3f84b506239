"""Which spec decides which property, and what is assumed."""
import importlib
SPECS = {'C01': 'spec_shape.c01', 'C02': 'spec_tensor.c02', 'C03': 'spec_tensor.c03', 'C04': 'spec_arith.c04', 'C05': 'spec_reduce.c05', 'C06': 'spec_matmul.c06', 'C07': 'spec_values.c07', 'C08': 'spec_slice.c08', 'C09': 'spec_act.c09', 'C10': 'spec_act.c10', 'C11': 'spec_fc.c11', 'C12': 'spec_conv.c12', 'C13': 'spec_pool.c13', 'C14': 'spec_small.c14', 'C15': 'spec_bn.c15', 'C16': 'spec_small.c16', 'C17': 'spec_opt.c17', 'C18': 'spec_loss.c18', 'C19': 'spec_model.c19', 'C21': 'spec_factory.c21', 'C20': 'spec_mnist.c20', 'C22': 'spec_gen.c22'}
MULT = {}
LIMITS = {
    'C20': ['a file is a sequence of bytes of known length that does not change while it is read; std::ifstream opens it exactly if it exists'],
    'C15': ['epsilon of the batch normalization layer is larger than 1e-24 (below it reciprocal() clamps)'],
}
LEVEL = {}
TRUSTED = [
    'clang 18 front end: the JSON AST of the headers at element type float is what the compiler compiles',
    'dv/interp.py, dv/loops.py: symbolic execution of that AST and the loop rule (invariants are proposed by the engine and proved inductive)',
    'dv/stdlib.py: contracts assumed for the C++ standard library (vector, optional, unique_ptr, unordered_map, algorithms, cmath, random, streams)',
    'dv/terms.py, dv/prover.py: polynomial and summation normaliser; z3 4.x for the remaining integer and real goals',
    'float and double arithmetic is treated as exact real arithmetic with an infinity, overflow of float to infinity and NaN not modelled',
    'the number of elements of every tensor fits an int; int and size_t arithmetic on positions below that is exact',
    'OpenMP parallel loops: iterations are proved to write disjoint elements and no shared scalar (otherwise a data race is reported) and to read no element another iteration writes, then treated as sequential; a variable in a clause is taken to be a reduction if the loop adds to it, otherwise the loop is undecided',
    'ranks are enumerated (see the scenario names), dimensions, values and indices are arbitrary',
]
def spec(i):
    n = SPECS.get(i)
    if n is None: return None
    m, f = n.split('.')
    return getattr(importlib.import_module(m), f)
def mult(i): return MULT.get(i, 3)
def limits(i): return LIMITS.get(i, [])
def level(i): return LEVEL.get(i, 'proof')
def assumptions(i): return TRUSTED[4:] + LIMITS.get(i, [])
def technique(i): return "contract-based deductive verification: contracts on the real functions (clang AST of /repo's headers, extracted on every run), loop invariants proved inductive, obligations discharged by a polynomial/summation normaliser and z3"
def note(i):
    return ('Proved for all dimensions, values and indices at the ranks listed in the evidence (scenario names); floats are reals, std is assumed by contract. '
            'A bounded differential harness on the compiled code replays counterexamples and stands in, labelled bounded, where a scenario is undecided.')
