"""What each check runs: contract tasks (proved by pyvc) and bounded stand-ins."""
import itertools
import random
from types import SimpleNamespace

from oracle import cases as C
from oracle import pool, circ, perm, mat, hs, misc, pat, eqh, sub, prt
from oracle import exp as X
from pyvc.domain import SPEC
from specs import rules as R
from specs import methods as M
from specs import perms as PM
from specs import circuits as CI
from specs import slh as SL
from specs import matrix as MX
from specs import spaces as SPC
from specs import labels as LB
from specs import equation as EQS
from specs import caching as CA
from specs import identity as ID
from specs import simplify as SI
from specs import creates as CRE
from specs import subst as SUB
from specs import pattern as PAT
from specs import convert as CV

PROPS = {}
TRUSTED = [
    'pyvc (this repository): AST symbolic executor, normal forms of noncommutative *-polynomials, path enumeration',
    'z3 4.x (integer/set side conditions)',
    'CPython and SymPy 1.1.1 semantics of numbers: machine/SymPy arithmetic is treated as exact complex arithmetic',
    'denotation tables SPEC in pyvc/domain.py (the meaning given to every QNET class)',
]
ASSUME = [
    'partial correctness: a function that raises CannotSimplify (or a documented exception) satisfies its contract',
    'Kronecker deltas summed over an index refer to values inside its range (documented default of '
    '_RESOLVE_KRONECKER_WITH_PIECEWISE)',
    'angles of Phase operators are real',
]


class Task:
    def __init__(self, name, func, fn, search=None, time_limit=60.0, soft=False):
        self.name, self.func, self.fn, self.search, self.time_limit = name, func, fn, search, time_limit
        self.soft = soft         # depends on sidecar loop invariants: without a failing input, open = undecided


def prop(pid, tasks=None, bounded=None, level='proof', trusted=(), assume=()):
    PROPS[pid] = SimpleNamespace(tasks=tasks, bounded=bounded, level=level, trusted=trusted, assume=assume)


# ------------------------------------------------------------ helpers

def create_group(classes, rng, n):
    for c in classes:
        yield from C.create_cases(c, rng, n)


def pairs_group(classes):
    for c in classes:
        yield from C.pair_cases(c, pool.POOL[SPEC[c].var[1]])


def sample(it, rng, frac):
    for c in it:
        if rng.random() < frac:
            yield c


def search_class(cls):
    def search(rng):
        yield from C.create_cases(cls, rng, 1500)
        sp = SPEC[cls]
        if sp.var and sp.var[1] != 'range' and not sp.pos:
            yield from C.pair_cases(cls, pool.POOL[sp.var[1]])
        if cls in ('OperatorTimes', 'OperatorTimesKet', 'BraKet', 'KetBra', 'Displace', 'Squeeze', 'Phase', 'Adjoint', 'CoherentStateKet'):
            yield from C.coh_cases()
    return search


def rule_tasks(classes):
    def filt(c, attr, k):
        return c.__name__ in classes
    out = []
    for name, fn in R.tasks(filt):
        cls = name.split('.')[0]
        out.append(Task(name, 'qnet.algebra._rules:' + name, fn, search_class(cls)))
    return out


def sort_of(src, S=pool):
    for nm, P in (('op', S.OP), ('ket', S.KET), ('sop', S.SOP), ('scalar', S.SCALAR)):
        if src in P:
            return nm
    if src.startswith('(') and src.endswith(').dag()') and src[1:-7] in S.KET:
        return 'ket'
    return 'native'


def binops(main, *sorts):
    """binary operator cases with an operand of sort `main`, all operands of the given sorts"""
    for c in C.binop_cases():
        s = {sort_of(a) for a in c['args']} - {'native'}
        if main in s and s <= {main} | set(sorts):
            yield c


def unaries(ops, sorts=('op', 'ket', 'sop', 'scalar')):
    for c in C.unary_cases():
        if c['op'] in ops and sort_of(c['args'][0]) in sorts:
            yield c


OP_CLASSES = ['OperatorPlus', 'OperatorTimes', 'ScalarTimesOperator', 'Commutator', 'Displace', 'Phase', 'Squeeze',
              'Adjoint', 'PseudoInverse', 'NullSpaceProjector', 'OperatorPlusMinusCC', 'LocalSigma']
KET_CLASSES = ['KetPlus', 'TensorKet', 'ScalarTimesKet', 'OperatorTimesKet', 'BraKet', 'KetBra', 'Bra', 'BasisKet',
               'CoherentStateKet']
SOP_CLASSES = ['SuperOperatorPlus', 'SuperOperatorTimes', 'ScalarTimesSuperOperator', 'SuperAdjoint', 'SPre', 'SPost',
               'SuperOperatorTimesOperator']
SC_CLASSES = ['ScalarPlus', 'ScalarTimes', 'ScalarPower']
SUM_CLASSES = ['OperatorIndexedSum', 'KetIndexedSum', 'ScalarIndexedSum']


RANK = ['native', 'scalar', 'op', 'ket', 'bra', 'sop']
UNARY_OP = {'_adjoint': ('adjoint', 'conjugate'), 'adjoint': ('adjoint',), 'dag': ('adjoint',), 'conjugate': ('conjugate', 'adjoint'),
            '_expand': ('expand',), 'expand': ('expand',), '_simplify_scalar': ('simplify_scalar',), 'simplify_scalar': ('simplify_scalar',),
            '_doit': ('doit',), '_diff': ('diff',), 'diff': ('diff',), '__neg__': ('-',)}


def _pool(s):
    return 'ket' if s == 'bra' else s


def search_method(name, g, og=None):
    def search(rng):
        if og is None:
            yield from unaries(UNARY_OP[name], (_pool(g),))
            if name in ('_adjoint', 'adjoint', 'dag'):
                yield from b13_constructed(rng, 400)
            return
        op = M.OPNAME[name]
        sorts = {_pool(g), _pool(og)}
        for c in C.binop_cases():
            if c['op'] == op and {sort_of(a) for a in c['args']} <= sorts | {'native', 'scalar'} and \
                    sorts <= {sort_of(a) for a in c['args']} | {'native', 'scalar'}:
                yield c
    return search


def method_tasks(names, want):
    """contract tasks of the methods in `names` whose operand sorts satisfy want(g, og, owner)"""
    out = []
    info = {}

    def filt(g, name, nm):
        og = nm.rsplit(':', 1)[1] if name in M.OPNAME else None
        ok = name in names and want(g, og, nm)
        if ok:
            info[nm] = (name, g, og)
        return ok
    for nm, fn, w in M.tasks(filt):
        name, g, og = info[nm]
        out.append(Task(nm, w, fn, search_method(name, g, og)))
    return out


BINARY = tuple(M.OPNAME)


def top(g, og):
    return max((x for x in (g, og) if x), key=RANK.index)


def scale(tier, n):
    return n if tier == 'quick' else n * 8


# ------------------------------------------------------------ C05 operators

def b05(rng, tier):
    yield 'operator constructors', create_group([c for c in OP_CLASSES if c in SPEC], rng, scale(tier, 250))
    yield 'pairs', sample(pairs_group(['OperatorTimes', 'OperatorPlus']), rng, 1 if tier != 'quick' else .5)
    yield 'displacement, squeezing, coherent states', C.coh_cases()
    yield 'arithmetic on operators', sample(binops('op', 'scalar'), rng, .15 if tier == 'quick' else 1)


# the simplifications shared by the classes and the `create` methods

PRODUCT = ('assoc', 'match_replace', '_get_binary_replacement', '_match_replace_binary_combine', '_match_replace_binary', 'match_replace_binary')
ORDER = ('orderby', 'orderby (sorted)', 'order_key.OperatorTimes', 'order_key.SuperOperatorTimes', 'KeyTuple.__lt__')
SHARED = {
    'C03': PRODUCT + ('filter_cid', 'check_cdims'),
    'C05': PRODUCT + ORDER + ('filter_neutral', 'collect_summands', 'scalars_to_op', 'implied_local_space', 'delegate_to_method.Adjoint',
                              'delegate_to_method.PseudoInverse', 'disjunct_hs_zero', 'commutator_order', 'create.ScalarTimesOperator'),
    'C06': PRODUCT + ORDER + ('filter_neutral', 'disjunct_hs_zero', 'commutator_order'),
    'C07': PRODUCT + ORDER + ('filter_neutral', 'collect_summands', 'accept_bras', 'create.TensorKet', 'create.ScalarTimesKet'),
    'C08': PRODUCT + ORDER + ('filter_neutral', 'collect_summands', 'delegate_to_method.SuperAdjoint', 'create.SuperOperatorTimes',
                              'create.ScalarTimesSuperOperator'),
    'C09': PRODUCT + ('orderby', 'filter_neutral', 'collect_scalar_summands', 'convert_to_scalars', 'create.ScalarTimes', 'create.ScalarValue'),
    'C10': ('create.ScalarIndexedSum', 'create.KetIndexedSum', 'match_replace'),
    'C26': ('orderby', 'orderby (sorted)', 'KeyTuple.__lt__', 'filter_neutral'),
}


def shared_tasks(pid, bounded):
    want = lambda nm: nm.split('(')[0].strip() in SHARED[pid] or nm in SHARED[pid]
    search = lambda rng: flat(bounded(rng, 'quick'))
    return soft_tasks(SI, want, search) + soft_tasks(CRE, want, search)


prop('C05', lambda: shared_tasks('C05', b05) + rule_tasks(OP_CLASSES) + method_tasks(BINARY + ('__neg__',), lambda g, og, nm: top(g, og) == 'op'), b05)


# ------------------------------------------------------------ C06 ordering

_SP = ['q1', 'q2', 'q3', 'q1*q2', 'q2*q3', 'q1*q3']


def b06(rng, tier):
    def gen():
        for _ in range(scale(tier, 1500)):
            n = rng.choice([3, 4, 4, 5, 6])
            args = []
            for i in range(n):
                args.append('OperatorSymbol("%s", hs=%s)' % (rng.choice('ABCD'), rng.choice(_SP)))
            if rng.random() < .3:
                args[rng.randrange(n)] = rng.choice(['Create(hs=f1)', 'Destroy(hs=f1)', 'LocalSigma("g","e",hs=q1)',
                                                     'LocalProjector(1, hs=q2)', 'IdentityOperator', 'alpha*OperatorSymbol("A", hs=q1*q2)'])
            yield dict(kind='create', cls='OperatorTimes', args=args)
    yield 'products on overlapping spaces', gen()

    def gens():
        for _ in range(scale(tier, 300)):
            n = rng.choice([2, 3, 3, 4])
            args = []
            for i in range(n):
                t = rng.choice(['SPre(OperatorSymbol("%s", hs=%s))', 'SPost(OperatorSymbol("%s", hs=%s))', 'SuperOperatorSymbol("%s", hs=%s)'])
                args.append(t % (rng.choice('AB'), rng.choice(['q1', 'q2', 'q1*q2'])))
            yield dict(kind='create', cls='SuperOperatorTimes', args=args)
    yield 'products of super-operators', gens()

    def genk():
        for _ in range(scale(tier, 300)):
            ks = rng.sample(['KetSymbol("Psi", hs=q1)', 'KetSymbol("Phi", hs=q2)', 'BasisKet(0, hs=q3)', 'BasisKet(1, hs=f1)',
                             'KetSymbol("Chi", hs=q1*q2)', 'alpha*KetSymbol("Phi", hs=q3)', 'BasisKet(2, hs=f2)'], 3)
            yield dict(kind='create', cls='TensorKet', args=ks)
    yield 'tensor products of states', genk()


prop('C06', lambda: shared_tasks('C06', b06), b06)


# ------------------------------------------------------------ C07 states

def b07(rng, tier):
    yield 'state constructors', create_group([c for c in KET_CLASSES if c in SPEC], rng, scale(tier, 300))
    yield 'pairs', sample(pairs_group(['TensorKet', 'KetPlus']), rng, 1 if tier != 'quick' else .6)
    yield 'arithmetic on states', sample(binops('ket', 'op', 'scalar'), rng, .15 if tier == 'quick' else 1)
    yield 'coherent states', C.coh_cases()


prop('C07', lambda: shared_tasks('C07', b07) + rule_tasks(KET_CLASSES) + method_tasks(BINARY + ('__neg__',), lambda g, og, nm: top(g, og) in ('ket', 'bra')), b07)


# ------------------------------------------------------------ C08 super-operators

def b08(rng, tier):
    yield 'super-operator constructors', create_group([c for c in SOP_CLASSES if c in SPEC], rng, scale(tier, 300))
    yield 'pairs', pairs_group(['SuperOperatorTimes', 'SuperOperatorPlus'])
    yield 'arithmetic', sample(binops('sop', 'op', 'scalar'), rng, .2 if tier == 'quick' else 1)
    yield 'Lindblad equation', circ.lindblad_cases(rng, scale(tier, 60))


prop('C08', lambda: shared_tasks('C08', b08) + soft_tasks(SL, lambda nm: nm in SUPER, lambda rng: circ.lindblad_cases(rng, 400)) + rule_tasks(SOP_CLASSES) + method_tasks(BINARY + ('__neg__',), lambda g, og, nm: top(g, og) == 'sop'), b08)


# ------------------------------------------------------------ C09 scalars

def b09(rng, tier):
    yield 'scalar constructors', create_group(SC_CLASSES, rng, scale(tier, 500))
    yield 'arithmetic', binops('scalar')
    yield 'unary', unaries(('-', 'conjugate', 'complex', 'expand', 'simplify_scalar', 'rebuild'), ('scalar', 'native'))


prop('C09', lambda: shared_tasks('C09', b09) + rule_tasks(SC_CLASSES) + method_tasks(BINARY + ('__neg__', 'conjugate'), lambda g, og, nm: top(g, og) in ('scalar', 'native')), b09)


# ------------------------------------------------------------ C10 indexed sums

def has_sum(src):
    return 'IndexedSum' in src


def b10(rng, tier):
    yield 'constructors', create_group(SUM_CLASSES, rng, scale(tier, 500))
    yield 'arithmetic on sums', sample((c for c in C.binop_cases() if any(has_sum(a) for a in c['args'])), rng,
                                       .5 if tier == 'quick' else 1)
    yield 'unary on sums', (c for c in C.unary_cases() if has_sum(c['args'][0]))


ALL_UNARY = tuple(M.WANT)

prop('C10', lambda: shared_tasks('C10', b10) + rule_tasks(SUM_CLASSES) + method_tasks(BINARY + ALL_UNARY, lambda g, og, nm: 'IndexedSum' in nm), b10)


# ------------------------------------------------------------ C12 traces

def b12(rng, tier):
    def gen():
        sp = ['q1', 'q2', 'q3', 'q1*q2', 'q2*q3', 'q1*q3']
        for _ in range(scale(tier, 1200)):
            fs = ['OperatorSymbol("%s", hs=%s)' % (rng.choice('ABC'), rng.choice(sp)) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            if rng.random() < .5:
                fs[rng.randrange(len(fs))] = rng.choice(
                    ['LocalSigma("g", "e", hs=q1)', 'LocalSigma(0, 1, hs=q2)', 'LocalProjector("e", hs=q1)', 'LocalSigma(1, 0, hs=q2)',
                     'LocalProjector(0, hs=q3)', 'alpha', 'IdentityOperator', '(OperatorSymbol("A", hs=q1)+OperatorSymbol("B", hs=q2))'])
            yield dict(kind='create', cls='OperatorTrace', args=[' * '.join(fs)],
                       kwargs={'over_space': rng.choice(['q1', 'q2', 'q3', 'q1*q2', 'q2*q3', 'q1*q2*q3', 'TrivialSpace'])})
    yield 'traces of products', gen()
    yield 'traces', create_group(['OperatorTrace'], rng, scale(tier, 600))


prop('C12', lambda: rule_tasks(['OperatorTrace']), b12)


# ------------------------------------------------------------ C13 adjoint

def b13_constructed(rng, n):
    for c in create_group(['OperatorTimes', 'OperatorPlus', 'ScalarTimesOperator', 'Commutator', 'KetBra', 'OperatorPlusMinusCC',
                           'SuperOperatorTimes', 'SuperOperatorPlus', 'ScalarTimesSuperOperator', 'TensorKet', 'KetPlus',
                           'OperatorTimesKet'], rng, n):
        yield dict(kind='unary', op='adjoint', args=['(%s)' % C.text(c)], of=c)


def b13(rng, tier):
    yield 'adjoints', unaries(('adjoint', 'conjugate', 'dag'))
    yield 'adjoint of constructions', b13_constructed(rng, scale(tier, 120))
    yield 'constructors', create_group(['Adjoint', 'SuperAdjoint'], rng, scale(tier, 300))


prop('C13', lambda: rule_tasks(['Adjoint', 'SuperAdjoint', 'Bra']) + method_tasks(('_adjoint', 'adjoint', 'dag', 'conjugate'), lambda g, og, nm: True), b13)


# ------------------------------------------------------------ C14 substitution

def b14(rng, tier):
    yield 'substitute', sub.subst_cases(rng, scale(tier, 1500))
    yield 'single symbols', sample(unaries(('substitute', 'rebuild')), rng, .4 if tier == 'quick' else 1)
    yield 'rebuild', sub.rebuild_cases(rng, scale(tier, 300))
    yield 'matrices, circuits, equations', sub.parts_cases()


def subst_tasks():
    srch = lambda rng: flat(b14(rng, 'thorough'))
    return soft_tasks(SUB, search=srch) + soft_tasks(LB, lambda nm: nm.endswith('.substitute'), srch) + \
        soft_tasks(ID, lambda nm: nm.startswith('reconstruct.'), srch)


prop('C14', subst_tasks, b14)

# ------------------------------------------------------------ C17 diff


def b17(rng, tier):
    yield 'derivatives', unaries(('diff',))


prop('C17', lambda: method_tasks(('_diff', 'diff'), lambda g, og, nm: True), b17)

# ------------------------------------------------------------ C23 expand


def b23(rng, tier):
    yield 'expand / simplify', unaries(('expand', 'simplify_scalar', 'doit'))


prop('C23', lambda: method_tasks(('_expand', 'expand', '_simplify_scalar', 'simplify_scalar', '_doit'), lambda g, og, nm: True), b23)


# ------------------------------------------------------------ permutations

def b01(rng, tier):
    q = tier == 'quick'
    yield 'single permutations', perm.single_cases(6 if q else 8)
    yield 'not permutations', perm.bad_cases()
    yield 'pairs', perm.two_cases(rng, 4, 500 if q else 5000)
    yield 'block permutations', perm.block_cases(rng, 6 if q else 8, 2)
    yield 'block structures', perm.general_cases(rng, 6 if q else 7, 60 if q else 400)
    yield 'permutation circuits', circ.circuit_cases(rng, scale(tier, 150), ('create',))


def flat(groups):
    for _, g in groups:
        yield from g


def soft_tasks(mod, want=lambda nm: True, search=None, limit=240.0):
    return [Task(nm, w, fn, search, limit, True) for nm, fn, w in mod.tasks() if want(nm)]


prop('C01', lambda: soft_tasks(PM), b01)

# ------------------------------------------------------------ spaces, labels, matrices

def b11(rng, tier):
    yield 'spaces', hs.space1_cases(rng, scale(tier, 300))
    yield 'pairs of spaces', hs.space2_cases(rng, scale(tier, 400))


def b25(rng, tier):
    yield 'labels, indices, ranges, spin coefficients', hs.label_cases()


def b18(rng, tier):
    yield 'one matrix', mat.one_cases(rng, scale(tier, 250))
    yield 'two matrices', mat.two_cases(rng, scale(tier, 250))
    yield 'blocks', mat.block_cases(rng, scale(tier, 200))
    yield 'constructors, series', mat.misc_cases(rng, scale(tier, 100))


prop('C11', lambda: soft_tasks(SPC, search=lambda rng: flat(b11(rng, 'thorough'))), b11)
prop('C25', lambda: soft_tasks(LB, search=lambda rng: flat(b25(rng, 'thorough'))), b25)
prop('C18', lambda: soft_tasks(MX, lambda nm: nm.split('.')[0] not in ('SLH', 'CPermutation'), lambda rng: flat(b18(rng, 'thorough'))), b18)

# ------------------------------------------------------------ equations

def b22(rng, tier):
    yield 'histories of equations', misc.equation_cases(rng, scale(tier, 600))


prop('C22', lambda: soft_tasks(EQS, search=lambda rng: flat(b22(rng, 'thorough'))), b22)

# ------------------------------------------------------------ caching, temporary settings

def b15(rng, tier):
    yield 'temporary settings', misc.settings_cases(rng, scale(tier, 150))
    yield 'histories of constructions', misc.history_cases(rng, scale(tier, 300))


prop('C15', lambda: soft_tasks(CA, search=lambda rng: flat(b15(rng, 'thorough'))), b15)

# ------------------------------------------------------------ pattern matching

def b16(rng, tier):
    yield 'matches', pat.match_cases(rng, scale(tier, 4000))
    yield 'searches', pat.find_cases(rng, scale(tier, 600))
    yield 'rules', pat.rule_cases(rng, scale(tier, 600))
    yield 'constructors', pat.make_cases()


def pat_tasks():
    srch = lambda rng: flat(b16(rng, 'thorough'))
    return soft_tasks(PAT, search=srch) + soft_tasks(SI, lambda nm: 'match_replace' in nm or nm == '_get_binary_replacement', srch)


prop('C16', pat_tasks, b16)

# ------------------------------------------------------------ equality

def b26(rng, tier):
    yield 'unequal labels, spaces, parameters', eqh.distinct_cases()
    yield 'equality and hash', eqh.eq_cases(rng, scale(tier, 4000))
    yield 'order of commuting arguments', eqh.order_cases(rng, scale(tier, 1500))
    yield 'rebuilt expressions', sub.rebuild_cases(rng, scale(tier, 150))


prop('C26', lambda: shared_tasks('C26', b26) + soft_tasks(ID, search=lambda rng: flat(b26(rng, 'thorough'))), b26)

# ------------------------------------------------------------ circuits

def b02(rng, tier):
    yield 'channel bookkeeping', circ.book_cases(rng, scale(tier, 500))
    yield 'mismatched dimensions', circ.mismatch_cases()


def b03(rng, tier):
    yield 'simplified circuits', circ.circuit_cases(rng, scale(tier, 500), ('create', 'creduce', 'inverse', 'rebuild'))
    yield 'feedback of permutations', perm.loop_cases(rng, scale(tier, 40))


def b04(rng, tier):
    yield 'SLH triples', circ.circuit_cases(rng, scale(tier, 300), ('toSLH', 'toSLHexp'))
    yield 'equations of motion', circ.eom_cases()
    yield 'coherent inputs, drives', (c for c in circ.toolbox_cases(rng, 40) if c['check'] in ('coherent', 'move_drive'))


def s04(rng):
    return flat(b04(rng, 'thorough'))


def b24(rng, tier):
    yield 'connect', circ.connect_cases(rng, scale(tier, 300))
    yield 'signals, padding, drives', circ.toolbox_cases(rng, scale(tier, 60))


BOOK = ('cdim', '_block_structure', 'index_in_block', 'get_blocks', '_get_common', 'CPermutation.create', 'circuit_identity')
TOOLBOX = ('map_channels', 'extract_channel', 'pad_with_identity', 'FB')


def is_book(nm):
    return any(x in nm for x in BOOK)


def is_tool(nm):
    return nm in TOOLBOX


prop('C02', lambda: soft_tasks(CI, is_book), b02)
prop('C03', lambda: shared_tasks('C03', b03) + soft_tasks(CI, lambda nm: not is_book(nm) and not is_tool(nm) and '_toSLH' not in nm), b03)
SUPER = ('liouvillian', 'lindblad', 'commutator', 'anti_commutator')

prop('C04', lambda: soft_tasks(CI, lambda nm: '_toSLH' in nm, s04) + soft_tasks(SL, lambda nm: nm not in SUPER, s04) +
     soft_tasks(MX, lambda nm: nm.split('.')[0] in ('SLH', 'CPermutation'), s04), b04)
prop('C24', lambda: soft_tasks(CI, is_tool), b24)

# ------------------------------------------------------------ conversions

def b19(rng, tier):
    yield 'operators, states, super-operators', X.qutip_cases(rng, scale(tier, 1200))
    yield 'SLH triples, time-dependent operators', X.slh_cases(rng, scale(tier, 100))


def b20(rng, tier):
    yield 'operators', X.sympy_cases(rng, scale(tier, 300))


prop('C19', lambda: soft_tasks(CV, lambda nm: 'sympy' not in nm.lower() and nm != 'basis_state'), b19)
prop('C20', lambda: soft_tasks(CV, lambda nm: 'sympy' in nm.lower() or nm == 'basis_state'), b20)


def b21(rng, tier):
    yield 'texts read back', prt.read_cases(rng, scale(tier, 5000))
    yield 'srepr', prt.srepr_cases(rng, scale(tier, 2500))
    yield 'circuits', prt.circuit_cases(rng, scale(tier, 1500))


prop('C21', None, b21)

# ------------------------------------------------------------ known findings

_KS = ['ScalarIndexedSum.create(BraKet.create(KetSymbol("Psi", hs=q2), BasisKet(FockIndex(i), hs=q2)), IndexOverRange(i, 0, 1))',
       'ScalarIndexedSum.create(ScalarValue.create(symbols("x")**i), IndexOverRange(i, 0, 2))',
       'ScalarIndexedSum.create(ScalarValue.create(x**i), IndexOverList(i, (1, 3)))']
_KC = misc.case('settings', [['with', 'rules', ['OperatorTimes'], False, [['with', 'inst', ['SuperOperatorTimes'], None, [
    ['make', misc.PROBES[1]], ['with', 'inst', ['SuperOperatorTimes'], None, [['add', 0, 0]]], ['make', misc.PROBES[1]]]]]]], True)
KNOWN_CASES = {C.text(c): c for c in [_KC] +
               [dict(kind='unary', op='complex', args=['One'])] +
               [dict(kind='binop', op='*', args=[a, 'ScalarValue.create(i)']) for a in _KS]}
