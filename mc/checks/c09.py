"""C09: constraint evaluation is row-wise and depends only on the space it belongs to, under every interleaving.

Real code: Design_space.indicator_constraints. Explored: all blocks of up to 3 rows out of an alphabet (inside, on the boundary,
outside) for every set of up to 3 constraints of a menu; every sequence of evaluations of several spaces; every interleaving of two
threads with a bounded number of preemptions at every executed line / opcode."""
import itertools
import numpy as np
import GPyOpt
from .. import ref as R, sched

PROPERTY = 'C09'
BOUNDS = {
    'quick': 'all sets of 0-3 constraints out of 8 x all blocks of 1-3 rows out of 11 (on, just inside and just outside of the boundaries, undefined expressions); sequences of 4 evaluations on 3 spaces (same names, different expressions); 2 threads: at most 2 preemptions at lines, 1 at opcodes; 3 threads: 1 preemption',
    'thorough': 'blocks of 4 rows; 3 preemptions at lines, 2 at opcodes',
}
ASSUMPTIONS = ['threads switch between executed lines or opcodes of the code under test (interpreter lock)']

MENU = ['x[:,0] + x[:,1] - 1', '-x[:,0]', 'x[:,0]**2 + x[:,1]**2 - 1.25', 'x[:,1] - .5', 'np.abs(x[:,0] - x[:,1]) - 1', 'np.sin(x[:,0])', 'x[:,0]*0 - 0', 'np.log(x[:,0])']
PTS = [(0., 0.), (1., 0.), (.5, .5), (1., 1.), (-1., .5), (0., .5), (2., -1.), (-.5, -1.), (.5, 1.), (1. + 1e-9, 0.), (-1e-13, .5 - 1e-13)]
DOM = [R.C('a', (-2., 2.)), R.C('b', (-2., 2.))]


def cases(tier):
    out = []
    for n in range(0, 4):
        for c in itertools.combinations(range(len(MENU)), n):
            out.append(('rows/' + ''.join(map(str, c)), ('rows', c, tier)))
    for first in range(9):
        out.append(('spaces/%d' % first, ('spaces', first, tier)))
    for k in range(6):
        out.append(('threads/lines/%d' % k, ('threads', k, False, tier)))
        out.append(('threads/opcodes/%d' % k, ('threads', k, True, tier)))
    return out


def weight(p):
    return 10 if p[0] == 'threads' else 1


def space(cs, names=None):
    return GPyOpt.Design_space(DOM, [{'name': (names or 'c%d') % i if '%' in (names or 'c%d') else names, 'constraint': MENU[c]} for i, c in enumerate(cs)] or None)


def expected(cs, blk):
    ref = R.RefDomain(DOM, [{'constraint': MENU[c]} for c in cs])
    return np.array([[1. if ref.feasible(p) else 0.] for p in blk])


def judge(rec, got, want, **info):
    g = np.asarray(got)
    rec.check(g.shape == want.shape, 'shape of the indicator', got=g.shape, expected=want.shape, **info)
    rec.check(bool(np.all(g.astype(float) == want)), 'the indicator is not 1 exactly on the rows that satisfy all the constraints', got=g.ravel(), expected=want.ravel(), **info)


def run(params, rec):
    np.seterr(all='ignore')          # log of non positive values
    globals()['run_' + params[0]](rec, *params[1:])


def run_rows(rec, cs, tier):
    sp = space(cs)
    rec.check(bool(sp.has_constraints()) == bool(cs), 'has_constraints')
    for n in range(1, 5 if tier == 'thorough' else 4):
        for blk in itertools.product(PTS, repeat=n):
            X = np.array(blk)
            keep = X.copy()
            judge(rec, sp.indicator_constraints(X), expected_cached(cs, blk), constraints=[MENU[c] for c in cs], rows=blk)
            rec.check(np.array_equal(X, keep), 'the points are modified')
            rec.state(cs, sorted(blk))
            rec.trans()
    for p in PTS:
        judge(rec, sp.indicator_constraints(np.array(p)), expected_cached(cs, [p]), rows=p)
    rec.execution()
    rec.outcome(len(cs))


CACHE = {}


def expected_cached(cs, blk):
    out = []
    for p in blk:
        if (cs, p) not in CACHE:
            CACHE[cs, p] = expected(cs, [p])[0, 0]
        out.append([CACHE[cs, p]])
    return np.array(out)


def run_spaces(rec, first, tier):
    """several spaces alive at once, constraints with the same names"""
    sets = [(0,), (1, 3), (2, 0)]

    def body(ch):
        sps = [space(c, 'same') for c in sets]
        ops = [ch.choose(9, 'evaluation') for _ in range(3)]
        for o in [first] + ops:
            k, blk = o % 3, [[PTS[1]], PTS[:5], PTS[4:]][o // 3]
            judge(rec, sps[k].indicator_constraints(np.array(blk)), expected_cached(sets[k], tuple(blk)), constraints=[MENU[c] for c in sets[k]], sequence=ops)
        rec.state(first, ops)
    rec.explore(body)
    rec.outcome(first)


def run_threads(rec, k, opcodes, tier):
    menus = [((0,), (1,)), ((2, 0), (3, 1)), ((0, 1, 3), (4,)), ((1,), (1,)), ((3,), (0, 2)), ((0,), (3,), (5, 1))]
    sets = menus[k]
    blk = PTS[:6]

    def body(ch):
        sps = [space(c, 'same') for c in sets]
        ex = sched.Explorer(ch.choose, 'GPyOpt/core/task', opcodes)
        res = ex.run([lambda s=s: [s.indicator_constraints(np.array(blk)) for _ in range(1 if opcodes or len(sets) > 2 else 2)] for s in sps])
        for s, (how, v) in zip(sets, res):
            rec.check(how == 'ok', 'error in a thread: %s' % (v,), constraints=s)
            for g in v:
                judge(rec, g, expected_cached(s, tuple(blk)), constraints=[MENU[c] for c in s], threads=sets)
        rec.state(k, opcodes, [c for _, c, _ in ch.points])
    n = rec.explore(body, deviations=(1 if opcodes or len(sets) > 2 else 2) + (tier == 'thorough'))
    rec.outcome('threads')
