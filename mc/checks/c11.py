"""C11: initial designs consist of the promised number of feasible members of the domain, with the promised structure.

Real code: initial_design / BayesianOptimization(initial_design_type=...). Explored: every domain of up to 3 variables x design x size x
behaviour of the random numbers (lowest, highest, alternating, generated)."""
import contextlib
import itertools
import numpy as np
import GPyOpt
from .. import ref as R
from ..domains import domains, bandits
from ..env import StubModel, make_bo, rows

PROPERTY = 'C11'
BOUNDS = {
    'quick': 'all domains of 1-2 variables (16 kinds), a third of those of 3 variables, bandits of 1-2 variables; designs random, sobol, latin, grid; sizes 1-5, 8, 9 and 17; 4 behaviours of the random numbers; constrained domains of ref.py with the random design, sizes 1-6, and 3 other designs (rejected); grids of 1-4 dimensions with every size up to 300; 5 domains with 6 continuous variables, or variables of 8-20 values, also with up to 500 points; coverage of finite domains with 300 and 1500 points',
    'thorough': 'all domains of 3 variables; sizes 1-20',
}
ASSUMPTIONS = ['random behaviours are injected at numpy.random.uniform / choice / randint']
LARGE = {
    'd': [R.C('a', tuple(np.arange(9) * 1.5 - 3.), type='discrete'), R.C('k', tuple(range(8)), type='categorical')],
    'dd': [R.C('a', tuple(range(12)), 2, 'discrete')],
    'k': [R.C('k', tuple(range(20)), type='categorical'), R.C('a', (0., 1000.))],
    'b': [{'name': 'a', 'type': 'bandit', 'domain': [(i, i * i % 7) for i in range(11)]}],
    'c': [R.C('a', (-1e-3, 1e-3)), R.C('b', (1e5, 1e6)), R.C('c', (-.5, .5), 4)],
}
DESIGNS = ['random', 'sobol', 'latin', 'grid']


def cases(tier):
    out = {}
    for i, (n, d) in enumerate(domains(3)):
        if len(n) == 3 and tier != 'thorough' and i % 3:
            continue
        out.setdefault(n[:2], []).append((n, d))
    res = [('domain/' + k, ('domain', v, tier)) for k, v in sorted(out.items())]
    for n, d in bandits(2):
        res.append(('bandit/' + n, ('bandit', n, d, tier)))
    for n, d, c in R.spaces():
        res.append(('space/' + n, ('space', n, d, c)))
    for n, d in LARGE.items():
        res.append(('large/' + n, ('large', n, d)))
    for k in range(1, 5):
        res.append(('grid/%d' % k, ('grid', k)))
    return res


@contextlib.contextmanager
def randomness(mode):
    if mode == 'generated':
        yield
        return
    r = np.random
    old = r.uniform, r.choice, r.randint
    cnt = [0]

    def t(n):
        if mode == 'low':
            return np.zeros(n)
        if mode == 'high':
            return np.full(n, 1.)
        cnt[0] += 1
        return (np.arange(n) + cnt[0]) % 2 * 1.

    def uniform(low=0., high=1., size=None):
        if np.ndim(low) or np.ndim(high) or size is None or np.ndim(size):
            return old[0](low, high, size)
        return low + (np.asarray(high) - low) * np.minimum(t(size), 1. - 1e-12 if mode == 'alternate' else 1.)

    def choice(a, size=None, replace=True, p=None):
        if size is None or np.ndim(size) or not replace or p is not None:
            return old[1](a, size, replace, p)
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return a[(t(size) * (len(a) - 1)).astype(int)]

    def randint(low, high=None, size=None, dtype=int):
        if size is None or np.ndim(size):
            return old[2](low, high, size, dtype)
        lo, hi = (0, low) if high is None else (low, high)
        return lo + (t(size) * (hi - 1 - lo)).astype(int)
    r.uniform, r.choice, r.randint = uniform, choice, randint
    try:
        yield
    finally:
        r.uniform, r.choice, r.randint = old


def iroot(k, n):
    r = 0
    while (r + 1) ** k <= n:
        r += 1
    return r


def run(params, rec):
    globals()['run_' + params[0]](rec, *params[1:])
    rec.execution()


def judge(rec, ref, X, design, n, name):
    """structure of a design of an unconstrained domain"""
    cols = [i for i, v in enumerate(ref.vars) if v.type == 'continuous']
    k = len(cols)
    m = iroot(k, n) ** k if design == 'grid' and k else n
    X = np.asarray(X)
    rec.check(X.shape == (m, ref.nobj), 'shape of the design', got=X.shape, expected=(m, ref.nobj), design=design, size=n, domain=name)
    rec.check(X.dtype.kind == 'f', 'type of the design', got=X.dtype)
    for r in rows(X):
        rec.check(ref.in_domain(r), 'point outside of the domain', point=r, design=design, size=n, domain=name)
        rec.state(name, r)
    if k and design == 'latin':
        for c in cols:
            lo, hi = map(float, ref.vars[c].domain)
            want = np.sort(lo + (np.arange(n) + .5) * (hi - lo) / n)
            rec.close(np.sort(X[:, c]), want, 'one point in the centre of each of the strata', tol=1e-9, design=design, size=n, domain=name)
    if k and design == 'grid':
        axes = []
        for c in cols:
            lo, hi = map(float, ref.vars[c].domain)
            axes.append(np.linspace(lo, hi, iroot(k, n)))
        want = sorted(itertools.product(*[a.tolist() for a in axes]))
        got = sorted(rows(X[:, cols]))
        rec.check(len(got) == len(want) and np.allclose(got, want, atol=1e-12), 'the grid is not the product of the regular grids', got=got[:9], expected=want[:9], size=n, domain=name)
    if k and design == 'sobol':
        from sobol_seq import i4_sobol_generate
        S = i4_sobol_generate(k, n)
        for j, c in enumerate(cols):
            lo, hi = map(float, ref.vars[c].domain)
            rec.close(X[:, c], lo + (hi - lo) * S[:, j], 'continuous variables on the Sobol sequence', tol=1e-12, size=n, domain=name)


def run_domain(rec, doms, tier):
    sizes = range(1, 21) if tier == 'thorough' else (1, 2, 3, 4, 5, 8, 9, 17)
    for name, dom in doms:
        ref = R.RefDomain(dom)
        sp = GPyOpt.Design_space(dom)
        for design in DESIGNS:
            for n in sizes if len(name) < 3 or tier == 'thorough' else (1, 4, 9):
                for mode in ('generated', 'low', 'high', 'alternate'):
                    if mode != 'generated' and design != 'random' and n != 4:
                        continue
                    with randomness(mode):
                        X = GPyOpt.experiment_design.initial_design(design, sp, n)
                    judge(rec, ref, X, design, n, name)
                    rec.trans()
        if len(name) <= 2:
            coverage(rec, sp, ref, name)
    rec.outcome(ref.nobj)


def coverage(rec, sp, ref, name, n=300):
    """every value of every variable can be drawn, the whole range of the continuous ones is used, variables are drawn independently"""
    X = np.asarray(GPyOpt.experiment_design.initial_design('random', sp, n))
    i = 0
    for v in ref.vars:
        x = X[:, i:i + v.nobj]
        if v.type == 'continuous':
            lo, hi = map(float, v.domain)
            rec.check(x.min() < lo + .1 * (hi - lo) and x.max() > hi - .1 * (hi - lo), 'part of the range of a continuous variable is never drawn', variable=v.name, domain=name, low=x.min(), high=x.max())
        else:
            rec.check(set(rows(x)) == set(v.lattice()), 'members of the domain that are never drawn', variable=v.name, domain=name, got=sorted(set(rows(x))))
        i += v.nobj
    nz = [j for j in range(ref.nobj) if X[:, j].std() > 0]
    for a, b in itertools.combinations(nz, 2):
        va, vb = owner(ref, a), owner(ref, b)
        if va is not vb:
            c = abs(np.corrcoef(X[:, a], X[:, b])[0, 1])
            rec.check(c < .6, 'two variables are not drawn independently', correlation=c, columns=(a, b), domain=name)


def owner(ref, col):
    for v in ref.vars:
        if col < v.nobj:
            return v
        col -= v.nobj


def run_large(rec, name, dom):
    """variables with many values, many continuous variables"""
    ref = R.RefDomain(dom)
    sp = GPyOpt.Design_space(dom)
    for n in (1, 3, 10, 40):
        for design in DESIGNS[:1] if name == 'b' else DESIGNS:
            judge(rec, ref, GPyOpt.experiment_design.initial_design(design, sp, n), design, n, name)
            rec.trans()
    if name != 'b' and any(v.type == 'continuous' for v in ref.vars):
        for n in (63, 64, 65, 100, 128, 250, 500):
            for design in DESIGNS[1:]:
                judge(rec, ref, GPyOpt.experiment_design.initial_design(design, sp, n), design, n, name)
                rec.trans()
    coverage(rec, sp, ref, name, 1500)
    rec.outcome('large')


def run_bandit(rec, name, dom, tier):
    ref = R.RefDomain(dom)
    sp = GPyOpt.Design_space(dom)
    for n in range(1, 10):
        for mode in ('generated', 'low', 'high', 'alternate'):
            with randomness(mode):
                X = GPyOpt.experiment_design.initial_design('random', sp, n)
            judge(rec, ref, X, 'random', n, name)
            rec.trans()
    coverage(rec, sp, ref, name)
    rec.outcome('bandit')


def run_space(rec, name, dom, con):
    """constraints; the designs through the optimization; the same random state gives the same design"""
    ref = R.RefDomain(dom, con)
    sp = GPyOpt.Design_space(dom, con)
    E = GPyOpt.core.errors.InvalidConfigError
    if con is not None:
        for design in DESIGNS[1:]:
            for n in (1, 5):
                try:
                    X = GPyOpt.experiment_design.initial_design(design, sp, n)
                except E:
                    rec.outcome('rejected')
                    continue
                rec.check(all(ref.valid(r) for r in rows(X)), 'a design that ignores the constraints', design=design, domain=name)
    for n in range(1, 7):
        for k in range(6):
            X = GPyOpt.experiment_design.initial_design('random', sp, n)
            rec.check(X.shape == (n, ref.nobj), 'shape of the design', got=X.shape, expected=(n, ref.nobj), domain=name)
            for r in rows(X):
                rec.check(ref.valid(r), 'initial point outside of the domain or of the constraints', point=r, domain=name)
                rec.state(name, r)
            rec.trans()
    if ref.finite:
        X = GPyOpt.experiment_design.initial_design('random', sp, 300)
        rec.check(set(rows(X)) == set(ref.lattice()), 'feasible members that are never drawn', got=sorted(set(rows(X))), domain=name)
    for design in DESIGNS if con is None and not ref.bandit else DESIGNS[:1]:
        for n in (1, 2, 4, 6):
            seen = []

            def f(x):
                seen.append(rows(x)[0])
                return np.array([[1.]])
            bo = GPyOpt.methods.BayesianOptimization(f, dom, con, initial_design_type=design, initial_design_numdata=n, model=StubModel())
            rec.same(np.array(seen), np.asarray(bo.X, float), 'the evaluated initial points are not the recorded ones', design=design, size=n, domain=name)
            if con is None:
                judge(rec, ref, bo.X, design, n, name)
            else:
                rec.check(bo.X.shape == (n, ref.nobj) and all(ref.valid(r) for r in rows(bo.X)), 'initial points of the optimization', got=bo.X, domain=name)
            rec.trans()


def run_grid(rec, k):
    dom = [R.C('v%d' % i, (-1., 1. + i)) for i in range(k)]
    ref = R.RefDomain(dom)
    sp = GPyOpt.Design_space(dom)
    for n in range(1, 301):
        X = GPyOpt.experiment_design.initial_design('grid', sp, n)
        judge(rec, ref, X, 'grid', n, k)
        rec.trans()
