"""C23: the benchmark functions and the numerical utilities.

Real code: GPyOpt/objective_examples, GPyOpt/util/general.py, the roots and grids of the grid design. Explored: every function and dimension on grids that include
its declared minimizers, every way to give the points, all the vectors of the bounded alphabets for the utilities. Oracle: the published
formulas, the definitions of the utilities in exact or independent arithmetic."""
import contextlib
import fractions
import io
import itertools
import numpy as np
import scipy.stats
import GPy
from GPyOpt.objective_examples import experiments1d as e1, experiments2d as e2, experimentsNd as en
from GPyOpt.experiment_design import grid_design
from GPyOpt.util import general

PROPERTY = 'C23'
BOUNDS = {
    'quick': '22 functions (dimensions 1-3) on grids of up to 40 000 points; vectors of up to 5 values of an alphabet of 7; roots of all n <= 5000 and around powers of numbers up to 10^9, order <= 8',
    'thorough': 'vectors of up to 6 values, roots of all n <= 100 000, grids of up to 250 000 points',
}


def prod(it):
    out = 1.
    for v in it:
        out *= v
    return out


def goldstein(x):
    a, b = x
    return (1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a * a - 14 * b + 6 * a * b + 3 * b * b)) * (30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a * a + 48 * b - 36 * a * b + 27 * b * b))


def cosines(x):
    u, v = 1.6 * x[0] - .5, 1.6 * x[1] - .5
    return -(1 - (u * u + v * v - .3 * np.cos(3 * np.pi * u) - .3 * np.cos(3 * np.pi * v)))


def branin(x, a=1, b=5.1 / (4 * np.pi ** 2), c=5 / np.pi, r=6, s=10, t=1 / (8 * np.pi)):
    return a * (x[1] - b * x[0] ** 2 + c * x[0] - r) ** 2 + s * (1 - t) * np.cos(x[0]) + s


def ackley(x):
    return -20 * np.exp(-.2 * np.sqrt(np.mean(np.square(x)))) - np.exp(np.mean(np.cos(2 * np.pi * np.asarray(x)))) + 20 + np.e


def sobol(a):
    return lambda x: prod((abs(4 * v - 2) + c) / (1 + c) for v, c in zip(x, a))


# name -> (constructor, formula, tolerance of the declared minimum, box of the domain); the declared minimum of Forrester is an approximation to one digit
FUNCTIONS = {
    'forrester': (e1.forrester, lambda x: (6 * x[0] - 2) ** 2 * np.sin(12 * x[0] - 4), .5, [(0, 1)]),
    'rosenbrock': (e2.rosenbrock, lambda x: 100 * (x[1] - x[0] ** 2) ** 2 + (x[0] - 1) ** 2, 1e-9, [(-.5, 3), (-1.5, 2)]),
    'beale': (e2.beale, None, 1e-3, [(-1, 1), (-1, 1)]),
    'dropwave': (e2.dropwave, lambda x: -(1 + np.cos(12 * np.hypot(*x))) / (.5 * (x[0] ** 2 + x[1] ** 2) + 2), 1e-9, [(-1, 1), (-1, 1)]),
    'cosines': (e2.cosines, cosines, .01, [(0, 1), (0, 1)]),
    'branin': (e2.branin, branin, 1e-4, [(-5, 10), (1, 15)]),
    'branin other': (lambda **k: e2.branin(a=2, b=.1, c=1.5, r=5, s=8, t=.05, **k), lambda x: branin(x, 2, .1, 1.5, 5, 8, .05), None, [(-5, 10), (1, 15)]),
    'goldstein': (e2.goldstein, goldstein, 1e-9, [(-2, 2), (-2, 2)]),
    'sixhumpcamel': (e2.sixhumpcamel, lambda x: (4 - 2.1 * x[0] ** 2 + x[0] ** 4 / 3) * x[0] ** 2 + x[0] * x[1] + (-4 + 4 * x[1] ** 2) * x[1] ** 2, 1e-3, [(-2, 2), (-1, 1)]),
    'mccormick': (e2.mccormick, lambda x: np.sin(x[0] + x[1]) + (x[0] - x[1]) ** 2 - 1.5 * x[0] + 2.5 * x[1] + 1, 1e-3, [(-1.5, 4), (-3, 4)]),
    'powers': (e2.powers, lambda x: abs(x[0]) ** 2 + abs(x[1]) ** 3, 1e-9, [(-1, 1), (-1, 1)]),
    'eggholder': (e2.eggholder, lambda x: -(x[1] + 47) * np.sin(np.sqrt(abs(x[1] + x[0] / 2 + 47))) - x[0] * np.sin(np.sqrt(abs(x[0] - (x[1] + 47)))), 1e-3, [(-512, 512), (-512, 512)]),
}
for d in (1, 2, 3):
    FUNCTIONS['alpine1 %d' % d] = ((lambda d: lambda **k: en.alpine1(d, **k))(d), lambda x: sum(abs(v * np.sin(v) + .1 * v) for v in x), 1e-9, [(-10, 10)] * d)
    FUNCTIONS['alpine2 %d' % d] = ((lambda d: lambda **k: en.alpine2(d, **k))(d), lambda x: -prod(np.sqrt(v) * np.sin(v) for v in x), .01, [(1, 10)] * d)
    FUNCTIONS['ackley %d' % d] = ((lambda d: lambda **k: en.ackley(d, **k))(d), ackley, 1e-9, [(-32.768, 32.768)] * d)
    A = [1., .5, 4.][:d]
    FUNCTIONS['gSobol %d' % d] = ((lambda A: lambda **k: en.gSobol(np.array(A), **k))(A), sobol(A), None, [(-4, 6)] * d)


def cases(tier):
    big = tier == 'thorough'
    out = [('function ' + n, ('function', n, big)) for n in FUNCTIONS]
    out += [('noise ' + n, ('noise', n)) for n in FUNCTIONS]
    out += [('normalize %d' % n, ('normalize', n)) for n in range(1, 7 if big else 6)]
    out += [('best %d' % n, ('best', n)) for n in range(1, 7 if big else 6)]
    out += [('merge', ('merge',)), ('quantiles', ('quantiles',)), ('samples', ('samples',)), ('grid', ('grid',)), ('moments', ('moments',)), ('integrated', ('integrated',)), ('evaluate', ('evaluate',))]
    out += [('iroot %d' % k, ('iroot', k, 100000 if big else 5000)) for k in range(1, 9)]
    return out


def run(params, rec):
    globals()['run_' + params[0]](rec, *params[1:])
    rec.outcome(params[0])


def run_function(rec, name, big):
    make, formula, tol, box = FUNCTIONS[name]
    f = make()
    d = len(box)
    known = dict(key='beale-minimum') if name == 'beale' else {}
    rec.check(f.input_dim == d and [tuple(map(float, b)) for b in f.bounds] == [tuple(map(float, b)) for b in box], 'domain', got=f.bounds)
    n = {1: 4001, 2: 501 if big else 201, 3: 61 if big else 31}[d]
    G = np.array(list(itertools.product(*[np.linspace(l, h, n) for l, h in box])))
    before = np.random.get_state()[1].copy(), np.random.get_state()[2]
    keep = G.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v = f.f(G)
    rec.check(not out.getvalue(), 'the function prints', got=out.getvalue()[:80])
    rec.check((np.random.get_state()[1] == before[0]).all() and np.random.get_state()[2] == before[1], 'random numbers drawn without noise')
    rec.same(G, keep, 'the locations were modified')
    rec.check(v.shape == (len(G), 1), 'shape of the values', got=v.shape)
    rec.trans(len(G))
    for i in range(0, len(G), 997):
        rec.state(name, G[i])
    if formula is not None:
        rec.close(v[:, 0], formula(G.T) if not name.startswith('ackley') else [ackley(g) for g in G], 'values of %s' % name, tol=1e-7)
    if tol is not None:
        m = np.array(f.min, float)
        rec.check(m.size % d == 0, 'the declared minimizer does not have one coordinate per dimension', got=f.min)
        m = m.reshape(-1, d)
        for x in m:
            rec.check(all(l <= c <= h for c, (l, h) in zip(x, box)), 'a declared minimizer is outside of the domain', got=x)
            rec.close(f.f(x[None]).ravel(), [f.fmin], 'value at a declared minimizer', tol=tol, rtol=0, at=x, **known)
        rec.check(v.min() >= f.fmin - tol, 'smaller than the declared minimum', got=v.min(), expected=f.fmin, at=G[int(v.argmin())], **known)
    sub = G[::max(1, len(G) // 300)]
    vs = f.f(sub)
    rec.close(vs, v[::max(1, len(G) // 300)], 'the value of a row depends on the others', tol=1e-12)
    for x, y in zip(sub, vs):
        rec.close(f.f(x[None]), y[None], 'the value of a row depends on the others', tol=1e-12)
        if d > 1:
            rec.close(f.f(x), y[None], 'a location given as a vector', tol=1e-12)
        if d == 1 and hasattr(f, 'plot'):
            rec.close(f.f(x), y[None], 'a location given as a vector', tol=1e-12)
        rec.execution()
    for k in (2, 3, 5):
        rec.close(f.f(sub[:k]), vs[:k], 'the value of a row depends on the others', tol=1e-12)
        rec.close(f.f(sub[k - 1::-1]), vs[k - 1::-1], 'the value of a row depends on the others', tol=1e-12)
    # own bounds do not change the function
    if name != 'forrester':
        other = [(l - 1, h + .5) for l, h in box]
        g = make(bounds=other)
        rec.check(list(g.bounds) == other, 'bounds of the user', got=g.bounds)
        rec.close(g.f(sub), vs, 'the values depend on the bounds', tol=1e-12)


def run_noise(rec, name):
    make, formula, tol, box = FUNCTIONS[name]
    X = np.array(list(itertools.product(*[np.linspace(l, h, 3) for l, h in box])))
    X = np.vstack([X] * (30 // len(X) + 1))
    base = make().f(X)
    rec.close(make(sd=0).f(X), base, 'noise with standard deviation zero', tol=1e-12)
    for seed in range(4):
        devs = []
        for sd in (.5, 1., 4):
            np.random.seed(seed)
            y = make(sd=sd).f(X)
            rec.check(y.shape == base.shape, 'shape of the noisy values', got=y.shape)
            devs.append((y - base) / sd)
            rec.state(name, seed, sd)
            rec.execution()
        rec.close(devs[0], devs[1], 'the noise is not proportional to its standard deviation', tol=1e-6)
        rec.close(devs[2], devs[1], 'the noise is not proportional to its standard deviation', tol=1e-6)
        rec.check(len(set(np.round(devs[1].ravel(), 9))) == len(X), 'the same noise at several locations')
        rec.check(.3 < devs[1].std() < 2, 'the noise does not have the standard deviation asked for', got=devs[1].std())


ALPHABET = (-2., 0., .1, 1. / 3, 5., 1e6, 1e6 + 1)


def run_normalize(rec, n):
    for v in itertools.product(ALPHABET, repeat=n):
        fr = [fractions.Fraction(x) for x in v]
        mean = sum(fr) / n
        var = sum((x - mean) ** 2 for x in fr) / n
        std = float(var) ** .5
        want = [float(x - mean) / std if var else 0. for x in fr]
        lo, rng = min(fr), max(fr) - min(fr)
        want2 = [float(2 * ((x - lo) / rng) - 1) if rng else 0. for x in fr]
        for shape in ((n, 1), (1, n), (n,)):
            Y = np.array(v).reshape(shape)
            keep = Y.copy()
            for args, w in (((), want), (('stats',), want), (('maxmin',), want2)):
                got = general.normalize(Y, *args)
                rec.close(got, np.array(w).reshape(shape), 'normalization', tol=1e-6, kind=args, Y=v)
                rec.trans()
            rec.same(Y, keep, 'the outputs were modified')
        rec.state(v)
        rec.execution()
    for v in itertools.product((-2., 0., 1. / 3, 5.), repeat=n):
        Y = np.array(v)[:, None]
        for kind in ('stats', 'maxmin'):
            for power in (-100, -40, -27, 60):
                rec.close(general.normalize(Y * 2. ** power, kind), general.normalize(Y, kind), 'outputs of another scale', tol=1e-9, kind=kind, Y=v, power=power)
    for v in itertools.product((0, 1, 7), repeat=n):
        rec.close(general.normalize(np.array(v)[:, None]), general.normalize(np.array(v, float)[:, None]), 'integer outputs', tol=1e-12)
    for bad in ('', 'Stats', None, 'std'):
        try:
            general.normalize(np.ones((n, 1)), bad)
            rec.fail('unknown normalization accepted', kind=bad)
        except ValueError:
            rec.check(True, '')
    if n > 1:
        try:
            general.normalize(np.ones((n, 2)))
            rec.fail('a matrix was normalized')
        except NotImplementedError:
            rec.check(True, '')


def run_best(rec, n):
    for v in itertools.product((-2., 0., .1, 3., np.inf), repeat=n):
        for Y in (np.array(v)[:, None], np.array(v)):
            rec.close(general.best_value(Y), [min(v[:i + 1]) for i in range(n)], 'best value so far', tol=0, Y=v)
            rec.close(general.best_value(Y, -1), [max(v[:i + 1]) for i in range(n)], 'largest value so far', tol=0, Y=v)
            rec.close(general.best_value(Y, sign=1), [min(v[:i + 1]) for i in range(n)], 'best value so far', tol=0, Y=v)
        X = np.arange(n)[:, None]
        f = lambda x: np.array(v)[np.asarray(x, int)[:, 0]][:, None]
        rec.close(general.best_guess(f, X), [min(v[:i + 1]) for i in range(n)], 'best guess', tol=0, Y=v)
        rec.state(v)
        rec.execution()


def run_merge(rec):
    vals = [1, 2.5, (1,), (1, 2), (3., -1., 2.), np.array([4., 5.]), np.array([[1., 2.], [3., 4.]]), np.array([[1.], [0.], [7.]]), np.array([[]]), np.array(6.), np.int64(3), np.array([[1., 2., 3.]]), ()]

    def matrix(v):
        if isinstance(v, tuple):
            return [[x] for x in v]
        a = np.asarray(v)
        return [[a.item()]] if a.ndim == 0 else [list(a)] if a.ndim == 1 else [list(r) for r in a]
    for v in vals:
        got = general.values_to_array(v)
        want = np.array(matrix(v), float)
        rec.check(np.ndim(got) == 2 and np.array_equal(np.asarray(got, float).ravel(), want.ravel()) and (got.size == 0 or got.shape == want.shape), 'values to array', got=got, value=v)
        rec.state('v', v)
    for a, b in itertools.product(vals, repeat=2):
        A, B = [r for r in matrix(a) if len(r)], [r for r in matrix(b) if len(r)]
        want = B if not A else A if not B else [x + y for x in A for y in B]
        got = general.merge_values(a, b)
        if not want:
            rec.check(np.size(got) == 0, 'merge of nothing', got=got)
        else:
            rec.same(np.asarray(got, float), np.array(want, float), 'merge of the rows of %s and %s' % (a, b))
        rec.state(a, b)
        rec.execution()
    for n, d in itertools.product((1, 2, 3, 4), (1, 2, 3)):
        x = np.arange(n * d, dtype=float)
        rec.check(np.shape(general.reshape(x.reshape(n, d), d)) == (n, d), 'reshape of a matrix')
        if n == 1:
            for y in (x, list(x), x[None], tuple(x)):
                rec.same(general.reshape(y, d), x[None], 'reshape of one location')


def run_quantiles(rec):
    S = (0., 1e-300, 1e-12, 1e-10, 1e-3, 1., 1e4)
    pars = (0., .01, 2.)
    ms = (-3., 0., 1e-4, 5.)
    fmins = (-1., 0., .5, 3.)
    N = scipy.stats.norm

    def want(par, fmin, m, s):
        s = np.maximum(s, 1e-10)
        u = (fmin - m - par) / s
        return N.pdf(u), N.cdf(u), u
    for par, fmin, m, s in itertools.product(pars, fmins, ms, S):
        w = want(par, fmin, m, s)
        for g, x, n in zip(general.get_quantiles(par, fmin, m, s), w, ('density', 'distribution', 'argument')):
            rec.close(g, x, 'quantiles: %s (scalars)' % n, tol=1e-300, rtol=1e-9, args=(par, fmin, m, s))
        for g, x, n in zip(general.get_quantiles(par, np.array([fmin]), np.array([[m]]), np.array([[s]])), w, ('density', 'distribution', 'argument')):
            rec.close(np.ravel(g), np.ravel(x), 'quantiles: %s (arrays)' % n, tol=1e-300, rtol=1e-9, args=(par, fmin, m, s))
        rec.state(par, fmin, m, s)
        rec.execution()
    for par, fmin in itertools.product(pars, fmins):
        M, SS = map(np.array, zip(*itertools.product(ms, S)))
        w = want(par, fmin, M[:, None], SS[:, None])
        for g, x, n in zip(general.get_quantiles(par, fmin, M[:, None], SS[:, None].copy()), w, ('density', 'distribution', 'argument')):
            rec.close(g, x, 'quantiles: %s (vectors)' % n, tol=1e-300, rtol=1e-9, args=(par, fmin))


def run_samples(rec):
    menu = [(0, 1), (-5., 10.), (3, 3), (1e6, 1e6 + 1), (-1e-3, 0)]
    for d in (1, 2, 3):
        for b in itertools.product(menu, repeat=d):
            for n in (0, 1, 4):
                S = general.samples_multidimensional_uniform(list(b), n)
                rec.check(S.shape == (n, d), 'shape of the samples', got=S.shape)
                rec.check(all(l <= v <= h for r in S for v, (l, h) in zip(r, b)), 'samples outside of the bounds', got=S, bounds=b)
                if n > 1:
                    rec.check(all(l == h or len(set(S[:, k])) == n for k, (l, h) in enumerate(b)), 'the same sample several times', got=S)
                rec.state(b, n)
                rec.execution()
            S = general.samples_multidimensional_uniform(list(b), 64)
            for k, (l, h) in enumerate(b):
                if h > l:
                    rec.check(set(np.minimum(3, ((S[:, k] - l) / (h - l) * 4).astype(int))) == {0, 1, 2, 3}, 'a quarter of the range is not sampled', bounds=b, variable=k)


def run_grid(rec):
    menu = [(0, 1), (-5., 10.), (3, 3), (-1e-3, 2)]
    for d in (1, 2, 3, 4):
        for b in itertools.product(menu, repeat=d):
            for n in (1, 2, 3, 4):
                if n ** d > 81:
                    continue
                G = grid_design.multigrid(list(b), n)
                want = sorted(itertools.product(*[[l + (h - l) * i / max(1, n - 1) for i in range(n)] for l, h in b]))
                rec.check(G.shape == (n ** d, d), 'shape of the grid', got=G.shape)
                rec.close(np.array(sorted(map(tuple, np.round(G, 9)))), np.round(want, 9), 'points of the grid', tol=1e-8, bounds=b, n=n)
                rec.state(b, n)
                rec.execution()


def run_iroot(rec, k, top):
    def judge(n):
        r = grid_design.iroot(k, n)
        rec.check(r == int(r) and int(r) ** k <= n < (int(r) + 1) ** k, 'integer root', k=k, n=n, got=r)
    for n in range(1, top + 1):
        judge(n)
        rec.execution()
    for m in (2, 3, 7, 10, 99, 100, 1000, 12345, 10 ** 6, 2 ** 31, 10 ** 9):
        for n in (m ** k - 1, m ** k, m ** k + 1):
            judge(n)
            rec.state(k, n)


def run_moments(rec):
    for kern, noise, dims in itertools.product(('RBF', 'Matern52'), (1e-3, .2), (1, 2)):
        X = np.array(list(itertools.product((0., .4, 1.), repeat=dims)))[:5]
        Y = np.cos(3 * X.sum(1))[:, None]
        gp = GPy.models.GPRegression(X, Y, getattr(GPy.kern, kern)(dims, lengthscale=.5), noise_var=noise)
        P = np.array(list(itertools.product((.1, .55, 1.3), repeat=dims)))
        m, v = gp.predict(P)
        for x in [P] + [p[None] for p in P] + [p for p in P]:
            x2 = np.atleast_2d(x) if np.size(x) == dims else x
            m, v = gp.predict(x2)
            gm, gs, gf = general.get_moments(gp, x)
            rec.close(gm, m, 'mean', tol=1e-9)
            rec.close(gs, np.sqrt(v), 'standard deviation', tol=1e-9)
            rec.close(np.ravel(gf), [gp.predict(X)[0].min()], 'minimum of the surrogate at the data', tol=1e-9)
            dm, ds = general.get_d_moments(gp, x)
            h = 1e-6
            fm = np.stack([((gp.predict(x2 + h * e)[0] - gp.predict(x2 - h * e)[0]) / (2 * h))[:, 0] for e in np.eye(dims)], 1)
            fs = np.stack([((np.sqrt(gp.predict(x2 + h * e)[1]) - np.sqrt(gp.predict(x2 - h * e)[1])) / (2 * h))[:, 0] for e in np.eye(dims)], 1)
            rec.close(dm, fm, 'derivative of the mean', tol=1e-4)
            rec.close(ds, fs, 'derivative of the standard deviation', tol=1e-4)
            rec.state(kern, noise, x)
            rec.execution()


def run_integrated(rec):
    """average of an acquisition over the samples of the hyper-parameters"""
    class Holder(object):
        pass
    for n, d in itertools.product((1, 2, 3), (1, 2)):
        for vals in itertools.product((.5, 1., -2.), repeat=n * d):
            H = np.array(vals).reshape(n, d)
            a = Holder()
            a.model = Holder()
            a.model.num_hmc_samples, a.model.hmc_samples = n, H
            a.model.model = Holder()
            a.model.model.kern = np.zeros(d)
            a.acquisition_function = lambda x: (x * a.model.model.kern[:d]).sum(1)[:, None] ** 2
            a.acquisition_function_withGradients = lambda x: (a.acquisition_function(x), 2 * (x * a.model.model.kern).sum(1)[:, None] * a.model.model.kern[None])
            x = np.arange(1., 2 * d + 1).reshape(2, d)
            k = x @ H.T
            want, dwant = (k ** 2).mean(1)[:, None], 2 * k @ H / n
            rec.close(general.compute_integrated_acquisition(a, x), want, 'integrated acquisition', tol=1e-9, samples=H)
            v, g = general.compute_integrated_acquisition_withGradients(a, x)
            rec.close(v, want, 'integrated acquisition', tol=1e-9, samples=H)
            rec.close(g, dwant, 'gradient of the integrated acquisition', tol=1e-9, samples=H)
            rec.state(n, d, vals)
            rec.execution()


def run_evaluate(rec):
    class Pipe(object):
        def __init__(self):
            self.log = []

        def send(self, v):
            self.log.append(('send', v))

        def close(self):
            self.log.append('close')
    for n in (1, 2, 3, 4):
        for v in itertools.product((0., 1., -3.), repeat=n):
            X = np.array(v)[:, None]
            seen = []

            def f(x):
                seen.append(float(np.ravel(x)[0]))
                return 2 * seen[-1] + 1
            Y, T = general.evaluate_function(f, X)
            rec.check(seen == list(v), 'evaluated rows', got=seen, expected=v)
            rec.close(np.asarray(Y).reshape(n, -1)[:, 0], 2 * np.array(v) + 1, 'values of the rows', tol=1e-12)
            rec.check(np.shape(T) == (n, 1) and (T >= 0).all(), 'times of the rows', got=T)
            p = Pipe()
            general.spawn(f)(p, X[0])
            rec.check(p.log == [('send', 2 * v[0] + 1), 'close'], 'what is sent', got=p.log)
            rec.state(v)
            rec.execution()
