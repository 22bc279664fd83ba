"""C25: the plots show the run, and leave it as it is.

Real code: BO.plot_acquisition / plot_convergence and the plotting module, on real matplotlib figures (agg). Explored: all histories of runs,
interrupted runs, suggestions and plots up to the depth, for both classes; the artists of the figures are read back.
Stand-ins: the surrogate (histories), the shading of the density by GPy (its drawing code is not part of GPyOpt)."""
import os
import shutil
import tempfile
import numpy as np
import GPy
import GPyOpt
import matplotlib
matplotlib.use('agg')
matplotlib.rcParams['savefig.dpi'] = 20
import matplotlib.pyplot as plt
from .. import ref as R
from ..env import StubModel, InnerModel, few_anchors, make_bo, scipy_lbfgs_stub, box_point, patched

PROPERTY = 'C25'
BOUNDS = {
    'quick': 'all histories of up to 2 operations (3 in one of the configurations; runs of 0-2 iterations, a run interrupted by its objective, suggestions, acquisition plots, convergence plots), both plots after each, over 8 domains (one narrow, one wide) of model dimension 1, 2 and 3, 2 classes and 2 update intervals; figures of real GP, sparse and MCMC surrogates over evaluators, acquisitions, normalization and labels',
    'thorough': 'histories of up to 3 operations (4 in one of the configurations)',
}
ASSUMPTIONS = ['the shading of the density by GPy is a stand-in that opens a figure, as GPy does', 'the curves are read from the lines, offsets and contours of the matplotlib figure']

OPS = ['run0', 'run1', 'run2', 'fail', 'suggest', 'plotA', 'plotC']
DOMS = {'1c': [R.C('a', (-1., 1.))], '1s': [R.C('a', (2., 2.0002))], '1l': [R.C('a', (-3e3, 1e3))], '1d': [R.C('a', (0, 1, 3), type='discrete')], '2c': [R.C('a', (0., 1.)), R.C('b', (2., 5.))],
        '1k': [R.C('a', (3, 7), type='categorical')], '3c': [R.C('a', (0., 1.), 3)], '2b': [{'name': 'a', 'type': 'bandit', 'domain': [(0., 0.), (1., 2.), (3., 1.)]}]}


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    out = [('history/%s/%s/%d/%s' % (d, cls, iv, first), ('history', d, cls, iv, first, n if (d, cls, iv) == ('1c', 'standard', 1) else n - 1))
           for d in DOMS for cls, iv in (('standard', 1), ('standard', 3), ('modular', 1), ('modular', 3)) for first in OPS
           if tier == 'thorough' or d not in ('2c', '1k', '2b', '1s', '1l') or (cls, iv) in (('standard', 1), ('modular', 3))]
    out += [('figure/%s/%s/%s/%d' % (d, m, ev, nm), ('figure', d, m, ev, nm)) for d in ('1c', '1d', '2c', '1k', '2b') for m in ('GP', 'sparseGP', 'GP_MCMC')
            for ev in ('sequential', 'random') for nm in (0, 1) if tier == 'thorough' or d in ('1c', '2c') or nm == (ev == 'random')]
    return out


def weight(p):
    return (3 if p[1] in ('2c', '1k', '2b') else 1) + (5 if p[0] == 'figure' else 0)


def run(params, rec):
    tmp = tempfile.mkdtemp(prefix='mc25_')
    try:
        globals()['run_' + params[0]](rec, tmp, *params[1:])
    finally:
        plt.close('all')
        shutil.rmtree(tmp)
    rec.outcome(params[0])


class Inner(InnerModel):
    def plot_density(self, *a, **kw):
        plt.figure()


class Params(StubModel):
    """surrogate whose prediction depends on the position: sd grows with the first coordinate"""
    def __init__(self, *a, **kw):
        super(Params, self).__init__(*a, **kw)
        self.model = Inner(self)

    def predict(self, X, with_noise=True):
        X = np.atleast_2d(np.asarray(X, float))
        return ((X - self._t(X)) ** 2).sum(1)[:, None], .3 + .05 * np.abs(X[:, :1])

    def predict_withGradients(self, X):
        X = np.atleast_2d(np.asarray(X, float))
        m, s = self.predict(X)
        ds = np.zeros(X.shape)
        ds[:, 0] = .05 * np.sign(X[:, 0])
        return m, s, 2 * (X - self._t(X)), ds

    def get_model_parameters(self):
        return np.array([[len(self.updates) + .5, 3.]])


class Figure(object):
    """What the figures opened by one call of a plot show."""
    def __init__(self, call, filename=None):
        plt.close('all')
        self.contours, self.shown = [], []
        orig = matplotlib.axes.Axes.contourf

        def contourf(ax, *a, **kw):
            if len(a) > 2:
                self.contours.append([np.array(v, float) for v in a[:3]])
            if len(a) > 2 and np.ndim(a[0]) == 1:     # drawn coarsely
                a = (a[0][::20], a[1][::20], a[2][::20, ::20], 3)
            return orig(ax, *a, **kw)
        with patched(matplotlib.axes.Axes, 'contourf', contourf), patched(plt, 'show', lambda *a, **kw: self.shown.append(1)):
            call()
        self.figures = [plt.figure(n) for n in plt.get_fignums()]
        self.axes = [ax for f in self.figures for ax in f.axes]
        self.lines = [(np.ravel(np.array(l.get_xdata(), float)), np.ravel(np.array(l.get_ydata(), float))) for ax in self.axes for l in ax.get_lines()]
        self.points = [np.array(c.get_offsets(), float) for ax in self.axes for c in ax.collections if isinstance(c, matplotlib.collections.PathCollection)]
        self.points += [np.array([x, y]).T for x, y in self.lines if len(x) == len(y)]
        self.labels = [t for ax in self.axes for t in (ax.get_xlabel(), ax.get_ylabel())]
        plt.close('all')

    def line(self, x, y, tol=1e-7):
        x, y = np.ravel(x), np.ravel(y)
        return any(a.shape == x.shape == b.shape and np.allclose(a, x, atol=tol) and np.allclose(b, y, atol=tol, rtol=tol) for a, b in self.lines)

    def cloud(self, P):
        P = np.asarray(P, float)
        return any(q.shape == P.shape and np.allclose(q, P, atol=1e-9) for q in self.points)


def rescaled(v, z):
    """v is an increasing affine function of z"""
    v, z = np.ravel(v), np.ravel(z)
    if v.shape != z.shape:
        return False
    if np.ptp(z) <= 1e-9 * np.max(np.abs(z)) or np.ptp(z) < 1e-200:
        return True                               # a flat acquisition has no shape to compare
    z = (z - z.min()) / np.ptp(z)
    i, j = np.argmin(z), np.argmax(z)
    k = v[j] - v[i]
    return bool(np.all(np.isfinite(v)) and k > 0 and np.allclose(v, v[i] + k * z, atol=1e-6 * k))


def judge_convergence(rec, fig, X, Y, **det):
    n = len(X)
    rec.check(len(fig.figures) == 1, 'one figure with the convergence', got=len(fig.figures), **det)
    if n > 1:
        rec.check(fig.line(np.arange(n - 1), np.sqrt(((X[1:] - X[:-1]) ** 2).sum(1))), 'distances between consecutive points', lines=fig.lines, X=X, **det)
    rec.check(fig.line(np.arange(n), np.minimum.accumulate(Y.ravel())), 'best value so far', lines=fig.lines, Y=Y, **det)


def judge_acquisition(rec, fig, bo, inner, suggested, labels=(None, None), **det):
    """inner: the model that was drawn; suggested: the points that were suggested (of the surrogate)"""
    X, Y = np.array(inner.X), np.array(inner.Y)
    d = X.shape[1]
    b = bo.space.get_bounds()
    acq = bo.acquisition.acquisition_function
    if d > 2:
        return
    rec.check(len(fig.figures) == 1, 'one figure with the acquisition', got=len(fig.figures), **det)
    if d == 1:
        rec.check(fig.line(X, Y), 'observations', X=X, Y=Y, **det)
        grids = [x for x, y in fig.lines if len(x) > 50]
        rec.check(len(grids) > 0, 'curves over the domain', points=[len(x) for x, y in fig.lines], **det)
        x = grids[0]
        w = .01 * (b[0][1] - b[0][0])
        rec.check(abs(x.min() - b[0][0]) < w and abs(x.max() - b[0][1]) < w and np.diff(np.sort(x)).max() < 2 * w, 'the curves cover the domain', got=(x.min(), x.max()), **det)
        m, v = inner.predict(x[:, None])
        for k, nm in ((0., 'mean'), (1.96, 'upper limit'), (-1.96, 'lower limit')):
            rec.check(fig.line(x, m + k * np.sqrt(v), 1e-6), 'posterior ' + nm, **det)
        z = -acq(x[:, None])
        rec.check(any(rescaled(yy, z) for xx, yy in fig.lines if len(xx) == len(x)), 'acquisition', **det)
        vert = [xx[0] for xx, yy in fig.lines if len(xx) == 2 and xx[0] == xx[1]]
        rec.check(len(vert) > 0 and all(any(abs(q - s) < 1e-9 for s in suggested[:, 0]) for q in vert) and any(abs(q - suggested[-1, 0]) < 1e-9 for q in vert),
                  'suggested location', got=vert, expected=suggested, **det)
        want = [labels[0] or 'x', labels[1] or 'f(x)']
    else:
        rec.check(fig.cloud(X), 'observations', X=X, **det)
        rec.check(fig.cloud(suggested), 'suggested locations', expected=suggested, got=fig.points, **det)
        rec.check(len(fig.contours) == 3, 'three contour plots', got=len(fig.contours), **det)
        for k, nm in enumerate(('mean', 'standard deviation', 'acquisition')):
            gx, gy, gz = fig.contours[k]
            if gx.ndim == 1:
                gx, gy = np.meshgrid(gx, gy)
            P = np.array([gx.ravel(), gy.ravel()]).T
            for c in (0, 1):
                rec.check(abs(P[:, c].min() - b[c][0]) < 1e-9 and abs(P[:, c].max() - b[c][1]) < 1e-9, 'the contours cover the domain', contour=nm, **det)
            if k < 2:
                m, v = inner.predict(P)
                rec.close(gz.ravel(), (m if k == 0 else np.sqrt(v)).ravel(), 'contours of the posterior ' + nm, tol=1e-6, **det)
            else:
                P, gz = P[::53], gz.ravel()[::53]
                rec.check(rescaled(gz, -acq(P)), 'contours of the acquisition', **det)
        want = [labels[0] or 'X1', labels[1] or 'X2']
    for w in want:
        rec.check(w in fig.labels, 'label of the axes', got=fig.labels, expected=w, **det)


def observables(bo, tmp):
    """everything that the user can read of the run"""
    out = dict(X=np.array(bo.X), Y=np.array(bo.Y), n=bo.num_acquisitions)
    for a in ('x_opt', 'fx_opt', 'Y_best'):
        if hasattr(bo, a):
            out[a] = np.array(getattr(bo, a))
    if hasattr(bo, 'cum_time'):
        for name in ('save_report', 'save_evaluations', 'save_models'):
            p = os.path.join(tmp, name)
            getattr(bo, name)(p)
            out[name] = [l for l in open(p).read().splitlines() if not l.startswith('Date')]
    return out


def unchanged(rec, a, b, **det):
    rec.check(sorted(a) == sorted(b), 'attributes after the plot', got=sorted(b), expected=sorted(a), **det)
    for k in a:
        if isinstance(a[k], list):
            rec.check(a[k] == b[k], 'the plot changed what the run shows: ' + k, got=b[k], expected=a[k], **det)
        else:
            rec.same(np.asarray(b[k], float), np.asarray(a[k], float), 'the plot changed the run: ' + k, **det)


class Fault(Exception):
    pass


def run_history(rec, tmp, dname, cls, interval, first, depth):
    dom = DOMS[dname]
    ref = R.RefDomain(dom)
    pts = np.array(ref.lattice(3))

    def body(ch):
        ops = [first]
        calls, faults = [0], []

        def f(X):
            calls[0] += 1
            if faults and calls[0] >= faults[0]:
                raise Fault('injected')
            return np.array([[1. + 3. * r[0] - (r[-1] - .3 * calls[0]) ** 2] for r in np.atleast_2d(X)])
        model = Params(target=ref.encode(pts[-1]))
        X0 = pts[[0, len(pts) // 2]]
        stop = False
        with few_anchors(60), scipy_lbfgs_stub(lambda x0, b, n: [l + (h - l) * ((.37 * (n + 1)) % 1.) for l, h in b]):
            bo = make_bo(f, dom, None, model, X=X0, Y=None if cls == 'standard' else f(X0), modular=cls == 'modular', model_update_interval=interval)
            k = 0
            while True:
                op = ops[-1]
                if op.startswith('run'):
                    bo.run_optimization(int(op[3:]), eps=-1)
                elif op == 'fail':
                    faults[:] = [calls[0] + 2]
                    try:
                        bo.run_optimization(3, eps=-1)
                        rec.check(False, 'the objective raised and the run went on')
                    except Fault:
                        pass
                    faults[:] = []
                elif op == 'suggest':
                    bo.suggest_next_locations()
                plot_both(rec, tmp, bo, model, calls, 'A' if op == 'plotA' else 'C' if op == 'plotC' else ('CA', 'AC')[len(ops) % 2], dname, list(ops))
                rec.state(dname, cls, interval, len(bo.X), bo.num_acquisitions, op, len(model.updates))
                k += 1
                if k == depth:
                    return
                i = ch.choose(len(OPS) + 1, 'op')
                if i == 0:
                    return
                ops.append(OPS[i - 1])
    rec.explore(body)


def plot_both(rec, tmp, bo, model, calls, which, dname, ops):
    for w in which:
        before, n = observables(bo, tmp), calls[0]
        path = os.path.join(tmp, 'plot.png') if len(ops) % 2 else None
        seen = []
        with patched(matplotlib.figure.Figure, 'savefig', lambda self, name, *a, **kw: seen.append(name)):
            if w == 'C':
                fig = Figure(lambda: bo.plot_convergence(*([path] if path else [])))
                judge_convergence(rec, fig, np.array(bo.X), np.array(bo.Y), ops=ops)
            else:
                sug = []
                orig = bo.evaluator.compute_batch

                def compute_batch(*a, **kw):
                    sug.append(np.array(orig(*a, **kw)))
                    return sug[-1]
                bo.evaluator.compute_batch = compute_batch
                try:
                    fig = Figure(lambda: bo.plot_acquisition(*([path] if path else [])))
                finally:
                    del bo.evaluator.compute_batch
                rec.check(len(sug) == 1, 'one suggestion to plot', got=len(sug), ops=ops)
                judge_acquisition(rec, fig, bo, model.model, sug[-1], ops=ops)
                rec.same(np.array(model.model.X), bo.space.unzip_inputs(np.array(bo.X)), 'the plot shows the surrogate of all the data', ops=ops)
        if fig.figures:
            rec.check(seen == ([path] if path else []) and len(fig.shown) == (0 if path else 1), 'saved in the file of the given name, otherwise shown', got=(seen, len(fig.shown)), path=path, ops=ops)
        rec.check(calls[0] == n, 'a plot evaluates nothing', ops=ops)
        unchanged(rec, before, observables(bo, tmp), plot=w, ops=ops)


def run_figure(rec, tmp, dname, mtype, ev, named):
    """real surrogates, through the constructor of the user"""
    dom = DOMS[dname]

    def body(ch):
        maximize, norm = ch.pick([False, True], 'maximize'), ch.pick([True, False], 'normalize')
        acq = ch.pick(['EI', 'LCB', 'MPI'], 'acquisition') + ('_MCMC' if mtype == 'GP_MCMC' else '')
        iters = ch.pick([None, 0, 1], 'iterations')
        labels = ch.pick([(None, None), ('time', 'yield')], 'labels') if named else (None, None)
        f = lambda X: np.array([[2. + r[0] ** 2 - r[-1]] for r in np.atleast_2d(X)])
        with few_anchors(30), patched(GPy.core.GP, 'plot_density', lambda self, *a, **kw: plt.figure()):
            bo = GPyOpt.methods.BayesianOptimization(f, dom, model_type=mtype, X=np.array(R.RefDomain(dom).lattice(4))[:4], maximize=maximize, normalize_Y=norm, acquisition_type=acq,
                                                     evaluator_type=ev, batch_size=1 if ev == 'sequential' else 2, optimize_restarts=1, max_iters=5, num_inducing=2,
                                                     n_samples=2, n_burnin=1, subsample_interval=1, leapfrog_steps=1)
            if iters is not None:
                bo.run_optimization(iters, eps=-1)
            before = observables(bo, tmp)
            sug = []
            orig = bo.evaluator.compute_batch

            def compute_batch(*a, **kw):
                sug.append(np.array(orig(*a, **kw)))
                return sug[-1]
            bo.evaluator.compute_batch = compute_batch
            p = os.path.join(tmp, 'figure.png')
            if os.path.exists(p):
                os.remove(p)
            a = ([p] if named else []) + list(labels if named and labels[0] else [])
            fig = Figure(lambda: bo.plot_acquisition(*a))
            judge_acquisition(rec, fig, bo, bo.model.model, sug[-1], labels, model=mtype, iters=iters)
            rec.check(os.path.exists(p) == bool(named and fig.figures), 'the file of the plot', path=p)
            unchanged(rec, before, observables(bo, tmp), model=mtype, iters=iters)
            Y = np.array(bo.Y)
            rec.same(np.array(bo.model.model.X), bo.space.unzip_inputs(np.array(bo.X)), 'data of the surrogate that was plotted')
            rec.close(np.array(bo.model.model.Y), (Y - Y.mean()) / Y.std() if norm else Y, 'outputs of the surrogate that was plotted')
            fig = Figure(lambda: bo.plot_convergence(p))
            judge_convergence(rec, fig, np.array(bo.X), Y, iters=iters)
        rec.state(dname, mtype, ev, maximize, norm, acq, iters)
    rec.explore(body, deviations=2 if (dname, mtype) == ('2c', 'GP') else 1)
