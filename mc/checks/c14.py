"""C14: user costs are used as given, learnt costs follow all the timings of the run.

Real code: CostModel, the optimization loop and the acquisitions under a controlled clock. Explored: all sequences of updates up to a depth
(number of points, shape and durations), all runs of the bound. The hyper-parameters of the learnt model are not optimized (the training
data and the posterior are judged, not the maximum likelihood)."""
import contextlib
import itertools
import numpy as np
import GPy
import GPyOpt
from .. import ref as R
from ..env import StubModel, TableModel, Clock, clock, few_anchors, make_bo, patched, scipy_lbfgs_stub, box_point, rows

PROPERTY = 'C14'
BOUNDS = {
    'quick': 'all sequences of 1-3 updates out of 9 (1-3 points, list / column / row / vector, durations 0 to 100 s); histories of 2 operations (run 1-2 iterations, suggest) x (class, domain, evaluator, acquisition, source of the initial data) with at most 2 departures; user costs x 4 domains x 3 acquisitions x all lattice points, before and after runs',
    'thorough': 'sequences of 4 updates; 3 operations, 3 departures',
}
ASSUMPTIONS = ['time is read through time.time', 'the evaluations of a batch on several cores count as taking one unit of time, as documented']

UPDATES = {
    'one': ([[.5]], [2.]), 'fast': ([[-.3]], [1e-3]), 'zero': ([[1.1]], [0.]), 'same': ([[.5]], [8.]),
    'col': ([[.1], [.9]], np.array([[1.], [3.]])), 'vec': ([[-1.], [.7]], np.array([100., .2])), 'list': ([[.2], [1.4], [-.6]], [1., 2., 4.]),
    'row': ([[.25], [1.9]], np.array([[5., .5]])), 'ones': ([[.3], [.4], [.6]], np.ones((3, 1))),
}


def cases(tier):
    out = []
    for w in [None] + list(UPDATES):
        out.append(('updates/%s' % w, ('updates', w, tier)))
    for h in itertools.product(('run1', 'run2', 'suggest'), repeat=3 if tier == 'thorough' else 2):
        out.append(('history/' + '-'.join(h), ('history', h, tier)))
    for d in ('c1', 'cdk', 'k3', 'b1'):
        for a in ('EI', 'MPI', 'LCB'):
            for modular in (False, True):
                out.append(('user/%s/%s/%d' % (d, a, modular), ('user', d, a, modular)))
    return out


@contextlib.contextmanager
def fixed_hyperparameters(log):
    """records what GP surrogates are trained on; their parameters stay as created"""
    cls = GPyOpt.models.GPModel
    orig = cls.updateModel

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        log.append((self, np.array(X_all, float), np.array(Y_all, float)))
        return orig(self, X_all, Y_all, X_new, Y_new)
    noop = lambda self, *a, **k: None
    with patched(cls, 'updateModel', updateModel), patched(GPy.models.GPRegression, 'optimize', noop), patched(GPy.models.GPRegression, 'optimize_restarts', noop):
        yield


def run(params, rec):
    globals()['run_' + params[0]](rec, *params[1:])
    rec.outcome(params[0])


def judge(rec, cost, log, ledger, X, **detail):
    """cost at the rows of X, for the timings (point of the surrogate, seconds) of the ledger"""
    X = np.asarray(X, float)
    v, g = cost(X)
    rec.check(np.shape(v) == (len(X), 1) and np.shape(g) == X.shape, 'shapes of the cost', got=(np.shape(v), np.shape(g)), **detail)
    if not ledger:
        rec.check(np.all(v == 1) and np.all(g == 0), 'the cost is not one although nothing was timed', got=v, **detail)
        return
    rec.check(len(log) > 0, 'the cost was not learnt although evaluations were timed', timings=ledger, **detail)
    gp, XX, YY = log[-1]
    rec.check(XX.shape == (len(ledger), X.shape[1]) and YY.shape == (len(ledger), 1), 'the cost is not trained on every timed evaluation', shapes=(XX.shape, YY.shape), timings=len(ledger), **detail)
    got = sorted((tuple(np.round(x, 9)), max(float(y), -13.8)) for x, y in zip(XX, YY[:, 0]))
    want = sorted((tuple(np.round(x, 9)), max(float(np.log(max(t, 1e-9))), -13.8)) for x, t in ledger)
    ok = all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-6 for a, b in zip(got, want)) and np.all(np.isfinite(YY))
    rec.check(ok, 'the cost is not trained on the logarithm of the times at their points', got=got, expected=want, **detail)
    rec.close(v, np.exp(gp.predict(X)[0]), 'the cost is not the exponential of the posterior mean', tol=1e-9, **detail)
    dm = gp.predict_withGradients(X)[2]
    rec.close(g, np.exp(gp.predict(X)[0]) * dm, 'the gradient of the cost is not that of the exponential of the posterior mean', tol=1e-9, **detail)
    # closed form posterior: the cost interpolates the timings up to the noise of its model
    K = gp.model.kern.K(XX) + (float(gp.model.likelihood.variance[0]) + 1e-8) * np.eye(len(XX))
    m = gp.model.kern.K(X, XX).dot(np.linalg.solve(K, YY))
    rec.close(np.log(v), m, 'the logarithm of the cost is not the posterior mean of the training data', tol=1e-3, **detail)


def run_updates(rec, first, tier):
    Q = np.linspace(-1.5, 2.5, 9)[:, None]
    depth = 4 if tier == 'thorough' else 3
    seqs = [()] if first is None else [(first,) + s for n in range(depth) for s in itertools.product(UPDATES, repeat=n)]
    for d in (1, 2):
        for seq in seqs:
            log = []
            with fixed_hyperparameters(log):
                c = GPyOpt.core.task.cost.CostModel('evaluation_time')
                ledger = []
                q = np.hstack([Q, Q[::-1]])[:, :d]
                judge(rec, c.cost_withGradients, log, ledger, q, sequence=seq)
                for u in seq:
                    X = np.array([x + [.5 * x[0] + len(ledger)] for x in UPDATES[u][0]])[:, :d]
                    t = UPDATES[u][1]
                    t0 = np.array(t, float).copy()
                    c.update_cost_model(X, t)
                    rec.check(np.array_equal(t0, np.array(t, float)), 'the times were modified')
                    ledger += list(zip(rows(X), np.asarray(t).ravel().tolist()))
                    judge(rec, c.cost_withGradients, log, ledger, q, sequence=seq)
                    rec.state(d, seq, len(ledger))
                    rec.trans()
            rec.execution()


def run_history(rec, hist, tier):
    def body(ch):
        modular = ch.pick([False, True], 'class')
        domn = ch.pick(['c1', 'cdk', 'k3', 'd2'], 'domain')
        ev, nb = ch.pick([('sequential', 1), ('random', 2), ('thompson_sampling', 2), ('random', 3)], 'evaluator')
        acqt = ch.pick(['EI', 'MPI'], 'acquisition')
        init = ch.pick(['design', 'X', 'XY'], 'initial data')
        durs = ch.pick([(1., 2., 4., .5), (0., 3., 0., 1.), (5., 5., 5., 5.)], 'durations')
        dom = R.DOMAINS[domn]
        ref = R.RefDomain(dom)
        c, log, ledger = Clock(), [], []

        def f(x):
            t = durs[len(ledger) % len(durs)]
            c.advance(t)
            ledger.append((tuple(ref.encode(rows(x)[0])), t))
            return np.array([[float(np.sum(x))]])
        X = np.array(ref.lattice(3)[:4])
        Y = X.sum(1)[:, None]
        model = StubModel(target=np.full(ref.nmodel, .5), gradients=ev != 'x')
        with clock(c), fixed_hyperparameters(log), few_anchors(), scipy_lbfgs_stub(box_point(.4)):
            if modular:
                cm = GPyOpt.core.task.cost.CostModel('evaluation_time')
                bo = make_bo(f, dom, None, model, X=X, Y=Y if init == 'XY' else None, acquisition_type=acqt, evaluator_type=ev, batch_size=nb, modular=True, cost_withGradients=cm)
                bo.acquisition.cost_withGradients = cm.cost_withGradients
            else:
                kw = dict(X=X) if init == 'X' else dict(X=X, Y=Y) if init == 'XY' else dict(initial_design_numdata=3)
                bo = make_bo(f, dom, None, model, acquisition_type=acqt, evaluator_type=ev, batch_size=nb, cost_withGradients='evaluation_time', **kw)
            Q = np.array([ref.encode(p) for p in ref.lattice(3)])[:12]
            plain = getattr(GPyOpt.acquisitions, 'Acquisition' + acqt)(model, GPyOpt.Design_space(dom))
            for i, h in enumerate(hist):
                if i == 0 or h:
                    judge(rec, bo.cost.cost_withGradients, log, ledger, Q, history=hist[:i])
                if h == 'suggest':
                    if bo.Y is None:
                        continue              # no outputs to suggest from yet
                    n = len(ledger)
                    bo.suggest_next_locations()
                    rec.check(len(ledger) == n, 'a suggestion evaluated the objective')
                else:
                    bo.run_optimization(int(h[3:]), eps=-1)
                judge(rec, bo.cost.cost_withGradients, log, ledger, Q, history=hist[:i + 1])
                if bo.Y is not None:
                    for x in Q:
                        v, g = bo.acquisition.acquisition_function_withGradients(x[None])
                        p, dp = plain.acquisition_function_withGradients(x[None])
                        k, dk = bo.cost.cost_withGradients(x[None])
                        rec.close(bo.acquisition.acquisition_function(x[None]), p / k, 'the acquisition is not divided by the learnt cost', tol=1e-9, point=x)
                        rec.close(v, p / k, 'the acquisition with gradients is not divided by the learnt cost', tol=1e-9, point=x)
                        rec.close(g, (dp * k - p * dk) / k ** 2, 'gradient with the learnt cost', tol=1e-8, point=x)
                rec.state(hist[:i + 1], domn, ev, nb, init, durs, len(ledger))
        rec.outcome(init)
    rec.explore(body, deviations=3 if tier == 'thorough' else 2)


def run_user(rec, domn, acqt, modular):
    dom = R.DOMAINS[domn]
    ref = R.RefDomain(dom)
    Q = np.array([ref.encode(p) for p in ref.lattice(3)])

    def c1(x):
        x = np.atleast_2d(x)
        return 2. + x.sum(1)[:, None] ** 2, np.tile(np.arange(1., x.shape[1] + 1), (len(x), 1))      # not its derivative: used as given

    def c2(x):
        x = np.atleast_2d(x)
        return .01 * np.ones((len(x), 1)), -np.ones(x.shape)

    def body(ch):
        cost = ch.pick([c1, c2, None], 'cost')
        target = ch.pick([.5, 0., 2.], 'surrogate')
        model = StubModel(target=np.full(ref.nmodel, target))
        calls = []

        def f(x):
            calls.append(1)
            return np.array([[float(np.sum(x))]])
        X = np.array(ref.lattice(3)[:3])
        with few_anchors(), scipy_lbfgs_stub(box_point(.4)):
            bo = make_bo(f, dom, None, model, X=X, Y=X.sum(1)[:, None], acquisition_type=acqt, modular=modular, cost_withGradients=cost)
            if modular and cost is not None:
                bo.acquisition = getattr(GPyOpt.acquisitions, 'Acquisition' + acqt)(model, bo.space, bo.acquisition.optimizer, bo.cost.cost_withGradients)
            plain = getattr(GPyOpt.acquisitions, 'Acquisition' + acqt)(model, GPyOpt.Design_space(dom))
            for step in range(3):
                v, g = bo.cost.cost_withGradients(Q)
                k, dk = (np.ones((len(Q), 1)), np.zeros(Q.shape)) if cost is None else cost(Q)
                rec.close(v, k, 'the cost is not that of the user', tol=0)
                rec.close(g, dk, 'the gradient of the cost is not that of the user', tol=0)
                if acqt == 'LCB':
                    k, dk = np.ones_like(k), np.zeros_like(dk)
                for i, x in enumerate(Q):
                    a, ga = plain.acquisition_function_withGradients(x[None])
                    v, g = bo.acquisition.acquisition_function_withGradients(x[None])
                    rec.close(v, a / k[i], 'acquisition per unit of cost', tol=1e-12, point=x)
                    rec.close(bo.acquisition.acquisition_function(x[None]), a / k[i], 'acquisition per unit of cost (without gradients)', tol=1e-12, point=x)
                    rec.close(g, (ga * k[i] - a * dk[i]) / k[i] ** 2, 'gradient of the acquisition per unit of cost', tol=1e-10, point=x)
                    rec.state(domn, acqt, modular, target, x)
                bo.run_optimization(1, eps=-1) if step == 0 else bo.suggest_next_locations()
                rec.trans()
        rec.outcome('user' if cost else 'none')
    rec.explore(body)
