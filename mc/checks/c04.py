"""C04: the loop stops exactly when one of its stop conditions holds, and reports the results of what was evaluated.

Real code: run_optimization under a controlled clock, controlled suggestions and injected numerical failures of the surrogate.
Oracle: a reference loop over the recorded schedule."""
import itertools
import numpy as np
from .. import ref as R
from ..env import StubModel, few_anchors, make_bo, scipy_lbfgs_stub, Clock, clock, rows

PROPERTY = 'C04'
BOUNDS = {
    'quick': 'max_iter in {None,0,1,2,4} x max_time in {None,inf,0,3,7.5} x eps in {default,0.3,0,-1} x all schedules of <= 4 suggestions with distances {1, 0.35, 0.25, 1e-9, 0} (oblique) and durations {0,2,10} s and an update failing numerically at most once: at most 2 departures (3 for 4 of the limits); initial data with and without coincident last points; batches of 1 and 2; verbosity; two consecutive runs',
    'thorough': 'as quick with 2 more departures',
}
ASSUMPTIONS = ['time is read through time.time']


def cases(tier):
    out = []
    for mi in (3, None, 0, 1, 2, 4, np.inf):
        for mt in (np.inf, None, 0, 3, 7.5):
            if (mi == np.inf or mi is None) and (mt == np.inf or (mt is None and mi is not None)):
                continue                      # runs until a distance or a failure stops it: not bounded
            out.append(('iter=%s,time=%s' % (mi, mt), (mi, mt, tier)))
    return out


DEEP = [(3, np.inf), (4, 7.5), (None, 7.5), (2, None)]


def weight(p):
    return 10 if p[:2] in DEEP else 1


def run(params, rec):
    with few_anchors(10):
        rec.explore(lambda ch: one(ch, rec, *params[:2]), deviations=(4 if params[2] == 'thorough' else 2) + (params[:2] in DEEP))


def one(ch, rec, max_iter, max_time):
    dom = [R.C('a', (0., 10.)), R.C('b', (0., 10.))]
    unbounded = max_iter in (None, np.inf) and max_time is not None
    ck = Clock()
    events, times, seen, answers = [], [], [], [(5., 5.)]
    batch = ch.pick([1, 2], 'batch')
    eps = ch.pick([None, .3, 0., -1.], 'eps')
    init = ch.pick(['apart', 'close', 'equal', 'one'], 'initial data')
    given = ch.pick(['XY', 'X'], 'initial outputs')
    modular = ch.pick([False, True], 'class')
    maximize = ch.pick([False, True], 'maximize')
    verbosity = ch.pick([False, True], 'verbosity')
    runs = ch.pick([1, 2], 'runs')
    X0 = {'apart': [(1., 1.), (2., 2.)], 'close': [(1., 1.), (1., 1.25)], 'equal': [(2., 1.), (2., 1.)], 'one': [(3., 3.)]}[init]
    X = np.array(X0)

    def f(x):
        seen.append(rows(x)[0])
        events.append('f')
        if len(seen) > 40:
            raise RuntimeError('the loop does not stop')
        ck.advance(ch.pick([2., 0., 10.], 'duration') if not unbounded else ch.pick([2., 10., 1.], 'duration'))
        times.append(ck.t)
        return np.array([[float((len(seen) * 7) % 5)]])

    class Model(StubModel):
        def updateModel(self, *a):
            if len(events) < 12 and ch.pick([False, True], 'update fails'):
                events.append('fail')
                raise np.linalg.LinAlgError('injected')
            events.append('u')
            ck.advance(ch.pick([0., 6.], 'duration of the update'))
            # where the next suggestion will be: at a chosen distance of the last evaluated point
            last = np.array(bo.X[-1], float)
            d = ch.pick([1., .25, 1e-9, 0., .35], 'distance')   # with eps=.3 other norms give another answer
            s = -1. if last[0] > 6 else 1.
            answers[0] = tuple(last + [s * d * .6, d * .8])
            self.target = answers[0]
            StubModel.updateModel(self, *a)
    m = Model((0., 0.), gradients=True)
    Y = np.arange(1., 1. + len(X))[:, None] if given == 'XY' else None
    bo = make_bo(f, dom, None, X=X, Y=Y, model=m, batch_size=batch, evaluator_type='random' if batch == 2 else 'sequential',
                 modular=modular, maximize=maximize)
    kw = {} if eps is None else dict(eps=eps)
    tol = 1e-8 if eps is None else eps
    cfg = dict(max_iter=max_iter, max_time=max_time, eps=tol, batch=batch, init=init)
    with clock(ck), scipy_lbfgs_stub(lambda x0, b, n: answers[0]):
        for r in range(runs):
            del events[:], times[:]
            nx, evaluated, start = len(bo.X), bo.Y is not None, ck.t
            bo.run_optimization(max_iter, max_time, verbosity=verbosity, **kw)
            judge(rec, bo, [start] + times, events, cfg, nx, evaluated, batch, max_iter, max_time, tol)
            rec.trans(len(events))
    rec.outcome((bo.num_acquisitions, events[-1:] == ['fail']))
    rec.state(max_iter, max_time, cfg, rows(bo.X), ck.t)


def judge(rec, bo, times, events, cfg, nx, evaluated, batch, max_iter, max_time, tol):
    """replays the reference loop against what happened"""
    if max_iter is None and max_time is None:
        lim, tlim = 0, np.inf
    else:
        lim, tlim = (np.inf if max_iter is None else max_iter), (np.inf if max_time is None else max_time)
    X = rows(bo.X)
    ev = list(events)
    if not evaluated:
        rec.check(ev[:nx] == ['f'] * nx, 'the initial points are evaluated first', events=ev)
        ev, times = ev[nx:], times[nx:]
    its, n, pos, why = 0, nx, 0, None
    while True:
        if not tlim > times[its * batch] - times[0]:
            why = 'time'
            break
        if ev[pos:pos + 1] == ['fail']:
            pos, why = pos + 1, 'failure'
            break
        rec.check(ev[pos:pos + 1] == ['u'], 'the surrogate is updated before every suggestion', events=events, at=pos, config=cfg)
        pos += 1
        if its >= lim:
            why = 'iterations'
            break
        if n > 1 and np.linalg.norm(np.subtract(X[n - 1], X[n - 2])) <= tol:
            why = 'distance'
            break
        rec.check(ev[pos:pos + batch] == ['f'] * batch, 'stopped before any stop condition, or partly evaluated', events=events, at=pos,
                  config=cfg, iterations=its)
        pos += batch
        n += batch
        its += 1
    rec.check(pos == len(ev), 'went on after a stop condition (%s)' % why, events=events, at=pos, config=cfg)
    rec.check(bo.num_acquisitions == its, 'number of acquisitions', got=bo.num_acquisitions, expected=its)
    rec.check(len(bo.X) == n and len(bo.Y) == n, 'number of evaluations', X=len(bo.X), Y=len(bo.Y), expected=n)
    ys = np.asarray(bo.Y).ravel()
    rec.check(bo.fx_opt == ys.min() and tuple(np.ravel(bo.x_opt)) in [x for x, y in zip(X, ys) if y == ys.min()], 'results after stopping', fx=bo.fx_opt)
    rec.same(np.ravel(bo.Y_best), np.minimum.accumulate(ys), 'Y_best after stopping')
    rec.outcome(why)
