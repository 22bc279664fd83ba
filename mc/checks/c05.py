"""C05: a fault at any point of a run leaves consistent data, and the run can be resumed.

Real code: run_optimization / suggest_next_locations. Every call of the environment (objective, surrogate update, surrogate
prediction, local optimizer, cost) may raise; all single faults and all pairs of faults over a run and its resumptions."""
import numpy as np
from .. import ref as R
from ..env import StubModel, few_anchors, make_bo, scipy_lbfgs_stub, rows

PROPERTY = 'C05'
BOUNDS = {
    'quick': 'run of 3 iterations, resumed until it completes (at most 3 resumptions); every point at which the objective / update / prediction / local optimizer / cost is called may raise (11 classes of exception, single faults with each of them; or keyboard interrupt), at most 2 departures (1 for local penalization and Thompson sampling) including the configuration (class, batch, evaluator, domain, maximize, interval, initial data)',
    'thorough': 'one more departure',
}
ASSUMPTIONS = []


class Injected(Exception):
    pass


# the class of the error is not to matter (LinAlgError from the surrogate update is a stop condition: C04)
ERRORS = [Injected] + [type('Injected' + b.__name__, (Injected, b), {}) for b in
                       (ValueError, np.linalg.LinAlgError, RuntimeError, TypeError, KeyError, AttributeError, OSError, StopIteration, AssertionError, ArithmeticError)]


DOMS = ['cdk', 'c1', 'k3', 'd2']
EVS = [('sequential', 1), ('random', 2), ('local_penalization', 2), ('thompson_sampling', 2), ('random', 3)]

SLOW = ('local_penalization', 'thompson_sampling')


def cases(tier):
    out = []
    for dom in DOMS:
        for ev in EVS:
            for modular in (False, True):
                if ev[0] == 'local_penalization' and not modular:
                    continue
                for init in ('X', 'XY', 'design'):
                    if dom != 'cdk' and (init == 'design' or modular != (ev[0] == 'local_penalization')):
                        continue
                    name = '%s/%s%d/%s/%s' % (dom, ev[0], ev[1], 'modular' if modular else 'standard', init)
                    full = len(out) % len(ERRORS)          # pairs of faults with one class of error, single faults with all of them
                    for e in range(len(ERRORS)):
                        if e == full or (dom == 'cdk' and ev[1] < 3 or tier == 'thorough'):
                            out.append(('%s/%s' % (name, ERRORS[e].__name__), (dom, ev, modular, init, tier, e, e == full)))
    return out


def run(params, rec):
    with few_anchors(10):
        rec.explore(lambda ch: one(ch, rec, *params[:4], ERRORS[params[5]]), deviations=1 if not params[6] else (1 if params[1][0] in SLOW else 2) + (params[4] == 'thorough'))


def one(ch, rec, domname, ev, modular, init, error):
    dom = R.DOMAINS[domname]
    ref = R.RefDomain(dom)
    maximize = ch.pick([False, True], 'maximize')
    interval = ch.pick([1, 2], 'interval')
    user_cost = ch.pick([False, True], 'cost')
    sign = -1. if maximize else 1.
    value, done, npred = {}, [], [0]
    armed = [False]

    def fault(where):
        if not armed[0]:
            return
        err = Injected if where == 'update' and issubclass(error, np.linalg.LinAlgError) else error
        k = ch.pick([None, err, KeyboardInterrupt] if where == 'f' else [None, err], 'fault in ' + where)
        if k is not None:
            raise k(where)

    def f(x):
        fault('f')
        y = float((7 * len(done)) % 5) - 1.
        done.append((rows(x)[0], sign * y))
        return np.array([[y]])

    class Model(StubModel):
        def updateModel(self, *a):
            fault('update')
            StubModel.updateModel(self, *a)

        def predict_withGradients(self, X):
            npred[0] += 1
            if npred[0] % 3 == 1:
                fault('predict')
            return StubModel.predict_withGradients(self, X)

    def cost(x):
        return np.ones((len(x), 1)), np.zeros(np.shape(x))

    def answer(x0, b, n):
        if n % 4 == 0:
            fault('local optimizer')
        return None
    X = np.array(ref.lattice()[:2]) if init != 'design' else None
    Y = np.array([[4.], [3.]]) if init == 'XY' else None
    kw = dict(cost_withGradients=cost) if user_cost and not modular else {}
    bo = make_bo(f, dom, None, X=X, Y=Y, model=Model(ref.encode(ref.lattice()[-1])), evaluator_type=ev[0], batch_size=ev[1],
                 modular=modular, maximize=maximize, model_update_interval=interval, initial_design_numdata=2, **kw)
    left, attempts = 3, 0
    with scipy_lbfgs_stub(answer):
        if init == 'XY' and interval == 1:
            bo.run_optimization(0, eps=-1.)         # results exist before the fault
        armed[0] = True
        while left > 0:
            n0 = None if bo.Y is None else len(bo.Y)
            x_before = np.array(bo.X)
            y_before = None if bo.Y is None else np.array(bo.Y)
            try:
                bo.run_optimization(left, eps=-1.)
                faulted = None
            except (Injected, KeyboardInterrupt) as e:
                faulted = '%s in %s' % (type(e).__name__, e)
            Xn, Yn = np.asarray(bo.X), bo.Y
            rec.same(Xn[:len(x_before)], x_before, 'recorded inputs changed', fault=faulted)
            if Yn is None:
                rec.check(y_before is None and faulted is not None and len(Xn) == len(x_before), 'outputs missing after the run', fault=faulted)
            else:
                if y_before is not None:
                    rec.same(np.asarray(Yn)[:len(y_before)], y_before, 'recorded outputs changed', fault=faulted)
                rec.check(len(Xn) == len(Yn), 'inputs and outputs of different length', X=len(Xn), Y=len(Yn), fault=faulted)
                base = n0 if n0 is not None else len(x_before)
                rec.check((len(Xn) - base) % ev[1] == 0, 'a batch is recorded partly', new=len(Xn) - base, batch=ev[1], fault=faulted)
                new = list(zip(rows(Xn), np.ravel(Yn)))[2 if init == 'XY' else 0:]
                pool = list(done) + ([] if init != 'XY' else [])
                for p in new:
                    rec.check(p in pool, 'a recorded pair was never observed', pair=p, observed=done, fault=faulted)
                if faulted is None:
                    rec.check(len(Xn) - base == left * ev[1], 'the resumed run did not complete', new=len(Xn) - base, expected=left * ev[1])
                    ys = np.ravel(Yn)
                    rec.check(bo.fx_opt == ys.min(), 'fx_opt after the resumed run')
                    rec.check(tuple(np.ravel(bo.x_opt)) in [x for x, y in zip(rows(Xn), ys) if y == ys.min()], 'x_opt after the resumed run')
                    left = 0
                else:
                    # what was evaluated completely before the fault is not lost
                    full = (len(Xn) - base) // ev[1]
                    left -= full
            rec.state(domname, ev, init, faulted, rows(Xn), None if Yn is None else np.ravel(Yn))
            rec.outcome(faulted)
            if faulted is not None:
                attempts += 1
                rec.check(attempts < 5, 'the run cannot be resumed')
                # other ways to use the object after the fault
                if bo.Y is not None and attempts == 1:
                    armed[0] = False
                    S = bo.suggest_next_locations()
                    rec.check(S.shape == (ev[1], ref.nobj), 'suggestion after a fault', shape=S.shape, fault=faulted)
                    last = bo.model.updates[-1]
                    rec.same(last[0], np.array([ref.encode(x) for x in rows(bo.X)]), 'surrogate inputs after a fault', fault=faulted)
                    rec.check(len(last[1]) == len(bo.Y), 'surrogate outputs after a fault', fault=faulted)
                    calls = len(done)
                    bo.run_optimization(0, eps=-1.)
                    ys = np.ravel(bo.Y)
                    rec.check(len(done) == calls and len(ys) == len(bo.X), 'a run of no iterations evaluates', fault=faulted)
                    rec.same(np.ravel(bo.Y_best), np.minimum.accumulate(ys), 'best values after a fault', fault=faulted)
                    rec.check(bo.fx_opt == ys.min(), 'fx_opt after a fault', got=bo.fx_opt, expected=ys.min(), fault=faulted)
                    rec.check(tuple(np.ravel(bo.x_opt)) in [x for x, y in zip(rows(bo.X), ys) if y == ys.min()], 'x_opt after a fault', fault=faulted)
                    armed[0] = True
    if faulted is None:
        lost = len(done) - (len(bo.Y) - (2 if init == 'XY' else 0))
        rec.check(lost <= attempts * max(ev[1], 2), 'evaluations lost', lost=lost, faults=attempts)
