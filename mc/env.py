"""Stand-ins for the environment of the code under test: models, local optimizer, clock."""
import contextlib
import numpy as np
import GPyOpt
from GPyOpt.models.base import BOModel


class InnerModel(object):
    """What the batch methods use of a GPy model: data, predict, predictive_gradients."""
    def __init__(self, outer):
        self.o = outer
        self.X = self.Y = None

    def predict(self, X, **kw):
        m, s = self.o.predict(X)
        return m, s ** 2

    def predictive_gradients(self, X):
        _, _, dm, ds = self.o.predict_withGradients(X)
        return dm[:, :, None], ds


class StubModel(BOModel):
    """A surrogate that prefers one given point (of the model space), and records its updates.
    mean = squared distance to the target (smooth), standard deviation constant."""
    MCMC_sampler = False

    def __init__(self, target=None, gradients=True, sd=0.5, fail_at=()):
        self.target, self.sd = target, sd
        self.analytical_gradient_prediction = gradients
        self.updates = []
        self.fail_at = set(fail_at)
        self.model = InnerModel(self)

    def _t(self, X):
        return np.zeros(X.shape[1]) if self.target is None else np.asarray(self.target, float)

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        k = len(self.updates)
        self.updates.append((np.array(X_all, float), np.array(Y_all, float)))
        if k in self.fail_at:
            raise np.linalg.LinAlgError('injected')
        self.model.X, self.model.Y = np.array(X_all, float), np.array(Y_all, float)

    def predict(self, X, with_noise=True):
        X = np.atleast_2d(np.asarray(X, float))
        return ((X - self._t(X)) ** 2).sum(1)[:, None], np.full((X.shape[0], 1), self.sd)

    def predict_withGradients(self, X):
        X = np.atleast_2d(np.asarray(X, float))
        m, s = self.predict(X)
        return m, s, 2 * (X - self._t(X)), np.zeros(X.shape)

    def get_fmin(self):
        return 0.1

    def get_model_parameters(self):
        return np.array([[float(len(self.updates)), 7.]])

    def get_model_parameters_names(self):
        return ['updates', 'seven']


@contextlib.contextmanager
def patched(obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, old)


def scipy_lbfgs_stub(answer, clip=True):
    """Replaces scipy's L-BFGS-B. answer(x0, bounds, n) -> point of the box (the local optimizer may end anywhere; clip=False: also outside)."""
    count = [0]
    import scipy.optimize
    real = scipy.optimize.fmin_l_bfgs_b

    def fmin_l_bfgs_b(func, x0, fprime=None, args=(), approx_grad=0, bounds=None, **kw):
        if bounds is None:          # not the acquisition: the hyper-parameters of a GP
            return real(func, x0, fprime=fprime, args=args, approx_grad=approx_grad, **kw)
        x0 = np.array(x0, float).ravel()
        b = [(float(l), float(h)) for l, h in bounds]
        assert len(b) == len(x0), 'L-BFGS called with %d bounds for %d variables' % (len(b), len(x0))
        n = count[0]
        count[0] += 1

        def value(x):
            v = func(x, *args)
            if not approx_grad and fprime is None:
                g = np.asarray(v[1], float)
                assert g.size == len(x0), 'gradient of size %s for %d variables' % (g.size, len(x0))
                v = v[0]
            v = np.asarray(v, float)
            assert v.size == 1, 'objective of the local optimizer of size %d' % v.size
            return v.ravel()[0]
        value(x0)
        x = answer(x0, b, n)
        x = x0 if x is None else np.array(x, float).ravel()
        if clip:
            x = np.clip(x, [l for l, _ in b], [h for _, h in b])
        return x, value(x), {'task': 'CONVERGENCE: NORM_OF_PROJECTED_GRADIENT_<=_PGTOL', 'warnflag': 0, 'funcalls': 2, 'nit': 1,
                             'grad': np.zeros(len(x0))}
    return patched(scipy.optimize, 'fmin_l_bfgs_b', fmin_l_bfgs_b)


def outside(sign, by=None):
    """answer of the local optimizer: a point outside of every side of the box"""
    def answer(x0, bounds, n):
        k = [by if by else 5. + h - l for l, h in bounds]
        return [l - d if sign < 0 else h + d for d, (l, h) in zip(k, bounds)]
    return answer


def previous_start():
    """answer of the local optimizer: the start of the search before this one"""
    last = []

    def answer(x0, bounds, n):
        last.append(np.array(x0))
        return None if len(last) == 1 else last[-2]
    return answer


def box_point(frac):
    """answer of the local optimizer: the point at the given fraction(s) of every side of the box"""
    def answer(x0, bounds, n):
        f = frac if np.ndim(frac) else [frac] * len(bounds)
        return [l + (h - l) * f[i % len(f)] for i, (l, h) in enumerate(bounds)]
    return answer


class Clock(object):
    """Stands in for time.time: advances by the given steps."""
    def __init__(self, t=1000.):
        self.t = t

    def __call__(self):
        return self.t

    def advance(self, dt):
        self.t += dt


def clock(c):
    import time
    return patched(time, 'time', c)


def rows(X):
    return [tuple(float(v) for v in r) for r in np.atleast_2d(X)]


def make_bo(f, dom, con, model, X=None, Y=None, acquisition_type='EI', evaluator_type='sequential', batch_size=1,
            de_duplication=False, modular=None, maximize=False, normalize_Y=True, model_update_interval=1,
            initial_design_numdata=5, num_cores=1, cost_withGradients=None, **kw):
    """A BO loop over the given surrogate, through the class that accepts the configuration."""
    from GPyOpt.methods import BayesianOptimization, ModularBayesianOptimization
    if modular is None:
        modular = evaluator_type == 'local_penalization'     # the other class only accepts it with its own GP models
    if not modular:
        return BayesianOptimization(f, dom, con, X=X, Y=Y, model=model, acquisition_type=acquisition_type, evaluator_type=evaluator_type,
                                    batch_size=batch_size, de_duplication=de_duplication, maximize=maximize, normalize_Y=normalize_Y,
                                    model_update_interval=model_update_interval, initial_design_numdata=initial_design_numdata,
                                    num_cores=num_cores, cost_withGradients=cost_withGradients, **kw)
    space = GPyOpt.Design_space(dom, con)
    func = f if not maximize else (lambda x: -f(x))
    obj = None if f is None else GPyOpt.core.task.SingleObjective(func, num_cores)
    opt = GPyOpt.optimization.AcquisitionOptimizer(space, 'lbfgs', model=model, **kw)
    acq = {'EI': GPyOpt.acquisitions.AcquisitionEI, 'MPI': GPyOpt.acquisitions.AcquisitionMPI,
           'LCB': GPyOpt.acquisitions.AcquisitionLCB}[acquisition_type](model, space, opt)
    if evaluator_type == 'local_penalization':
        acq = GPyOpt.acquisitions.AcquisitionLP(model, space, opt, acq)
        ev = GPyOpt.core.evaluators.LocalPenalization(acq, batch_size)
    elif evaluator_type == 'sequential' or batch_size == 1:
        ev = GPyOpt.core.evaluators.Sequential(acq)
    else:
        ev = GPyOpt.core.evaluators.select_evaluator(evaluator_type)(acq, batch_size)
    if X is None:
        X = GPyOpt.experiment_design.initial_design('random', space, initial_design_numdata)
    return ModularBayesianOptimization(model, space, obj, acq, ev, X, Y, cost=cost_withGradients, normalize_Y=normalize_Y,
                                       model_update_interval=model_update_interval, de_duplication=de_duplication)


@contextlib.contextmanager
def few_anchors(cap=100):
    """Bounds the number of random candidates drawn per suggestion (1000 to 25000 by default), to explore more executions.
    If the function is not there under this name, all the candidates are drawn (slower, same judgement)."""
    import GPyOpt.optimization.anchor_points_generator as g
    orig = getattr(g, 'initial_design', None)
    if orig is None:
        yield
        return

    def initial_design(design_name, space, init_points_count):
        return orig(design_name, space, min(int(init_points_count), cap))
    g.initial_design = initial_design
    try:
        yield
    finally:
        g.initial_design = orig


class TableModel(BOModel):
    """A surrogate whose mean and standard deviation are the two coordinates of the point that start at `off`; with samples [(a,b,c)...] it
    is an integrated one: sample i predicts a*m+b and c*s. maps: optional smooth functions (value, gradient) instead of the coordinates."""
    analytical_gradient_prediction = True

    def __init__(self, samples=None, off=0, fmin=0., maps=None, gradients=True):
        self.samples, self.off, self.fmin, self.maps = samples, off, fmin, maps
        self.MCMC_sampler = samples is not None
        self.analytical_gradient_prediction = gradients
        self.model = InnerModel(self)

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        self.model.X, self.model.Y = np.array(X_all, float), np.array(Y_all, float)

    def fmins(self):
        return [self.fmin + .25 * k for k in range(len(self.samples or [0]))]

    def get_fmin(self):
        return self.fmins() if self.MCMC_sampler else self.fmin

    def _ms(self, X):
        X = np.atleast_2d(np.asarray(X, float))
        if self.maps:
            (m, dm), (s, ds) = self.maps[0](X), self.maps[1](X)
            return m[:, None], s[:, None], dm, ds
        dm, ds = np.zeros(X.shape), np.zeros(X.shape)
        dm[:, self.off], ds[:, self.off + 1] = 1., 1.
        return X[:, self.off:self.off + 1].copy(), X[:, self.off + 1:self.off + 2].copy(), dm, ds

    def predict_withGradients(self, X):
        m, s, dm, ds = self._ms(X)
        if not self.MCMC_sampler:
            return m, s, dm, ds
        S = self.samples
        return [a * m + b for a, b, c in S], [c * s for a, b, c in S], [a * dm for a, b, c in S], [c * ds for a, b, c in S]

    def predict(self, X, with_noise=True):
        return self.predict_withGradients(X)[:2]
