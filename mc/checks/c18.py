"""C18: the files with evaluations, models and report contain the run.

Real code: BO.save_evaluations / save_models / save_report / run_optimization(..._file). Explored: histories of runs, suggestions and
requests of files, over both classes, all surrogates, domains, costs and evaluators; the files are parsed back."""
import csv
import os
import re
import shutil
import tempfile
import numpy as np
import GPy
import GPyOpt
from .. import ref as R
from ..env import StubModel, few_anchors, make_bo, scipy_lbfgs_stub, box_point, patched, clock, Clock, rows

PROPERTY = 'C18'
BOUNDS = {
    'quick': 'all histories of up to 3 operations (runs of 0-2 iterations, runs that ask for files, runs that end early, suggestions), each of the files after every operation, over 2 classes and 3 update intervals; every domain, constraint, cost, evaluator, number of cores, name and tolerance in the report; parameters of the GP, sparse, warped, and MCMC surrogates (the input warped one cannot run, see the known finding of C15)',
    'thorough': 'histories of up to 4 operations',
}
ASSUMPTIONS = ['the surrogate is a stand-in where the files do not depend on it', 'the report is read as label: value lines']

OPS = ['run0', 'run1', 'run2', 'files', 'time', 'suggest']


def cases(tier):
    out = [('history/%s/%d/%s' % (cls, iv, first), ('history', cls, iv, first, 4 if tier == 'thorough' else 3))
           for cls in ('standard', 'modular') for iv in (1, 2, 3) for first in OPS + ['none']]
    out += [('report/' + n, ('report', n, d, c)) for n, d, c in R.spaces()]
    out += [('model/%s/%s' % (m, cls), ('model', m, cls)) for m in ('GP', 'GP-ard', 'GP-exact', 'sparseGP', 'warpedGP', 'GP_MCMC', 'GP_MCMC-ard', 'GP_MCMC-exact', 'none')
            for cls in ('standard', 'modular')]
    return out


def weight(p):
    return 5 if p[0] == 'model' else 1


def run(params, rec):
    d = tempfile.mkdtemp(prefix='mc18_')
    try:
        globals()['run_' + params[0]](rec, d, *params[1:])
    finally:
        shutil.rmtree(d)
    rec.outcome(params[0])


def table(path):
    with open(path) as f:
        t = [r for r in csv.reader(f, delimiter='\t') if r]
    return t[0], np.array([[float(v) for v in r] for r in t[1:]])


LABELS = ['GPyOpt Version', 'Date and time', 'Optimization completed', 'Number initial samples', 'Tolerance', 'Optimization time', 'Problem name', 'Problem dimension', 'Number continuous variables',
          'Number discrete variables', 'Number bandits', 'Noiseless evaluations', 'Cost used', 'Constraints', 'Normalized outputs', 'Model type', 'Model update interval', 'Acquisition type',
          'Acquisition optimizer', 'Evaluator type (batch size)', 'Cores used', 'Value at minimum', 'Best found minimum location']


def report(path):
    out, last = {}, None
    with open(path) as f:
        for l in f.read().splitlines():
            k = [q for q in LABELS if l.startswith(q)]
            if k:
                last = k[0]
                assert last not in out, 'twice in the report: ' + last
                out[last] = l[len(last):].strip(' :')
            elif last and l.startswith(' '):
                out[last] += ' ' + l.strip()
            else:
                last = None
    return out


def numbers(s):
    return [float(v) for v in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', s)]


def check_evaluations(rec, path, X, Y, **det):
    head, t = table(path)
    rec.check(head == ['Iteration', 'Y'] + ['var_%d' % (k + 1) for k in range(np.shape(X)[1])], 'header of the evaluations', got=head, **det)
    rec.same(t, np.hstack([np.arange(1., len(X) + 1)[:, None], Y, X]), 'rows of the evaluations', **det)


def check_models(rec, path, names, P, **det):
    head, t = table(path)
    rec.check(head == ['Iteration'] + list(names), 'header of the models', got=head, expected=names, **det)
    rec.same(t, np.hstack([np.arange(1., len(P) + 1)[:, None], np.array(P)]), 'rows of the models', **det)


def check_report(rec, path, want, X, Y, **det):
    r = report(path)
    for k, v in want.items():
        rec.check(r.get(k) == str(v), 'report: ' + k, got=r.get(k), expected=v, **det)
    b = int(np.argmin(Y))
    rec.close(numbers(r['Value at minimum']), [Y[b, 0]], 'report: value at minimum', tol=1e-7, **det)
    rec.close(numbers(r['Best found minimum location']), X[b], 'report: location of the minimum', tol=1e-7, **det)
    done = r['Optimization completed']
    rec.check([int(v) for v in numbers(done)] == [len(Y)], 'report: number of samples', got=done, expected=len(Y), **det)
    return r


class Params(StubModel):
    """stub with parameters that tell how often it was updated; notes every time they are asked for"""
    def get_model_parameters(self):
        return np.array([[len(self.updates) + .125, -7. / 3, 1e-12]])

    def get_model_parameters_names(self):
        return ['updates', 'third', 'small']


def run_history(rec, tmp, cls, interval, first, depth):
    dom = R.DOMAINS['cc']
    ref = R.RefDomain(dom)
    pts = [p for p in ref.lattice(3)]

    def objective(X):
        t.advance(1.)
        return np.array([[10. * r[0] - r[1] ** 2 / 3.] for r in np.atleast_2d(X)])
    t = Clock()

    def body(ch):
        m = Params()
        X0 = np.array(pts[:3])
        log = []

        def f(X):
            y = objective(X)
            log.extend(zip(rows(X), y.ravel()))
            return y
        bo = make_bo(f, dom, None, X=X0.copy(), model=m, modular=cls == 'modular', model_update_interval=interval)
        upd = 0                     # updates of the model so far
        params = None               # what the models file must hold
        ran = False
        ops = []
        paths = {k: os.path.join(tmp, k) for k in ('e', 'm', 'r')}
        for p in paths.values():
            with open(p, 'w') as fh:
                fh.write('old contents\n' * 400)
        for step in range(depth):
            if first == 'none':
                op = 'none'
            elif step == 0:
                op = first
            else:
                op = ch.pick(['stop'] + OPS, 'operation')
            if op == 'stop':
                break
            ops.append(op)
            det = dict(history=ops)
            m.target = np.array(pts[(3 + 2 * step) % len(pts)])
            ends = iter(np.linspace(.05 + .3 * step, .2 + .3 * step, 9))
            with clock(t), few_anchors(), scipy_lbfgs_stub(lambda x0, b, n: [l + (h - l) * nxt[0] for l, h in b]):
                nxt = [next(ends)]
                old = type(bo).evaluate_objective

                def advance():
                    old(bo)
                    nxt[0] = next(ends)
                bo.evaluate_objective = advance
                kw = {}
                if op == 'suggest':
                    if bo.Y is None:
                        return
                    bo.suggest_next_locations()
                    n = 0
                elif op == 'none':
                    n = None
                else:
                    n0 = len(log)
                    if op == 'files':
                        kw = dict(report_file=paths['r'], evaluations_file=paths['e'], models_file=paths['m'])
                    if op == 'time':
                        bo.run_optimization(50, max_time=1.5)
                    else:
                        bo.run_optimization({'run0': 0, 'run1': 1, 'run2': 2, 'files': 1}[op], **kw)
                    n = len(log) - n0 - (3 if n0 == 0 else 0)
                    rec.check(n == {'run0': 0, 'run1': 1, 'run2': 2, 'files': 1, 'time': 2}[op], 'number of iterations', got=n, **det)
                    ran = True
                del bo.evaluate_objective
            if n is not None:
                # the update at the beginning of every iteration and, unless the time is over, after the last one
                iters = n + 1 if op not in ('time',) else n
                params = []
                for k in range(iters):
                    if k % interval == 0:
                        upd += 1
                    params.append([upd + .125, -7. / 3, 1e-12])
            X, Y = np.array([x for x, _ in log]).reshape(-1, 2), np.array([y for _, y in log])[:, None]
            if log:
                if op != 'files':
                    bo.save_evaluations(paths['e'])
                check_evaluations(rec, paths['e'], X, Y, **det)
            if op != 'files' and params is not None:
                bo.save_models(paths['m'])
            if params is None:
                try:
                    bo.save_models(paths['m'])
                except ValueError:
                    pass
                else:
                    rec.fail('models saved without any iteration')
                rec.check(open(paths['m']).read() == 'old contents\n' * 400, 'a failing save_models changed the file')
            else:
                check_models(rec, paths['m'], ['updates', 'third', 'small'], params, **det)
            if ran:
                if op != 'files':
                    bo.save_report(paths['r'])
                r = check_report(rec, paths['r'], {'Number initial samples': 3, 'Tolerance': '1e-08.', 'Model update interval': interval}, X, Y, **det)
                if op != 'suggest':
                    rec.check(r['Optimization completed'].startswith('NO' if op == 'time' else 'YES'), 'report: completed', got=r['Optimization completed'], **det)
                    rec.close(numbers(r['Optimization time']), [float(n)], 'report: time', **det)
            rec.state(cls, interval, ops)
            if op == 'none':
                break
        rec.trans(len(ops))
        rec.outcome(ops[-1] if ops else '-')
    rec.explore(body)


def run_report(rec, tmp, name, dom, con):
    ref = R.RefDomain(dom, con)
    pts = ref.lattice(3)
    f = lambda X: np.array([[float(np.dot(r, np.arange(1., len(r) + 1)) / 7.) - 50.] for r in np.atleast_2d(X)])
    n = {k: sum(1 for v in ref.vars if v.type == k) for k in ('continuous', 'discrete')}
    arms = sum(len(v.arms) for v in ref.vars if v.type == 'bandit')
    path = os.path.join(tmp, 'r')

    def cost(X):
        return np.ones((len(X), 1)), np.zeros(np.shape(X))

    def body(ch):
        cls = ch.pick(['standard', 'modular'], 'class')
        ev, bs = ch.pick([('sequential', 1), ('random', 2), ('thompson_sampling', 3)], 'evaluator')
        ct, cw = ch.pick([('Constant cost', None), ('User defined cost', cost), ('Evaluation time', 'evaluation_time')], 'cost')
        acq = ch.pick(['EI', 'MPI', 'LCB'], 'acquisition')
        cores = ch.pick([1, 2], 'cores')
        norm = ch.pick([True, False], 'normalize')
        eps = ch.pick([1e-8, .25, 0], 'eps')
        it = ch.pick([1, 0], 'iterations')
        kw = {}
        if cls == 'standard':
            opt = ch.pick(['lbfgs', 'CMA'] if it == 0 else ['lbfgs'], 'optimizer')
            kw = dict(objective_name=ch.pick(['no_name', 'my problem'], 'name'), exact_feval=ch.pick([False, True], 'exact'), acquisition_optimizer_type=opt, maximize=ch.pick([False, True], 'maximize'))
        elif cw == 'evaluation_time' and cores == 2:
            return
        m = StubModel(ref.encode(pts[-1]))
        X0 = np.array(pts[:2])
        bo = make_bo(f, dom, con, X=X0, model=m, modular=cls == 'modular', evaluator_type=ev, batch_size=bs, cost_withGradients=cw, acquisition_type=acq, num_cores=cores, normalize_Y=norm, **kw)
        with few_anchors(), scipy_lbfgs_stub(box_point(.37)):
            bo.run_optimization(it, eps=eps, report_file=path)
        X, Y = bo.get_evaluations()
        want = {'GPyOpt Version': GPyOpt.__version__, 'Problem dimension': ref_dim(ref), 'Number continuous variables': n['continuous'], 'Number discrete variables': n['discrete'], 'Number bandits': arms,
                'Constraints': con is not None, 'Cost used': ct if cw != 'evaluation_time' else 'evaluation_time', 'Normalized outputs': norm, 'Tolerance': '%s.' % eps, 'Cores used': cores, 'Model update interval': 1, 'Number initial samples': len(X0)}
        if cls == 'standard':
            want.update({'Problem name': kw['objective_name'], 'Noiseless evaluations': kw['exact_feval'], 'Acquisition optimizer': kw['acquisition_optimizer_type'], 'Acquisition type': acq,
                         'Evaluator type (batch size)': '%s (%d)' % (ev, bs)})
        else:
            want.update({'Acquisition optimizer': 'lbfgs'})
            rec.check(report(path)['Evaluator type (batch size)'].endswith('(%d)' % bs), 'report: batch size', got=report(path)['Evaluator type (batch size)'])
        check_report(rec, path, want, X, Y, domain=name, cls=cls)
        rec.state(name, [c for _, c, _ in ch.points])
    rec.explore(body, deviations=1)


def ref_dim(ref):
    return ref.nobj


def run_model(rec, tmp, kind, cls):
    dom = R.DOMAINS['cc']
    f = lambda X: np.array([[float(np.sin(3 * r[0]) + r[1] ** 2)] for r in np.atleast_2d(X)])
    M = GPyOpt.models
    paths = [os.path.join(tmp, k) for k in 'em']
    n = 3
    for interval in (1, 2):
        np.random.seed(11)
        mk = {'GP': lambda: M.GPModel(optimize_restarts=1, verbose=False), 'GP-ard': lambda: M.GPModel(kernel=GPy.kern.RBF(2, ARD=True), optimize_restarts=1, verbose=False),
              'GP-exact': lambda: M.GPModel(exact_feval=True, optimize_restarts=1, verbose=False), 'sparseGP': lambda: M.GPModel(sparse=True, num_inducing=4, optimize_restarts=1, verbose=False),
              'warpedGP': lambda: M.WarpedGPModel(), 'GP_MCMC': lambda: M.GPModel_MCMC(n_samples=2, n_burnin=3, subsample_interval=1, step_size=.1, leapfrog_steps=2, verbose=False),
              'GP_MCMC-ard': lambda: M.GPModel_MCMC(kernel=GPy.kern.RBF(2, ARD=True), n_samples=2, n_burnin=3, subsample_interval=1, step_size=.1, leapfrog_steps=2, verbose=False),
              'GP_MCMC-exact': lambda: M.GPModel_MCMC(exact_feval=True, n_samples=2, n_burnin=3, subsample_interval=1, step_size=.1, leapfrog_steps=2, verbose=False),
              'none': Bare}[kind]
        m = mk()
        X0 = np.array(R.RefDomain(dom).lattice(3))
        bo = make_bo(f, dom, None, X=X0, model=m, modular=cls == 'modular', model_update_interval=interval, acquisition_type='LCB') if not kind.startswith('GP_MCMC') else mcmc_bo(f, dom, m, X0, interval, cls)
        names, seen = [], []
        upd = m.updateModel

        def spy(*a, **k):
            upd(*a, **k)
            seen.append(np.ravel(m.get_model_parameters()).copy() if hasattr(m, 'get_model_parameters') else None)
        m.updateModel = spy
        for again in range(2):
            del seen[:]
            with few_anchors(20), scipy_lbfgs_stub(lambda x0, b, n: None):
                bo.run_optimization(n, eps=-1, evaluations_file=paths[0], models_file=paths[1] if hasattr(m, 'get_model_parameters') else None)
            X, Y = bo.get_evaluations()
            rec.check(len(X) == 9 + n * (again + 1), 'number of evaluations', got=len(X))
            check_evaluations(rec, paths[0], X, Y, model=kind)
            if not hasattr(m, 'get_model_parameters'):
                continue
            names = m.get_model_parameters_names()
            want = [seen[k // interval] for k in range(n + 1)]
            check_models(rec, paths[1], names, want, model=kind, interval=interval)
            rec.check(len(set(map(str, names))) == len(names), 'names of the parameters', got=names)
            inner = m.model
            flat = list(inner.parameter_names_flat())
            rec.check(len(names) == len(want[0]) == len(inner.param_array), 'a name for every parameter', got=names, expected=flat)
            for nm, v in zip(names, want[-1]):
                rec.close(np.ravel(inner.param_array)[list(names).index(nm)], v, 'value of ' + str(nm), tol=1e-12)
            rec.trans(n)
            rec.state(kind, cls, interval, again, want[-1])
        bo.save_evaluations(paths[1])
        check_evaluations(rec, paths[1], X, Y, model=kind)
        rec.execution()


class Bare(StubModel):
    """the documented interface of a user surrogate, without parameters to save"""
    get_model_parameters = property()
    get_model_parameters_names = property()


def mcmc_bo(f, dom, m, X0, interval, cls):
    space = GPyOpt.Design_space(dom)
    if cls == 'standard':
        return GPyOpt.methods.BayesianOptimization(f, dom, X=X0, model=m, acquisition_type='LCB_MCMC', model_update_interval=interval)
    opt = GPyOpt.optimization.AcquisitionOptimizer(space)
    acq = GPyOpt.acquisitions.AcquisitionLCB_MCMC(m, space, opt)
    return GPyOpt.methods.ModularBayesianOptimization(m, space, GPyOpt.core.task.SingleObjective(f), acq, GPyOpt.core.evaluators.Sequential(acq), X0, model_update_interval=interval)
