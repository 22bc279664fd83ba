"""C10: invalid configurations are rejected, valid ones are accepted and not modified, whatever the position of the defect.

Real code: Design_space, BayesianOptimization, the selectors. Explored: every domain of up to 3 variables with every defect at every
position; every pair (option, wrong value); the same domain given as a list or as a configuration."""
import copy
import itertools
import numpy as np
import GPyOpt
from .. import ref as R
from ..domains import MENU, BANDITS, NAMES, domains, bandits
from ..env import StubModel, few_anchors, make_bo, scipy_lbfgs_stub

PROPERTY = 'C10'
BOUNDS = {
    'quick': 'domains of 1-3 variables out of 8 kinds with one of 6 defects at every position; all valid domains of up to 3 variables (16 kinds) and 2 bandits, also through fromConfig; 14 wrong options x domains x classes; contexts with an unknown name (alone and next to known ones)',
    'thorough': 'domains of 1-4 variables with defects',
}
KINDS = 'cCdkuKtx'


def defects():
    return {
        'no domain': lambda d: {k: v for k, v in d.items() if k != 'domain'},
        'unknown type': lambda d: dict(d, type='integer'),
        'empty type': lambda d: dict(d, type=''),
        'case of the type': lambda d: dict(d, type=d.get('type', 'continuous').upper()),
        'bandit among others': lambda d: dict({k: v for k, v in d.items() if k == 'name'}, type='bandit', domain=[(0, 1), (1, 0)]),
        'arms of different lengths': lambda d: dict({k: v for k, v in d.items() if k == 'name'}, type='bandit', domain=[(0, 1), (1, 0, 2), (3, 4)]),
    }


def cases(tier):
    out = []
    for n in range(1, 5 if tier == 'thorough' else 4):
        for k in KINDS:
            out.append(('defects/%d%s' % (n, k), ('defects', n, k)))
    for k in sorted(MENU):
        out.append(('valid/' + k, ('valid', k)))
    out.append(('valid/bandits', ('valid', None)))
    for o in OPTIONS:
        out.append(('option/' + o, ('option', o)))
    out.append(('selectors', ('selectors',)))
    out.append(('context', ('context',)))
    return out


def run(params, rec):
    globals()['run_' + params[0]](rec, *params[1:])
    rec.execution()


def errors():
    from GPyOpt.core import errors as e
    return e


def rejects(rec, fn, exc, msg, **info):
    try:
        fn()
    except Exception as e:
        rec.check(isinstance(e, exc), msg + ': another error', got='%s: %s' % (type(e).__name__, e), **info)
        rec.outcome(type(e).__name__)
        return
    rec.fail(msg + ': accepted | %s' % info)


def run_defects(rec, n, first):
    E = errors().InvalidConfigError
    f = lambda x: np.zeros((1, 1))
    for rest in itertools.product(KINDS, repeat=n - 1):
        word = (first,) + rest
        dom = [MENU[k](NAMES[i]) for i, k in enumerate(word)]
        for i in range(n):
            for name, fn in defects().items():
                if n == 1 and name == 'bandit among others':
                    continue
                bad = [copy.deepcopy(d) for d in dom]
                bad[i] = fn(bad[i])
                rejects(rec, lambda: GPyOpt.Design_space(bad), E, name, domain=bad)
                if n <= 2:
                    rejects(rec, lambda: GPyOpt.methods.BayesianOptimization(f, bad), E, name + ' (optimization)', domain=bad)
                rec.trans()
                rec.state(word, i, name)


def same_space(rec, a, b, name):
    rec.check([(v.name, v.type) for v in a.space_expanded] == [(v.name, v.type) for v in b.space_expanded], 'names and types through fromConfig', domain=name)
    rec.check([tuple(map(float, x)) for x in a.get_bounds()] == [tuple(map(float, x)) for x in b.get_bounds()], 'bounds through fromConfig', domain=name)
    rec.check(a.model_dimensionality == b.model_dimensionality and a.objective_dimensionality == b.objective_dimensionality, 'dimensions through fromConfig', domain=name)
    rec.check(a.has_constraints() == b.has_constraints(), 'constraints through fromConfig', domain=name)


def run_valid(rec, k):
    src = list(bandits(2)) if k is None else [(n, d) for n, d in domains(3) if n[0] == k]
    for name, dom in src:
        keep = copy.deepcopy(dom)
        sp = GPyOpt.Design_space(dom)
        rec.check(dom == keep, 'the description of the domain is modified', domain=name)
        if all('domain' in d for d in dom):
            cfg = [dict(d, domain=repr(d['domain'])) for d in dom]
            for d in cfg:
                if 'dimensionality' in d:
                    d['dimensionality'] = str(d['dimensionality'])
            for cons in ([], [{'name': 'c', 'constraint': 'x[:,0] - 1'}]):
                keep2 = copy.deepcopy((cfg, cons))
                sp2 = GPyOpt.Design_space.fromConfig(cfg, cons)
                rec.check((cfg, cons) == keep2, 'the configuration is modified', domain=name)
                same_space(rec, GPyOpt.Design_space(dom, cons or None), sp2, name)
                sp3 = GPyOpt.Design_space.fromConfig(cfg, cons)         # the same configuration can be used again
                same_space(rec, sp2, sp3, name)
            # the old key of the constraints
            old = [{'name': 'c', 'constrain': 'x[:,0] - 1'}, {'name': 'd', 'constrain': 'x[:,0] - 2'}]
            keep3 = copy.deepcopy(old)
            sp5 = GPyOpt.Design_space(dom, old)
            rec.check(old == keep3, 'the constraints given with the old key are modified', domain=name, got=old)
            same_space(rec, GPyOpt.Design_space(dom, [{'name': c['name'], 'constraint': c['constrain']} for c in keep3]), sp5, name)
        ref = R.RefDomain(dom)
        # what the user does with the description afterwards does not change the space
        for d in dom:
            if isinstance(d.get('domain'), list):
                d['domain'][0] = type(d['domain'][0])(d['domain'][0]) if not isinstance(d['domain'][0], tuple) else tuple(99 for _ in d['domain'][0])
            d['type'] = 'bandit'
            d['name'] = 'changed'
        sp4 = sp
        rec.check([tuple(map(float, b)) for b in sp4.get_bounds()] == [tuple(map(float, b)) for b in ref.bounds()], 'the space changes with the given description', domain=name)
        rec.check([v.name for v in sp4.space_expanded] == [v.name for v in ref.vars], 'the names change with the given description', domain=name, got=[v.name for v in sp4.space_expanded])
        rec.trans()
        rec.state(name)


XY = dict(X=np.array([[.25], [.75]]), Y=np.array([[1.], [2.]]))
C1 = [R.C('a', (0., 1.))]
F = staticmethod(lambda x: np.array([[float(x[0, 0])]])).__func__
OPTIONS = {
    'model': (dict(model_type='XGP'), 'InvalidConfigError'),
    'model case': (dict(model_type='gp'), 'InvalidConfigError'),
    'evaluator': (dict(evaluator_type='unknown', batch_size=2), 'InvalidConfigError'),
    'evaluator 3': (dict(evaluator_type='Random', batch_size=3), 'InvalidConfigError'),
    'acquisition': (dict(acquisition_type='UCB'), 'Exception'),
    'acquisition case': (dict(acquisition_type='ei'), 'Exception'),
    'design': (dict(initial_design_type='uniform', X=None, Y=None), 'ValueError'),
    'design case': (dict(initial_design_type='Sobol', X=None, Y=None), 'ValueError'),
    'no objective no Y': (dict(f=None, Y=None), 'InvalidConfigError'),
    'no objective no X': (dict(f=None, X=None), 'InvalidConfigError'),
    'no objective no data': (dict(f=None, X=None, Y=None), 'InvalidConfigError'),
    'local penalization with a random forest': (dict(evaluator_type='local_penalization', batch_size=2, model_type='RF'), 'Exception'),
    'local penalization with a user model': (dict(evaluator_type='local_penalization', batch_size=2, model='stub'), 'InvalidConfigError'),
    'run without objective': (dict(f=None, run=True), 'InvalidConfigError'),
    'run without objective (modular)': (dict(f=None, run=True, modular=True), 'InvalidConfigError'),
    'acquisition optimizer': (dict(acquisition_optimizer_type='newton', suggest=True, model='stub'), 'InvalidVariableNameError'),
}


def run_option(rec, o):
    kw0, exc = OPTIONS[o]
    exc = {'Exception': Exception, 'ValueError': ValueError}.get(exc) or getattr(errors(), exc)
    doms = {'c1': C1, 'cdk': R.DOMAINS['cdk'], 'k3': R.DOMAINS['k3'], 'b1': R.DOMAINS['b1'], 'm2': R.DOMAINS['m2']}
    for n, dom in doms.items():
        ref = R.RefDomain(dom)
        for cons in (None, R.CONSTRAINTS[n][0]):
            for init in (2, 3):
                kw = dict(X=np.array(ref.lattice()[:2]), Y=np.array([[1.], [2.]]), f=F, initial_design_numdata=init)
                kw.update(kw0)
                runs, modular, suggest, f = kw.pop('run', False), kw.pop('modular', False), kw.pop('suggest', False), kw.pop('f')
                if kw.get('model') == 'stub':
                    kw['model'] = StubModel(ref.encode(ref.lattice()[0]))

                def go():
                    with few_anchors(10), scipy_lbfgs_stub(lambda x0, b, n: None):
                        if modular:
                            bo = make_bo(f, dom, cons, model=StubModel(), modular=True, X=kw['X'], Y=kw['Y'])
                        else:
                            bo = GPyOpt.methods.BayesianOptimization(f, dom, cons, **kw)
                        if runs:
                            bo.run_optimization(1)
                        if suggest:
                            bo.suggest_next_locations()
                rejects(rec, go, exc, o, domain=n)
                rec.trans()
                rec.state(o, n, cons is None, init)


def run_selectors(rec):
    A, M, Ev = GPyOpt.acquisitions, GPyOpt.models, GPyOpt.core.evaluators
    table = [
        (A.select_acquisition, {'EI': A.AcquisitionEI, 'EI_MCMC': A.AcquisitionEI_MCMC, 'LCB': A.AcquisitionLCB, 'LCB_MCMC': A.AcquisitionLCB_MCMC,
                                'MPI': A.AcquisitionMPI, 'MPI_MCMC': A.AcquisitionMPI_MCMC, 'LP': A.AcquisitionLP, 'ES': A.AcquisitionEntropySearch}),
        (M.select_model, {'GP': M.GPModel, 'GP_MCMC': M.GPModel_MCMC, 'RF': M.RFModel, 'warpGP': M.WarpedGPModel}),
        (Ev.select_evaluator, {'sequential': Ev.Sequential, 'random': Ev.RandomBatch, 'local_penalization': Ev.LocalPenalization,
                               'thompson_sampling': Ev.ThompsonBatch}),
    ]
    for fn, t in table:
        for k, c in t.items():
            rec.check(fn(k) is c, 'selection by name', name=k, got=fn(k))
            for bad in (k.lower(), k + ' ', 'x' + k):
                if bad not in t:
                    rejects(rec, lambda: fn(bad), Exception, 'unknown name', name=bad)
            rec.state(k)
            rec.trans()
        rejects(rec, lambda: fn(''), Exception, 'unknown name')
        rejects(rec, lambda: fn(None), Exception, 'unknown name')


def run_context(rec):
    Err = errors().InvalidVariableNameError
    for n in ('cc', 'cdk', 'm2', 'k3', 'dd'):
        dom = R.DOMAINS[n]
        ref = R.RefDomain(dom)
        names = [v.name for v in ref.vars]
        bases = sorted(set(d['name'] for d in dom) - set(names))          # 'a' is not a variable when it is repeated: a_1, a_2
        for bad in ['zzz', names[0].upper() + '?', names[0] + '_9'] + bases:
            for r in range(0, min(3, len(names))):
                for known in itertools.combinations(names, r):
                    for order in (0, 1):
                        items = [(k, ref.vars[names.index(k)].lattice()[0][0]) for k in known]
                        items = items + [(bad, 1.)] if order else [(bad, 1.)] + items
                        ctx = dict(items)
                        bo = make_bo(F, dom, None, model=StubModel(), X=np.array(ref.lattice()[:2]), Y=np.array([[1.], [2.]]))
                        with few_anchors(10), scipy_lbfgs_stub(lambda x0, b, n: None):
                            rejects(rec, lambda: bo.suggest_next_locations(context=ctx), Err, 'unknown context variable', context=ctx)
                            nx = len(bo.X)
                            rejects(rec, lambda: bo.run_optimization(1, context=ctx), Err, 'unknown context variable (run)', context=ctx)
                            rec.check(len(bo.X) == nx, 'evaluated with an unknown context')
                        rec.trans()
                        rec.state(n, ctx)
