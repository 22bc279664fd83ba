"""C03: the run ledger. Every history of runs / resumed runs / suggestions keeps inputs, outputs, surrogate data and results in step.

Real code: BayesianOptimization / ModularBayesianOptimization. Explored: all histories of operations up to a depth, with at most
k departures from the default configuration; oracle: a list of (x, y) kept by the objective itself."""
import itertools
import numpy as np
from .. import ref as R
from ..env import StubModel, few_anchors, make_bo, scipy_lbfgs_stub, box_point, rows

PROPERTY = 'C03'
BOUNDS = {
    'quick': 'histories of 3 operations out of {run 0,1,2,3 iterations, suggest, read the evaluations}; configurations (class, domain, evaluator and batch size, maximize, normalize_Y, update interval 1-3, how the initial data are given, output shape, output pattern, context, initial design, de-duplication) with at most 2 departures in total from the default, every history with 1 departure',
    'thorough': 'histories of 4 operations, at most 3 departures',
}
ASSUMPTIONS = ['the surrogate is a stand-in that records what it is given; the outputs are enumerated patterns']

DOMS = {'c1': None, 'cdk': None, 'k3': None, 'b1': None, 'c2': R.CONSTRAINTS['c2'][1], 'm2': None}
CONFIG = [
    ('class', [False, True]),
    ('evaluator', [('sequential', 1), ('random', 2), ('thompson_sampling', 2), ('local_penalization', 2), ('random', 3)]),
    ('maximize', [False, True]),
    ('normalize_Y', [True, False]),
    ('interval', [1, 2, 3]),
    ('init', ['design', 'X', 'XY', 'one']),
    ('shape', ['11', 'scalar', '1']),
    ('pattern', ['zigzag', 'constant', 'down', 'up', 'ties', 'negative', 'tiny']),
    ('context', [False, True]),
    ('design', ['random', 'latin', 'sobol', 'grid']),
    ('dedup', [False, True]),
]
OPS = ['run1', 'run2', 'run0', 'run3', 'suggest', 'read']
PATTERNS = {
    'zigzag': lambda k: [3., 1., 2.5, -1., 4., 0., -2., 8.][k % 8] + .125 * k,
    'constant': lambda k: 2.,
    'down': lambda k: -1. * k,
    'up': lambda k: 1. * k + 1,
    'ties': lambda k: [2., 1., 1., 3., 1.][k % 5],
    'negative': lambda k: -5. - (k % 3),
    'tiny': lambda k: 1e-9 * (k % 4),
}


def cases(tier):
    out = []
    depth = 4 if tier == 'thorough' else 3
    for dom in DOMS:
        for h in itertools.product(OPS, repeat=depth):
            if sum(o.startswith('run') and o != 'run0' for o in h) == 0:
                continue
            two = h in [('run2', 'run1', 'run1'), ('run1', 'suggest', 'run2'), ('suggest', 'run3', 'run0'), ('read', 'run1', 'run3')]
            if dom not in ('c1', 'cdk') and not two and tier != 'thorough' and not (h[0] == 'run3' and h[2] == 'run2'):
                continue
            out.append(('%s/%s' % (dom, '-'.join(h)), (dom, h, 2 if two or tier == 'thorough' else 1)))
    return out


def weight(p):
    return 20 if p[2] == 2 else 1


def run(params, rec):
    domname, history, dev = params
    with few_anchors(20):
        rec.explore(lambda ch: one(ch, rec, domname, history), deviations=dev)


def reference_normalize(Y):
    m = Y - Y.mean()
    return m / Y.std() if Y.std() > 0 else m


def one(ch, rec, domname, history):
    dom, con = R.DOMAINS[domname], DOMS[domname]
    ref = R.RefDomain(dom, con)
    c = {k: ch.pick(v, k) for k, v in CONFIG}
    ev, nb = c['evaluator']
    if con is not None and c['design'] != 'random':
        return
    if c['context'] and (ref.bandit or len(ref.vars) < 2):
        return
    sign = -1. if c['maximize'] else 1.
    led, log = [], []                       # (x, stored y) in order of evaluation; events

    def f(x):
        assert np.shape(x) == (1, ref.nobj), 'input of the objective of shape %s' % (np.shape(x),)
        y = PATTERNS[c['pattern']](len(led))
        led.append((rows(x)[0], sign * y))
        log.append('f')
        return {'11': np.array([[y]]), 'scalar': y, '1': np.array([y])}[c['shape']]

    class Model(StubModel):
        def updateModel(self, X_all, Y_all, X_new, Y_new):
            StubModel.updateModel(self, X_all, Y_all, X_new, Y_new)
            log.append(('u', len(led)))
            self.check(np.array(X_all), np.array(Y_all))

        def check(self, X_all, Y_all):
            Y = np.array([[y] for _, y in led])
            rec.same(X_all, np.array([ref.encode(x) for x, _ in led]), 'inputs given to the surrogate', config=c)
            rec.check(Y_all.shape == Y.shape, 'shape of the outputs given to the surrogate', shape=Y_all.shape)
            rec.close(Y_all, reference_normalize(Y) if c['normalize_Y'] else Y, 'outputs given to the surrogate', tol=1e-9, config=c)
    model = Model(ref.encode(ref.lattice()[0]))
    kw = dict(acquisition_type='EI', evaluator_type=ev, batch_size=nb, maximize=c['maximize'], normalize_Y=c['normalize_Y'],
              model_update_interval=c['interval'], initial_design_numdata=3, de_duplication=c['dedup'])
    if ev == 'local_penalization' or c['class']:
        kw['modular'] = True
    X0 = Y0 = None
    if c['init'] != 'design':
        X0 = np.array(ref.lattice()[:3 if c['init'] != 'one' else 1])
        if c['init'] == 'XY':
            Y0 = np.array([[5.], [7.], [6.]][:len(X0)])
            led += [(x, y[0]) for x, y in zip(rows(X0), Y0)]
    given = (None if X0 is None else X0.copy(), None if Y0 is None else Y0.copy())
    if not kw.get('modular'):
        kw['initial_design_type'] = c['design']
    bo = make_bo(f, dom, con, X=X0, Y=Y0, model=model, **kw)
    context = None
    if c['context']:
        v = ref.vars[-1]
        context = {v.name: [x[0] for x in v.lattice() if ref.volume({v.name: x[0]}) > .1][-1]}
    with scipy_lbfgs_stub(box_point((.25, .75))):
        for op in history:
            before, nlog = list(led), len(log)
            evaluated = bo.Y is not None
            n0 = len(led) if evaluated else len(bo.X)
            if op == 'suggest':
                if not evaluated:
                    continue
                try:
                    S = bo.suggest_next_locations(context=context)
                except Exception as e:
                    if not explored(e, c, ref, context):
                        raise
                    ledger(rec, bo, led, before, c)
                    rec.outcome('explored')
                    return
                rec.check(S.shape[1] == ref.nobj and 1 <= S.shape[0] <= nb, 'shape of the suggestion', shape=S.shape)
                rec.check(log[nlog:] == [('u', n0)], 'a suggestion updates the surrogate with all the data and evaluates nothing', log=log[nlog:])
            elif op == 'read':
                if not evaluated:
                    continue
                X, Y = bo.get_evaluations()
                rec.same(X, np.array([x for x, _ in led]), 'inputs returned')
                rec.same(Y, np.array([[y] for _, y in led]), 'outputs returned')
                X += 100.
                Y -= 100.
            else:
                k = int(op[3:])
                try:
                    bo.run_optimization(k, eps=-1., context=context)
                except Exception as e:
                    if not explored(e, c, ref, context):
                        raise
                    ledger(rec, bo, led, before, c)
                    rec.outcome('explored')
                    return
                it, upd = 0, []
                ev_log = log[nlog:]
                want = []
                n = n0
                if not evaluated:
                    want += ['f'] * n0
                for j in range(k + 1):
                    if j % c['interval'] == 0:
                        want.append(('u', n))
                    if j < k:
                        got = nb
                        if c['dedup']:      # a batch may be smaller when the domain is nearly explored
                            pos = len(want)
                            got = 0
                            while pos + got < len(ev_log) and ev_log[pos + got] == 'f' and got < nb:
                                got += 1
                        want += ['f'] * got
                        n += got
                rec.check(ev_log == want, 'order of evaluations and surrogate updates', got=ev_log, expected=want, config=c)
                rec.check(bo.num_acquisitions == k, 'number of acquisitions', got=bo.num_acquisitions, expected=k)
                results(rec, bo, led)
            if bo.Y is not None:
                ledger(rec, bo, led, before, c)
            rec.trans()
            rec.state(domname, c, [x for x, _ in led], op)
    if given[0] is not None:
        rec.same(X0, given[0], 'the given inputs are modified')
    if given[1] is not None:
        rec.same(Y0, given[1], 'the given outputs are modified')
    rec.outcome(len(led))


def explored(e, c, ref, context):
    return type(e).__name__ == 'FullyExploredOptimizationDomainError' and c['dedup'] and \
        all(v.type != 'continuous' or v.name in (context or {}) for v in ref.vars)


def ledger(rec, bo, led, before, c):
    X, Y = np.asarray(bo.X), np.asarray(bo.Y)
    rec.check(X.shape[0] == Y.shape[0] and Y.ndim == 2 and Y.shape[1] == 1, 'inputs and outputs of different length', X=X.shape, Y=Y.shape)
    rec.same(X, np.array([x for x, _ in led]), 'recorded inputs', config=c)
    rec.same(Y, np.array([[y] for _, y in led]), 'recorded outputs', config=c)
    rec.check(led[:len(before)] == before, 'history is append-only')


def results(rec, bo, led):
    ys = [y for _, y in led]
    rec.check(float(bo.fx_opt) == min(ys), 'fx_opt is the smallest output', got=bo.fx_opt, outputs=ys)
    xo = tuple(np.asarray(bo.x_opt, float).ravel().tolist())
    rec.check(xo in [x for x, y in led if y == min(ys)], 'x_opt is an input where the smallest output was observed', got=xo, ledger=led)
    best = list(itertools.accumulate(ys, min))
    rec.same(np.asarray(bo.Y_best, float).ravel(), np.array(best), 'Y_best is the running minimum')
