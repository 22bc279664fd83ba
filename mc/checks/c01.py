"""C01: every suggested / evaluated point is a feasible member of the domain that carries the context.

Real code: BayesianOptimization.suggest_next_locations / run_optimization. The environment is enumerated: which point the
surrogate prefers (every lattice point), where the local optimizer ends (corners / interior of its box / start), every
context, every evaluator, acquisition, with and without gradients and de-duplication."""
import numpy as np
from .. import ref as R
from ..env import StubModel, few_anchors, make_bo, scipy_lbfgs_stub, box_point, outside, rows

PROPERTY = 'C01'
BOUNDS = {
    'quick': 'every domain of ref.DOMAINS without and with its constraint sets x 9 configurations x (context, preferred point, end of the local optimizer): at most 2 departures from the default; batches of 1-3; runs of 2 iterations',
    'thorough': 'as quick with all combinations of (context, preferred point, end of the local optimizer)',
}
ASSUMPTIONS = ['anchor points are drawn by numpy with a fixed seed per execution', 'the feasible part of every domain has positive volume']
HORIZON = 240

CONFIGS = {
    'seq-EI': dict(acquisition_type='EI'),
    'seq-MPI-nograd': dict(acquisition_type='MPI', grad=False),
    'seq-LCB-dedup': dict(acquisition_type='LCB', de_duplication=True),
    'seq-EI-tsanchor': dict(acquisition_type='EI', type_anchor_points_logic='thompson_sampling'),
    'random3': dict(evaluator_type='random', batch_size=3),
    'random2-dedup': dict(evaluator_type='random', batch_size=2, de_duplication=True),
    'ts2': dict(evaluator_type='thompson_sampling', batch_size=2, acquisition_type='LCB'),
    'ts2-dedup': dict(evaluator_type='thompson_sampling', batch_size=2, de_duplication=True),
    'lp3': dict(evaluator_type='local_penalization', batch_size=3),
    'lp2-dedup': dict(evaluator_type='local_penalization', batch_size=2, acquisition_type='LCB', de_duplication=True),
}
SLOW = {'ts2', 'ts2-dedup', 'seq-EI-tsanchor'}
ENDS = [None, 0., 'below', 1., 'above', 'just above', 'just below', .37, (0., 1.), (.9, .2)]


def cases(tier):
    out = []
    for name, dom, con in R.spaces():
        for cfg in CONFIGS:
            if cfg == 'seq-EI-tsanchor' and con is not None:
                continue      # that anchor logic uses a Sobol design, which rejects constraints (C11)
            out.append(('%s/%s' % (name, cfg), (name, dom, con, cfg, tier)))
    for name, dom, con in R.spaces():
        out.append(('%s/run' % name, (name, dom, con, 'run', tier)))
    return out


def weight(p):
    return (3 if p[3] in SLOW else 1) * (2 if p[2] else 1)


def usable_contexts(ref, tier):
    cs = R.contexts(ref, 3, None if tier == 'thorough' else 2)
    if len(cs) > 20 and tier != 'thorough':
        cs = [c for c in cs if len(c) <= 1] + [c for c in cs if len(c) > 1][::9]
    return [c for c in cs if ref.volume(c) > .1]


def ends(end):
    if end is None:
        return scipy_lbfgs_stub(lambda x0, b, n: None)
    if isinstance(end, str):
        return scipy_lbfgs_stub(outside(-1 if end.endswith('below') else 1, 1e-8 if 'just' in end else None), clip=False)
    return scipy_lbfgs_stub(box_point(end))


def check_points(rec, ref, X, context, what):
    X = np.asarray(X)
    rec.check(X.ndim == 2 and X.shape[1] == ref.nobj, '%s: shape' % what, shape=X.shape, expected_columns=ref.nobj)
    cols = ref.cols()
    for r in rows(X):
        rec.check(ref.in_domain(r), '%s: point outside of the domain' % what, point=r, context=context)
        rec.check(ref.feasible(r), '%s: point violates the constraints' % what, point=r, context=context)
        for k, v in (context or {}).items():
            rec.check(r[cols[k][0][0]] == float(v), '%s: context variable %s changed' % (what, k), point=r, context=context)
        rec.state(r, what)


def run(params, rec):
    name, dom, con, cfg, tier = params
    ref = R.RefDomain(dom, con)
    ctxs = usable_contexts(ref, tier)
    pts = ref.lattice(3)
    with few_anchors():
        if cfg == 'run':
            run_loop(rec, ref, dom, con, ctxs, pts)
        else:
            run_suggest(rec, ref, dom, con, cfg, tier, ctxs, pts)


def run_suggest(rec, ref, dom, con, cfg, tier, ctxs, pts):
    kw = dict(CONFIGS[cfg])
    grad = kw.pop('grad', True)
    if len(pts) > 8 and tier != 'thorough':
        pts = pts[::max(1, len(pts) // 6)]
    slow = cfg in SLOW
    if slow and tier != 'thorough':
        ctxs, pts = ctxs[:1] + ctxs[1::4][:4], pts[::4][:3]
    X = np.array((ref.lattice(3))[:2])
    Y = np.arange(1., 1. + len(X))[:, None]

    def body(ch):
        context = ch.pick(ctxs, 'context')
        target = ch.pick(pts, 'target')
        end = ch.pick(ENDS if tier == 'thorough' else ENDS[:4] if slow else ENDS[:9], 'end')
        m = StubModel(ref.encode(target), gradients=grad)
        bo = make_bo(None, dom, con, X=X.copy(), Y=Y.copy(), model=m, **dict(kw))
        with ends(end):
            from GPyOpt.core.errors import FullyExploredOptimizationDomainError as Full
            try:
                S = bo.suggest_next_locations(context=dict(context) if context else None)
            except Full:
                left = [p for p in ref.lattice(2, context=context) if p not in rows(X)]
                rec.check(kw.get('de_duplication') and no_continuous_left(ref, context) and not left,
                          'domain reported as fully explored', context=context, left=left)
                return
        check_points(rec, ref, S, context, 'suggestion')
        n = kw.get('batch_size', 1)
        if S.shape[0] != n:
            fin = no_continuous_left(ref, context)
            left = len([p for p in ref.lattice(2, context=context) if p not in rows(X)])
            rec.check(kw.get('de_duplication') and fin and left < 5 * n and S.shape[0] <= n, 'number of suggested points', got=S.shape[0], expected=n, context=context)
        rec.outcome(S.shape)
    rec.explore(body, vary=True, deviations=None if tier == 'thorough' else (1 if slow else 2))


def no_continuous_left(ref, context):
    return all(v.type != 'continuous' or v.name in (context or {}) for v in ref.vars)


def run_loop(rec, ref, dom, con, ctxs, pts):
    """every point that reaches the objective, from the initial design on"""
    def body(ch):
        context = ch.pick(ctxs[:1] + ctxs[1::max(1, len(ctxs) // 4)][:4], 'context')
        target = ch.pick(pts[::max(1, len(pts) // 3)][:3], 'target')
        ev = ch.pick([dict(), dict(evaluator_type='random', batch_size=2), dict(evaluator_type='local_penalization', batch_size=2),
                      dict(maximize=True, de_duplication=True)], 'evaluator')
        end = ch.pick([None, 'below', 0., (1., .3)], 'end')
        seen = []

        def f(x):
            seen.append(np.array(x))
            return np.array([[float(len(seen))]])
        m = StubModel(ref.encode(target))
        bo = make_bo(f, dom, con, model=m, initial_design_numdata=3, **dict(ev))
        from GPyOpt.core.errors import FullyExploredOptimizationDomainError as Full
        with ends(end):
            try:
                bo.run_optimization(2, eps=-1., context=dict(context) if context else None)
            except Full:
                rec.check(bo.de_duplication and no_continuous_left(ref, context), 'domain reported as fully explored', context=context)
        for x in seen[:3]:
            check_points(rec, ref, x, None, 'initial design')
        for x in seen[3:]:
            rec.check(x.shape == (1, ref.nobj), 'input of the objective: shape', shape=x.shape)
            check_points(rec, ref, x, context, 'evaluated point')
        rec.outcome(len(seen))
    rec.explore(body, vary=True, deviations=2)
