"""C02: with de-duplication nothing known (evaluated, pending, ignored, already in the batch) is suggested again.

Real code: suggest_next_locations / run_optimization with de_duplication=True. Enumerated: which points of a finite domain are
evaluated / pending / ignored / free, the point the surrogate prefers, where the local optimizer ends, context, evaluator."""
import itertools
import numpy as np
from .. import ref as R
from ..env import StubModel, few_anchors, make_bo, scipy_lbfgs_stub, box_point, previous_start, rows
from .c01 import no_continuous_left

PROPERTY = 'C02'
BOUNDS = {
    'quick': 'finite domains of 3 points: every assignment evaluated/pending/ignored/free; larger ones (4-12 points): assignments with at most 2 departures from "one evaluated" and from "all evaluated" (1 for the larger half); x preferred point x end of the local optimizer (at most 1 departure); 8 evaluator configurations; continuous domains: preferred point equal to a known point, the local optimizer ending on known points; runs to exhaustion',
    'thorough': 'as quick with 3 departures for the larger domains and all combinations of preferred point and end',
}
ASSUMPTIONS = ['300 random candidates cover a finite domain of up to 12 points (fixed seed per execution)']
HORIZON = 400

CONFIGS = {
    'seq': dict(),
    'seq-LCB-nograd': dict(acquisition_type='LCB', grad=False),
    'random2': dict(evaluator_type='random', batch_size=2),
    'random3': dict(evaluator_type='random', batch_size=3),
    'ts3': dict(evaluator_type='thompson_sampling', batch_size=3),
    'ts2': dict(evaluator_type='thompson_sampling', batch_size=2),
    'lp2': dict(evaluator_type='local_penalization', batch_size=2),
    'lp3': dict(evaluator_type='local_penalization', batch_size=3),
}
FINITE = ['d1', 'k1', 'k3', 'b1', 'kk', 'dd', 'd2', 'b2']
EXTRA = {
    'z1': [R.C('a', (0, 1), type='discrete'), R.C('b', (0, 1), type='discrete')],
    'zz': [R.C('a', (-1, 0, 1), type='discrete')],
    'ck': [R.C('k', (0, 1, 2), type='categorical'), R.C('a', (-1., 1.))],
    'c2': [R.C('a', (0., 1.), 2)],
    'zn': [R.C('a', (0., 1e-7, .3), type='discrete')],
}
CONSTR = {'z1': [R.con('x[:,0]*x[:,1] - .5')]}


def spaces():
    out = [(n, d, c) for n, d, c in R.spaces() if n.split('+')[0] in FINITE]
    for n in ('z1', 'zz', 'zn'):
        out.append((n, EXTRA[n], None))
        out += [('%s+%d' % (n, i), EXTRA[n], c) for i, c in enumerate(CONSTR.get(n, []))]
    return out


def cases(tier):
    out = []
    for n, d, c in spaces():
        for cfg in CONFIGS:
            for part in ('few', 'full'):
                out.append(('%s/%s/%s' % (n, cfg, part), ('assign', n, d, c, cfg, part, tier)))
        out.append(('%s/exhaust' % n, ('exhaust', n, d, c, tier)))
    for n in ('ck', 'c2'):
        for cfg in CONFIGS:
            out.append(('%s/%s/cont' % (n, cfg), ('cont', n, EXTRA[n], None, cfg, tier)))
    return out


def weight(p):
    return (20 if p[0] == 'exhaust' else 10 if p[4].startswith('ts') else 1) * len(R.RefDomain(p[2], p[3]).lattice())


def full_error():
    from GPyOpt.core.errors import FullyExploredOptimizationDomainError
    return FullyExploredOptimizationDomainError


def run(params, rec):
    with few_anchors(300):
        globals()['run_' + params[0]](rec, *params[1:])


def answer(end):
    return (lambda x0, b, n: None) if end is None else previous_start() if end == 'previous' else box_point(end)


def arr(pts, nobj):
    return np.array(pts, float).reshape(-1, nobj) if pts else None


def judge(rec, ref, S, known, left, n, cfg, context, info):
    r = rows(S)
    for p in r:
        rec.check(p not in known, 'a known point is suggested again', point=p, **info)
        rec.check(p in left, 'the suggestion is not one of the free points', point=p, left=sorted(left)[:12], **info)
    rec.check(len(set(r)) == len(r), 'the same point twice in the batch', batch=r, **info)
    need = min(n, len(left))
    if cfg.startswith('ts'):
        need = min(n, -(-min(5 * n, len(left)) // 2))
    rec.check(need <= len(r) <= n, 'size of the batch', got=len(r), at_least=need, at_most=n, free=sorted(left)[:12], **info)


def run_assign(rec, n, dom, con, cfg, part, tier):
    ref = R.RefDomain(dom, con)
    pts = ref.lattice()
    kw = dict(CONFIGS[cfg])
    grad = kw.pop('grad', True)
    nb = kw.get('batch_size', 1)
    ctxs = [{}] + [c for c in R.contexts(ref, 3, 1) if c and ref.lattice(context=c)]
    Full = full_error()

    def body(ch):
        if part == 'few':
            st = ['E' if i == 0 else None for i in range(len(pts))]
            menu = 'FPIE'
        else:
            st = [None] * len(pts)
            menu = 'EFPI'
        for i in range(len(pts)):
            if st[i] is None:
                st[i] = ch.pick(menu, 'status of %s' % (pts[i],))
        by = {s: [p for p, t in zip(pts, st) if t == s] for s in 'EPIF'}
        target = ch.pick(pts, 'target')
        end = ch.pick([None, 0., 1., 'previous'], 'end')
        context = ch.pick(ctxs, 'context')
        if not by['E']:
            return
        known = set(by['E'] + by['P'] + by['I'])
        left = set(ref.lattice(context=context)) - known
        X = arr(by['E'], ref.nobj)
        bo = make_bo(None, dom, con, X=X, Y=np.arange(1., 1 + len(X))[:, None], model=StubModel(ref.encode(target), gradients=grad),
                     de_duplication=True, **dict(kw))
        info = dict(evaluated=by['E'], pending=by['P'], ignored=by['I'], context=context, target=target)
        pend, ign = arr(by['P'], ref.nobj), arr(by['I'], ref.nobj)
        keep = (None if pend is None else pend.copy(), None if ign is None else ign.copy())
        with scipy_lbfgs_stub(answer(end)):
            try:
                S = bo.suggest_next_locations(context=dict(context) if context else None, pending_X=pend, ignored_X=ign)
            except Full:
                rec.check(not left, 'the domain is reported as fully explored', free=sorted(left), **info)
                rec.outcome('fully explored')
                rec.state(n, sorted(zip(pts, st)), 'full')
                return
        rec.check(bool(left), 'nothing is left but the domain is not reported as fully explored', suggested=rows(S), **info)
        judge(rec, ref, S, known, left, nb, cfg, context, info)
        for a, b in ((pend, keep[0]), (ign, keep[1])):
            if a is not None:
                rec.same(a, b, 'the given pending/ignored points are modified')
        rec.outcome((len(left) > nb, S.shape[0]))
        rec.state(n, sorted(zip(pts, st)), sorted(rows(S)))

    if len(pts) <= 3 and not cfg.startswith('ts'):
        # all the assignments; targets, ends and contexts one at a time
        for assign in itertools.product(range(4), repeat=len(pts) - (part == 'few')):
            rec.explore(body, vary=True, deviations=sum(1 for a in assign if a) + 1, prefix=list(assign))
        return
    big = len(pts) > 4 or cfg.startswith('ts')
    rec.explore(body, vary=True, deviations=(3 if tier == 'thorough' and not cfg.startswith('ts') else 1 if big and (len(pts) > 6 or cfg.startswith('ts')) else 2))


def run_exhaust(rec, n, dom, con, tier):
    """the loop visits every feasible point exactly once, then reports that the domain is explored"""
    ref = R.RefDomain(dom, con)
    pts = ref.lattice()
    Full = full_error()
    ctxs = [{}] + [c for c in R.contexts(ref, 3, 1) if c and len(ref.lattice(context=c)) > 0][:4]

    def body(ch):
        cfg = ch.pick(list(CONFIGS), 'configuration')
        first = ch.pick(pts, 'initial point')
        target = ch.pick(pts[:4], 'target')
        end = ch.pick([None, 0., 1., 'previous'], 'end')
        context = ch.pick(ctxs, 'context')
        kw = dict(CONFIGS[cfg])
        grad = kw.pop('grad', True)
        seen = []

        def f(x):
            seen.append(rows(x)[0])
            return np.array([[float(len(seen) % 3)]])
        bo = make_bo(f, dom, con, X=arr([first], ref.nobj), model=StubModel(ref.encode(target), gradients=grad), de_duplication=True, **kw)
        want = set(ref.lattice(context=context)) - {first}
        with scipy_lbfgs_stub(answer(end)):
            try:
                bo.run_optimization(len(pts) + 2, eps=-1., context=context or None)
                rec.fail('the loop went on after the domain was explored: %s' % (seen,))
            except Full:
                pass
        rec.check(len(set(seen)) == len(seen), 'a point evaluated twice', evaluated=seen, configuration=cfg)
        rec.check(set(seen[1:]) == want, 'the evaluated points are not the feasible points of the domain', evaluated=seen, expected=sorted(want), configuration=cfg, context=context)
        rec.same(bo.X, np.array(seen), 'recorded inputs')
        rec.outcome(len(seen))
        rec.state(n, seen)
    rec.explore(body, vary=True, deviations=2 if tier == 'thorough' or len(pts) <= 4 else 1)


def run_cont(rec, n, dom, con, cfg, tier):
    """with continuous variables: the preferred point / end of the local optimizer is a known point"""
    ref = R.RefDomain(dom, con)
    pts = ref.lattice(3)
    kw = dict(CONFIGS[cfg])
    grad = kw.pop('grad', True)
    nb = kw.get('batch_size', 1)

    def body(ch):
        kind = ch.pick(['evaluated', 'pending', 'ignored'], 'status of the preferred point')
        target = ch.pick(pts, 'target')
        stop = ch.pick(['target', 0., 1., None, 'previous'], 'end')
        other = ch.pick([p for p in pts if p != target], 'an evaluated point')
        lists = dict(evaluated=[other], pending=[], ignored=[])
        lists[kind].append(target)
        X = arr(lists['evaluated'], ref.nobj)
        bo = make_bo(None, dom, con, X=X, Y=np.arange(1., 1 + len(X))[:, None], model=StubModel(ref.encode(target), gradients=grad),
                     de_duplication=True, **dict(kw))
        end = (lambda x0, b, n: ref.encode(target)) if stop == 'target' else answer(stop)
        with scipy_lbfgs_stub(end):
            S = bo.suggest_next_locations(pending_X=arr(lists['pending'], ref.nobj), ignored_X=arr(lists['ignored'], ref.nobj))
        r = rows(S)
        known = set(lists['evaluated'] + lists['pending'] + lists['ignored'])
        for p in r:
            rec.check(p not in known, 'a known point is suggested again', point=p, status=kind, target=target)
        rec.check(len(r) == nb and len(set(r)) == nb, 'batch of different points', batch=r, expected=nb)
        rec.outcome(kind)
        rec.state(n, kind, target, r)
    rec.explore(body, vary=True, deviations=3 if tier == 'thorough' else 2)
