"""C21: optimizations are isolated from each other and leave user data unchanged.

Real code: BO and everything below it. Explored: every interleaving of the steps of two optimizations of every pair of configurations (with the
domain, the constraints and the data shared by both), compared step by step with each of them alone; all the objects that the user gave or that
an earlier step returned are compared with copies at the end. The same programs are also run in new processes with other hash seeds."""
import contextlib
import copy
import itertools
import json
import os
import subprocess
import sys
import numpy as np
import GPyOpt
from .. import core
from .. import ref as R
from ..env import StubModel, few_anchors, make_bo, rows

PROPERTY = 'C21'
BOUNDS = {
    'quick': 'all pairs of 13 configurations; all interleavings of two programs: construction and 3 operations (run, suggest, with pending, ignored, context) each (70), 2 (20) or 1 (6) for the slower ones; user objects and returned objects of every step; 3 hash seeds; every object given or returned overwritten by the user after every later step',
    'thorough': '3 operations (70 interleavings) for all pairs',
}
ASSUMPTIONS = ['numpy\'s random state is restored per optimization around every step', 'Latin designs are excluded: the library that draws them has its own generator']
HORIZON = 900

KIND = {
    'gp': dict(dom='cc', kw=dict(acquisition_type='EI', optimize_restarts=1, max_iters=5), ops=['run', 'suggest', 'run', 'run']),
    'gp-mpi': dict(dom='c2', con=0, kw=dict(acquisition_type='MPI', optimize_restarts=2, max_iters=3, normalize_Y=False, exact_feval=True), ops=['suggest', 'run', 'suggest', 'run']),
    'gp-lp': dict(dom='cc', con=0, kw=dict(acquisition_type='EI', evaluator_type='local_penalization', batch_size=2, optimize_restarts=1, max_iters=4), ops=['run', 'run', 'suggest', 'run']),
    'mcmc': dict(dom='c1', kw=dict(model_type='GP_MCMC', acquisition_type='EI_MCMC', n_samples=2, n_burnin=2, subsample_interval=1, leapfrog_steps=2), ops=['run', 'suggest', 'run', 'run']),
    'random': dict(dom='cdk', con=0, stub=True, kw=dict(acquisition_type='LCB', evaluator_type='random', batch_size=3, de_duplication=True), ops=['run', 'pending', 'run', 'run']),
    'random2': dict(dom='cdk', con=1, stub=True, kw=dict(acquisition_type='EI', evaluator_type='random', batch_size=2, model_update_interval=2), ops=['run', 'run', 'suggest', 'run']),
    'lp': dict(dom='c2', con=1, stub=True, kw=dict(acquisition_type='LCB', evaluator_type='local_penalization', batch_size=3), ops=['run', 'suggest', 'run', 'run']),
    'ts': dict(dom='c2', con=0, stub=True, kw=dict(evaluator_type='thompson_sampling', batch_size=2), ops=['run', 'suggest', 'run', 'suggest']),
    'context': dict(dom='m2', stub=True, data=True, kw=dict(acquisition_type='EI'), ops=['context', 'suggest', 'pending', 'context']),
    'bandit': dict(dom='b2', stub=True, kw=dict(acquisition_type='MPI'), ops=['run', 'pending', 'run', 'run']),
    'cost': dict(dom='dkc', con=0, stub=True, kw=dict(acquisition_type='EI', maximize=True, cost='user', type_anchor_points_logic='max_objective'), ops=['run', 'suggest', 'run', 'run']),
    'sobol': dict(dom='cc', stub=True, kw=dict(acquisition_type='EI', initial_design_type='sobol', type_anchor_points_logic='thompson_sampling'), ops=['run', 'suggest', 'run', 'run']),
    'bare': dict(dom='bare', stub=True, kw=dict(acquisition_type='EI', evaluator_type='random', batch_size=2), ops=['run', 'suggest', 'run', 'run']),
}

# steps after the construction in the quick tier, for the slow ones (3 for the others)
SLOW = {'gp': 2, 'gp-mpi': 1, 'gp-lp': 1, 'mcmc': 1, 'lp': 2, 'cost': 2}


def cases(tier):
    cap = {} if tier == 'thorough' else SLOW
    ks = list(KIND)
    out = []
    for i, a in enumerate(ks):
        for b in ks[i:]:
            out.append(('%s|%s' % (a, b), ('pair', a, b, min(cap.get(a, 3), cap.get(b, 3)))))
    out += [('overwritten %s' % k, ('overwritten', k, cap.get(k, 3), tier)) for k in ks]
    out.append(('processes', ('processes',)))
    return out


def weight(p):
    return 99 if p[0] == 'processes' else 6 * sum({'gp': 5, 'gp-mpi': 6, 'gp-lp': 6, 'mcmc': 9, 'lp': 3, 'ts': 2}.get(k, 1) for k in p[1:2]) if p[0] == 'overwritten' else sum({'gp': 5, 'gp-mpi': 6, 'gp-lp': 6, 'mcmc': 9, 'lp': 3, 'ts': 2}.get(k, 1) for k in p[1:3])


def run(params, rec):
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
        globals()['run_' + params[0]](rec, *params[1:])
    rec.outcome(params[0])


def cost(x):
    x = np.atleast_2d(x)
    return 1.5 + x[:, :1] ** 2, np.hstack([2 * x[:, :1], np.zeros((len(x), x.shape[1] - 1))])


class World(object):
    """one domain, constraints and data, given to both optimizations"""
    def __init__(self):
        self.doms = copy.deepcopy(R.DOMAINS)
        self.doms['bare'] = [{'domain': [-1., 1.]}, {'type': 'discrete', 'domain': [1, 2, 5]}, {'domain': (0., 1.), 'name': 'z'}]     # no names, no types
        self.cons = copy.deepcopy(R.CONSTRAINTS)
        self.data = {}

    def xy(self, name, con):
        k = (name, con)
        if k not in self.data:
            ref = R.RefDomain(self.doms[name], self.cons[name][con] if con is not None else None)
            pts = ref.lattice(3)
            X = np.array(pts[::max(1, len(pts) // 4)][:4])
            self.data[k] = X, value(X), {'pending': np.array(pts[1:3]), 'ignored': np.array(pts[-2:])}
        return self.data[k]


def value(X):
    X = np.atleast_2d(X)
    return ((X - .35) ** 2 * np.arange(1., X.shape[1] + 1)).sum(1)[:, None]


class Program(object):
    """one optimization: a list of steps, its random state, and what it observes"""
    def __init__(self, kind, world, seed, steps):
        self.k, self.w, self.kind = KIND[kind], world, kind
        self.rng = np.random.RandomState(seed).get_state()
        self.pc, self.trace, self.given = 0, [], []
        self.steps = ['build'] + self.k['ops'][:steps]

    def keep(self, what, obj):
        self.given.append((what, obj, copy.deepcopy(obj)))
        return obj

    def step(self):
        op = self.steps[self.pc]
        self.pc += 1
        outer = np.random.get_state()
        np.random.set_state(self.rng)
        try:
            with few_anchors(12):
                out = self.build() if op == 'build' else self.do(op)
                probe = self.probe() if op != 'build' else None
        finally:
            self.rng = np.random.get_state()
            np.random.set_state(outer)
        self.trace.append((op, out, probe))

    def build(self):
        k = self.k
        dom, con = self.w.doms[k['dom']], (self.w.cons[k['dom']][k['con']] if 'con' in k else None)
        self.keep('domain', dom), self.keep('constraints', con)
        kw = dict(k['kw'])
        if kw.pop('cost', None):
            kw['cost_withGradients'] = cost
        ref = self.ref = R.RefDomain(dom, con)
        X, Y, other = self.w.xy(k['dom'], k.get('con'))
        self.other = other
        self.keep('pending and ignored', other)
        self.calls = []
        buf = np.zeros((1, 1))

        def f(x):
            self.calls.append(self.keep('argument of the objective', x))
            buf[:] = value(x)
            return buf          # the same array every time
        if k.get('stub'):
            kw['model'] = StubModel(ref.encode(ref.lattice(3)[len(ref.lattice(3)) // 2]))
            self.bo = make_bo(f if not k.get('data') else None, dom, con, X=self.keep('X', X), Y=self.keep('Y', Y) if k.get('data') else None, **{a: b for a, b in kw.items() if a not in ('initial_design_type',)})
        else:
            self.bo = GPyOpt.methods.BayesianOptimization(f, dom, con, X=self.keep('X', X), Y=self.keep('Y', Y), **kw)
        return None

    def do(self, op):
        bo = self.bo
        if op == 'run':
            bo.run_optimization(1, eps=-1)
            X, Y = bo.get_evaluations()
            out = (X, Y, np.array(bo.x_opt), float(bo.fx_opt), bo.Y_best)
            for n, a in zip(('X', 'Y', 'x_opt'), out):
                self.keep('returned ' + n, a)
            self.keep('the data of the optimization', bo.X), self.keep('the data of the optimization', bo.Y), self.keep('Y_best', bo.Y_best)
            return copy.deepcopy(out)
        if op == 'suggest':
            s = bo.suggest_next_locations()
        elif op == 'context':
            v = self.ref.vars[len(self.trace) % 2]
            c = self.keep('context', {v.name: v.lattice(3)[-1][0]})
            s = bo.suggest_next_locations(context=c)
        else:
            s = bo.suggest_next_locations(pending_X=self.other['pending'], ignored_X=self.other['ignored'])
        self.keep('suggestion', s)
        return np.array(s)

    def probe(self):
        """what the optimization would answer now (does not change it)"""
        pts = np.array([self.ref.encode(p) for p in self.ref.lattice(3)[:3]])
        out = [self.bo.acquisition.acquisition_function(pts)]
        if self.k['kw'].get('evaluator_type') == 'local_penalization':
            out.append(self.bo.evaluator.acquisition.acquisition_function(pts))
        if not self.k.get('stub'):
            out.append(self.bo.model.get_model_parameters())
        out.append(self.bo.space.indicator_constraints(np.array(self.ref.lattice(3, feasible=False)[:6])))
        return copy.deepcopy(out)


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.array_equal(np.asarray(a), np.asarray(b)))
    return a == b


def near(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return equal(a, b) or (a is not None and b is not None and not isinstance(a, str) and np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12))


SEEDS = (11, 12)


def solo(kind, i, steps):
    p = Program(kind, World(), SEEDS[i], steps)
    for _ in p.steps:
        p.step()
    return p


def judge(rec, p, alone, order):
    for n, (a, b) in enumerate(zip(p.trace, alone.trace)):
        rec.check(a[0] == b[0] and near(a[1], b[1]), 'step %d (%s) of %s differs from the same step alone' % (n, a[0], p.kind), got=a[1], expected=b[1], order=order)
        rec.check(near(a[2], b[2]), 'state after step %d (%s) of %s differs from the same step alone' % (n, a[0], p.kind), got=a[2], expected=b[2], order=order)
    for what, obj, old in p.given:
        rec.check(equal(obj, old), '%s was modified (%s)' % (what, p.kind), got=obj, expected=old, order=order)


def run_pair(rec, a, b, steps):
    alone = [solo(a, 0, steps), solo(b, 1, steps)]
    again = [solo(a, 0, steps), solo(b, 1, steps)]
    for x, y in zip(again, alone):
        judge(rec, x, y, 'alone, again')
    n = steps + 1
    for pos in itertools.combinations(range(2 * n), n):
        order = [0 if i in pos else 1 for i in range(2 * n)]
        w = World()
        ps = [Program(a, w, SEEDS[0], steps), Program(b, w, SEEDS[1], steps)]
        np.random.seed(1)
        for i in order:
            ps[i].step()
            rec.trans()
        for p, s in zip(ps, alone):
            judge(rec, p, s, ''.join(map(str, order)))
        rec.state(a, b, order)
        rec.execution()


def overwrite(obj):
    """the user reuses an object of his"""
    if isinstance(obj, np.ndarray):
        obj[...] = 77.
    elif isinstance(obj, dict):
        for k in list(obj):
            if isinstance(obj[k], np.ndarray):
                overwrite(obj[k])
            else:
                obj[k] = 77.
    elif isinstance(obj, list):
        for d in obj:
            overwrite(d) if isinstance(d, (dict, list, np.ndarray)) else None
        del obj[:]


OWN = ('the data of the optimization', 'Y_best')     # attributes of the optimization, not the user's objects


def run_overwritten(rec, kind, steps, tier):
    """every object that the user gave or got is overwritten after every step that it took part in: nothing else changes"""
    alone = solo(kind, 0, steps)
    n = 0
    while True:                                   # the n-th object
        done = True
        for at in range(len(alone.steps)):        # overwritten after that step
            p = Program(kind, World(), SEEDS[0], steps)
            what = None
            for i in range(len(p.steps)):
                p.step()
                if i == at and n < len(p.given):
                    what = p.given[n][0]
                    if what not in OWN:
                        overwrite(p.given[n][1])
                        if what == 'pending and ignored':
                            p.other = copy.deepcopy(p.given[n][2])
            if what is None:
                continue
            done = False
            if what in OWN:
                break
            for j, (a, b) in enumerate(zip(p.trace, alone.trace)):
                for k in (1, 2):
                    rec.check(near(a[k], b[k]), 'overwriting %s (object %d) after step %d changes step %d (%s)' % (what, n, at, j, a[0]), got=a[k], expected=b[k], kind=kind)
            rec.trans(len(p.steps))
            rec.state(kind, n, at)
            rec.execution()
            if kind in SLOW and tier == 'quick':
                break                             # only as soon as it exists
        if done:
            break
        n += 1


SCRIPT = '''
import sys, json
sys.path[:0] = [%r, %r]
import io, contextlib
from mc.checks import c21
import numpy as np
out = {}
with contextlib.redirect_stdout(io.StringIO()):
    for k in c21.KIND:
        out[k] = [[t[0], np.asarray(t[1][0] if isinstance(t[1], tuple) else t[1] if t[1] is not None else []).tolist()] for t in c21.solo(k, 0, 3).trace]
print(json.dumps(out))
'''


def run_processes(rec):
    res = []
    for seed in ('0', '1', '4242'):
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=core.REPO)
        p = subprocess.run([sys.executable, '-c', SCRIPT % (core.REPO, core.VERIF)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        rec.check(p.returncode == 0, 'the program failed', output=p.stderr.decode()[-300:])
        res.append(json.loads(p.stdout.decode().splitlines()[-1]))
    for k in KIND:
        for r in res[1:]:
            for a, b in zip(r[k], res[0][k]):
                rec.check(a[0] == b[0] and np.shape(a[1]) == np.shape(b[1]) and np.allclose(a[1], b[1], rtol=1e-9, atol=1e-12), 'the same seed and calls give another run in another process', kind=k, got=a, expected=b)
                rec.trans()
        rec.execution()
