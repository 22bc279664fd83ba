"""C06: parallel evaluation returns the outputs of its inputs, in order, for every schedule and every failure of a child.

Real code: SingleObjective.evaluate / run_optimization with num_cores > 1, over stand-ins of Process and Pipe whose interleavings,
pipe capacity and failures are enumerated; the stand-ins are compared with real forked processes in the cases 'real'."""
import os
import numpy as np
import GPyOpt
from .. import ref as R, mp
from ..env import StubModel, few_anchors, make_bo, scipy_lbfgs_stub, rows

PROPERTY = 'C06'
BOUNDS = {
    'quick': 'batches of 1-5 points on 2-4 processes; every schedule with at most 2 departures (3 for up to 3 points on 2 processes) from the default (a switch to another enabled process, a child that raises or dies before / between / after its evaluations, a process or a pipe that cannot be created), buffered and blocking pipes; runs of 2 iterations with batches; 6 scenarios on real processes',
    'thorough': 'at most 3 departures',
}
ASSUMPTIONS = ['child processes are forked and inherit the open ends of the pipes', 'a blocked send models results larger than the pipe buffer']
HORIZON = 300


def cases(tier):
    out = []
    for n in (1, 2, 3, 4, 5):
        for cores in (2, 3, 4):
            for rdv in (False, True):
                out.append(('eval/n%d/cores%d/%s' % (n, cores, 'blocking' if rdv else 'buffered'), ('eval', n, cores, rdv, tier)))
    for cores in (2, 3):
        for cls in (False, True):
            for mx in (False, True):
                out.append(('run/cores%d/%s/%s' % (cores, 'modular' if cls else 'standard', mx), ('run', cores, cls, mx, tier)))
    for s in REAL:
        out.append(('real/' + s, ('real', s)))
    return out


def weight(p):
    return 5 if p[0] == 'eval' and p[1] * p[2] > 6 else 1


class Broken(Exception):
    pass


def value(x):
    return 10. * x[0] - x[1]


def run(params, rec):
    globals()['run_' + params[0]](rec, *params[1:])


def run_eval(rec, n, cores, rdv, tier):
    X = np.array([[float(i), .5 * i * i] for i in range(n)])

    def body(ch):
        raising = ch.pick([None] + list(range(n)), 'input for which the objective raises')
        nf = [0]

        def once(label):
            def fault():
                nf[0] += 1
                return bool(ch.choose(2, label)) if nf[0] <= 12 else False
            return fault
        s = mp.System(ch.choose, rdv)
        calls = []

        def f(x):
            child = s.cur is not s.main
            assert x.shape == (1, 2), x.shape
            r = rows(x)[0]
            if child:
                k = ch.choose(3, 'child: evaluates / raises / dies')
                if k == 1:
                    raise Broken('only in the child')
                if k == 2:
                    raise mp.Died()
            if raising is not None and r == rows(X)[raising]:
                raise Broken('objective')
            s.point('evaluate')
            if not child:
                calls.append(r)
            return np.array([[value(r)]])
        obj = GPyOpt.core.task.SingleObjective(f, cores)
        err = None
        with mp.installed(s, start_fault=once('process cannot be started'), pipe_fault=once('pipe cannot be created')):
            try:
                Y, C = obj.evaluate(X.copy())
            except Broken as e:
                err = e
            except mp.Deadlock:
                pass
            dead = s.deadlock
            hung = s.finish()
        rec.check(not dead, 'the parallel evaluation does not end: %s' % dead, trace=s.trace[-12:])
        rec.check(not hung, 'child processes that never end: %s' % hung, trace=s.trace[-12:])
        if raising is None:
            rec.check(err is None, 'the evaluation failed although the objective works: %s' % err)
        else:
            rec.check(err is not None, 'the failure of the objective is not reported')
        if err is None:
            Y = np.asarray(Y)
            rec.check(Y.shape == (n, 1), 'shape of the outputs', shape=Y.shape)
            rec.same(Y, np.array([[value(r)] for r in rows(X)]), 'outputs not in the order of the inputs')
            rec.check(np.asarray(C).size == n and np.all(np.isfinite(np.asarray(C, float))), 'one cost per evaluation', costs=C)
            rec.check(len(calls) in (0, n), 'evaluated partly in the parent', calls=calls)
        rec.outcome(('raised' if err else 'fallback' if calls else 'parallel'))
        rec.state(n, cores, rdv, s.trace)
    rec.explore(body, deviations=(3 if tier == 'thorough' else 2) + (n * cores <= 6))


def run_run(rec, cores, cls, mx, tier):
    dom = R.DOMAINS['cc']
    ref = R.RefDomain(dom)
    sign = -1. if mx else 1.

    def body(ch):
        ev, nb = ch.pick([('random', 3), ('thompson_sampling', 2), ('sequential', 1), ('local_penalization', 2)], 'evaluator')
        init = ch.pick(['X', 'XY', 'design'], 'initial data')
        rdv = ch.pick([True, False], 'pipe')
        if ev == 'local_penalization' and not cls:
            return
        s = mp.System(ch.choose, rdv)
        X = np.array(ref.lattice()[:4]) if init != 'design' else None
        Y = np.array([[4.], [3.], [5.], [1.]]) if init == 'XY' else None
        nc = [0]

        def f(x):
            if s.cur is not s.main:
                nc[0] += 1
                if nc[0] <= 6 and ch.choose(2, 'child dies'):
                    raise mp.Died()
            return np.array([[value(rows(x)[0])]])
        with mp.installed(s), few_anchors(10), scipy_lbfgs_stub(lambda x0, b, n: None):
            bo = make_bo(f, dom, None, X=X, Y=Y, model=StubModel((.3, -2.)), evaluator_type=ev, batch_size=nb, modular=cls, maximize=mx,
                         num_cores=cores, initial_design_numdata=4)
            try:
                bo.run_optimization(2, eps=-1.)
            except mp.Deadlock:
                pass
            dead = s.deadlock
            hung = s.finish()
        rec.check(not dead and not hung, 'the run does not end: %s %s' % (dead, hung), trace=s.trace[-12:])
        want = [sign * value(r) for r in rows(bo.X)]
        if init == 'XY':
            want[:4] = [4., 3., 5., 1.]
        rec.check(len(bo.X) == 4 + 2 * nb, 'number of evaluations', got=len(bo.X), expected=4 + 2 * nb)
        rec.same(bo.Y, np.array(want)[:, None], 'recorded outputs are not the outputs of the recorded inputs')
        rec.outcome(len(bo.X))
        rec.state(rows(bo.X), s.trace)
    rec.explore(body, deviations=2 if tier == 'thorough' else 1)


REAL = ['plain', 'more processes than points', 'raises in one child', 'dies in one child', 'large results', 'raises everywhere']


def run_real(rec, scenario):
    """real processes: the same outcomes as the stand-ins"""
    parent = os.getpid()
    X = np.array([[float(i), .5 * i * i] for i in range(3)])
    n = 40000 if scenario == 'large results' else 3
    if n > 3:
        X = np.random.rand(n, 2)
    calls = []

    def f(x):
        if os.getpid() != parent:
            if scenario == 'raises in one child' and x[0, 0] == 1.:
                raise Broken()
            if scenario == 'dies in one child' and x[0, 0] == 1.:
                os._exit(9)
        else:
            calls.append(1)
        if scenario == 'raises everywhere' and x[0, 0] == 1.:
            raise Broken()
        return np.array([[value(x[0])]])
    cores = 8 if scenario == 'more processes than points' else 2
    obj = GPyOpt.core.task.SingleObjective(f, cores)
    try:
        Y, C = obj.evaluate(X)
        out = 'fallback' if calls else 'parallel'
    except Broken:
        Y, out = None, 'raised'
    expected = {'raises in one child': 'fallback', 'dies in one child': 'fallback', 'raises everywhere': 'raised'}.get(scenario, 'parallel')
    rec.check(out == expected, 'outcome on real processes', got=out, expected=expected)
    if Y is not None:
        rec.same(Y, np.array([[value(r)] for r in X]), 'outputs on real processes')
    import multiprocessing
    rec.check(not multiprocessing.active_children(), 'processes left running')
    rec.execution()
    rec.state(scenario)
    rec.outcome(out)
