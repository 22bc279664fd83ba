"""C19: a configuration file denotes the same optimization as the Python interface.

Real code: parser / update_config, load_objective, BODriver, OutputEng, gpyopt.py. Explored: merges of all nested dictionaries of the bound,
sequences of files, configurations run by the driver against the same optimization written in Python (same seed), limits under a controlled
clock, every schedule of writes of the output engine."""
import contextlib
import copy
import io
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import GPyOpt
from GPyOpt.interface import parser, BODriver, load_objective, OutputEng
from GPyOpt.interface import config_parser
from .. import core
from .. import ref as R
from ..env import few_anchors, clock, Clock, rows

PROPERTY = 'C19'
BOUNDS = {
    'quick': 'merges of all pairs of dictionaries with 2 keys up to depth 2 (144 x 144) and chains of depth 3; all sequences of 2 files of a menu; configurations with up to 2 keys (space, constraints, design, model, acquisition, evaluator, resources) different from the default, and 2 iterations; iteration and time limits 0-3 x NA; all output schedules of 1-6 iterations x 5 intervals; the program itself on 2 configurations',
    'thorough': 'configurations with up to 3 keys different from the default',
}
ASSUMPTIONS = ['EI and MPI with GP models are the combinations that the configuration files support']
HORIZON = 240

SPACES = {
    'cc': [C for C in R.DOMAINS['cc']],
    'c2': R.DOMAINS['c2'],
    'm': [R.C('a', (0., 2.), 2), R.C('b', (1, 3, 7), type='discrete'), R.C('k', (0, 1, 2), type='categorical')],
    'd': R.DOMAINS['dd'],
    'one': [R.C('a', (-2., 5.))],
}
CONS = {'cc': 'x[:,0] + x[:,1] + 2', 'c2': 'x[:,0] + x[:,1] - 1', 'm': 'x[:,0] - x[:,1]', 'd': 'x[:,0] - 3', 'one': 'x[:,0] - 3'}


def cases(tier):
    out = [('merge/%d' % i, ('merge', i)) for i in range(8)] + [('merge3', ('merge3',)), ('files', ('files',)), ('wrong', ('wrong',)), ('load', ('load',))]
    for first in sorted(MENU) + ['-']:
        for how in ('file', 'dict'):
            out.append(('run/%s/%s' % (first, how), ('run', first, how, tier)))
    out += [('limits/%s/%s' % (a, b), ('limits', a, b)) for a in (0, 1, 3, 'NA') for b in (0.02, .05, 1, 'NA') if (a, b) != ('NA', 'NA')]
    out += [('output/%s' % i, ('output', i)) for i in (1, 2, 3, 5, -1)]
    out += [('program/%d' % i, ('program', i)) for i in (0, 1)]
    return out


def weight(p):
    return 9 if p[0] in ('run', 'program') else 1


def run(params, rec):
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix='mc19_')
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            globals()['run_' + params[0]](rec, d, *params[1:])
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
    rec.outcome(params[0])


# ------------------------------------------------------------------ merging
def merged(new, default):
    out = copy.deepcopy(default)
    for k, v in new.items():
        out[k] = merged(v, out[k]) if isinstance(v, dict) and isinstance(out.get(k), dict) else copy.deepcopy(v)
    return out


def compatible(new, default):
    """a dictionary only takes the place of a dictionary"""
    return all(k not in default or not isinstance(v, dict) or (isinstance(default[k], dict) and compatible(v, default[k])) for k, v in new.items())


def dicts(values):
    return [{k: v for k, v in zip('ab', vs) if v is not None} for vs in itertools.product([None] + values, repeat=2)]


def run_merge(rec, tmp, part):
    T2 = dicts([1, [2]] + dicts([1, [2]]))
    for i, new in enumerate(T2):
        if i % 8 != part:
            continue
        for default in T2:
            dflt = shift(default)
            if not compatible(new, dflt):
                continue
            n = copy.deepcopy(new)
            got = config_parser.update_config(n, copy.deepcopy(dflt))
            rec.check(got == merged(new, dflt), 'merged configuration', new=new, default=dflt, got=got, expected=merged(new, dflt))
            rec.check(n == new, 'the new configuration was modified', new=new, now=n)
            rec.state(repr(new), repr(dflt))
            rec.trans()
    rec.execution()


def shift(d):
    """the same shape with other values, to tell where a value comes from"""
    return {k: shift(v) if isinstance(v, dict) else ('default', repr(v)) for k, v in d.items()}


def run_merge3(rec, tmp):
    T = [{}, {'a': 1}, {'b': 2}, {'a': 1, 'b': 2}]
    T2 = [dict(p, **q) for p in ({}, {'b': 7}) for q in ({}, *[{'a': t} for t in T], *[{'c': t} for t in T])]
    T3 = [dict(p, **q) for p in ({}, {'b': 7}, {'c': {'a': 4}}) for q in ({}, *[{'a': t} for t in T2])]
    for new in T3:
        for default in T3:
            dflt = shift(default)
            if compatible(new, dflt):
                got = config_parser.update_config(copy.deepcopy(new), copy.deepcopy(dflt))
                rec.check(got == merged(new, dflt), 'merged configuration', new=new, default=dflt, got=got, expected=merged(new, dflt))
                rec.state(repr(new), repr(dflt))
                rec.trans()
    rec.execution()


DOCUMENTED = {'language': 'PYTHON', 'resources': {'maximum-iterations': 20, 'max-run-time': 'NA', 'cores': 1, 'tolerance': 1e-8},
              'initialization': {'type': 'random', 'num-eval': 5}, 'model': {'type': 'GP', 'num_inducing': 10},
              'acquisition': {'type': 'EI', 'jitter': .01, 'optimizer': {'name': 'lbfgs'}, 'evaluator': {'type': 'sequential'}}, 'constraints': []}
FILES = [{}, {'language': 'python', 'x': 1}, {'resources': {'cores': 3}}, {'acquisition': {'optimizer': {'name': 'CMA'}, 'jitter': .5}}, {'acquisition': {'evaluator': {'type': 'random', 'batch_size': 4}}},
         {'output': {'Ybest': {'filename': 'a.csv'}, 'more': {'type': 'logger', 'interval': 3}}}, {'space': [{'name': 'q', 'domain': '(1,2)'}], 'model': {'ARD': True}},
         {'constraints': [{'name': 'c', 'constraint': 'x[:,0]'}], 'resources': {'maximum-iterations': 'NA', 'max-run-time': 2.5}, 'experiment-name': 'e', 'initialization': {'type': 'latin'}}]


def write(tmp, name, conf):
    p = os.path.join(tmp, name)
    with open(p, 'w') as f:
        json.dump(conf, f)
    return p


def run_files(rec, tmp):
    base = parser(write(tmp, 'e.json', {}))
    for k, v in DOCUMENTED.items():
        rec.check(base[k] == v, 'default of ' + k, got=base[k], expected=v)
    for first in FILES:
        for second in FILES:
            for conf in (first, second):
                got = parser(write(tmp, 'c.json', conf))
                rec.check(got == merged(conf, base), 'configuration of a file (after another one)', file=conf, before=first, got=got)
                got['resources']['cores'] = 77      # what the caller does with it does not matter for the next
                got['output'].clear()
            rec.check(BODriver().config == base, 'configuration of a driver without configuration', got=BODriver().config)
            rec.state(repr(first), repr(second))
            rec.trans(2)
    rec.execution()


def run_wrong(rec, tmp):
    for text in ('', '{', '[1, 2', '{"a": }'):
        p = os.path.join(tmp, 'w.json')
        with open(p, 'w') as f:
            f.write(text)
        for q in (p, os.path.join(tmp, 'none.json')):
            try:
                parser(q)
            except Exception as e:
                rec.check(q in str(e), 'message for a wrong file', got=e)
            else:
                rec.fail('a wrong file was accepted: %r' % text)
            rec.trans()
    wrong = [None, {'model': {'type': 'nothing'}}, {'acquisition': {'type': 'nothing'}}, {'acquisition': {'evaluator': {'type': 'nothing'}}}, {'acquisition': {'type': 'EI_MCMC'}}, {'acquisition': {'type': 'MPI_MCMC'}},
             {'initialization': {'type': 'nothing'}}, {'acquisition': {'optimizer': {'name': 'nothing'}}}, 'space', {'space': [{'name': 'p', 'type': 'nothing', 'domain': '(0,1)'}]}, {'space': [{'name': 'p', 'type': 'continuous'}]}]
    for change in wrong:
        conf = {k: v for k, v in base_config().items() if k != 'space'} if change == 'space' else merged(change or {}, base_config())
        n = []
        try:
            with few_anchors():
                BODriver(conf, lambda *a: (n.append(a), np.zeros((len(a[0]), 1)))[1]).run()
        except Exception as e:
            rec.check(change is not None, 'the configuration is rejected: %r' % e, configuration=conf)
            rec.check(not (set(change) & {'space'}) or not n, 'a configuration with a wrong domain evaluates the objective', configuration=conf)
        else:
            rec.check(change is None and n, 'a wrong configuration was accepted', change=change, configuration=conf)
        rec.trans()
    rec.execution()


def base_config():
    return merged(dict(FULL, space=text_space(SPACES['cc'], 'text')), parser_defaults())


def parser_defaults():
    return copy.deepcopy(BODriver().config)


def run_load(rec, tmp):
    """the objective is the function of the name of the file"""
    for sub in ('', 'in ner'):
        d = os.path.join(tmp, sub)
        if not os.path.isdir(d):
            os.makedirs(d)
        for n in ('first', 'second_one'):
            for k in (1, 2):
                with open(os.path.join(d, n + '.py'), 'w') as f:
                    f.write('import numpy as np\nfrom os.path import dirname\nK = %d\ndef helper(x):\n    return K * x\ndef other(x, y):\n    return 0\ndef %s(x, y):\n    return helper(x) + 10 * y\n' % (k, n))
                shutil.rmtree(os.path.join(d, '__pycache__'), ignore_errors=True)
                os.utime(os.path.join(d, n + '.py'), (1e9 + k * 10, 1e9 + k * 10))
                for lang in ('PYTHON', 'python'):
                    f = load_objective({'prjpath': d, 'main-file': n + '.py', 'language': lang})
                    rec.check(f(3, 5) == 3 * k + 50, 'loaded objective', got=f(3, 5), expected=3 * k + 50)
                    rec.state(sub, n, k, lang)
                    rec.trans()
    for conf in ({'prjpath': tmp, 'language': 'python'}, {'main-file': 'first.py', 'language': 'python'}, {'prjpath': tmp, 'main-file': 'first.txt', 'language': 'python'}, {'prjpath': tmp, 'main-file': 'missing.py', 'language': 'python'}):
        try:
            load_objective(conf)
        except Exception:
            rec.trans()
        else:
            rec.fail('wrong objective accepted: %r' % conf)
    rec.execution()


# ------------------------------------------------------------------ runs
FULL = {'space': None, 'constraints': [], 'resources': {'maximum-iterations': 2}, 'model': {'optimize_restarts': 1, 'verbose': False}, 'initialization': {'num-eval': 4}}
MENU = {
    'space': sorted(SPACES),
    'constraint': [False, True],
    'design': ['random', 'sobol', 'latin', 'grid'],
    'num': [4, 1, 9],
    'acquisition': [('EI', .01), ('MPI', .01), ('EI', .9), ('MPI', .5)],
    'evaluator': [{'type': 'sequential'}, {'type': 'random', 'batch_size': 3}, {'type': 'thompson_sampling', 'batch_size': 2}],
    'model': [{}, {'exact_feval': True}, {'noise_var': .3}, {'ARD': True}, {'sparse': True, 'num_inducing': 3}, {'max_iters': 2}, {'optimize_restarts': 2}],
    'iterations': [2, 0, 3],
    'tolerance': [None, 100., 0.],
    'cores': [1, 2],
    'form': ['text', 'json', 'size text'],
}
DEFAULT = {k: v[0] for k, v in MENU.items()}
DEFAULT['space'] = 'cc'


def text_space(dom, form):
    """the way domains are written in a file"""
    out = []
    for d in dom:
        e = dict(d)
        e['domain'] = str(tuple(d['domain'])) if form != 'json' else str(list(d['domain']))
        if form == 'size text':
            e['dimensionality'] = str(d.get('dimensionality', 1))
        out.append(e)
    return out


def objective(ledger):
    def obj(*args):
        ledger.append([np.array(a) for a in args])
        x = np.hstack([np.atleast_2d(a) for a in args])
        return ((x - .3) ** 2 * np.arange(1., x.shape[1] + 1)).sum(1)[:, None] / 3.
    return obj


def run_run(rec, tmp, first, how, tier):
    def body(ch):
        o = dict(DEFAULT)
        if first != '-':
            o[first] = ch.pick([v for v in MENU[first] if v != DEFAULT[first]], first)
            for k in sorted(MENU):
                if k != first:
                    o[k] = ch.pick([DEFAULT[k]] + [v for v in MENU[k] if v != DEFAULT[k]], k)
        dom = SPACES[o['space']]
        if o['design'] in ('sobol', 'latin', 'grid') and o['constraint']:
            return
        if o['cores'] > 1 and o['evaluator']['type'] == 'sequential' and o['num'] == 1:
            return
        con = [{'name': 'c0', 'constraint': CONS[o['space']]}] if o['constraint'] else []
        conf = {'language': 'PYTHON', 'space': text_space(dom, o['form']), 'constraints': con, 'model': dict(FULL['model'], **o['model']), 'experiment-name': 'e',
                'acquisition': {'type': o['acquisition'][0], 'jitter': o['acquisition'][1], 'evaluator': o['evaluator']}, 'initialization': {'type': o['design'], 'num-eval': o['num']},
                'resources': dict({'maximum-iterations': o['iterations'], 'cores': o['cores']}, **({'tolerance': o['tolerance']} if o['tolerance'] is not None else {}))}
        conf = parser(write(tmp, 'r.json', conf)) if how == 'file' else merged(conf, parser_defaults())
        before = copy.deepcopy(conf)
        seed = np.random.randint(10 ** 6)
        led = []
        with few_anchors():
            np.random.seed(seed)
            bo = BODriver(conf, objective(led)).run()
        rec.check(conf == before, 'the configuration was modified', before=before, now=conf)
        np.random.seed(seed)
        ref = R.RefDomain(dom, con)
        dims = [d.get('dimensionality', 1) for d in dom]
        splits = np.cumsum(dims)[:-1]
        led2 = []
        f2 = objective(led2)
        ev = o['evaluator']
        with few_anchors():
            py = GPyOpt.methods.BayesianOptimization(lambda x: f2(*np.split(x, splits, axis=1)), copy.deepcopy(dom), copy.deepcopy(con) or None, initial_design_numdata=o['num'], initial_design_type=o['design'],
                                                     acquisition_type=o['acquisition'][0], acquisition_jitter=o['acquisition'][1], evaluator_type=ev['type'], batch_size=ev.get('batch_size', 1), num_cores=o['cores'],
                                                     model_type='sparseGP' if o['model'].get('sparse') else 'GP', exact_feval=o['model'].get('exact_feval', False),
                                                     X=bo.get_evaluations()[0][:o['num']] if o['design'] == 'latin' else None,       # not drawn from numpy's generator
                                                     **{k: v for k, v in dict(FULL['model'], **o['model']).items() if k not in ('sparse', 'verbose', 'exact_feval')})
            py.run_optimization(o['iterations'], eps=1e-8 if o['tolerance'] is None else o['tolerance'])
        (X, Y), (X2, Y2) = bo.get_evaluations(), py.get_evaluations()
        det = dict(configuration={k: v for k, v in o.items() if v != DEFAULT[k]})
        rec.check(X.shape == X2.shape, 'number of evaluations', got=X.shape, expected=X2.shape, **det)
        rec.check(len(X) >= o['num'] or o['design'] == 'grid', 'size of the design', got=len(X), **det)
        rec.close(X, X2, 'evaluated points: not those of the same optimization in Python', tol=1e-6, **det)
        rec.close(Y, Y2, 'outputs: not those of the same optimization in Python', tol=1e-6, **det)
        for r in rows(X):
            rec.check(ref.valid(r), 'evaluated point is not a feasible member of the configured space', point=r, **det)
        if o['cores'] == 1:
            rec.check([[a.shape for a in c] for c in led] == [[(1, k) for k in dims]] * len(X), 'one argument per variable', got=[[a.shape for a in c] for c in led][:3], expected=dims, **det)
            rec.same(np.vstack([np.hstack(c) for c in led]), X, 'arguments of the objective', **det)
        rec.state(repr(o))
        rec.outcome(len(X))
    rec.explore(body, deviations=1 if tier == 'quick' or first == '-' else 2)


def run_limits(rec, tmp, iters, minutes):
    """iterations and minutes, with a clock that only the objective advances"""
    for step in (.5, 2., 70.):
        t = Clock()
        led = []
        f = objective(led)

        def timed(*a):
            t.advance(step)
            return f(*a)
        conf = merged({'space': text_space(SPACES['cc'], 'text'), 'resources': {'maximum-iterations': iters, 'max-run-time': minutes, 'tolerance': 0}, 'model': {'optimize_restarts': 1, 'verbose': False}}, parser_defaults())
        with clock(t), few_anchors():
            bo = BODriver(conf, timed).run()
        n = len(led) - 5
        by_time = np.inf if minutes == 'NA' else int(np.ceil(minutes * 60. / step - 1e-9))
        want = min(np.inf if iters == 'NA' else iters, by_time)
        exact = minutes != 'NA' and abs(minutes * 60. / step - round(minutes * 60. / step)) < 1e-9
        rec.check(n == want or (exact and want == by_time and n == want + 1), 'iterations within the limits', iterations=iters, minutes=minutes, seconds_per_evaluation=step, got=n, expected=want)
        rec.check(len(bo.get_evaluations()[0]) == len(led), 'recorded evaluations')
        rec.state(iters, minutes, step)
        rec.trans(n)
        rec.execution()


# ------------------------------------------------------------------ output engine
class FakeBO(object):
    def __init__(self):
        self.reports = []

    def save_report(self, report_file=None):
        self.reports.append(report_file)
        with open(report_file, 'w') as f:
            f.write('report %d\n' % len(self.reports))


def run_output(rec, tmp, interval):
    YS = [[3.], [1.], [2.], [-4., 5.], [-4.5], [0.]]
    count = [0]

    def body(ch):
        count[0] += 1
        d = os.path.join(tmp, str(count[0]))
        os.makedirs(d)
        iv2 = ch.pick([1, 2, -1], 'interval of the report')
        n = 1 + ch.choose(6, 'iterations')
        order = ch.pick([0, 1, 2], 'order')
        named = ch.pick([True, False], 'named')
        fin = ch.pick([True, False], 'final')
        ys = {0: YS, 1: YS[::-1], 2: YS[2:] + YS[:2]}[order]
        conf = {'prjpath': d, 'experiment-name': 'exp', 'output': {'verbosity': False, 'rep': {'type': 'report', 'filename': 'r.txt' if named else None, 'interval': iv2},
                                                                  'log': {'type': 'logger', 'content': 'ybest', 'format': 'csv', 'filename': 'l.csv' if named else None, 'interval': interval}}}
        eng = OutputEng(conf)
        bo = FakeBO()
        want, reps = [], 0
        best, bx = np.inf, None
        Xs, Ys = [], []
        for i in range(n + (1 if fin else 0)):
            final = i == n
            y = np.array(ys[i % 6])[:, None]
            x = np.array([[10. * i + k, -.5 * i] for k in range(len(y))])
            Xs.append(x.copy()), Ys.append(y.copy())
            for a, b in zip(x, y):
                if b[0] < best:
                    best, bx = b[0], a.copy()
            eng.append_iter(i + 1, 1.5 * i, x, y, bo, final=final)
            if (interval > 0 and not final and (i + 1) % interval == 0) or (interval == -1 and final):
                want.append((i + 1, 1.5 * i, best, bx))
            if (iv2 > 0 and not final and (i + 1) % iv2 == 0) or (iv2 == -1 and final):
                reps += 1
            rec.same(x, Xs[-1], 'the inputs were modified')
        eng.close()
        files = sorted(os.listdir(d))
        det = dict(interval=interval, iterations=n, final=fin, order=order)
        if named:
            rec.check(files == (['l.csv', 'r.txt'] if reps else ['l.csv']), 'files', got=files, **det)
        else:
            rec.check([f.split('_')[:2] for f in files] == [['log', 'exp'], ['rep', 'exp']][:1 + (reps > 0)], 'names of the files', got=files, **det)
        lines = open(os.path.join(d, files[0])).read().split('\n')
        rec.check(lines[-1] == '', 'last line')
        lines = [l.split(',') for l in lines[:-1]]
        rec.check(lines[:1] == ([['iteration', 'time(sec)', 'objective', 'input[1]', 'input[2]']] if want else []), 'header of the log', got=lines[:1], **det)
        got = [[float(v) for v in l] for l in lines[1:]]
        rec.check(got == [[a, b, c, x[0], x[1]] for a, b, c, x in want], 'lines of the log', got=got, expected=want, **det)
        rec.check(len(bo.reports) == reps and all(os.path.dirname(r) == d for r in bo.reports), 'reports', got=bo.reports, expected=reps, **det)
        rec.state(det, named, iv2)
        rec.trans(n)
    rec.explore(body)
    for bad in ({'content': 'other'}, {'format': 'xml'}, {'interval': 0}, {'interval': -3}):
        d = os.path.join(tmp, 'bad')
        if not os.path.isdir(d):
            os.makedirs(d)
        try:
            OutputEng({'prjpath': d, 'experiment-name': 'e', 'output': {'l': dict({'type': 'logger', 'content': 'ybest', 'format': 'csv', 'filename': 'l', 'interval': 1}, **bad)}})
        except AssertionError:
            rec.trans()
        else:
            rec.fail('wrong output accepted: %r' % bad)


# ------------------------------------------------------------------ the program
PROGRAM = [
    {'space': [{'name': 'p', 'type': 'continuous', 'domain': '(-1,2)', 'dimensionality': '2'}, {'name': 'q', 'type': 'discrete', 'domain': '(0,5,7)'}], 'resources': {'maximum-iterations': 2}},
    {'space': [{'name': 'q', 'type': 'categorical', 'domain': '(0,1)'}, {'name': 'p', 'type': 'continuous', 'domain': '[3,9]', 'dimensionality': '1'}], 'resources': {'maximum-iterations': 'NA', 'max-run-time': 0.0001},
     'constraints': [{'name': 'c', 'constraint': 'x[:,1] - 8'}], 'acquisition': {'evaluator': {'type': 'random', 'batch_size': 2}}, 'initialization': {'num-eval': 3}},
]


def run_program(rec, tmp, i):
    conf = dict(PROGRAM[i], **{'language': 'PYTHON', 'main-file': 'target.py', 'experiment-name': 'trial'})
    write(tmp, 'config.json', conf)
    with open(os.path.join(tmp, 'target.py'), 'w') as f:
        f.write('''import numpy as np
def target(a, b):
    x = np.hstack([a, b])
    assert a.shape[0] == b.shape[0] == 1
    y = float((x ** 2).sum())
    open('calls.txt', 'a').write(repr((a.shape, b.shape, [y] + x[0].tolist())) + chr(10))
    return np.array([[y]])
''')
    env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND='Agg')
    other = os.path.join(tmp, 'elsewhere')
    os.makedirs(other)
    p = subprocess.run([sys.executable, os.path.join(core.REPO, 'gpyopt.py'), os.path.join('..', 'config.json')], cwd=other, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    rec.check(p.returncode == 0, 'the program failed', output=p.stdout.decode()[-400:])
    calls = [eval(l) for l in open(os.path.join(tmp, 'calls.txt'))]
    ref = R.RefDomain([dict(d, domain=eval(d['domain']), dimensionality=int(d.get('dimensionality', 1))) for d in conf['space']], conf.get('constraints'))
    shapes = [((1, 2), (1, 1)), ((1, 1), (1, 1))][i]
    for a, b, v in calls:
        rec.check((a, b) == shapes, 'one argument per variable', got=(a, b))
        rec.check(ref.valid(v[1:]), 'evaluated point', got=v[1:])
    rec.check(len(calls) == 7 if i == 0 else 5 <= len(calls) and len(calls) % 2 == 1, 'number of evaluations', got=len(calls))
    for k in ('evaluations', 'model'):
        rec.check(os.path.exists(os.path.join(tmp, 'trial_%s.txt' % k)), 'file of ' + k, got=os.listdir(tmp))
    lines = [l.split('\t') for l in open(os.path.join(tmp, 'trial_evaluations.txt')).read().split('\n') if l.strip()]
    got = np.array([[float(v) for v in l[1:]] for l in lines[1:]])
    rec.same(got, np.array([v for _, _, v in calls]), 'the file of evaluations is not what was evaluated')
    rec.execution()
    rec.trans(len(calls))
