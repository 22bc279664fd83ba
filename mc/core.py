"""Bounded exhaustive exploration of the real code: cases, choice points, counting, reporting.

A check is a module with
    PROPERTY   id of the property
    BOUNDS     dict tier -> text of the bounds
    cases(tier) -> list of (name, params): the enumerated top level of the space
    run(params, rec): explores everything below one case on the real code; uses rec to count and to report
Every case of the list is run (sharded over worker processes); nothing is sampled.
"""
import collections, hashlib, json, mmap, os, pickle, signal, sys, time, traceback, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('MC_REPO', '/repo'))


class Violation(Exception):
    """The property is broken. key identifies the kind of failure (compared with the known findings)."""
    def __init__(self, msg, key=None):
        super(Violation, self).__init__(msg)
        self.key = key


class Horizon(BaseException):
    """The execution did not end within its horizon (BaseException: the code under test must not swallow it)."""


class ReplayDivergence(Exception):
    pass


def canon(o):
    """Canonical text of an observed state."""
    import numpy as np
    if isinstance(o, np.ndarray):
        return 'A%s[%s]' % (o.shape, ','.join(canon(x) for x in o.ravel().tolist()))
    if isinstance(o, (float, np.floating)):
        return '%.9g' % o if o == o else 'nan'
    if isinstance(o, (bool, np.bool_)):
        return str(bool(o))
    if isinstance(o, (int, np.integer)):
        return '%.9g' % float(o)
    if isinstance(o, dict):
        return '{' + ','.join(sorted(canon(k) + ':' + canon(v) for k, v in o.items())) + '}'
    if isinstance(o, (set, frozenset)):
        return 'S{' + ','.join(sorted(canon(x) for x in o)) + '}'
    if isinstance(o, (list, tuple)):
        return '(' + ','.join(canon(x) for x in o) + ')'
    return repr(o)


class Chooser(object):
    """One execution: replays a prefix of choices, then takes the default (0) at every later point."""
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []      # (number of alternatives, taken, label)

    def choose(self, n, label=''):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise ReplayDivergence('choice %d of %d at point %d (%s)' % (c, n, i, label))
        self.points.append((n, c, label))
        return c

    def pick(self, options, label=''):
        options = list(options)
        return options[self.choose(len(options), label)]


class Recorder(object):
    def __init__(self, prop, tier, known):
        self.prop, self.tier, self.known = prop, tier, known
        self.states, self.outcomes = set(), collections.Counter()
        self.transitions = self.executions = self.comparisons = 0
        self.violations, self.known_hits, self.samples = [], {}, []
        self.capped = []
        self.case = None
        self.trace = None
        self.max_violations = 3
        self.seed = int(os.environ.get('VERIF_SEED', '1'))

    # ---- counting
    def state(self, *o):
        self.states.add(hashlib.blake2b(canon(o).encode(), digest_size=8).digest())

    def trans(self, n=1):
        self.transitions += n

    def execution(self, sample=None):
        self.executions += 1
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample if isinstance(sample, (dict, list, str, int, float)) else canon(sample))

    def outcome(self, o):
        self.outcomes[str(o)[:80]] += 1

    # ---- judging
    def check(self, cond, msg, key=None, **detail):
        """One comparison with the oracle."""
        self.comparisons += 1
        if not cond:
            if detail:
                msg += ' | ' + ', '.join('%s=%s' % (k, short(v)) for k, v in detail.items())
            self.fail(msg, key)

    def fail(self, msg, key=None):
        if key is not None and (self.prop, key) in self.known:
            self.known_hits.setdefault(key, msg)
            return
        raise Violation(msg, key)

    def close(self, a, b, msg, tol=1e-8, key=None, rtol=None, **detail):
        import numpy as np
        a, b = np.asarray(a, float), np.asarray(b, float)
        ok = a.shape == b.shape and np.allclose(a, b, rtol=tol if rtol is None else rtol, atol=tol, equal_nan=True)
        self.check(ok, msg, key, got=a, expected=b, **detail)

    def same(self, a, b, msg, key=None, **detail):
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
        self.check(ok, msg, key, got=a, expected=b, **detail)

    def report(self, msg, trace=None, key=None):
        self.violations.append(dict(case=self.case, trace=trace if trace is not None else self.trace, msg=msg, key=key))

    # ---- choice-tree exploration
    def explore(self, body, deviations=None, max_depth=None, budget=None, prefix=(), vary=False):
        """Runs body(chooser) for every sequence of choices with at most `deviations` non-default choices (None: all),
        branching only at the first `max_depth` points (None: all). vary: the random stream differs
        between executions (only where the choice points do not depend on it). Violations are recorded with their choices."""
        import numpy as np
        stack = [list(prefix)]
        n = 0
        while stack:
            if len(self.violations) >= self.max_violations or (FOUND[0] and not os.environ.get('MC_ALL')):
                return n
            if budget is not None and n >= budget:
                self.capped.append('%s: stopped after %d executions' % (self.case, n))
                return n
            pre = stack.pop()
            ch = Chooser(pre)
            self.trace = pre
            np.random.seed(zlib.crc32(canon((self.seed, self.case, pre if vary else 0)).encode()))
            n += 1
            self.executions += 1
            try:
                body(ch)
            except Violation as e:
                self.report(str(e), [c for _, c, _ in ch.points], e.key)
            except ReplayDivergence as e:
                self.report('the same choices do not reproduce the same execution: %s' % e, pre)
            except Exception as e:
                self.report(describe(e), [c for _, c, _ in ch.points])
            if self.violations:
                FOUND[0] = 1
            self.trans(len(ch.points) - len(pre) + (1 if pre else 0))
            cost = sum(1 for _, c, _ in ch.points[:len(pre)] if c)
            if deviations is not None and cost >= deviations:
                continue
            new = []
            end = len(ch.points) if max_depth is None else min(len(ch.points), max_depth)
            for i in range(len(pre), end):
                for alt in range(1, ch.points[i][0]):
                    new.append([c for _, c, _ in ch.points[:i]] + [alt])
            stack.extend(reversed(new))
        return n


# shared by the workers: one of them has found a violation, hence the verdict is settled
FOUND = mmap.mmap(-1, 1)


def short(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        v = np.array2string(v, precision=10, threshold=30, separator=',').replace('\n', '')
    return str(v)[:400]


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ['%s:%d(%s)' % (f.filename.replace(REPO + '/', ''), f.lineno, f.name) for f in tb]
    inrepo = [w for w, f in zip(where, tb) if os.path.realpath(f.filename).startswith(REPO)]
    return 'unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:300], ' < '.join(reversed((inrepo or where)[-4:])))


def load_known():
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if len(w) > 2 and w[0] == 'known:' and w[1].startswith('property=') and w[2].startswith('key='):
                known[(w[1][9:], w[2][4:])] = ' '.join(w[3:])
    return known


class Progress(object):
    """Decides when a case does not end: nothing was explored or compared for a whole horizon, although the process was running
    (on a loaded machine it may wait for the processor; a process that waits for something else gets three horizons)."""
    def __init__(self, rec, horizon, cap):
        self.rec, self.horizon, self.cap, self.start = rec, horizon, cap, time.time()
        self.mark(None)

    def mark(self, seen):
        self.seen, self.t, self.cpu = seen, time.time(), time.process_time()

    def alarm(self, signum, frame):
        seen = (self.rec.executions, self.rec.comparisons, self.rec.transitions, len(self.rec.states))
        if time.time() - self.start < self.cap:
            if seen != self.seen:
                self.mark(seen)
                return
            waited = time.time() - self.t
            if waited < self.horizon or (time.process_time() - self.cpu < .4 * self.horizon and waited < 3 * self.horizon):
                return
        raise Horizon()


def run_case(mod, name, params, rec):
    rec.case = name
    rec.trace = None
    horizon = float(getattr(mod, 'HORIZON', 150))
    signal.signal(signal.SIGALRM, Progress(rec, horizon, 700. if rec.tier == 'quick' else 3000.).alarm)
    signal.setitimer(signal.ITIMER_REAL, 5.0, 5.0)
    try:
        mod.run(params, rec)
    except Violation as e:
        rec.report(str(e), key=e.key)
    except Horizon:
        rec.report('no end within the horizon of %d s' % getattr(mod, 'HORIZON', 150))
    except Exception as e:
        rec.report(describe(e))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(mod, cases, rec, rfd, path, seed, deadline):
    import numpy as np
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('MC_DEBUG'):
        os.dup2(devnull, 2)
    while True:
        b = os.read(rfd, 4)
        if len(b) < 4:
            break
        i = int.from_bytes(b, 'little')
        if len(rec.violations) >= rec.max_violations or (FOUND[0] and not os.environ.get('MC_ALL')):
            continue                              # some worker has found a violation: the verdict is settled
        if time.time() > deadline:
            rec.capped.append('case %s not run: time' % cases[i][0])
            continue
        with open(path + '.cur', 'w') as f:
            f.write(str(i))
        np.random.seed((seed * 1000003 + i) % (2 ** 32))
        t = time.time()
        run_case(mod, cases[i][0], cases[i][1], rec)
        if rec.violations:
            FOUND[0] = 1
        if os.environ.get('MC_TIMES'):
            with open(os.environ['MC_TIMES'], 'a') as f:
                f.write('%7.1f %s\n' % (time.time() - t, cases[i][0]))
    with open(path, 'wb') as f:
        pickle.dump(rec, f)
    os._exit(0)


def main(mod, tier, seed, replay=None):
    t0 = time.time()
    import random
    random.seed(seed)
    prop = mod.PROPERTY
    known = load_known()
    cases = mod.cases(tier)
    names = [n for n, _ in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    scratch = os.environ.get('MC_SCRATCH') or '/tmp'
    if replay:
        r = json.load(open(replay))
        if r['case'] not in names:
            cases = mod.cases('thorough')
        d = dict(cases)
        import numpy as np
        i = [n for n, _ in cases].index(r['case'])
        np.random.seed((r.get('seed', seed) * 1000003 + i) % (2 ** 32))
        rec = Recorder(prop, tier, known)
        run_case(mod, r['case'], d[r['case']], rec)
        for v in rec.violations:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            print('  case %s choices %s\n  %s' % (v['case'], v['trace'], v['msg']))
        return 1 if rec.violations else 0

    if os.environ.get('MC_ONLY'):      # for development: some of the cases
        cases = [c for c in cases if os.environ['MC_ONLY'] in c[0]]
    nw = min(int(os.environ.get('MC_WORKERS', '8')), max(1, len(cases)))
    limit = float(os.environ.get('MC_LIMIT', '780' if tier == 'quick' else '3000'))
    # cases are handed out in order, 4 bytes each, to whoever is free
    order = list(range(len(cases)))
    weight = getattr(mod, 'weight', None)
    if weight:
        order.sort(key=lambda i: -weight(cases[i][1]))
    rfd, wfd = os.pipe()
    FOUND[0] = 0
    pids = []
    sys.stdout.flush()
    for w in range(nw):
        path = os.path.join(scratch, 'w%d' % w)
        pid = os.fork()
        if pid == 0:
            os.close(wfd)
            try:
                worker(mod, cases, Recorder(prop, tier, known), rfd, path, seed, t0 + limit)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        pids.append((pid, path))
    os.close(rfd)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    try:
        for i in order:
            os.write(wfd, i.to_bytes(4, 'little'))
    except OSError:
        pass
    os.close(wfd)
    tot = Recorder(prop, tier, known)
    errors = []
    for pid, path in pids:
        _, st = os.waitpid(pid, 0)
        if os.path.exists(path):
            r = pickle.load(open(path, 'rb'))
            tot.states |= r.states
            tot.outcomes.update(r.outcomes)
            tot.transitions += r.transitions
            tot.executions += r.executions
            tot.comparisons += r.comparisons
            tot.violations += r.violations
            for k, v in r.known_hits.items():
                tot.known_hits.setdefault(k, v)
            tot.samples += r.samples
            tot.capped += r.capped
        else:
            cur = open(path + '.cur').read() if os.path.exists(path + '.cur') else '?'
            name = names[int(cur)] if cur.isdigit() else '?'
            tot.violations.append(dict(case=name, trace=None, msg='the process died (status %s) while running this case' % st, key=None))
    wall = time.time() - t0
    viol = sorted(tot.violations, key=lambda v: (names.index(v['case']) if v['case'] in names else -1, len(v['trace'] or [])))
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for k, v in sorted(tot.known_hits.items()):
        print('KNOWN-FINDING: property=%s key=%s %s [%s]' % (prop, k, known[(prop, k)], v[:200]))
    seen = set()
    for n, v in enumerate(viol[:10]):
        path = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, n))
        json.dump(dict(property=prop, check=mod.__name__, tier=tier, seed=seed, **v), open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  case %s choices %s' % (v['case'], v['trace']))
        print('  %s' % v['msg'])
    samples = tot.samples[:6] or [names[0]]
    for n in (names[0], names[len(names) // 2], names[-1]):
        samples.append('case ' + n)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(viol),
              coverage=dict(states=len(tot.states), transitions=tot.transitions,
                            traces_validated_against_impl=tot.executions, samples=samples, cases=len(cases),
                            comparisons_with_oracle=tot.comparisons,
                            distinct_outcomes=dict(tot.outcomes.most_common(25)),
                            bounds=mod.BOUNDS.get(tier, mod.BOUNDS['quick']),
                            exhaustive=not tot.capped and not viol, capped=tot.capped[:20]),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d executions, %d states, %d transitions, %d comparisons, %d violations, %.1f s%s' % (
        prop, tier, len(cases), tot.executions, len(tot.states), tot.transitions, tot.comparisons, len(viol), wall,
        '' if not tot.capped else ' CAPPED ' + tot.capped[0]))
    return 1 if viol else 0
