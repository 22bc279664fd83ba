"""C08: rounding maps every surrogate input to the nearest member of the domain, leaves members alone and is idempotent.

Real code: Design_space.round_optimum. Explored: every domain of up to 3 variables of the menu, every combination of per-coordinate
values (members, just beside the midpoints between members, outside of the range, ties)."""
import itertools
import numpy as np
import GPyOpt
from .. import ref as R
from ..domains import domains, bandits

PROPERTY = 'C08'
BOUNDS = {
    'quick': 'all domains of 1-2 variables out of 16 kinds with all combinations of values per variable; all domains of 3 variables with at most 2 of the variables away from their first value (a third of the values); bandits of 1-2 variables, 7^k grid and perturbed arms; both vector shapes',
    'thorough': 'all domains of 1-3 variables with all the values',
}


def cases(tier):
    out = {}
    for n, d in domains(3):
        out.setdefault(n[:2], []).append((n, d))
    for n, d in bandits(2):
        out.setdefault('bandit ' + n[:1], []).append((n, d))
    return [(k, (v, tier)) for k, v in sorted(out.items())]


def var_values(v):
    """model coordinates tried for one variable"""
    if v.type == 'continuous':
        lo, hi = map(float, v.domain)
        return [(lo,), (hi,), ((lo + hi) / 2,), (lo - 1e-9,), (hi + 1e-9,), (lo - 7.,), (hi + 1e6,), (lo + .123 * (hi - lo),),
                (lo + 1e-9 * (hi - lo),), (hi - 1e-9 * (hi - lo),)]
    if v.type == 'discrete':
        s = sorted(float(x) for x in v.domain)
        mids = [(a + b) / 2 for a, b in zip(s, s[1:])]
        return [(x,) for x in s + [m - 1e-6 for m in mids] + [m + 1e-6 for m in mids] + mids + [s[0] - 5, s[-1] + 5, s[0] + .2]]
    if v.type == 'categorical':
        n = len(v.domain)
        out = [tuple(float(i == j) for j in range(n)) for i in range(n)]
        out += [tuple(.6 if i == j else .4 for j in range(n)) for i in range(n)]
        out += [tuple(.5 for _ in range(n)), tuple(0. for _ in range(n))]
        if n > 1:
            out += [tuple(.1 * ((j + k) % n) for j in range(n)) for k in range(n)]
            out += [tuple(-.3 if i == j else -.7 for j in range(n)) for i in range(n)]
        return out
    out = []
    for a in v.arms:
        for d in itertools.product((-.2, 0., .2), repeat=v.nobj):
            out.append(tuple(x + e for x, e in zip(a, d)))
    g = [np.linspace(l - 1, h + 1, 5) for l, h in v.bounds()]
    out += [tuple(float(x) for x in p) for p in itertools.product(*g)]
    return out


def run(params, rec):
    for name, dom in params[0]:
        rec.trace = name
        ref = R.RefDomain(dom)
        sp = GPyOpt.Design_space(dom)
        menus = [var_values(v) for v in ref.vars]
        if ref.bandit and len(menus) > 1 and params[1] != 'thorough':
            menus = [m[::4] for m in menus]
        if len(menus) <= 2 or params[1] == 'thorough':
            combos = itertools.product(*menus)
        else:
            small = [m[::3] for m in menus]
            combos = set()
            for i, j in itertools.combinations(range(len(menus)), 2):
                for a, b in itertools.product(small[i], small[j]):
                    c = [m[0] for m in menus]
                    c[i], c[j] = a, b
                    combos.add(tuple(c))
            combos = sorted(combos)
        for n, c in enumerate(combos):
            x = np.array(list(itertools.chain(*c)), float)
            judge(rec, sp, ref, x[None, :] if n % 2 else x, name)
        rec.execution()
        rec.outcome(ref.nmodel)
        for bad in (np.zeros((2, ref.nmodel)), np.zeros((1, 1, ref.nmodel))):
            try:
                sp.round_optimum(bad)
                rec.fail('rounding accepts an input of shape %s' % (bad.shape,))
            except ValueError:
                rec.comparisons += 1


def judge(rec, sp, ref, x, name):
    keep = x.copy()
    r = np.asarray(sp.round_optimum(x))
    rec.check(np.array_equal(x, keep), 'rounding modifies its input', domain=name)
    rec.check(r.shape == (1, ref.nmodel), 'shape of the rounded point', shape=r.shape, domain=name)
    obj = tuple(np.asarray(sp.zip_inputs(r.astype(float)), float)[0].tolist())
    want = ref.nearest(keep.ravel().tolist())
    rec.check(obj in want, 'the rounded point is not the nearest member of the domain', input=keep, got=obj, expected=sorted(want), domain=name)
    rec.check(ref.encode(obj) == r[0].astype(float).tolist(), 'the rounded point is not the encoding of a member', rounded=r, domain=name)
    r2 = np.asarray(sp.round_optimum(r.astype(float)))
    rec.check(np.array_equal(r2, r), 'rounding is not idempotent', once=r, twice=r2, domain=name)
    rec.trans()
    rec.state(name, obj)
