"""C07: encoding for the surrogate and decoding are inverse, and all the descriptions of the layout of a domain agree.

Real code: Design_space. Explored: every domain of up to 3 variables of a menu of 16 (types, repeated, unnamed, singletons, unordered
values), every bandit domain of up to 2, every point of the lattice, blocks of rows; oracle: ref.RefDomain."""
import itertools
import numpy as np
import GPyOpt
from .. import ref as R
from ..domains import domains, bandits

PROPERTY = 'C07'
BOUNDS = {
    'quick': 'all domains of 1-3 variables out of 16 kinds (4368) and of 1-2 bandit variables out of 4 kinds; all lattice points (at most 27 per domain, evenly spread, in domains of 3 variables), one by one, all together, reversed and repeated',
    'thorough': 'all domains of 1-4 variables; all lattice points',
}


def cases(tier):
    depth = 4 if tier == 'thorough' else 3
    out = {}
    for n, d in domains(depth):
        out.setdefault(n[:2], []).append((n, d))
    out['bandits'] = list(bandits(3 if tier == 'thorough' else 2))
    return [(k, (v, tier)) for k, v in sorted(out.items())]


def run(params, rec):
    for name, dom in params[0]:
        rec.trace = name
        one(rec, name, dom, params[1])


def one(rec, name, dom, tier):
    ref = R.RefDomain(dom)
    sp = GPyOpt.Design_space(dom)
    rec.check(sp.objective_dimensionality == len(ref.vars), 'number of variables', got=sp.objective_dimensionality, domain=name)
    rec.check(sp.model_dimensionality == ref.nmodel, 'number of inputs of the surrogate', got=sp.model_dimensionality, domain=name)
    b = [(float(l), float(h)) for l, h in sp.get_bounds()]
    rec.check(b == [(float(l), float(h)) for l, h in ref.bounds()], 'bounds of the inputs of the surrogate', got=b, expected=ref.bounds(), domain=name)
    rec.check(len(b) == sp.model_dimensionality, 'one bound per input of the surrogate', domain=name)
    rec.check(bool(sp.has_continuous()) == any(v.type == 'continuous' for v in ref.vars), 'has_continuous', domain=name)
    rec.check(not sp.has_constraints(), 'has_constraints of a domain without constraints', domain=name)
    cols = ref.cols()
    if not ref.bandit:
        cd = [cols_of(ref, i)[0][0] for i, v in enumerate(ref.vars) if v.type == 'continuous']
        dd = [cols_of(ref, i)[0][0] for i, v in enumerate(ref.vars) if v.type == 'discrete']
        rec.check(list(sp.get_continuous_dims()) == cd, 'positions of the continuous variables', got=sp.get_continuous_dims(), expected=cd, domain=name)
        rec.check(list(sp.get_discrete_dims()) == dd, 'positions of the discrete variables', got=sp.get_discrete_dims(), expected=dd, domain=name)
        rec.check([tuple(map(float, x)) for x in sp.get_continuous_bounds()] == [tuple(map(float, v.domain)) for v in ref.vars if v.type == 'continuous'],
                  'bounds of the continuous variables', domain=name)
        disc = [v.domain for v in ref.vars if v.type == 'discrete']
        grid = sorted(tuple(map(float, g)) for g in np.asarray(sp.get_discrete_grid()).tolist())
        rec.check(grid == sorted(tuple(map(float, g)) for g in itertools.product(*disc)), 'grid of the discrete variables', got=grid, domain=name)
        names = set()
        for i, v in enumerate(ref.vars):
            o, m = cols_of(ref, i)
            if ref.names.count(v.name) > 1:
                continue
            var = sp.find_variable(v.name)
            rec.check(list(var.index_in_objective) == o and list(var.index_in_model) == m, 'positions of variable %s' % v.name,
                      objective=var.index_in_objective, model=var.index_in_model, expected=(o, m), domain=name)
            rec.check(var.type == v.type, 'type of variable %s' % v.name, domain=name)
            sub = sp.get_subspace([m[0]])
            rec.check([s.name for s in sub] == [v.name], 'subspace of a variable', got=[s.name for s in sub], expected=v.name, domain=name)
            names.add(v.name)
        try:
            sp.find_variable('no such name')
            rec.fail('a name that is not in the domain is found')
        except Exception as e:
            rec.check(type(e).__name__ == 'InvalidVariableNameError', 'error for an unknown name', got=type(e).__name__)
    else:
        arms = [tuple(float(x) for x in a) for v in ref.vars for a in v.arms]
        if len(set(len(a) for a in arms)) == 1:
            rec.check([tuple(map(float, a)) for a in np.asarray(sp.get_bandit()).tolist()] == arms, 'arms', got=sp.get_bandit(), domain=name)
    pts = ref.lattice(3)
    if tier != 'thorough' and len(pts) > 27:
        pts = pts[::-(-len(pts) // 27)]
    blocks = [[p] for p in pts] + [pts, pts[::-1], [pts[0], pts[-1], pts[0]]]
    for blk in blocks:
        X = np.array(blk, float)
        keep = X.copy()
        Z = np.asarray(sp.unzip_inputs(X))
        want = np.array([ref.encode(p) for p in blk])
        rec.check(Z.shape == want.shape and np.array_equal(Z.astype(float), want), 'encoding', got=Z, expected=want, domain=name, points=blk[:4])
        Z = Z.astype(float)
        B = np.asarray(sp.zip_inputs(Z.copy()))
        rec.check(B.shape == X.shape and np.array_equal(B.astype(float), keep), 'decoding an encoded point', got=B, expected=keep, domain=name)
        rec.check(np.array_equal(X, keep), 'the points are modified by encoding', domain=name)
        for z in Z:
            rec.check(all(l <= a <= h for a, (l, h) in zip(z, b)), 'encoded point outside of the bounds', point=z, domain=name)
        rec.trans(2)
    for p in pts:
        rec.state(name, p)
    rec.execution()
    rec.outcome((len(ref.vars), ref.nmodel))


def cols_of(ref, i):
    o = sum(v.nobj for v in ref.vars[:i])
    m = sum(v.nmodel for v in ref.vars[:i])
    v = ref.vars[i]
    return list(range(o, o + v.nobj)), list(range(m, m + v.nmodel))
