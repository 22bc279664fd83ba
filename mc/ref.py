"""Reference model of a GPyOpt domain, written from the documentation only (no GPyOpt code)."""
import itertools
import numpy as np


class RefVar(object):
    def __init__(self, name, type, domain):
        self.name, self.type, self.domain = name, type, domain
        if type == 'bandit':
            self.arms = [tuple(float(v) for v in a) for a in domain]
            self.nobj = self.nmodel = len(self.arms[0])
        elif type == 'categorical':
            self.nobj, self.nmodel = 1, len(domain)
        else:
            self.nobj, self.nmodel = 1, 1

    def bounds(self):
        if self.type == 'bandit':
            return [(min(a[d] for a in self.arms), max(a[d] for a in self.arms)) for d in range(self.nobj)]
        if self.type == 'categorical':
            return [(0, 1)] * len(self.domain)
        return [(min(self.domain), max(self.domain))]

    def contains(self, v):
        v = [float(x) for x in v]
        if self.type == 'bandit':
            return tuple(v) in self.arms
        if self.type == 'continuous':
            return float(self.domain[0]) <= v[0] <= float(self.domain[1])
        return v[0] in [float(x) for x in self.domain]

    def lattice(self, n=3):
        """The values (tuples of objective coordinates) used as the alphabet of this variable."""
        if self.type == 'bandit':
            return list(self.arms)
        if self.type == 'continuous':
            lo, hi = float(self.domain[0]), float(self.domain[1])
            if n == 2:
                return [(lo,), (hi,)]
            return [(lo + (hi - lo) * k / float(n - 1),) for k in range(n)]
        return [(float(v),) for v in self.domain]

    def encode(self, v):
        if self.type == 'categorical':
            i = [float(x) for x in self.domain].index(float(v[0]))
            return [1. if k == i else 0. for k in range(len(self.domain))]
        return [float(x) for x in v]


class RefDomain(object):
    """domain: list of dictionaries as given by the user; constraints: list of dictionaries or None."""
    def __init__(self, domain, constraints=None):
        self.vars = []
        for i, d in enumerate(domain):
            name, type = d.get('name', 'var_%d' % i), d.get('type', 'continuous')
            n = d.get('dimensionality', 1)
            if type == 'bandit':
                self.vars.append(RefVar(name, type, d['domain']))
            elif n == 1:
                self.vars.append(RefVar(name, type, d['domain']))
            else:
                self.vars += [RefVar('%s_%d' % (name, k + 1), type, d['domain']) for k in range(n)]
        self.constraints = constraints
        self._c = [eval('lambda x: ' + c['constraint'], {'np': np}) for c in constraints or []]
        self.nobj = sum(v.nobj for v in self.vars)
        self.nmodel = sum(v.nmodel for v in self.vars)
        self.bandit = any(v.type == 'bandit' for v in self.vars)
        self.finite = all(v.type != 'continuous' for v in self.vars)
        self.names = [v.name for v in self.vars]

    def cols(self):
        """name -> (objective columns, model columns)"""
        out, o, m = {}, 0, 0
        for v in self.vars:
            out[v.name] = (list(range(o, o + v.nobj)), list(range(m, m + v.nmodel)))
            o += v.nobj
            m += v.nmodel
        return out

    def bounds(self):
        return [b for v in self.vars for b in v.bounds()]

    def in_domain(self, row):
        row = list(row)
        if len(row) != self.nobj:
            return False
        i = 0
        for v in self.vars:
            if not v.contains(row[i:i + v.nobj]):
                return False
            i += v.nobj
        return True

    def feasible(self, row):
        x = np.array([list(row)], float)
        return all(bool(np.all(c(x) <= 0)) for c in self._c)

    def valid(self, row):
        return self.in_domain(row) and self.feasible(row)

    def encode(self, row):
        row, out, i = list(row), [], 0
        for v in self.vars:
            out += v.encode(row[i:i + v.nobj])
            i += v.nobj
        return out

    def lattice(self, n=3, feasible=True, context=None):
        """All the points of the finite alphabet (objective coordinates), optionally with some variables fixed."""
        context = context or {}
        sets = [[(float(context[v.name]),)] if v.name in context else v.lattice(n) for v in self.vars]
        pts = [tuple(itertools.chain(*p)) for p in itertools.product(*sets)]
        return [p for p in pts if not feasible or self.feasible(p)]

    def volume(self, context=None):
        """Fraction of feasible points (interior of the continuous variables)."""
        context, sets = context or {}, []
        for v in self.vars:
            if v.name in context:
                sets.append([(float(context[v.name]),)])
            elif v.type == 'continuous':
                lo, hi = v.domain
                sets.append([(lo + (hi - lo) * t,) for t in (.05, .3, .5, .7, .95)])
            else:
                sets.append(v.lattice())
        pts = [tuple(itertools.chain(*p)) for p in itertools.product(*sets)]
        return sum(self.feasible(p) for p in pts) / float(len(pts))

    def nearest(self, model_row):
        """The set of objective rows that rounding a model vector may give (all the ties)."""
        row, i, sets = list(model_row), 0, []
        for v in self.vars:
            x = row[i:i + v.nmodel]
            i += v.nmodel
            if v.type == 'continuous':
                sets.append([(min(max(x[0], float(v.domain[0])), float(v.domain[1])),)])
            elif v.type == 'discrete':
                d = [abs(float(k) - x[0]) for k in v.domain]
                sets.append([(float(k),) for k, e in zip(v.domain, d) if e <= min(d) + 1e-12])
            elif v.type == 'categorical':
                sets.append([(float(k),) for k, e in zip(v.domain, x) if e >= max(x) - 1e-12])
            else:
                d = [np.sqrt(sum((a - b) ** 2 for a, b in zip(arm, x))) for arm in v.arms]
                sets.append([arm for arm, e in zip(v.arms, d) if e <= min(d) + 1e-12])
        return set(tuple(itertools.chain(*p)) for p in itertools.product(*sets))


def C(name, domain, n=None, type='continuous'):
    d = {'name': name, 'type': type, 'domain': domain}
    if n is not None:
        d['dimensionality'] = n
    return d


def con(*exprs):
    return [{'name': 'c%d' % i, 'constraint': e} for i, e in enumerate(exprs)]


# the domains of the exploration: every variable type, repeated variables, unordered and non-index values, orders
DOMAINS = {
    'c1': [C('a', (0., 1.))],
    'c2': [C('a', (-1., 2.), 2)],
    'cc': [C('a', (0., 1.)), C('b', (-3., -1.))],
    'd1': [C('a', (0, 1, 3), type='discrete')],
    'd2': [C('a', (-2., .5, 4.), 2, 'discrete')],
    'dd': [C('a', (4, -1, 2), type='discrete'), C('b', (0, 10), type='discrete')],
    'k1': [C('a', (0, 1, 2), type='categorical')],
    'k3': [C('a', (3, 7, -1), type='categorical')],
    'kk': [C('a', (0, 1), type='categorical'), C('b', (5, 2, 9), type='categorical')],
    'cdk': [C('a', (-1., 1.)), C('b', (1, 2, 5), type='discrete'), C('k', (0, 1, 2), type='categorical')],
    'kcd': [C('k', (0, 1, 2), type='categorical'), C('a', (-1., 1.)), C('b', (1, 2, 5), type='discrete')],
    'dkc': [C('b', (3, 1), type='discrete'), C('k', (4, 8), type='categorical'), C('a', (2., 4.))],
    'm2': [C('a', (0., 2.), 2), C('k', (0, 1), 2, 'categorical'), C('b', (1, 3), 2, 'discrete')],
    'b1': [{'name': 'a', 'type': 'bandit', 'domain': [(-1, 1), (1, 0), (0, 1)]}],
    'b2': [{'name': 'a', 'type': 'bandit', 'domain': [(-1, 1), (1, 0), (0, 1)]},
           {'name': 'b', 'type': 'bandit', 'domain': [(-1, 4, 2), (0, 0, 1)]}],
}

CONSTRAINTS = {
    'c1': [con('x[:,0] - 0.6')],
    'c2': [con('x[:,0] + x[:,1] - 1'), con('x[:,0]**2 + x[:,1]**2 - 2.5', '-x[:,0]')],
    'cc': [con('x[:,0] + x[:,1] + 2')],
    'd1': [con('x[:,0] - 1.5')],
    'd2': [con('x[:,0] - x[:,1]')],
    'dd': [con('x[:,0] + x[:,1] - 8'), con('x[:,1] - 5 - x[:,0]', 'x[:,0] - 3')],
    'k1': [con('x[:,0] - 1')],
    'k3': [con('x[:,0] - 5')],
    'kk': [con('x[:,0]*3 + x[:,1] - 8')],
    'cdk': [con('x[:,0] + x[:,1] - 2.5'), con('x[:,1] - 3', '1 - x[:,2] - x[:,0]')],
    'kcd': [con('x[:,0] + x[:,2] - 4')],
    'dkc': [con('x[:,2] - x[:,0]', 'x[:,1] - 6')],
    'm2': [con('x[:,0] + x[:,1] - 2', 'x[:,2] - x[:,3]', 'x[:,4] - x[:,5]')],
    'b1': [con('x[:,0] + x[:,1] - 0.5')],
    'b2': [con('x[:,0]*x[:,2] - 0.5')],
}


def spaces(constrained=True):
    """(name, domain, constraints) of every domain, without and with each of its constraint sets."""
    out = []
    for n in DOMAINS:
        out.append((n, DOMAINS[n], None))
        if constrained:
            for i, c in enumerate(CONSTRAINTS.get(n, [])):
                out.append(('%s+%d' % (n, i), DOMAINS[n], c))
    return out


def contexts(ref, n=3, max_fixed=None, values=None):
    """Every assignment of lattice values to every proper subset of the (non bandit) variables."""
    if ref.bandit:
        return [{}]
    out = []
    for r in range(0, len(ref.vars) if max_fixed is None else min(len(ref.vars), max_fixed + 1)):
        for sub in itertools.combinations(ref.vars, r):
            for vals in itertools.product(*[[p[0] for p in v.lattice(n)] for v in sub]):
                out.append({v.name: x for v, x in zip(sub, vals)})
    return out
