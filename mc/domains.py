"""All the domain descriptions built from a menu of variables (for the checks of the design space)."""
import itertools
from .ref import C


def U(domain, type='continuous', n=None):
    d = {'type': type, 'domain': domain}
    if n is not None:
        d['dimensionality'] = n
    return d


MENU = {
    'c': lambda nm: C(nm, (-1., 2.)),
    'C': lambda nm: C(nm, (0, 3), 2),
    'd': lambda nm: C(nm, (4, -1.5, 2), type='discrete'),
    'D': lambda nm: C(nm, (0, 5), 2, 'discrete'),
    'k': lambda nm: C(nm, (0, 1, 2), type='categorical'),
    'q': lambda nm: C(nm, (7, -2), type='categorical'),
    'K': lambda nm: C(nm, (1, 0), 2, 'categorical'),
    'u': lambda nm: U((-2., -1.)),
    'v': lambda nm: U((1., 9.), n=2),
    'x': lambda nm: {'domain': (3., 4.)},
    'w': lambda nm: U((5, 6, 8), 'categorical'),
    't': lambda nm: U((2, 1), 'discrete', 2),
    'n': lambda nm: C(nm, (10., 20.), 3),
    's': lambda nm: C(nm, (3,), type='discrete'),
    'o': lambda nm: C(nm, (4,), type='categorical'),
    'l': lambda nm: C(nm, [0, 1, 5], type='discrete', n=1),
}
BANDITS = {
    'b': lambda nm: {'name': nm, 'type': 'bandit', 'domain': [(-1, 1), (1, 0), (0, 1)]},
    'B': lambda nm: {'name': nm, 'type': 'bandit', 'domain': [(-1, 4, 2), (0, 0, 1)]},
    'g': lambda nm: {'type': 'bandit', 'domain': [(2.5,), (1.,), (7.,)]},
    'a': lambda nm: {'name': nm, 'type': 'bandit', 'domain': [(3, 3), (3, 3.5)]},
}
NAMES = ['one', 'two', 'three', 'four']


def domains(depth, menu=None):
    menu = MENU if menu is None else menu
    for n in range(1, depth + 1):
        for w in itertools.product(sorted(menu), repeat=n):
            yield ''.join(w), [menu[k](NAMES[i]) for i, k in enumerate(w)]


def bandits(depth=2):
    return domains(depth, BANDITS)
