"""Machines for the soundness checks of the deciders: most of them halt, some
late, many of them nearly meet a decider's criterion."""
from bounded.lib import *
LATE = ["1RB1LB_1LA1RZ", "1RB1RZ_1LB0RC_1LC1LA", "1RB1RZ_0RC1RB_1LC1LA", "1RB1LB_1LA0LC_1RZ1LD_1RD0RA", "1RB2LB1RZ_2LA2RB1LB", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA", "1RB2LA1RA1RA_1LB1LA3RB1RZ", "1RB---_1LB1RZ", "1RZ1RB_1RB1RB", "1RB0LC_1LA1RC_1LA1RZ", "1RB0LB_1LA1RZ", "1RB2LA1LA_2LA2RB1RZ", "1RB0RB1LA_2LA2RB1RZ", "1RB1RZ2LB_1LA2RB1LB"]
def weird(rng):
    """few transitions into the halting state / writing the halting symbol, mostly in one direction"""
    n, k = rng.choice([(1, 2), (2, 2), (2, 2), (2, 3), (3, 2), (3, 2), (3, 3), (4, 2), (2, 4), (5, 2)]); tab = [[None] * k for _ in range(n)]
    hq, hs = rng.randrange(n), rng.randrange(k); d = rng.choice([1, -1])
    for q in range(n):
        for s in range(k):
            w = rng.randrange(k); nx = rng.randrange(n); dd = rng.choice([1, -1])
            if rng.random() < .8 and (w == hs or nx == hq): dd = d
            if rng.random() < .3 and nx == hq: nx = rng.randrange(n)
            if rng.random() < .3 and w == hs: w = rng.randrange(k)
            tab[q][s] = (w, dd, nx)
    tab[hq][hs] = None if rng.random() < .5 else (rng.randrange(k), rng.choice([1, -1]), -1)
    if rng.random() < .15: tab[rng.randrange(n)][rng.randrange(k)] = None
    return tab
def tweak(rng, tab):
    t = [list(r) for r in tab]
    for _ in range(rng.choice([1, 1, 2])):
        i, j = rng.randrange(len(t)), rng.randrange(len(t[0])); c = t[i][j] or (1, 1, -1)
        t[i][j] = rng.choice([(rng.randrange(len(t[0])), c[1], c[2]), (c[0], -c[1], c[2]), (c[0], c[1], rng.randrange(len(t))), (c[0], c[1], -1)])
    return t
def machine(rng):
    x = rng.random()
    if x < .55: return weird(rng)
    if x < .75: return live_table(rng)
    if x < .85: return random_table(rng)
    return tweak(rng, parse(rng.choice(LATE + CHAMPIONS)))
def halts_within(tab, n):
    r = Ref(tab).run(n); return r if r.halted else None
def all_small(n=2, k=2):
    """every machine of one shape"""
    import itertools
    opts = [None] + [(w, d, q) for w in range(k) for d in (1, -1) for q in range(-1, n)]
    for c in itertools.product(opts, repeat=n * k): yield [list(c[i * k:(i + 1) * k]) for i in range(n)]
