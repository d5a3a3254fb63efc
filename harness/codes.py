"""Random convolutional codes: a declaration (what the specification reads) and the library object."""
import numpy as np


def rev(p, w):
    return int(format(p, '0%db' % w)[::-1], 2)


def decl(mem, g, fb=(), fmt='MSB', legacy=0, rsc=0):
    return dict(k=len(g), n=len(g[0]), mem=list(mem), g=[list(r) for r in g], fb=[list(r) for r in fb], fmt=fmt,
                legacy=legacy, rsc=rsc)


def args(d):
    """Arguments of the Trellis constructor."""
    a = (np.array(d['mem']), np.array(d['g']))
    kw = {}
    if d['legacy']:
        kw['feedback'] = int(d['fb'][0][0])
    elif d['fb']:
        kw['feedback'] = np.array(d['fb'])
    if d['rsc']:
        kw['code_type'] = 'rsc'
    if not d['legacy'] and (d['fmt'] != 'MSB' or len(d['mem']) % 2):
        kw['polynomial_format'] = d['fmt']
    return a, kw


def build(d):
    from commpy.channelcoding.convcode import Trellis
    a, kw = args(d)
    return Trellis(*a, **kw)


def to_fmt(d, fmt):
    """The same code declared in another polynomial format (d is in MSB format)."""
    w = max(d['mem']) + 1
    r = dict(d, fmt=fmt)
    if fmt != 'MSB':
        r['g'] = [[rev(p, w) for p in row] for row in d['g']]
        r['fb'] = [[rev(p, w) for p in row] for row in d['fb']]
    return r


def rand_ff(rng, k=None, nmax=4, tm=5, fmt=None):
    """Feedforward code (MSB polynomials fit the memory of their chain)."""
    k = k or rng.choice([1, 1, 1, 2, 2, 3])
    while True:
        mem = [rng.randint(0 if k > 1 else 1, tm) for _ in range(k)]
        if 1 <= sum(mem) <= tm:
            break
    n = rng.randint(max(2, k), max(nmax, k + 1))
    g = [[rng.randrange(2 ** (mem[c] + 1)) for _ in range(n)] for c in range(k)]
    return to_fmt(decl(mem, g), fmt or rng.choice(['MSB', 'LSB', 'Matlab']))


def rand_fb(rng, k=None, nmax=4, tm=5, fmt=None, controllable=True, rsc=1):
    """Feedback matrix; controllable: the D^0 part is unit triangular, so that every state can be cleared."""
    d = rand_ff(rng, k, nmax, tm, 'MSB')
    k = d['k']
    fb = [[rng.randrange(2 ** (d['mem'][c] + 1)) for c in range(k)] for _ in range(k)]
    if controllable:
        for t in range(k):
            for c in range(k):
                fb[t][c] = fb[t][c] & ~1 | (1 if t == c else 0 if c > t else fb[t][c] & 1)
    d = dict(d, fb=fb, rsc=rsc)
    return to_fmt(d, fmt or rng.choice(['MSB', 'LSB', 'Matlab']))


def rand_sys_rsc(rng, k=1, tm=4):
    """Systematic recursive code: identity part written with the feedback polynomial (D^0 of the chain)."""
    m = rng.randint(1, tm)
    f = rng.randrange(2 ** m) * 2 + 1
    n = rng.choice([2, 2, 3])
    g = [[1] + [rng.randrange(1, 2 ** (m + 1)) for _ in range(n - 1)]]
    return decl([m], g, [[f]], 'MSB', 0, 1)


def rand_legacy(rng, tm=5, rsc=1, nmax=3, n=None):
    m = rng.randint(1, tm)
    n = n or rng.randint(2, nmax)
    fb = 2 ** m + rng.randrange(2 ** m)
    g = [[1 if j == 0 else rng.randrange(1, 2 ** (m + 1)) for j in range(n)]]
    if not rsc:
        g[0][0] = rng.randrange(1, 2 ** (m + 1))
    return decl([m], g, [[fb]], 'MSB', 1, rsc)


STANDARD = [
    decl([2], [[5, 7]]), decl([3], [[0o15, 0o17]]), decl([4], [[0o23, 0o35]]), decl([6], [[0o133, 0o171]], (), 'Matlab'),
    decl([2], [[7, 5]], [[7]], 'MSB', 1, 1), decl([2, 1], [[2, 0, 3], [1, 2, 3]]), decl([1, 1], [[1, 0, 3], [0, 1, 2]]),
    decl([3, 3], [[0o11, 0o2, 0o15], [0o3, 0o17, 0o1]]), decl([2, 0, 1], [[1, 2, 0, 7], [1, 0, 1, 1], [3, 2, 1, 0]]),
    decl([6], [[0o133, 0o171]]), decl([4], [[0o37, 0o21]], [[0o37]], 'MSB', 1, 1), decl([3], [[1, 0o15, 0o17]], [[0o13]], 'MSB', 1, 1),
    decl([1], [[1, 2]]), decl([1], [[1, 3]], [[3]], 'MSB', 1, 1),
    decl([2], [[1, 5]], [[7]], 'MSB', 0, 1), decl([1, 2], [[1, 0, 2], [0, 1, 6]], [[1, 2], [2, 7]], 'MSB', 0, 1),
]
# rates whose quotient is not exact in floating point
WIDE = [decl([1, 0, 1], [[1, 0, 2, 3, 1, 0, 0, 2, 3, 1, 0], [0, 1, 0, 1, 1, 1, 0, 0, 1, 0, 1], [0, 0, 1, 2, 3, 3, 1, 1, 0, 0, 2]]),
        decl([0, 1, 1], [[(3 * i * (c + 2) + i // 3 + c) % (2 if c == 0 else 4) for i in range(17)] for c in range(3)])]


# ---- an independent small implementation, only used to choose interesting inputs (the specification re-checks) ----
def tables(d):
    k, n, mem = d['k'], d['n'], d['mem']
    w = max(mem) + 1

    def coef(p, i):
        return p >> i & 1 if d['fmt'] == 'MSB' else p >> (w - 1 - i) & 1

    def step(s, u):
        bits = [s >> (sum(mem) - 1 - i) & 1 for i in range(sum(mem))]
        ub = [u >> (k - 1 - i) & 1 for i in range(k)]
        regs, i = [], 0
        for c in range(k):
            regs.append([ub[c]] + bits[i:i + mem[c]])
            i += mem[c]
        if d['legacy']:
            m = mem[0]
            f = [d['fb'][0][0] >> (m - i) & 1 for i in range(m + 1)]
            a = (regs[0][0] + sum(f[i] * regs[0][i] for i in range(1, m + 1))) % 2
            t = [a] + regs[0][1:]
            out = 0
            for j in range(n):
                g = d['fb'][0][0] if d['rsc'] and j == 0 else d['g'][0][j]
                out = 2 * out + sum((g >> (m - i) & 1) * t[i] for i in range(m + 1)) % 2
            new = [t[:m]]
        else:
            out = 0
            for j in range(n):
                out = 2 * out + sum(coef(d['g'][c][j], i) * regs[c][i] for c in range(k) for i in range(mem[c] + 1)) % 2
            new = []
            for t in range(k):
                if d['fb']:
                    x = sum(coef(d['fb'][t][c], i) * regs[c][i] for c in range(k) for i in range(mem[c] + 1)) % 2
                else:
                    x = ub[t]
                new.append(([x] + regs[t][1:])[:mem[t]])
        v = 0
        for r in new:
            for b in r:
                v = 2 * v + b
        return v, out

    S, I = 2 ** sum(mem), 2 ** k
    return [[step(s, u) for u in range(I)] for s in range(S)]


def unmerged(d, steps):
    """Least weight of a path of that many steps that leaves state zero at once and has not come back, and the
    least weight of a path that came back within them."""
    t = tables(d)
    inf = 10 ** 6
    cur = {}
    back = inf
    for u, (s, o) in enumerate(t[0]):
        if u or s:
            if s == 0:
                back = min(back, bin(o).count('1'))
            else:
                cur[s] = min(cur.get(s, inf), bin(o).count('1'))
    res = [None, (min(cur.values(), default=inf), back)]
    for _ in range(steps - 1):
        nx = {}
        for s, c in cur.items():
            for v, o in t[s]:
                c2 = c + bin(o).count('1')
                if v == 0:
                    back = min(back, c2)
                else:
                    nx[v] = min(nx.get(v, inf), c2)
        cur = nx
        res.append((min(cur.values(), default=inf), back))
    return res


def delay_free(d):
    return all(o != 0 for _, o in tables(d)[0][1:])
