"""C09 field arithmetic, C10 cosets and minimal polynomials, C11 cyclic generator polynomials."""
from kit import *
import re
from commpy.channelcoding.gfields import GF, polydivide, polymultiply, poly_to_string
from commpy.channelcoding import cyclic_code_genpoly

PP = [0, 3, 7, 11, 19, 37, 67, 137, 285, 529, 1033, 2053, 4179, 8219, 17475, 32771, 69643]


def bits(x):
    x = int(x)
    return [int(c) for c in bin(x)[:1:-1]] if x > 0 else ([] if x == 0 else [NANV])


def shape(v, rng):
    """The same elements in one of the accepted forms."""
    if len(v) == 1 and rng.random() < .5:
        return v[0]
    return np.array(v, rng.choice(['int64', 'int32', 'float64', 'int64']))


def els(g):
    return jis(g.elements)


def op(m, a, b, name, rng):
    x, y = GF(shape(a, rng), m), GF(shape(b, rng), m)
    before = digest([x.elements, y.elements])
    r, exc = attempt(lambda: x + y if name == 'add' else x * y)
    if exc:
        return emit('op', op=name, m=m, a=a, b=b, exc=exc)
    emit('op', op=name, m=m, a=a, b=b, r=els(r), pp=ji(r.prim_poly), mres=ji(r.m),
         unchanged=before == digest([x.elements, y.elements]))


def conv(m, a, name, rng):
    x = GF(np.array(a), m)
    before = digest(x.elements)
    r, exc = attempt({'p2t': x.power_to_tuple, 't2p': x.tuple_to_power, 'order': x.order}[name], limit=60)
    if exc:
        return emit('conv', op=name, m=m, a=a, exc=exc)
    emit('conv', op=name, m=m, a=a, r=els(r) if name != 'order' else jis(r), unchanged=before == digest(x.elements))


def field():
    for m in range(1, 17):
        rng = rng_for(PID, m)
        q = 2 ** m
        rnd = lambda: rng.choice([rng.randrange(q), rng.randrange(q), 0, 1, q - 1, q // 2])
        if m <= (6 if THOROUGH else 4):
            pairs = [(i, j) for i in range(q) for j in range(q)]
            rng.shuffle(pairs)
        else:
            pairs = [(rnd(), rnd()) for _ in range(2000 if THOROUGH else 200)]
        i = 0
        while i < len(pairs):
            n = rng.choice([1, 1, 2, 3, 7, 20, 60])
            ch = pairs[i:i + n]
            i += n
            if mine():
                for name in ('mul', 'add'):
                    op(m, [c[0] for c in ch], [c[1] for c in ch], name, rng)
        for _ in range(2):
            if mine():
                op(m, [rnd(), rnd()], [rnd(), rnd(), rnd()], rng.choice(['mul', 'add']), rng)
        big = 3 * q if m <= 9 else (q + 50 if m <= 12 else 2500)
        for _ in range(3):
            if m <= 6:
                ex = list(range(3 * q))
                rng.shuffle(ex)
                ex = ex[:60]
            else:
                ex = [rng.randrange(m + 3) for _ in range(3)] + [rng.randrange(big) for _ in range(12 if m <= 12 else 3)] + [m, m - 1, 0]
            if THOROUGH and m > 12:
                ex.append(q - 2)
            if mine():
                conv(m, ex, 'p2t', rng)
        for name in ('t2p', 'order'):
            nz = list(range(1, q))
            rng.shuffle(nz)
            nz = nz[:200 if m <= 8 else 40 if m <= 12 else 3 if not THOROUGH else 20] + [1]
            if mine():
                conv(m, nz, name, rng)


def polys():
    rng = rng_for(PID, 'polys', SHARD)
    for _ in range(2000 if THOROUGH else 400):
        d = rng.choice([2, 3, 5, 8, 16, 40, 70])
        x, y = rng.randrange(2 ** d), rng.randrange(1, 2 ** rng.choice([1, 2, 3, 5, 8, 16, 40]))
        if rng.random() < .1:
            x = y
        r, exc = attempt(polydivide, x, y, limit=10)
        emit('poly', op='divide', a=bits(x), b=bits(y), r=bits(r) if r is not None else [], exc=exc)
        m = rng.randint(1, 16)
        x, y = rng.randrange(2 ** m), rng.randrange(2 ** m)
        p = rng.choice([PP[m], PP[rng.randint(1, 16)], rng.randrange(1, 2 ** (m + 1)), rng.randrange(2 ** m, 2 ** (m + 1))])
        r, exc = attempt(polymultiply, x, y, m, p, limit=10)
        emit('poly', op='multiply', a=bits(x), b=bits(y), p=bits(p), r=bits(r) if r is not None else [], exc=exc)
        if rng.random() < .2:
            s, exc = attempt(poly_to_string, x)
            emit('poly', op='string', a=bits(x), r=[int(v) for v in re.findall(r'x\^(\d+)', s or '')], exc=exc)
    if SHARD == 0:
        for x in range(64):
            for y in range(1, 24):
                r, exc = attempt(polydivide, x, y, limit=10)
                emit('poly', op='divide', a=bits(x), b=bits(y), r=bits(r) if r is not None else [], exc=exc)


def orbit(m, a):
    res = [a]
    while True:
        b, c = res[-1], 0
        for i in range(m):
            if res[-1] >> i & 1:
                c ^= b
            b = (b << 1) ^ (PP[m] if b >> (m - 1) & 1 else 0)
        if c == a:
            return res
        res.append(c)


def coset_case(m, full):
    g = GF(np.array(full), m)
    before = digest(g.elements)
    r, exc = attempt(g.cosets, limit=200)
    emit('cosets', m=m, a=full, r=[els(c) for c in r] if r is not None else [], exc=exc,
         ms=[ji(c.m) for c in r or []], unchanged=before == digest(g.elements))


def cosets():
    for m in (11, 10, 9):                              # many cosets at once
        if mine():
            full = list(range(1, 2 ** m))
            rng_for(PID, 'big', m).shuffle(full)
            coset_case(m, full)
    for m in range(9, 15):                             # parts of larger fields
        rng = rng_for(PID, 'part', m)
        for rep in range(6 if THOROUGH else 2):
            full = sorted({x for _ in range(rng.randint(2, 5)) for x in orbit(m, rng.randrange(1, 2 ** m))})
            rng.shuffle(full)
            if mine():
                coset_case(m, full)
    for m in range(1, (10 if THOROUGH else 9)):
        rng = rng_for(PID, m)
        for rep in range(12 if m < 8 else 3):
            full = list(range(1, 2 ** m))
            if rep == 1:
                rng.shuffle(full)
            elif rep == 2 and m < 8 or rep > 2:
                full = sorted({x for _ in range(rng.randint(1, 4)) for x in orbit(m, rng.choice(full))})
                rng.shuffle(full)
            if not mine():
                continue
            coset_case(m, full)
        chunks = [list(range(0, 2 ** m))[i:i + 16] for i in range(0, 2 ** m, 16)]
        if not THOROUGH and m == 8:
            chunks = chunks[::2]
        chunks += [[rng.randrange(2 ** m) for _ in range(rng.randint(1, 6))] for _ in range(4)]
        for ch in chunks:
            if not mine():
                continue
            rng.shuffle(ch)
            g = GF(np.array(ch), m)
            before = digest(g.elements)
            r, exc = attempt(g.minpolys, limit=120)
            emit('minpolys', m=m, a=ch, r=jis(r), exc=exc, unchanged=before == digest(g.elements))


def cyclic():
    small = [3, 5, 7, 9, 15, 17, 21, 31]
    cases = [(n, k) for n in small for k in range(1, n)]
    cases += [(n, k) for n in (51, 63, 85) for k in (sorted({n - 1, n - 2, n // 2, n // 2 + 1, n // 3, 24, 1, 7} if not THOROUGH else range(1, n)))]
    cases += [(73, k) for k in (45, 9, 64, 1)] + [(127, 106), (93, 83)]
    if THOROUGH:
        cases += [(127, k) for k in (1, 15, 64, 120, 100)] + [(11, 1), (11, 10), (33, 20), (33, 11), (23, 12), (89, 78), (89, 11), (93, 40)]
    else:
        cases += [(11, 1), (23, 12), (89, 78)]
    cases += [(n, rng_for('even', n).randint(1, n - 1)) for n in (2, 4, 6, 8, 10, 14, 30, 62, 126)]
    cases.sort(key=lambda c: -c[0])
    rng_for(PID).shuffle(cases)
    for n, k in cases:
        if not mine():
            continue
        r, exc = attempt(cyclic_code_genpoly, n, k, limit=300)
        integral = r is not None and (r.dtype.kind in 'iu' or all(isinstance(v, (int, np.integer)) for v in r.tolist()))
        emit('cyclic', n=n, k=k, r=[bits(v) for v in r.tolist()] if r is not None else [], exc=exc, integral=bool(integral))


if PID == 'C09':
    field()
    polys()
elif PID == 'C10':
    cosets()
else:
    cyclic()
finish()
