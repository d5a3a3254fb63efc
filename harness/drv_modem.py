"""C15 mapping and hard demodulation, C16 soft demodulation."""
from kit import *
from commpy.modulation import Modem, PSKModem, QAMModem

rng = rng_for(PID, SHARD)
LN2 = math.log(2)
_ids = [0]


def pt(z, u):
    return [fx(complex(z).real, u), fx(complex(z).imag, u)]


def exact(z, u):
    z = complex(z)
    return [ji(z.real * u), ji(z.imag * u)]


def show(md, u):
    c = np.asarray(md.constellation) / md.sc
    f = exact if u == 4 else pt
    return dict(pts=[f(z, u) for z in c], m=ji(md.m), nb=ji(md.num_bits_symbol),
                es=fx(md.Es / md.sc ** 2 * len(c), 16 if u == 4 else 10 ** 6))


def unit_of():
    """Constellations of the caller in units of a power of two: nothing depends on the unit."""
    return 1 if rng.random() < .7 else 2. ** rng.choice([-40, -20, -12, -7, -3, -1, 1, 5, 10, 20, 40])


def new(kind, size=0, given=None, style=0):
    _ids[0] += 1
    o, u = _ids[0], 10000 if kind == 'psk' else 4
    kw, sc = {}, 1
    if kind in ('psk', 'qam'):
        md, exc = attempt(PSKModem if kind == 'psk' else QAMModem, size)
        kw['size'] = size
    else:
        kw['given'] = [exact(z, 4) for z in given]
        sc = unit_of()
        mine = form([z * sc for z in given], style)
        md, exc = attempt(Modem, mine) if kind == 'gray' and rng.random() < .5 else attempt(Modem, mine, kind == 'gray')
        reuse(mine)
    if exc:
        emit('new', o=o, kind=kind, u=u, exc=exc, **kw)
        return None
    md.sc = sc
    if kind == 'psk':
        idx = []
        for z in np.asarray(md.constellation):
            k = round(math.atan2(z.imag, z.real) / (2 * math.pi / size)) % size
            ok = abs(z - complex(math.cos(2 * math.pi * k / size), math.sin(2 * math.pi * k / size))) < 1e-9
            idx.append(k if ok else -1)
        kw['idx'] = idx
    emit('new', o=o, kind=kind, u=u, obs=show(md, u), **kw)
    md.vp = (o, u, kind, size)
    return md


def form(pts, style):
    if style == 0:
        return np.array(pts)
    if style == 1:
        return list(pts)
    if style == 2:
        return tuple(pts)
    return np.array(pts, complex)


def reuse(a):
    """The caller goes on to use his array for something else."""
    if isinstance(a, np.ndarray) and rng.random() < .6:
        a[...] = 5


def rand_pts(n):
    real = rng.random() < .25
    res = set()
    span = max(2, int(math.sqrt(n)) + 1)
    while len(res) < n:
        a, b = rng.randint(-span, span) / rng.choice([1, 1, 2, 4]), rng.randint(-span, span) / rng.choice([1, 1, 2, 4])
        res.add(float(rng.randint(-4 * n, 4 * n)) / 4 if real else complex(a, b))
    res = list(res)
    rng.shuffle(res)
    return res


def samples(md, n):
    o, u, kind, size = md.vp
    c = (np.asarray(md.constellation) / md.sc).tolist()
    res = []
    for _ in range(n):
        p, q = complex(rng.choice(c)), complex(rng.choice(c))
        t = rng.random()
        if t < .3:
            z = p
        elif t < .5:
            z = (p + q) / 2
        elif t < .8:
            z = p + complex(rng.uniform(-1.2, 1.2), rng.uniform(-1.2, 1.2)) * (1 if u == 4 else .3)
        elif t < .9:
            z = p * rng.choice([1.5, 3, .5, 10 if u == 4 else 1.2])
        else:
            z = complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) * (30 if u == 4 else 1.5)
        g = 8 if u == 4 else 10000
        z = complex(round(z.real * g) / g, round(z.imag * g) / g)
        if u == 4:
            z = complex(math.floor(z.real * 4) / 4, math.floor(z.imag * 4) / 4)
        if u != 4 and abs(z) > 1.7:
            z = z / abs(z)
            z = complex(round(z.real * g) / g, round(z.imag * g) / g)
        res.append(z)
    return res


def use_hard(md):
    o, u, kind, size = md.vp
    nb = md.num_bits_symbol
    if nb < 1:
        return
    n = rng.choice([1, 2, 3, 17, 40])
    x = np.array([rng.randint(0, 1) for _ in range(n * nb)], rng.choice(['int64', 'int8', 'uint8', 'bool', 'int32']))
    if rng.random() < .3 and nb <= 6:
        lab = list(range(2 ** nb))
        rng.shuffle(lab)
        x = np.array([v >> (nb - 1 - i) & 1 for v in lab for i in range(nb)])
    before = digest(x)
    s, exc = attempt(md.modulate, x)
    if exc:
        emit('mod', o=o, exc=exc)
        return
    f = exact if u == 4 else pt
    emit('mod', o=o, bits=[int(b) for b in x], out=[f(z / md.sc, u) for z in s], unchanged=before == digest(x))
    y = np.array(samples(md, rng.choice([1, 2, 5, 30])))
    if rng.random() < .3:
        y = s / md.sc
    sc = 1
    if u == 4 and nb <= 6 and rng.random() < .5 and abs(np.asarray(md.constellation)).max() / md.sc < 40:     # close decisions
        sc = 128
        y = np.array([complex(round(z.real * 512), round(z.imag * 512)) / 512 for z in
                      [rng.choice(y) + complex(rng.gauss(0, .1), rng.gauss(0, .1)) for _ in range(len(y))]])
        y = y[abs(y) < 20] if (abs(y) < 20).any() else y[:1] * 0
    if rng.random() < .1 and sc == 1:
        y = y.real.copy() if u == 4 else y
    ys = y * md.sc
    before = digest(ys)
    b, exc = attempt(md.demodulate, ys, 'hard')
    emit('hard', o=o, exc=exc, y=[f(z, u * sc) if sc == 1 else [ji(z.real * u * sc), ji(z.imag * u * sc)] for z in y.astype(complex)],
         out=jis(b), sc=sc, tol=0 if u == 4 else 200000, unchanged=before == digest(ys))


def use_soft(md):
    soft_exact(md)
    if rng.random() < .5:
        soft_real(md)


def soft_real(md):
    """Any samples, any noise variance."""
    o, u, kind, size = md.vp
    nb = md.num_bits_symbol
    if nb < 1 or nb > 6:
        return
    c = np.asarray(md.constellation) / md.sc
    y = np.array(samples(md, rng.choice([1, 2, 3]) if nb < 5 else 1))
    t = rng.random()
    if t < .7:
        y = y + np.array([complex(rng.gauss(0, .3), rng.gauss(0, .3)) for _ in y])
    if t > .9:
        y = y.real.round().astype(rng.choice([int, float]))
    elif t > .8:
        y = y.astype(np.complex64)
    p, q = rng.choice([(1, 1), (1, 2), (1, 10), (3, 7), (2, 1), (10, 1), (1, 100), (1, 1000), (rng.randint(1, 99), 100), (100, 1)])
    nv = p / q * md.sc ** 2
    if q == 1 and md.sc == 1:
        nv = rng.choice([int, float, np.float64])(nv)
    ys = y * md.sc if md.sc != 1 else y
    before = digest(ys)
    out, exc = attempt(md.demodulate, ys, 'soft', nv)
    emit('softr', o=o, u=u, exc=exc, y=[[fr(z.real), fr(z.imag)] for z in y.astype(complex)], pts=[[fr(z.real), fr(z.imag)] for z in c.astype(complex)],
         nv=[p, q], out=[fr(v) for v in np.asarray(out).ravel()] if not exc else [], unchanged=before == digest(ys))


def soft_exact(md):
    o, u, kind, size = md.vp
    nb = md.num_bits_symbol
    if u != 4 or nb < 1:
        return
    c = (np.asarray(md.constellation) / md.sc).tolist()
    n = rng.choice([1, 2, 3]) if nb <= 6 else 1
    y = samples(md, n)
    # the largest h such that all exponents are integers, or a divisor of it
    D = [[int((16 * abs(complex(z) - p) ** 2) + .5) for p in c] for z in y]
    g = 0
    for d in D:
        for v in d:
            g = math.gcd(g, v - min(d))
    if g == 0:
        return
    big = max(max(d) - min(d) for d in D)
    divs = [v for v in range(1, min(g, 4096) + 1) if g % v == 0 and big // v <= (1500 if rng.random() < .9 or nb > 4 else 6000)]
    if not divs:
        return
    h16 = rng.choice(divs)
    nv = h16 / 16 / LN2 * md.sc ** 2
    x = np.array(y) * md.sc
    before = digest(x)
    out, exc = attempt(md.demodulate, x, 'soft', nv) if rng.random() < .7 else attempt(md.demodulate, x, demod_type='soft', noise_var=nv)
    emit('soft', o=o, exc=exc, y=[exact(z, 4) for z in y], h16=h16, out=[odds(v) for v in out] if out is not None else [],
         unchanged=before == digest(x))


def main():
    objs = []
    use = use_hard if PID == 'C15' else use_soft
    sizes = [('psk', 2 ** k) for k in range(1, 7 if PID == 'C15' else 5)] + [('qam', 4 ** k) for k in range(1, 6 if PID == 'C15' else 4)]
    if PID == 'C16' and SHARD % 4 == 0:
        sizes.append(('qam', 256))
    if PID == 'C15':
        sizes += [[('psk', 128)], [('psk', 256)]][SHARD] if SHARD < 2 else []
    for kind, m in sizes:
        md = new(kind, m)
        if md is not None:
            objs.append(md)
            for _ in range(6 if m <= 64 else 2):
                use(md)
    if PID == 'C15' and SHARD < 4:
        for kind, m in [('psk', 3), ('psk', 6), ('psk', 12), ('qam', 8), ('qam', 32), ('qam', 2), ('qam', 9), ('qam', 36), ('qam', 128)]:
            new(kind, m)
    for _ in range((200 if THOROUGH else 30) if PID == 'C15' else (150 if THOROUGH else 25)):
        n = 2 ** rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
        if rng.random() < .12:
            n = rng.choice([3, 5, 6, 7, 9, 12])
        md = new(rng.choice(['gray', 'custom']), given=rand_pts(n), style=rng.randrange(4))
        if md is not None:
            objs.append(md)
            for _ in range(2):
                use(md)
        md = rng.choice(objs)
        if rng.random() < .6:          # reassign the constellation of any object
            o, u, kind, size = md.vp
            if u == 4:
                n = 2 ** rng.choice([1, 2, 3, 4])
                if rng.random() < .4:
                    n = rng.choice([3, 5, 6, 7, 9, 10, 17])
                pts = rand_pts(n)
                given = form([z * md.sc for z in pts], rng.randrange(4))
                _, exc = attempt(setattr, md, 'constellation', given)
                reuse(given)
                emit('set', o=o, u=u, given=[exact(z, 4) for z in pts], exc=exc, obs=show(md, u))
                use(md)
        if rng.random() < .1:
            _, exc = attempt(md.demodulate, np.array([1 + 1j]), rng.choice(['firm', '', 'HARD']))
            emit('badtype', o=md.vp[0], exc=exc)
        for _ in range(3):
            use(rng.choice(objs))


main()
finish()
