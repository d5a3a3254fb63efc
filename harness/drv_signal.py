"""C26 PN sequences, C27 Zadoff-Chu and frequency offset, C28 bit utilities, C29 OFDM."""
import cmath
from kit import *
from commpy.sequences import pnsequence, zcsequence
from commpy.impairments import add_frequency_offset
from commpy.utilities import dec2bitarray, decimal2bitarray, bitarray2dec, hamming_dist, euclid_dist, upsample, signal_power
from commpy.modulation import ofdm_tx, ofdm_rx

rng = rng_for(PID, SHARD)


def order_x(p, n):
    """Order of x modulo the binary polynomial p of degree n (0 when x is no unit)."""
    if p % 2 == 0:
        return 0
    y, e = 1, 0
    while True:
        y, e = y << 1, e + 1
        if y >> n:
            y ^= p
        if y == 1:
            return e
        if e > 1 << n:
            return 0


def dress(bits):
    """The same bits in another type of container."""
    k = rng.randrange(7)
    if k == 0:
        return ''.join(map(str, bits))
    if k == 1:
        return tuple(bits)
    if k == 2:
        return np.array(bits, dtype=rng.choice([int, np.int8, np.uint8, np.int32]))
    if k == 3:
        return [bool(b) for b in bits]
    if k == 4:
        return np.array(bits * 2, dtype=int)[:len(bits)][::1]
    if k == 5:
        return np.repeat(np.array(bits, dtype=int), 2)[::2]
    return list(bits)


def pn(order, seed, mask, n):
    s, m = dress(seed), dress(mask)
    d = digest([s, m])
    out, exc = attempt(pnsequence, order, s, m, n)
    emit('pn', order=order, seed=seed, mask=mask, len=n, out=jis(out), exc=exc, argsame=digest([s, m]) == d)


def c26():
    full = 6 if THOROUGH else 5
    for n in range(1, full + 1):                       # every register of small orders
        for s in range(1 << n):
            for m in range(1 << n):
                if mine() and (n < 5 or rng.random() < (.5 if THOROUGH else .3)):
                    pn(n, [(s >> i) & 1 for i in range(n)], [(m >> i) & 1 for i in range(n)],
                       rng.choice([2 * n + 2, (1 << n) - 1, rng.randint(0, 3 * n)]))
    for i in range(2000 if THOROUGH else 300):
        if not mine():
            continue
        n = rng.choice([rng.randint(5, 40), rng.randint(5, 40), rng.randint(100, 300)])
        w = rng.choice([.1, .5, .9, 1.])
        pn(n, [rng.randint(0, 1) if rng.random() < .8 else 1 for _ in range(n)], [int(rng.random() < w) for _ in range(n)],
           rng.randint(0, 3 * n))
        if rng.random() < .4:                          # inconsistent lengths
            a, b = rng.choice([(0, 1), (1, 0), (0, -1), (-1, 0), (1, 1), (-1, 1), (-1, -1), (2, 2)])
            pn(n, [rng.randint(0, 1) for _ in range(n + a)], [rng.randint(0, 1) for _ in range(n + b)], rng.randint(0, 9))
    for n in range(2, 12 if THOROUGH else 10):         # primitive taps
        prim = [v for v in range(1, 1 << n) if order_x((1 << n) + v, n) == (1 << n) - 1]
        for v in rng_for('prim', n).sample(prim, min(len(prim), 8 if n < 8 else 3)):
            if mine():
                mask = [(v >> (n - 1 - i)) & 1 for i in range(n)]
                seed = [rng.randint(0, 1) for _ in range(n)]
                seed[rng.randrange(n)] = 1
                out, exc = attempt(pnsequence, n, dress(seed), dress(mask), (1 << n) - 1 + n)
                emit('period', order=n, seed=seed, mask=mask, len=(1 << n) - 1, out=jis(out), exc=exc)


def phases(zs, unit, n):
    """Nearest multiples of the unit phase (modulo n), distance in 1/10^6 unit, magnitude in 1/10^6."""
    idx, off, mag = [], [], []
    for z in zs:
        z = complex(z)
        mag.append(fx(abs(z), 1e6))
        if not (math.isfinite(z.real) and math.isfinite(z.imag)):
            idx.append(NANV)
            off.append(NANV)
            continue
        p = cmath.phase(z) / unit
        k = round(p)
        idx.append(k % n)
        off.append(fx(abs(p - k), 1e6))
    return dict(idx=idx, off=off, mag=mag)


def typed(x):
    return rng.choice([int, int, np.int64, np.int32])(x)


def zc(u, n, q):
    uu, nn, qq = typed(u), typed(n), typed(q) if rng.random() < .8 else float(q)
    out, exc = attempt(zcsequence, uu, nn, qq) if q or rng.random() < .5 else attempt(zcsequence, uu, nn)
    emit('zc', u=u, len=n, q=q, ints=True, exc=exc, **phases([] if out is None else out, math.pi / n if n else 1, max(1, 2 * n)))


def c27():
    top = 60 if THOROUGH else 26
    for n in range(1, top):
        for u in range(-1, n + 2):
            if mine():
                zc(u, n, rng.choice([0, 1, -1, 2, rng.randint(-n, n), rng.randint(-1000, 1000)]))
    for i in range(1200 if THOROUGH else 240):
        if mine():
            n = rng.choice([rng.randint(60, 200), rng.choice([139, 839, 353, 63, 64, 127, 128, 256]), rng.randint(2, 900)])
            u = rng.randint(1, n + 2)
            while math.gcd(u, n) != 1 and rng.random() < .8:
                u = rng.randint(1, n - 1)
            zc(u, n, rng.choice([0, 0, rng.randint(-5, 5), rng.randint(-3 * n, 3 * n)]))
    for i in range(16 if THOROUGH else 8):             # long ones
        if mine():
            n = rng.choice([1009, 1013, 2053, 4093, rng.randint(1000, 5000)])
            u = rng.choice([rng.randint(1, n - 1), n - 1, n - rng.randint(1, 9)])
            while math.gcd(u, n) != 1:
                u = rng.randint(1, n - 1)
            zc(u, n, rng.choice([0, rng.randint(-70000, 70000)]))
    for i in range(100):                               # arguments that are no integers
        if mine():
            v = [rng.randint(1, 5), rng.choice([7, 11, 13]), rng.randint(-2, 4)]
            for k in rng.sample(range(3), rng.choice([1, 1, 2])):
                v[k] += rng.choice([.5, .25, 1e-3, -.5])
            out, exc = attempt(zcsequence, *v)
            emit('zc', u=0, len=0, q=0, ints=False, exc=exc, idx=[], off=[], mag=[])
    for i in range(2400 if THOROUGH else 500):
        if not mine():
            continue
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 12, 16, 100, 360, 1000])
        p = rng.choice([rng.randint(-n, n), rng.randint(-5 * n, 5 * n), 0, 1, -1])
        unit = rng.choice([1, 1, 2., .5, 1000, 48000, 1e6, 1e-3, 2.5])
        fs, df = n * unit, p * unit
        if rng.random() < .2:
            fs, df = -fs, -df
        ln = rng.choice([0, 1, 2, rng.randint(3, 40), rng.randint(40, 200)])
        cplx = rng.random() < .7
        w = np.array([complex(rng.randint(-9, 9), rng.randint(-9, 9)) if cplx else rng.randint(-9, 9) for _ in range(ln)],
                     dtype=rng.choice([complex, complex, np.complex64]) if cplx else rng.choice([float, int, np.int16, np.float32]))
        if ln > 20 and rng.random() < .3:
            w = w[::-2]
        d = digest(w)
        out, exc = attempt(add_frequency_offset, w, fs, df)
        r = dict(idx=[], off=[], mag=[])
        zero = [bool(x == 0) for x in w]
        if not exc:
            out = np.asarray(out)
            if out.shape != w.shape:
                r['idx'] = [NANV]
            else:
                r = phases([o / x if x != 0 else 1 for o, x in zip(out.astype(complex), w.astype(complex))], 2 * math.pi / n, n)
                r['idx'] = [(-1 if o == 0 else NANV) if z else k for k, z, o in zip(r['idx'], zero, out)]
                if w.dtype in (np.complex64, np.float32):        # single precision
                    r['off'] = [o if o > 20 * n else 0 for o in r['off']]
        emit('offset', p=p, n=n, len=ln if ln <= 20 else len(w), zero=zero, exc=exc, argsame=digest(w) == d, **r)


def l15(n):
    return limbs(n, 1 << 15)


def c28():
    """A long history of calls; callers write into the results they got."""
    held, nid = {}, 0
    pool = [(rng.randint(0, 2 ** b), b) for b in [1, 2, 3, 4, 8, 12, 16, 20, 33, 62] for _ in range(4)]
    for step in range(9000 if THOROUGH else 2000):
        r = rng.random() if step else .8
        if r < .45:
            kind = rng.choice(['one', 'one', 'many', 'spec'])
            if kind == 'many':
                nb = rng.choice([1, 2, 5, 8, 12, 31, 60, 64])
                nums = [rng.choice([rng.getrandbits(nb), rng.getrandbits(nb) & rng.getrandbits(nb), (1 << nb) - 1, 0])
                        for _ in range(rng.randint(0, 6))]
                w = nb + rng.choice([0, 0, 1, 5])
                dt = [t for t in (np.int64, np.int32, np.uint8, np.uint16, np.uint64, np.int8) if nb < np.iinfo(t).bits
                      or (nb == np.iinfo(t).bits and np.iinfo(t).min == 0)]
                arg = rng.choice([list, tuple, lambda v: np.array(v, dtype=rng.choice(dt)) if dt else v])(nums)
                fn = dec2bitarray
            else:
                v, b = rng.choice(pool) if rng.random() < .7 else (rng.getrandbits(10), 10)
                w = max(v.bit_length(), rng.choice([b, b + 1, 8]), 1)
                nums = [v]
                t = rng.choice([int, int, np.int64, np.uint64])
                if w <= 8 and rng.random() < .2:
                    t = np.uint8
                arg = t(v)
                fn = decimal2bitarray if kind == 'spec' else dec2bitarray
            d = digest(arg)
            out, exc = attempt(fn, arg, typed(w) if rng.random() < .1 else w)
            nid += 1
            if not exc and rng.random() < .5:
                held[nid] = out
            emit('bits', o=nid, nums=[l15(v) for v in nums], w=w, out=jis(out), exc=exc, argsame=digest(arg) == d)
            if nid in held and rng.random() < .3 and len(out):
                v = rng.randint(0, 1) if rng.random() < .8 else 7
                out[...] = v
                emit('scribble', o=nid, v=v)
        elif r < .55 and held:
            o = rng.choice(sorted(held))
            emit('look', o=o, out=jis(held[o]))
        elif r < .6 and held:
            o = rng.choice(sorted(held))
            v = rng.randint(0, 1)
            try:
                held[o][...] = v
                emit('scribble', o=o, v=v)
            except ValueError:
                emit('look', o=o, out=['read-only'])
        elif r < .75:
            nb = rng.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 100])
            bits = [rng.randint(0, 1) if rng.random() < .8 else 1 for _ in range(nb)]
            if rng.random() < .2:
                bits = [1] * nb
            arg = rng.choice([list, tuple, lambda b: np.array(b, dtype=rng.choice([int, np.int8, np.uint8, np.int32, bool, np.uint64])),
                              lambda b: np.repeat(np.array(b, dtype=np.int8), 2)[::2]])(bits)
            d = digest(arg)
            out, exc = attempt(bitarray2dec, arg)
            try:
                lo = l15(out) if out == int(out) and not isinstance(out, (float, np.floating)) else [NANV]
            except Exception:
                lo = [NANV]
            emit('dec', bits=bits, out=lo, exc=exc, argsame=digest(arg) == d)
        elif r < .82 or not step:
            n = rng.choice([0, 1, 5, 40, 300, 700]) if step else 70001
            a, b = ([rng.randint(0, 1) if rng.random() < (.7 if n < 700 else .02) else k for _ in range(n)] for k in (0, 1))
            tt = lambda v: rng.choice([list, lambda x: np.array(x, dtype=rng.choice([int, np.int8, np.uint8, bool])) ])(v)
            aa, bb = tt(a), tt(b)
            if not n:
                aa, bb = np.array([], dtype=int), np.array([], dtype=np.int8)
            d = digest([aa, bb])
            out, exc = attempt(hamming_dist, aa, bb)
            emit('hamming', a=a, b=b, out=ji(out), exc=exc, argsame=digest([aa, bb]) == d)
        elif r < .88:
            n = rng.choice([0, 1, 5, 40, 600])
            s = rng.choice([1, 4])
            a, b = ([rng.randint(-99, 99) for _ in range(n)] for _ in range(2))
            s = s * rng.choice([1, 1, 2. ** -20, 2. ** 20])
            aa, bb = (np.array(v, dtype=float) / s for v in (a, b))
            d = digest([aa, bb])
            out, exc = attempt(euclid_dist, aa, bb)
            emit('euclid', a=a, b=b, out=ji(out * s * s) if out is not None else 0, exc=exc, argsame=digest([aa, bb]) == d)
        elif r < .94:
            n, f, s = rng.choice([0, 1, 2, 7, 30, 300]), rng.choice([1, 2, 3, 4, 8, 17]), rng.choice([1, 4])
            c = rng.random() < .6
            big = rng.choice([99, 99, 2 ** 30])           # 2^30: not representable in single precision
            x = [[rng.randint(-big, big), rng.randint(-big, big) if c else 0] for _ in range(n)]
            xx = np.array([complex(*v) for v in x]) / s
            if big > 99:
                xx = xx if c else xx.real
            else:
                xx = xx.astype(rng.choice([complex, np.complex64])) if c else xx.real.astype(rng.choice([float, np.float32]) if s > 1 else rng.choice([int, float, np.int8]))
            if rng.random() < .2:
                xx = xx.tolist()
            d = digest(xx)
            out, exc = attempt(upsample, xx, f)
            emit('upsample', x=x, n=f, out=[] if exc else [[ji(z.real * s), ji(z.imag * s)] for z in np.asarray(out, dtype=complex)],
                 exc=exc, argsame=digest(xx) == d)
        else:
            n, s = rng.choice([1, 2, 7, 30, 500]), rng.choice([1, 4])
            c = rng.random() < .6
            x = [[rng.randint(-99, 99), rng.randint(-99, 99) if c else 0] for _ in range(n)]
            if rng.random() < .3:
                x[0] = [0, 0]
            s = s * rng.choice([1, 1, 1, 2. ** -20, 2. ** -40, 2. ** 12])          # loud and quiet ones
            xx = np.array([complex(*v) for v in x]) / s
            xx = xx.astype(rng.choice([complex, np.complex64])) if c else xx.real.astype(rng.choice([float, np.float32]) if s != 1 else rng.choice([int, float, np.int8]))
            if rng.random() < .2:
                xx = xx.tolist()
            d = digest(xx)
            out, exc = attempt(signal_power, xx)
            t = NANV
            if not exc:
                t = float(out) * n * s * s
                t = int(round(t)) if math.isfinite(t) and abs(t - round(t)) < 1e-2 else NANV
            emit('power', x=x, total=t, exc=exc, argsame=digest(xx) == d)


def gint(z, tol=1e-6):
    z = complex(z)
    r = []
    for p in (z.real, z.imag):
        r.append(int(round(p)) if math.isfinite(p) and abs(p - round(p)) <= tol else NANV)
    return r


def cols(a):
    return [[gint(z) for z in np.asarray(a)[:, j]] for j in range(np.asarray(a).shape[1])]


def ofdm(nfft, nsc, cp, nsym):
    c = rng.random() < .8
    big = 9 if rng.random() < .8 else 2 ** 26              # not exact in single precision
    data = [[[rng.randint(-9, 9) + rng.choice([0, big - 9, 9 - big]), rng.randint(-9, 9) if c else 0] for _ in range(nsc)]
            for _ in range(nsym)]
    x = np.array([[complex(*z) for z in s] for s in data]).reshape(nsym, nsc).T
    x = x.astype(rng.choice([complex, np.complex64]) if big == 9 else complex) if c else x.real.astype(rng.choice([float, int]))
    if rng.random() < .5:
        x = np.ascontiguousarray(x)
    d = digest(x)
    out, exc = attempt(ofdm_tx, x, nfft, nsc, cp)
    kw = dict(out=[], bins=[], times=[])
    if not exc:
        out = np.asarray(out)
        ok = out.ndim == 1 and len(out) == nsym * (nfft + cp)
        body = [out[s * (nfft + cp) + cp:(s + 1) * (nfft + cp)] for s in range(nsym)] if ok else []
        kw = dict(out=[cfx(z, 1e6 if big == 9 else 10) for z in out.ravel()], bins=[[gint(z) for z in np.fft.fft(b)] for b in body],
                  times=[[gint(z * nfft) for z in b] for b in body] if nfft in (2, 4) else [])
    emit('tx', nfft=nfft, nsc=nsc, cp=cp, data=data, exc=exc, argsame=digest(x) == d, **kw)
    if not exc:
        d = digest(out)
        back, exc = attempt(ofdm_rx, out, nfft, nsc, cp)
        emit('loop', data=data, out=[] if exc else cols(back), exc=exc if digest(out) == d else 'argument modified')
    # any signal, built bin by bin, with unrelated prefixes, used unused bins and a piece of another symbol at its end
    bins = [[[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(nfft)] for _ in range(nsym)]
    y = [np.array([])]
    for b in bins:
        y.append(np.array([complex(rng.randint(-9, 9), rng.randint(-9, 9)) for _ in range(cp)], dtype=complex))
        y.append(np.fft.ifft(np.array([complex(*z) for z in b])))
    y.append(np.ones(rng.choice([0, 0, 1, nfft + cp - 1]) if nfft + cp > 1 else 0))
    y = np.concatenate(y)
    d = digest(y)
    out, exc = attempt(ofdm_rx, y, nfft, nsc, cp)
    emit('rx', nfft=nfft, nsc=nsc, cp=cp, bins=bins, out=[] if exc else cols(out), exc=exc, argsame=digest(y) == d)


def c29():
    top = 15 if THOROUGH else 10
    for nfft in range(3, top):
        for nsc in range(2, nfft, 2):
            for cp in range(0, nfft + 1):
                if mine():
                    ofdm(nfft, nsc, cp, rng.choice([0, 1, 1, 2, 3]))
    for i in range(900 if THOROUGH else 200):
        if mine():
            nfft = rng.choice([4, 8, 16, 32, 64, 64, 12, 20, 33] + ([128, 256] if THOROUGH else []))
            h = (nfft - 1) // 2
            nsc = 2 * rng.choice([h, rng.randint(1, h), max(1, h // 2)])
            ofdm(nfft, nsc, rng.choice([0, 1, nfft // 4, nfft, rng.randint(0, nfft)]), rng.randint(1, 4))
    for nfft, most in ((128, 20), (256, 14), (257, 12), (512, 12), (1024, 12), (2048, 6), (16, 70), (64, 30)):
        if mine():
            h = (nfft - 1) // 2
            ofdm(nfft, 2 * rng.choice([h, rng.randint(1, h)]), rng.choice([0, nfft // 4, rng.randint(0, nfft)]),
                 most if nfft < 100 else rng.randint(1, 2))


dict(C26=c26, C27=c27, C28=c28, C29=c29)[PID]()
finish()
