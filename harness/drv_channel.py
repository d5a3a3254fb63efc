"""C19 channel configuration, C20 propagation, C21 discrete channels."""
import cmath
from fractions import Fraction
from kit import *
from commpy.channels import SISOFlatChannel, MIMOFlatChannel, bec, bsc

rng = rng_for(PID, SHARD)
SC = 10000


def part(x, sq):
    x = float(x)
    if abs(x) < 1e-11:
        return [0, fl(0.)]
    return [1 if x > 0 else -1, fl(x * x if sq else abs(x))]


def mat(a, sq):
    return [[part(complex(z).real, sq) + part(complex(z).imag, sq) for z in row] for row in np.atleast_2d(np.asarray(a))]


def look(ch, siso):
    """The configuration an object shows."""
    f = ch.fading_param
    try:
        kf = fl(ch.k_factor)
    except Exception as e:
        kf = dict(k=type(e).__name__, n=[], e=0)
    if siso:
        base, rt, rr = [[f[0]]], [[f[1]]], [[1.]]
    else:
        base, rt, rr = f
    nv = dict(k='none', n=[], e=0) if ch.noise_std is None else fl(float(ch.noise_std) * abs(float(ch.noise_std)))
    return dict(cplx=bool(ch.isComplex), ntx=ji(ch.nb_tx), nrx=ji(ch.nb_rx), base=mat(base, True), rt=mat(rt, False),
                rr=mat(rr, False), nv=nv, kf=kf)


def gmat(m, cplx, scale=1.):
    a = np.array([[complex(*z) for z in r] for r in m])
    if not cplx:
        a = a.real
    return a * scale


def fading(f, siso):
    s = math.sqrt(f['sn'] / f['sd'])
    if siso:
        z = complex(*f['base'][0][0]) * s
        v = f['rt'][0][0][0] / f['rtd']
        if not f['cplx']:
            z = z.real
            if z == int(z) and rng.random() < .5:
                z = int(z)
        elif z in (0, 1, 1j) and rng.random() < .3:
            z = np.complex64(z)
        if v == int(v) and rng.random() < .5:
            v = int(v)
        return z, v
    base = gmat(f['base'], f['cplx'], s)
    if f['cplx'] and rng.random() < .2 and not np.any(base):
        base = base.astype(np.complex64)
    isc = any(z[1] for m in (f['rt'], f['rr']) for r in m for z in r)
    return base, gmat(f['rt'], isc, 1 / f['rtd']), gmat(f['rr'], isc, 1 / f['rrd'])


def unit(t):
    z = complex(t[0], t[1]) / t[2]
    if z.imag == 0 and rng.random() < .6:
        return int(z.real) if z.real == int(z.real) and rng.random() < .6 else z.real
    return z if rng.random() < .7 else np.complex128(z)


def beta(b):
    return b * math.log(2) if b > 0 else b


def do(ch, op, siso):
    k = op['op']
    if k == 'setf':
        def setf():
            ch.fading_param = fading(op['f'], siso)
        return attempt(setf)[1]
    if k == 'uray':
        return attempt(ch.uncorr_rayleigh_fading, rng.choice([complex, np.complex128, np.complex64]) if op['cplx'] else
                       rng.choice([float, np.float64]))[1]
    if k == 'eray':
        a = (beta(op['bt']), beta(op['br']))
        return attempt(ch.expo_corr_rayleigh_fading, unit(op['t']), unit(op['r']), *(a if any(a) or rng.random() < .5 else ()))[1]
    if k == 'urice':
        m = gmat(op['base'], op['cplx'], rng.choice([1., 1., .5, 3.]))
        d = digest(m)
        exc = attempt(ch.uncorr_rician_fading, m, op['kn'] / op['kd'])[1]
        return exc if d == digest(m) else 'argument modified'
    if k == 'erice':
        m = gmat(op['base'], op['cplx'], rng.choice([1., 1., .5, 3.]))
        d = digest(m)
        a = (beta(op['bt']), beta(op['br']))
        exc = attempt(ch.expo_corr_rician_fading, m, op['kn'] / op['kd'], unit(op['t']), unit(op['r']),
                      *(a if any(a) or rng.random() < .5 else ()))[1]
        return exc if d == digest(m) else 'argument modified'
    if k == 'snr':
        snr, rate, es = op['sp'] / op['sq'], op['rp'] / op['rq'], op['ep'] / op['eq']
        fn = ch.set_SNR_lin
        if op['kind'] == 'db':
            snr, fn = 10 * round(math.log10(snr)), ch.set_SNR_dB
        r = rng.random()
        if rate == 1 and es == 1 and r < .5:
            return attempt(fn, snr)[1]
        if r < .75:
            return attempt(fn, snr, rate, es)[1]
        return attempt(fn, snr, Es=es, code_rate=rate)[1]
    if k == 'std':
        def std():
            ch.noise_std = op['p'] / op['q']
        return attempt(std)[1]


def cz(z):
    return cfx(z, SC)


def rows(a, depth):
    a = np.asarray(a)
    if a.ndim == 0 or depth == 0:
        return cz(a[()]) if a.ndim == 0 else 'shape'
    return [rows(x, depth - 1) for x in a]


def recs(ch):
    return [ch.noises, ch.channel_gains, ch.unnoisy_output]


def prop(ch, o, op, siso):
    n, c = op['len'], op['cplx']
    s = rng.choice([1, 3, 7])
    vals = [[rng.randint(-s, s), rng.randint(-s, s) if c else 0] for _ in range(n)]
    if c:
        msg = np.array([complex(*v) for v in vals], dtype=rng.choice([complex, complex, np.complex64]))
    else:
        msg = np.array([v[0] for v in vals], dtype=rng.choice([int, float, float, np.int8, np.float32]))
    d0, r0 = digest(msg), digest(recs(ch))
    out, exc = attempt(ch.propagate, msg)
    if exc:
        emit('prop', o=o, cplx=c, len=n, exc=exc, recsame=digest(recs(ch)) == r0, unchanged=digest(msg) == d0)
        return
    noi, gai, unn = recs(ch)
    real = not any(np.iscomplexobj(a) for a in (out, noi, gai, unn))
    kw = {}
    if siso:
        shape = [np.shape(a) == (n,) for a in (out, noi, gai, unn)]
        kw = dict(rec=[[cz(z)] for z in out], noi=[[cz(z)] for z in np.atleast_1d(noi)], unn=[[cz(z)] for z in np.atleast_1d(unn)],
                  gai=[[[cz(z)]] for z in np.atleast_1d(gai)])
        g = [np.complex128(z).tobytes() for z in np.atleast_1d(gai)]
        w = [np.complex128(z).tobytes() for z in np.atleast_1d(noi)]
    else:
        nv = -(-n // ch.nb_tx)
        shape = [np.shape(out) == (nv, ch.nb_rx), np.shape(noi) == (nv, ch.nb_rx), np.shape(gai) == (nv, ch.nb_rx, ch.nb_tx),
                 np.shape(unn) == (nv, ch.nb_rx)]
        kw = dict(rec=rows(out, 2), noi=rows(noi, 2), unn=rows(unn, 2), gai=rows(gai, 3))
        g = [np.asarray(z).tobytes() for z in gai]
        w = [np.asarray(z).tobytes() for z in noi]
    if not all(shape):
        kw = dict(rec=[], noi=[], unn=[], gai=[])
    d1 = digest(recs(ch))
    out[:] = 0                                          # what callers do to results does not reach the records
    emit('prop', o=o, cplx=c, len=n, msg=vals, real=real, shape=all(shape), gdist=len(set(g)), ndist=len(set(w)),
         recsame=digest(recs(ch)) == d1, unchanged=digest(msg) == d0, **kw)


def new(o, siso, ntx, nrx, std=None, f=None):
    kw = {}
    if std is not None:
        kw['noise_std'] = std[0] / std[1]
    if f is not None:
        kw['fading_param'] = fading(f, siso)
    ch, exc = attempt(SISOFlatChannel, **kw) if siso else attempt(MIMOFlatChannel, ntx, nrx, **kw)
    rec = dict(o=o, siso=siso, ntx=ntx, nrx=nrx, exc=exc, obs=look(ch, siso) if ch is not None else {})
    if std is not None:
        rec['std'] = list(std)
    if f is not None:
        rec['f'] = f
    emit('new', virgin=ch is None or all(r is None for r in recs(ch)), **rec)
    return ch


def specular(ch, o):
    """Plane waves whose phase steps are fractions of a turn."""
    cos = [Fraction(rng.choice([-8, 8, 0, 4, -4, rng.randint(-8, 8)]), 8) for _ in range(2)]
    dist = [Fraction(rng.randint(0, 12), rng.choice([1, 2, 4, 3, 10])) for _ in range(2)]
    ang = [rng.choice([1, -1]) * math.acos(c) + 2 * math.pi * rng.choice([0, 0, 1, -3]) for c in cos]
    step = [(a * b) % 1 for a, b in zip(cos, dist)]              # transmit, receive
    n = step[0].denominator * step[1].denominator // math.gcd(step[0].denominator, step[1].denominator)
    ds = [float(d) for d in dist]
    neg = rng.random() < .15
    if neg:
        ds[rng.randrange(2)] = -rng.choice([1e-9, .5, 3])
    h, exc = attempt(ch.specular_compo, ang[0], ds[0], ang[1], ds[1])
    idx, off, mag = [], [], []
    for row in ([] if exc else np.asarray(h)):
        t = [cmath.phase(z) / (2 * math.pi) * n for z in row]
        idx.append([round(v) % n if math.isfinite(v) else NANV for v in t])
        off.append([fx(abs(v - round(v)), 1e6) if math.isfinite(v) else NANV for v in t])
        mag.append([fx(abs(z), 1e6) for z in row])
    emit('specular', o=o, n=n, st=int(step[0] * n), sr=int(step[1] * n), neg=neg, exc=exc, idx=idx, off=off, mag=mag, obs=look(ch, False))
    if not exc and rng.random() < .3:                            # what it is for: the mean of a Rician channel
        k = rng.choice([1, 4, 9])
        exc = attempt(ch.uncorr_rician_fading, h, k)[1]
        emit('rice', o=o, k=k, exc=exc, kf=fl(ch.k_factor), cplx=bool(ch.isComplex))
        play(o, ch, False, [dict(op='uray', cplx=rng.random() < .5)])


def play(o, ch, siso, ops):
    for op in ops:
        if op['op'] == 'prop':
            prop(ch, o, op, siso)
        elif op['op'] == 'specular':
            specular(ch, o)
        else:
            r0 = digest(recs(ch))
            exc = do(ch, op, siso)
            emit('call', o=o, call=op, exc=exc, obs=look(ch, siso), recsame=digest(recs(ch)) == r0)


UNITS = [[1, 0, 1], [0, 1, 1], [-1, 0, 1], [0, -1, 1], [3, 4, 5], [-4, 3, 5], [3, -4, 5], [4, 3, 5]]


def herm(n, cplx):
    """Unit diagonal positive semidefinite matrix of Gaussian integers over a denominator."""
    if n == 1 or rng.random() < .4:
        return [[[int(i == j), 0] for j in range(n)] for i in range(n)], 1
    if rng.random() < .25:                              # rank one
        a = [rng.choice([1, -1] + ([1j, -1j] if cplx else [])) for _ in range(n)]
        return [[[int((x * complex(y).conjugate()).real), int((x * complex(y).conjugate()).imag)] if cplx else [x * y, 0]
                 for y in a] for x in a], 1
    if n == 2:
        d = rng.choice([2, 3, 4])
        z = [rng.randint(-1, 1), rng.choice([-1, 1]) if cplx else 0]
        return [[[d, 0], z], [[z[0], -z[1]], [d, 0]]], d
    a = [rng.choice([1, -1]) for _ in range(n)]
    return [[[2 if i == j else a[i] * a[j], 0] for j in range(n)] for i in range(n)], 2


def rnd_setf(siso, ntx, nrx):
    cplx = rng.random() < .6
    N = ntx * nrx
    while True:
        d = rng.choice([1, 2, 3, 5, 7])
        base = [[[rng.randint(-2, 2), rng.randint(-2, 2) if cplx else 0] for _ in range(ntx)] for _ in range(nrx)]
        if rng.random() < .3:
            base = [[[0, 0]] * ntx for _ in range(nrx)]
        S = sum(z[0] ** 2 + z[1] ** 2 for r in base for z in r)
        if S <= N * d * d:
            break
    rt, td = herm(ntx, cplx)
    rr, rd = herm(nrx, cplx)
    if siso:
        rr, rd = [[[1, 0]]], 1
    k = N * d * d - S
    den = N * d * d
    if rng.random() < .2:                               # not normalised
        k += rng.choice([-1, 1, 2]) * max(1, den // 4)
        if k < 0 and not siso:
            k = 0 if S != N * d * d else den
    g = math.gcd(k, den) or 1
    k, den = k // g, den // g
    rt = [[[z[0] * k, z[1] * k] for z in r] for r in rt]
    return dict(op='setf', f=dict(base=base, sn=1, sd=d * d, cplx=cplx, rt=rt, rtd=td * den, rr=rr, rrd=rd))


def rnd_op(siso, ntx, nrx, ch):
    r = rng.random()
    if r < .25:
        return dict(op='prop', cplx=rng.random() < .5, len=rng.choice([1, 2, 3, 4, 5, 7, 9, 12] if rng.random() < .97 else [50, 71, 128, 300, 1100]))
    if r < .45:
        k = rng.choice(['db', 'lin'])
        sp, sq = rng.choice([(1, 1), (10, 1), (100, 1), (1, 10), (1, 100), (1000, 1)]) if k == 'db' else (rng.randint(1, 30), rng.randint(1, 30))
        rp, rq = rng.choice([(1, 1), (1, 2), (2, 3), (3, 4), (5, 6), (1, 3)])
        ep, eq = rng.choice([(1, 1), (2, 1), (5, 1), (10, 1), (1, 2), (7, 3)])
        return dict(op='snr', kind=k, sp=sp, sq=sq, rp=rp, rq=rq, ep=ep, eq=eq)
    if r < .5:
        return dict(op='std', p=rng.choice([0, 1, 1, 3, 5]), q=rng.choice([1, 2, 4, 10]))
    if siso or r < .65:
        return rnd_setf(siso, ntx, nrx)
    op = rng.choice(['uray', 'eray', 'urice', 'erice', 'eray'])
    if op == 'uray':
        return dict(op='uray', cplx=rng.random() < .5)
    res = dict(op=op)
    if op != 'urice':
        res.update(t=rng.choice(UNITS), r=rng.choice(UNITS), bt=rng.choice([0, 0, 1, 2]), br=rng.choice([0, 0, 1, 2]))
        x = rng.random()
        if x < .1:
            res['t'] = rng.choice([[1, 0, 2], [3, 3, 5], [1, 1, 1], [0, 0, 1]])
        elif x < .2:
            res['r'] = rng.choice([[1, 0, 2], [3, 3, 5], [1, 1, 1], [0, 0, 1]])
        elif x < .3:
            res[rng.choice(['bt', 'br'])] = rng.choice([-1, -3])
    if op != 'eray':
        c = rng.random() < .6
        base = [[[rng.randint(-3, 3), rng.randint(-3, 3) if c else 0] for _ in range(ntx)] for _ in range(nrx)]
        if rng.random() < .2:
            base = [[[1, 0]] * ntx for _ in range(nrx)]
        kn, kd = rng.choice([(1, 1), (3, 1), (10, 1), (1, 3), (2, 5), (0, 1)])
        res.update(base=base, cplx=c, kn=kn, kd=kd)
    return res


def energy(o):
    """Sample moments over many uses: noise power, mean gain, correlation of the gains."""
    siso = rng.random() < .3
    ntx, nrx = (1, 1) if siso else rng.choice([(1, 1), (2, 2), (2, 1), (1, 3), (3, 2), (1, 5), (5, 1), (4, 2), (1, 6)])
    ch = new(o, siso, ntx, nrx)
    ops = [rnd_op(siso, ntx, nrx, ch) for _ in range(6)]
    ops = [op for op in ops if op['op'] in ('setf', 'uray', 'eray', 'urice', 'erice')][-1:]
    ops.append(dict(op='snr', kind='lin', sp=rng.randint(1, 9), sq=rng.randint(1, 9), rp=1, rq=rng.choice([1, 2]), ep=rng.choice([1, 2, 5]), eq=1))
    play(o, ch, siso, ops)
    np.random.seed(rng.randrange(2 ** 32))
    n = 20000
    _, exc = attempt(ch.propagate, np.zeros(n * ntx))
    if exc or np.shape(ch.noises)[:1] != (n,):
        emit('energy', o=o, exc=exc or 'shape')
        return
    noi = np.asarray(ch.noises).reshape(n, nrx)
    g = np.asarray(ch.channel_gains).reshape(n, nrx, ntx)
    mean = g.mean(0)
    dev = (g - mean).reshape(n, nrx * ntx)
    cov = dev.T @ dev.conj() / n
    ncov = noi.T @ noi.conj() / n
    pw = float(np.real(np.trace(ncov))) / nrx
    emit('energy', o=o, npow=fl(pw), ncov=[[cfx(z / pw, 1000) for z in r] for r in ncov],
         mean=[[cfx(z, 1000) for z in r] for r in mean], cov=[[cfx(z, 1000) for z in r] for r in cov])


def histories():
    work = os.environ.get('VERIF_WORK', '')
    o = 0
    for name in sorted(os.listdir(work)) if work else []:
        if not name.startswith('MC_Channel_') or not name.endswith('.ndjson'):
            continue
        lines = open(os.path.join(work, name)).read().split('\n')
        for i, line in enumerate(lines):
            if not line or i % NSH != SHARD:
                continue
            if rng.random() > (1 if name == 'MC_Channel_siso.ndjson' else .2) * (1 if not THOROUGH else .12):
                continue
            b = json.loads(line)
            o += 1
            ch = new(o, b['siso'], b['ntx'], b['nrx'])
            play(o, ch, b['siso'], b['ops'])
    for _ in range(400 if THOROUGH else 40):
        o += 1
        siso = rng.random() < .4
        ntx, nrx = (1, 1) if siso else (rng.choice([1, 2, 2, 3, 3, 4, 5, 6]), rng.choice([1, 2, 2, 3, 3, 4, 5, 6]))
        std = rng.choice([None, None, (3, 2), (1, 10)])
        f = None
        if rng.random() < .4:
            f = rnd_setf(siso, ntx, nrx)['f']
        ch = new(o, siso, ntx, nrx, std, f)
        if ch is not None:
            ops = [rnd_op(siso, ntx, nrx, ch) for _ in range(12)]
            if PID == 'C19' and not siso:
                ops.insert(rng.randint(0, 12), dict(op='specular'))
                ops.insert(rng.randint(0, 12), dict(op='specular'))
            play(o, ch, siso, ops)
    if PID == 'C19':
        for _ in range(30 if THOROUGH else 5):
            o += 1
            energy(o)


def zero_draws(word):
    """Puts the global generator in a (legal) state whose next draws are all the same extreme number."""
    st = np.random.get_state()
    np.random.set_state((st[0], np.full(624, word, dtype=np.uint32), 0, 0, 0.0))


def untemper(y):
    """Mersenne Twister word whose output is y."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def discrete():
    def one(fn, name, mode):
        n = rng.choice([1, 2, 5, 30, 200, 200, 1100, 6000]) if mode != 'zero' else rng.choice([rng.randint(1, 40), 333, 1025, 9001])
        dt = rng.choice([int, int, float, np.int8]) if name == 'bec' else rng.choice([int, int, np.int8, np.uint8])
        x = np.array([rng.randint(0, 1) for _ in range(n)], dtype=dt)
        num, den = rng.choice([(0, 1), (1, 1), (1, 2), (1, 10), (9, 10), (1, 100)])
        if mode == 'zero':
            num, den = rng.choice([(0, 1), (1, 1)])
            zero_draws(rng.choice([0, untemper(0xffffffff)]))
        else:
            np.random.seed(rng.randrange(2 ** 32))
        p = num / den if rng.random() < .7 or den > 1 else num
        d = digest(x)
        xin = jis(x.astype(int))
        y, exc = attempt(fn, x, p)
        np.random.seed(rng.randrange(2 ** 32))
        emit(name, x=xin, p=[num, den], y=jis(y) if y is not None else [], unchanged=d == digest(x), exc=exc,
             own=y is not x and (y is None or not np.shares_memory(y, x)))

    for _ in range(300 if THOROUGH else 60):
        one(bec, 'bec', 'seed')
        one(bsc, 'bsc', 'seed')
    for _ in range(100 if THOROUGH else 20):
        one(bec, 'bec', 'zero')
        one(bsc, 'bsc', 'zero')
    # a long run: rate of corruption, and no dependence between positions
    for fn, name in ((bec, 'bec'), (bsc, 'bsc')):
        for num, den in ((1, 2), (1, 10), (3, 4)):
            np.random.seed(rng.randrange(2 ** 32))
            x = np.array([rng.randint(0, 1) for _ in range(20000)])
            y = fn(x, num / den)
            hit = y != x
            emit('rate', ch=name, p=[num, den], n=len(x), hits=ji(hit.sum()), pairs=ji((hit[1:] & hit[:-1]).sum()),
                 ones=ji((hit & (x == 1)).sum()), nones=ji((x == 1).sum()))


if PID == 'C21':
    discrete()
else:
    histories()
finish()
