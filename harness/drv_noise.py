"""C32 noise and fading samples."""
from kit import *
from commpy.channels import SISOFlatChannel, MIMOFlatChannel, awgn

rng = rng_for(PID, SHARD)
USES = 24000 if THOROUGH else 8000
UNITS_ = [(1 << i, 1) for i in range(14)] + [(1, 1 << i) for i in range(1, 12)]


def unit(var):
    """Recording unit (a power of two) that makes the standard deviation 35 to 70 units."""
    return list(min(UNITS_, key=lambda u: abs(math.log(50 * u[1] / u[0] / math.sqrt(var))))) if var else [1, 1]


def zs(a, u):
    a = np.asarray(a)
    s = u[0] / u[1]
    return [[fx(x.real, s), fx(x.imag, s)] for x in a.astype(complex).tolist()]


def fprint(a):
    return digest([np.asarray(a)])


class Magnitudes:
    """Magnitudes of all real and imaginary parts of a run: continuous draws never repeat."""
    def __init__(self):
        self.seen = set()

    def fresh(self, a):
        a = np.asarray(a).ravel()
        m = np.abs(np.concatenate([a.real, a.imag]) if np.iscomplexobj(a) else a).tolist()
        n = len(self.seen)
        self.seen.update(m)
        return len(self.seen) == n + len(m)


def calls():
    """Sizes of the transmissions of a run."""
    left = USES
    while left:
        n = min(left, rng.choice([1, 7, 50, 100, 400, 1000]))
        yield n
        left -= n


def run_awgn():
    cplx = rng.random() < .6
    if cplx:
        vals = rng.choice([[1, -1, 1j, -1j], [1 + 1j, -1 - 1j, 3 + 1j, 3 - 3j], [2, 0, 1j]])
    else:
        vals = rng.choice([[1, -1], [-3, -1, 1, 3], [0, 5, 1]])
    sp, sq = rng.choice([(1, 1), (10, 1), (1, 10), (100, 1), (2, 1), (3, 7), (1, 2), (50, 1)])
    rp, rq = rng.choice([(1, 1), (1, 2), (2, 3), (3, 4), (1, 3)])
    E = sum(abs(v) ** 2 for v in vals)
    en, ed = int(round(E)), len(vals)
    var = en / ed * rq / rp * sq / sp / (2 if cplx else 1)
    u = unit(var)
    emit('begin', kind='awgn', cplx=cplx, energy=[en, ed], rate=[rp, rq], snr=[sp, sq], un=u, ug=[1, 1])
    mags, gmags = Magnitudes(), Magnitudes()
    for n in calls():
        n += -n % len(vals)
        m = vals * (n // len(vals))
        rng.shuffle(m)
        x = np.array(m, dtype=complex if cplx else rng.choice([float, int]))
        d = digest(x)
        a = [10 * math.log10(sp / sq)] + ([rp / rq] if rp != rq or rng.random() < .5 else [])
        y, exc = attempt(awgn, x, *a)
        if exc or np.shape(y) != (n,):
            emit('batch', exc=exc, uses=n, noise=[], gains=[], fp=0, distinct=True, unchanged=True, real=True)
            continue
        w = y - x
        emit('batch', uses=n, noise=[zs(w, u)], gains=[], fp=fprint(np.round(w[:1], 9)) if var else rng.randrange(1 << 30),
             distinct=mags.fresh(w), unchanged=d == digest(x), real=not np.iscomplexobj(y))
    emit('end')


def diag_ops(siso, ntx, nrx):
    """Calls after which means are rational: what the specification needs to centre the gains."""
    cplx = rng.random() < .6
    N = ntx * nrx
    r = rng.random()
    if not siso and r < .2:
        ops = [dict(op='uray', cplx=cplx)]
    elif not siso and r < .65:
        ts = [[1, 0, 1], [0, 1, 1], [3, 4, 5], [-4, 3, 5], [0, -1, 1], [4, -3, 5]]
        cplx = True
        ops = [dict(op='eray', t=rng.choice(ts), r=rng.choice(ts), bt=rng.choice([0, 1, 2]), br=rng.choice([0, 1, 2]))]
    else:
        while True:
            d = rng.choice([1, 2, 3, 5])
            base = [[[rng.randint(-2, 2), rng.randint(-2, 2) if cplx else 0] for _ in range(ntx)] for _ in range(nrx)]
            S = sum(z[0] ** 2 + z[1] ** 2 for row in base for z in row)
            if S <= N * d * d:
                break
        k, den = N * d * d - S, N * d * d
        g = math.gcd(k, den)
        k, den = k // g, den // g
        rt = [[[k if i == j else 0, 0] for j in range(ntx)] for i in range(ntx)]
        rr = [[[int(i == j), 0] for j in range(nrx)] for i in range(nrx)]
        ops = [dict(op='setf', f=dict(base=base, sn=1, sd=d * d, cplx=cplx, rt=rt, rtd=den, rr=rr, rrd=1))]
    return ops, cplx


def apply(ch, op, siso):
    if op['op'] == 'uray':
        ch.uncorr_rayleigh_fading(complex if op['cplx'] else float)
    elif op['op'] == 'eray':
        c = [complex(t[0], t[1]) / t[2] for t in (op['t'], op['r'])]
        ch.expo_corr_rayleigh_fading(c[0], c[1], op['bt'] * math.log(2), op['br'] * math.log(2))
    elif op['op'] == 'setf':
        f = op['f']
        base = np.array([[complex(*z) for z in r] for r in f['base']]) / math.sqrt(f['sd'])
        rt = np.array([[z[0] for z in r] for r in f['rt']]) / f['rtd']
        base = base if f['cplx'] else base.real
        ch.fading_param = (base[0, 0] if f['cplx'] else float(base[0, 0]), float(rt[0, 0])) if siso else \
            (base, rt, np.array([[z[0] for z in r] for r in f['rr']], float))
    elif op['op'] == 'snr':
        ch.set_SNR_lin(op['sp'] / op['sq'], op['rp'] / op['rq'], op['ep'] / op['eq'])
    else:
        ch.noise_std = op['p'] / op['q']


def run_channel():
    siso = rng.random() < .3
    ntx, nrx = (1, 1) if siso else rng.choice([(1, 1), (2, 2), (2, 1), (1, 2), (1, 3), (3, 2), (3, 1), (2, 3)])
    ch = SISOFlatChannel() if siso else MIMOFlatChannel(ntx, nrx)
    ops, cplx = diag_ops(siso, ntx, nrx)
    if rng.random() < .3:                            # configured twice
        more, cplx = diag_ops(siso, ntx, nrx)
        ops += more
    if rng.random() < .6:
        s = dict(op='snr', kind='lin', sp=rng.choice([1, 2, 10, 100]), sq=rng.choice([1, 3]), rp=1, rq=rng.choice([1, 2]),
                 ep=rng.choice([1, 2, 5]), eq=1)
        var = (2 if cplx else 1) * ntx * s['ep'] * s['rq'] * s['sq'] / s['sp']
    else:
        s = dict(op='std', p=rng.choice([1, 3, 1, 0]), q=rng.choice([1, 2, 10]))
        var = (s['p'] / s['q']) ** 2
    raw = ops[-1]['op'] == 'uray'                    # zero mean and no correlation: the gains are the draws
    ops.append(s)
    for op in ops:
        exc = attempt(apply, ch, op, siso)[1]
        if exc:
            emit('crash', exc=exc, where=op['op'])
            finish()
            sys.exit(0)
    u = unit(var / (4 if cplx else 1))
    ug = [64, 1]
    emit('begin', kind='chan', siso=siso, ntx=ntx, nrx=nrx, ops=ops, un=u, ug=ug)
    mags, gmags = Magnitudes(), Magnitudes()
    for n in calls():
        if siso or ntx == 1 or rng.random() < .5:
            m = n * ntx
        else:
            m = n * ntx - rng.randint(0, ntx - 1)      # the last vector padded
        x = np.array([complex(rng.choice([1, -1]), rng.choice([1, -1])) for _ in range(m)]) if cplx else \
            np.array([float(rng.choice([1, -1])) for _ in range(m)])
        d = digest(x)
        y, exc = attempt(ch.propagate, x)
        w, g = ch.noises, ch.channel_gains
        if not exc and (np.size(w) != n * nrx or np.size(g) != n * nrx * ntx):
            exc = 'shape'
        if exc:
            emit('batch', exc=exc, uses=n, noise=[], gains=[], fp=0, distinct=True, unchanged=True, real=True)
            continue
        w, g = np.asarray(w).reshape(n, nrx), np.asarray(g).reshape(n, nrx * ntx)
        emit('batch', uses=n, noise=[zs(w[:, k], u) for k in range(nrx)], gains=[zs(g[:, k], ug) for k in range(nrx * ntx)],
             fp=fprint(w[0]) if var else rng.randrange(1 << 30), distinct=(not var or mags.fresh(w)) and (not raw or gmags.fresh(g)),
             unchanged=d == digest(x), real=not np.iscomplexobj(y))
    emit('end')


np.random.seed(rng.randrange(2 ** 32))
for _ in range(12 if THOROUGH else 4):
    run_awgn()
    run_channel()
    run_channel()
finish()
