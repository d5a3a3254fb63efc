"""C22, C23 link simulations; C24 iterative detection and decoding."""
from fractions import Fraction
from kit import *
from commpy.channels import SISOFlatChannel, MIMOFlatChannel
from commpy.links import LinkModel, link_performance, idd_decoder

rng = rng_for(PID, SHARD)
FULL = PID == 'C23'


class TooMany(Exception):
    pass


class Stub:
    """Every callback of a link; the errors of each send come from the history."""

    def __init__(self, req):
        self.r = req
        self.nmod = self.nprop = self.nsend = 0
        self.rx, self.rxargs, self.decin, self.decargs, self.propok = [], True, True, True, True
        self.msg = self.symbs = None
        self.at = []

    def modulate(self, bits):
        self.nmod += 1
        self.msg = np.array(bits)
        n = len(bits)
        r = self.r
        self.ncoded = n * r['rate'][1] // r['rate'][0]
        nsym = -(-self.ncoded // r['nbs'])
        self.symbs = np.array([rng.randint(-9, 9) + .5 for _ in range(nsym)], dtype=rng.choice([float, complex]) if r['cplx'] else float)
        self.sent = self.symbs.copy()
        return self.symbs

    def propagated(self, out, gains, msg):
        self.nprop += 1
        self.propok = self.propok and same(np.asarray(msg), self.sent)
        self.out, self.gains = out, gains
        self.rx, self.recv = [], []

    def receive(self, y, h, constellation, noise_var):
        r = self.r
        ok = constellation is r['con'] or same(constellation, r['con'])
        ok = ok and abs(float(noise_var) - float(self.chan.noise_std) ** 2) <= 1e-12 * float(noise_var)
        if r['mimo']:
            idx = [i + 1 for i in range(len(self.out)) if same(np.asarray(y), self.out[i])]
            jdx = [i + 1 for i in range(len(self.out)) if same(np.asarray(h), self.gains[i])]
            i = idx[0] if idx else -1
            ok = ok and bool(idx) and idx == jdx
            n = r['vec']
        else:
            i = 0
            ok = ok and same(np.asarray(y), self.out) and same(np.asarray(h), self.gains)
            n = self.ncoded
        self.rx.append(i)
        self.rxargs = self.rxargs and bool(ok)
        if r['nodec']:                            # the received bits are the decoded ones
            if not self.recv:
                self.plain, self.pos = self.wrong(list(self.msg))
            res = [int(b) for b in self.plain[len(self.recv):len(self.recv) + n]]
            self.recv += res
            if len(self.recv) == len(self.msg):
                self.report(self.pos)
            return np.array(res)
        res = [rng.randint(-99, 99) + .25 for _ in range(n)] if r['soft'] else [rng.randint(0, 1) for _ in range(n)]
        self.recv += res
        return np.array(res)

    def wrong(self, msg):
        """The next errors of the history."""
        r = self.r
        hist = r['hist']
        k = self.nsend
        self.nsend += 1
        if self.nsend > r['maxsend']:
            raise TooMany()
        errs = hist[k] if k < len(hist) else [0] * r['per']
        chunk = len(msg) // r['per']
        pos = []
        for c, e in enumerate(errs):
            pos += sorted(c * chunk + p for p in rng.sample(range(chunk), min(e, chunk)))
        dec = np.array(msg)
        dec[pos] ^= 1
        return dec, pos

    def report(self, pos):
        emit('send', len=len(self.msg), at=self.at, bits=bool(np.all((self.msg == 0) | (self.msg == 1))), nmod=self.nmod, nprop=self.nprop,
             propok=bool(self.propok), rx=self.rx, rxargs=self.rxargs, decin=bool(self.decin), decargs=bool(self.decargs),
             pos=[p + 1 for p in pos])
        self.nmod = self.nprop = 0
        self.rx, self.rxargs, self.propok = [], True, True

    def decide(self, received):
        self.decin = len(received) == len(self.recv) and all(float(a) == float(b) for a, b in zip(received, self.recv))
        dec, pos = self.wrong(self.msg)
        extra = rng.choice([0, 0, 1, 7])
        dec = np.hstack((dec, np.array([rng.randint(0, 1) for _ in range(extra)], dtype=dec.dtype)))
        dec = dec.astype(rng.choice([int, float, np.int8, bool]))
        self.report(pos)
        return dec

    def decoder1(self, msg):
        return self.decide(msg)

    def decoder6(self, y, h, constellation, noise_var, received, bits):
        self.decargs = (same(np.asarray(y), self.out) and same(np.asarray(h), self.gains) and
                        same(constellation, self.r['con']) and int(bits) == self.r['vec'] and
                        abs(float(noise_var) - float(self.chan.noise_std) ** 2) <= 1e-12 * float(noise_var))
        return self.decide(received)


def base_channel(r):
    if r['mimo']:
        ch = MIMOFlatChannel(r['ntx'], r['nrx'])
        if r['cplx']:
            ch.uncorr_rayleigh_fading(complex)
        return ch
    return SISOFlatChannel(fading_param=(0j, 1) if r['cplx'] else (0, 1))


def noise_levels(r):
    """The noise standard deviation a channel of this kind has at each point, set up by hand."""
    res = []
    for s in r['snrs']:
        ch = base_channel(r)
        ch.set_SNR_dB(s, float(Fraction(*r['rate'])), r['es'])
        res.append(float(ch.noise_std))
    return res


def make_channel(stub):
    r = stub.r
    stub.levels = noise_levels(r)

    class Siso(SISOFlatChannel):
        def propagate(self, msg):
            std = self.noise_std
            out = super().propagate(msg)
            stub.at = [i + 1 for i, v in enumerate(stub.levels) if std is not None and abs(float(std) - v) <= 1e-9 * v]
            stub.propagated(out, self.channel_gains, msg)
            return out

    class Mimo(MIMOFlatChannel):
        def propagate(self, msg):
            std = self.noise_std
            out = super().propagate(msg)
            stub.at = [i + 1 for i, v in enumerate(stub.levels) if std is not None and abs(float(std) - v) <= 1e-9 * v]
            stub.propagated(out, self.channel_gains, msg)
            return out
    if r['mimo']:
        ch = Mimo(r['ntx'], r['nrx'])
        if r['cplx']:
            ch.uncorr_rayleigh_fading(complex)
    else:
        ch = Siso(fading_param=(0j, 1) if r['cplx'] else (0, 1))
    stub.chan = ch
    return ch


def case(cfg, hist):
    """One run: the geometry is free, the limits come from the model (in units of one frame of 4)."""
    mimo = rng.random() < .5
    ntx = rng.randint(1, 4) if mimo else 1
    nbs = rng.choice([1, 2, 4, 6])
    rate = rng.choice([(1, 1), (1, 1), (1, 2), (2, 3), (3, 4), (5, 6), (1, 3), (7, 10), (2, 5)])
    vec = nbs * ntx
    unit = Fraction(vec * rate[0], 1) / math.gcd(vec * rate[0], rate[1])
    unit = int(unit)
    mult = rng.choice([1, 1, 2, 3])
    while unit * mult < 4:
        mult += 1
    chunk = unit * mult                       # what the model calls a frame of 4
    req = chunk + rng.randint(0, unit - 1)
    limit = cfg['limit'] if cfg['full'] else max(1, cfg['limit'] * chunk // 4)
    if rng.random() < .1 and not cfg['full'] and unit >= 4:
        req = rng.randint(1, unit)            # less than one unit is rounded up
        chunk = unit
        limit = max(1, cfg['limit'] * chunk // 4)
    if rng.random() < .1 and not cfg['full'] and cfg['errmin'] >= unit and cfg['errmin'] // unit * unit == chunk:
        req = None
    n = cfg['npoints']
    snrs = rng.sample([-5, 0, 3, 10, 12.5, 20, 30], n)
    if rng.random() < .2:                     # a point may come again
        snrs = [rng.choice(snrs) for _ in snrs]
    if rng.random() < .2:
        snrs = sorted(snrs)
    r = dict(mimo=mimo, ntx=ntx, nrx=rng.randint(1, 4) if mimo else 1, nbs=nbs, vec=vec, rate=rate, snrs=snrs, es=rng.choice([1, 2, 10.]),
             per=cfg['per'], hist=hist, maxsend=len(hist) + 6 if len(hist) < 40 else 500, cplx=rng.random() < .5, soft=rng.random() < .5,
             nodec=rate == (1, 1) and rng.random() < .2, con=np.array([rng.randint(-9, 9) + 0j for _ in range(2 ** nbs)]))
    stub = Stub(r)
    ch = make_channel(stub)
    dec = lambda msg: stub.decoder1(msg)
    if rng.random() < .4:
        dec = lambda y, h, constellation, noise_var, msg, bits_per_send: stub.decoder6(y, h, constellation, noise_var, msg, bits_per_send)
    if r['nodec']:
        dec = None
    fr = Fraction(*rate)
    kw = {}
    if rng.random() < .3:
        kw['rate'] = rng.choice([fr, float(fr), Fraction(1, 2)])
    a = [r['es'], dec]
    if dec is None and (r['es'] == 1 or rng.random() < .5):
        a = a[:rng.choice([0, 1]) if r['es'] == 1 else 1]
    model = LinkModel(stub.modulate, ch, stub.receive, nbs, r['con'], *a, **kw)
    snr_arg = rng.choice([np.array(snrs), list(snrs), np.array(snrs, dtype=float)])
    d0 = digest([snr_arg, r['con']])
    emit('run', full=cfg['full'], npoints=n, limit=limit, errmin=cfg['errmin'], req=req if req is not None else cfg['errmin'], vec=vec,
         rate=list(rate), per=cfg['per'], stop=cfg['stop'], mimo=mimo)
    crate = fr if rng.random() < .5 or rate == (1, 1) else float(fr)
    if cfg['full']:
        a = dict(send_chunk=req, code_rate=crate, number_chunks_per_send=cfg['per'], stop_on_surpass_error=cfg['stop'])
        if rate == (1, 1) and rng.random() < .5:
            del a['code_rate']
        if cfg['per'] == 1 and rng.random() < .5:
            del a['number_chunks_per_send']
        if cfg['stop'] and rng.random() < .5:
            del a['stop_on_surpass_error']
        res, exc = attempt(model.link_performance_full_metrics, snr_arg, limit, cfg['errmin'], **a)
        kw = dict(ber=[], be=[], ce=[], nc=[], kept=False)
        if not exc:
            kw = dict(ber=[fl(b) for b in res[0]], be=jis(res[1]), ce=jis(res[2]), nc=jis(res[3]),
                      kept=same(list(model.full_simulation_results), list(res)))
    else:
        a = dict(send_chunk=req, code_rate=crate)
        if rate == (1, 1):
            a['code_rate'] = rng.choice([1, Fraction(1, 1), 1.])
            if rng.random() < .5:
                del a['code_rate']
        if req is None and rng.random() < .5:
            del a['send_chunk']
        if rng.random() < .5:
            res, exc = attempt(model.link_performance, snr_arg, limit, cfg['errmin'], **a)
        else:
            res, exc = attempt(link_performance, model, snr_arg, limit, cfg['errmin'], **a)
        kw = dict(ber=[fl(b) for b in res] if not exc else [])
    emit('end', exc=exc, unchanged=d0 == digest([snr_arg, r['con']]), **kw)


def links():
    name = os.path.join(os.environ['VERIF_WORK'], 'MC_Link_%s.ndjson' % ('full' if FULL else 'ber'))
    lines = open(name).read().split('\n')
    want = (6000 if FULL else 8000) if THOROUGH else 260
    mine_ = [x for i, x in enumerate(lines) if x and i % NSH == SHARD]
    if len(mine_) > want:
        mine_ = rng.sample(mine_, want)
    for line in mine_:
        b = json.loads(line)
        case(b['cfg'], b['errs'])
    for _ in range(400 if THOROUGH else 30):       # longer runs, many errors
        per = rng.choice([1, 2, 3, 4, 5, rng.randint(6, 20)]) if FULL else 1
        cfg = dict(full=FULL, npoints=rng.randint(1, 6), limit=rng.randint(1, 8) if FULL else rng.randint(1, 60),
                   errmin=rng.randint(0 if FULL else 1, 20), per=per, stop=rng.random() < .6)
        hist = [[rng.choice([0, 0, 1, 2, 3, 4]) for _ in range(per)] for _ in range(40)]
        case(cfg, hist)


class Iddstub:
    pass


def idd_case():
    nvect, nrx, ntx, bps = rng.randint(1, 4) if rng.random() < .95 else rng.randint(15, 70), rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 6)
    nit = rng.choice([1, 1, 2, 3, 4, 7, rng.randint(8, 40) if nvect < 5 else 2])
    n = nvect * bps
    y = np.array([[rng.randint(-9, 9) + 1j * k + 100 * (i + 1) for k in range(nrx)] for i in range(nvect)])
    h = np.array([[[rng.randint(-9, 9) + 1j * k + 1000 * (i + 1) for k in range(ntx)] for _ in range(nrx)] for i in range(nvect)])
    con = np.array([1., -1.])
    nv = rng.choice([.5, 2., .1])
    llr = np.array([float(rng.randint(-50, 50)) for _ in range(n)])
    lazy = rng.random() < .2
    frozen = rng.random() < .3

    def ints():
        return np.array([float(rng.randint(-50, 50)) for _ in range(n)])
    kept = ints()
    seen = dict(n=0, inp=[])

    def decoder(x):
        i = jis(x)
        out = x if lazy else kept if frozen else ints()      # returning the very input or a shared array must not matter
        emit('idec', **{'in': i}, out=jis(out))
        return out

    def detector(yy, hh, c, v, ap):
        i = [k + 1 for k in range(nvect) if same(np.asarray(yy), y[k])]
        j = [k + 1 for k in range(nvect) if same(np.asarray(hh), h[k])]
        inp = jis(ap)
        out = ap if lazy and rng.random() < .3 else np.array([float(rng.randint(-50, 50)) for _ in range(bps)])
        emit('idet', y=i[0] if i else -1, h=j[0] if j else -1, args=same(np.asarray(c), con) and float(v) == nv, out=jis(out), **{'in': inp})
        return out
    result = np.array([rng.randint(0, 1) for _ in range(n)])

    def decision(x):
        seen['n'] += 1
        seen['inp'] = jis(x)
        return result
    d0 = digest([y, h, con, llr, kept])
    emit('istart', llr=jis(llr), nit=nit, nvect=nvect, bps=bps)
    fn, exc = attempt(idd_decoder, detector, decoder, decision, nit)
    if not exc:
        if rng.random() < .5:
            res, exc = attempt(fn, y, h, con, nv, llr, bps)
        else:                                               # the produced decoder can be used again
            res, exc = attempt(fn, y, h, con, nv, llr, bps)
            if not exc:
                emit('iend', exc=exc, ndec=seen['n'], retok=same(res, result), unchanged=d0 == digest([y, h, con, llr, kept]), **{'in': seen['inp']})
                seen['n'] = 0
                llr = ints()
                d0 = digest([y, h, con, llr, kept])
                emit('istart', llr=jis(llr), nit=nit, nvect=nvect, bps=bps)
                res, exc = attempt(fn, y, h, con, nv, llr, bps)
    emit('iend', exc=exc, ndec=seen['n'], retok=not exc and same(res, result), unchanged=d0 == digest([y, h, con, llr, kept]), **{'in': seen['inp']})


if PID == 'C24':
    for _ in range(3000 if THOROUGH else 250):
        idd_case()
else:
    links()
finish()
