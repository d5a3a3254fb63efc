"""C25 802.11 simulation: what is put on the channel, and what is reported."""
from fractions import Fraction
from kit import *
from commpy.channels import SISOFlatChannel, MIMOFlatChannel
from commpy.wifi80211 import Wifi80211

rng = rng_for(PID, SHARD)
RATES = [(1, 2), (1, 2), (3, 4), (1, 2), (3, 4), (2, 3), (3, 4), (5, 6), (3, 4), (5, 6)]
PAT = {1: [1, 1], 2: [1, 1, 1, 0], 3: [1, 1, 1, 0, 0, 1], 5: [1, 1, 1, 0, 0, 1, 1, 0, 0, 1]}
G = (0o133, 0o171)


def encode(msg, num):
    """Words fed to the receiver (the specification checks that they are code words)."""
    reg, out, pat = 0, [], PAT[num]
    for s, u in enumerate(msg):
        reg = (reg >> 1) | (u << 6)
        for j in range(2):
            if pat[(2 * s + j) % len(pat)]:
                out.append(bin(reg & G[j]).count('1') & 1)
    return out


def recover(code, num):
    reg, pos, msg, pat = 0, 0, [], PAT[num]
    while pos < len(code):
        s = len(msg)
        for u in (0, 1):
            r = (reg >> 1) | (u << 6)
            o = [bin(r & G[j]).count('1') & 1 for j in range(2) if pat[(2 * s + j) % len(pat)]]
            if code[pos:pos + len(o)] == o:
                reg, pos = r, pos + len(o)
                msg.append(u)
                break
        else:
            return None
    return msg


class Recorder:
    def __init__(self, mcs, snrs, pts, es, inject, maxsend):
        self.mcs, self.snrs, self.pts, self.es, self.inject, self.n, self.maxsend = mcs, snrs, pts, es, inject, 0, maxsend
        self.nb = int(math.log2(len(pts)))

    def sent(self, symbs):
        self.n += 1
        if self.n > self.maxsend:
            raise RuntimeError('too many transmissions')
        symbs = np.asarray(symbs).reshape(-1)
        d = np.abs(symbs[:, None] - self.pts[None])
        lab = d.argmin(1)
        labels = [int(v) if d[i, v] < 1e-9 else -1 for i, v in enumerate(lab)]
        self.word = []
        if self.inject:
            num = RATES[self.mcs][0]
            bits = [v >> (self.nb - 1 - k) & 1 for v in labels for k in range(self.nb)]
            msg = recover(bits, num)
            if msg:
                ne = rng.choice([0, 0, 1, 2, 3, 10])
                for p in rng.sample(range(len(msg)), min(ne, len(msg))):
                    msg[p] ^= 1
                self.word = encode(msg, num)
            else:
                self.word = bits
        self.at = 0
        emit('tx', point=self.point, labels=labels, llr=self.word)

    def receive(self, y, h, constellation, noise_var):
        n = len(y) * self.nb if self.siso else self.nb * self.ntx
        w = self.word[self.at:self.at + n]
        self.at += n
        a = rng.choice([1., 4., 20.])
        return np.array([a if b else -a for b in w])


def run():
    mcs = rng.randrange(10)
    num, den = RATES[mcs]
    inject = rng.random() < .6
    mimo = inject and rng.random() < .4
    ntx = rng.choice([1, 2, 3]) if mimo else 1
    w = Wifi80211(mcs)
    modem, exc = attempt(w.get_modem)
    if exc:
        emit('wifi', mcs=mcs, pts=[], ntx=1, npoints=1, limit=1, errmin=0, req=1, per=1, stop=True)
        emit('end', exc=exc, ber=[], be=[], ce=[], nc=[])
        return
    pts = np.array(modem.constellation)
    npoints = rng.choice([1, 1, 2, 3])
    snrs = rng.sample([40, 60, 100, 30.5, 50], npoints)
    if rng.random() < .2:
        snrs = [rng.choice(snrs) for _ in snrs]
    if mcs >= 8:
        snrs = [s + 30 for s in snrs]
    limit, errmin, per = rng.randint(1, 3), rng.choice([0, 1, 3, 8]), rng.choice([1, 1, 2, 3])
    stop = rng.random() < .6
    req = rng.choice([1, 6, 20, 37, 60, 120] + ([400] if THOROUGH else []))
    rec = Recorder(mcs, snrs, pts, float(modem.Es), inject, npoints * limit + 3)
    rec.siso, rec.ntx = not mimo, ntx
    base = MIMOFlatChannel if mimo else SISOFlatChannel

    class Chan(base):
        def propagate(self, msg):
            std = self.noise_std
            rec.point = [i + 1 for i, v in enumerate(levels) if std is not None and abs(float(std) - v) <= 1e-9 * v]
            rec.sent(msg)
            return super().propagate(msg)
    if mimo:
        ch = Chan(ntx, rng.randint(1, 3))
        ch.uncorr_rayleigh_fading(complex)
    else:
        ch = Chan(fading_param=(1 + 0j, 0))
    levels = []                                 # the noise of each point, set up by hand on a channel of this kind
    for v in snrs:
        hand = base(ch.nb_tx, ch.nb_rx) if mimo else base(fading_param=(1 + 0j, 0))
        if mimo:
            hand.uncorr_rayleigh_fading(complex)
        hand.set_SNR_dB(v, RATES[mcs][0] / RATES[mcs][1], float(modem.Es))
        levels.append(float(hand.noise_std))
    emit('wifi', mcs=mcs, pts=[[fx(z.real, 1000), fx(z.imag, 1000)] for z in pts], ntx=ntx, npoints=npoints, limit=limit, errmin=errmin,
         req=req, per=per, stop=stop)
    kw = dict(send_chunk=req)
    if per > 1 or rng.random() < .5:
        kw['frame_aggregation'] = per
    if inject:
        kw['receiver'] = lambda y, h, constellation, noise_var: rec.receive(y, h, constellation, noise_var)
    if not stop or rng.random() < .5:
        kw['stop_on_surpass_error'] = stop
    res, exc = attempt(w.link_performance, ch, snrs, limit, errmin, limit=120, **kw)
    if exc:
        emit('end', exc=exc, ber=[], be=[], ce=[], nc=[])
    else:
        emit('end', ber=[fl(b) for b in res[0]], be=jis(res[1]), ce=jis(res[2]), nc=jis(res[3]))


for _ in range(250 if THOROUGH else 10):
    run()
finish()
