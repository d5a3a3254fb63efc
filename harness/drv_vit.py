"""C04 maximum likelihood, C05 inversion of the encoder."""
from kit import *
import codes as cd
from commpy.channelcoding.convcode import Trellis, conv_encode, viterbi_decode

rng = rng_for(PID, SHARD)
SCALE = 4
HARD = ['int64', 'int64', 'int8', 'uint8', 'bool', 'float64']
TYPES = ['hard', 'soft', 'unquantized']


def catalogue(nrand, tm):
    res = [d for d in cd.STANDARD if mine()]
    while nrand:
        d = rng.choice([lambda: cd.rand_ff(rng, tm=tm, nmax=3), lambda: cd.rand_fb(rng, tm=tm, nmax=3),
                        lambda: cd.rand_ff(rng, k=1, tm=tm), lambda: cd.rand_sys_rsc(rng, tm=tm),
                        lambda: cd.rand_legacy(rng, tm=tm), lambda: cd.rand_ff(rng, k=2, tm=tm)])()
        if PID == 'C05' and not cd.delay_free(d):
            continue
        res.append(d)
        nrand -= 1
    return res


def total_steps(t, L):
    return max(int((L + t.total_memory) // t.k), L // t.k + 1) - 1


def received(typ, word, scale):
    """A received version of a word: several corruption styles; integers in units of 1 (hard) or 1 / scale."""
    style = rng.randrange(6)
    n = len(word)
    if typ != 'hard' and scale > SCALE:      # close decisions: fine values
        amp = scale // rng.choice([1, 4, 50, 200] if scale < 5000 else [1, 30, 10000])
        if style < 2:
            return [rng.randint(-amp, amp) for _ in range(n)]
        return [int(round((2 * b - 1) * amp + rng.gauss(0, .8 * amp))) for b in word]
    if typ == 'hard':
        if style == 0:
            return [rng.randint(0, 1) for _ in range(n)]
        p = [0, .05, .1, .2, .3][style - 1]
        return [b ^ (rng.random() < p) for b in word]
    amp = rng.choice([4, 8, 40]) if typ == 'soft' else 4
    if style == 0:
        return [rng.randint(-3 * amp, 3 * amp) for _ in range(n)]
    if style == 1:
        return [rng.choice([0, 0, 1, -1]) * amp for _ in range(n)]
    if style == 2 and typ == 'soft':
        return [(2 * b - 1) * rng.choice([1, 400, 499, 500, 501, 800, 20000]) * SCALE // rng.choice([1, 1, 2]) *
                rng.choice([1, 1, 1, 1, -1, 0]) for b in word]
    sigma = rng.choice([1, 2, 3]) * amp / 3
    return [int(round((2 * b - 1) * amp + rng.gauss(0, sigma))) for b in word]


def balanced(word, other, scale):
    """Loud values that leave two words almost equally likely: their weights differ by a few units of 1 / scale."""
    r = [int((2 * b - 1) * rng.uniform(4, 14) * scale) for b in word]
    diff = [i for i, (a, b) in enumerate(zip(word, other)) if a != b]
    if len(diff) < 2:
        return r
    rng.shuffle(diff)
    acc = 0
    for q, i in enumerate(diff):
        s = 2 * word[i] - 1
        left = len(diff) - q - 1
        v = rng.choice([-1, 1, 2, 3]) - acc if not left else int(rng.uniform(6, 12) * scale) * (1 if acc <= 0 else -1)
        acc += v
        r[i] = s * v
    return r


def c04():
    table = catalogue(30 if THOROUGH else 10, 4)
    emit('codes', codes=table)
    for i, d in enumerate(table):
        t = cd.build(d)
        tm, k, n = int(t.total_memory), t.k, t.n
        for typ in TYPES:
            for rep in range((3 if tm > 4 else 10) * (3 if THOROUGH else 1)):
                tbd = 0
                if rep % 2 == 0:     # the default depth covers short words
                    cap = max(s for s in range(1, 200) if s == 1 or total_steps(t, s * k) < 5 * tm)
                    steps = rng.randint(1, cap)
                    if total_steps(t, steps * k) >= 5 * tm:
                        continue
                else:
                    steps = rng.randint(1, 8 if tm > 4 else 14 if not THOROUGH else 30)
                    tbd = total_steps(t, steps * k) + 1 + rng.choice([0, 0, 0, 1, 5])
                msg = np.array([rng.randint(0, 1) for _ in range(steps * k)])
                word = [int(b) for b in conv_encode(msg, t, 'cont')]
                scale = rng.choice([SCALE, SCALE, 1000, 4096, 1 << 20])
                r = received(typ, word, scale)
                if scale == 1 << 20 and typ != 'hard' and len(word) <= 45 and rng.random() < .7:
                    msg[rng.randrange(len(msg))] ^= 1
                    r = balanced(word, [int(b) for b in conv_encode(msg, t, 'cont')], scale)
                arr = np.array(r, rng.choice(HARD)) if typ == 'hard' else np.array(r) / scale
                before = digest([arr, t.next_state_table, t.output_table])
                kw = {} if typ == 'hard' and rng.random() < .5 else dict(decoding_type=typ)
                if tbd:
                    kw['tb_depth'] = tbd
                out, exc = attempt(viterbi_decode, arr, t, **kw)
                emit('ml', code=i + 1, type=typ, scale=1 if typ == 'hard' else scale, tbd=tbd, r=r, out=jis(out), exc=exc,
                     unchanged=before == digest([arr, t.next_state_table, t.output_table]))


def c05():
    table = catalogue(24 if THOROUGH else 8, 4) + [d for d in cd.WIDE[:1] if mine() and cd.delay_free(d)]
    emit('codes', codes=table)
    for i, d in enumerate(table):
        t = cd.build(d)
        tm, k, n = int(t.total_memory), t.k, t.n
        big = tm > 4
        lens = [1, 2, 3, rng.randint(4, 9), rng.randint(10, 30)] + ([] if big else [rng.randint(30, 60)])
        if THOROUGH:
            lens += [4, 5, 6, 7] + ([] if big else [150])
        if n > 8:
            lens, big = [2, 5, 9, rng.randint(10, 20)], True
        sep = cd.unmerged(d, 60)
        for steps in lens:
            for typ in TYPES if not big else [rng.choice(TYPES)]:
                for term in ['term', 'cont']:
                    if term == 'cont' and typ != 'soft':
                        continue
                    msg = np.array([rng.randint(0, 1) for _ in range(steps * k)])
                    sent = conv_encode(msg, t, term)
                    D0 = 5 * tm
                    tbd = rng.choice([0, D0, D0 + 1, D0 + rng.randint(2, 40)])
                    L = len(sent) // n * k
                    T = total_steps(t, L)
                    tail = tm if d['rsc'] else max(d['mem'])
                    nerrs = {0}
                    if term == 'term' and typ != 'soft':
                        w = min(sep[-1][1], sep[min(60, (tbd or D0) - 1)][0], sep[min(60, tail + 1 + T - L // k)][0])
                        nmax = (w - 1) // 2
                        if nmax > 0:
                            nerrs |= {nmax, rng.randint(1, nmax)}
                    for nerr in sorted(nerrs):
                        rx = sent.copy()
                        if rng.random() < .5:
                            pos_ = rng.sample(range(len(rx)), min(nerr, len(rx)))
                        else:        # a burst
                            a = rng.randrange(len(rx))
                            pos_ = [p for p in range(a, min(len(rx), a + 2 * n + nerr))]
                            rng.shuffle(pos_)
                            pos_ = pos_[:nerr]
                        for p in pos_:
                            rx[p] ^= 1
                        if typ == 'soft':
                            arr = (2.0 * rx - 1) * rng.choice([1, 5, 100, 1000])
                        elif typ == 'unquantized':
                            arr = 2.0 * rx - 1
                        else:
                            arr = rx.astype(rng.choice(HARD))
                        before = digest(arr)
                        kw = dict(tb_depth=tbd) if tbd else {}
                        out, exc = attempt(viterbi_decode, arr, t, decoding_type=typ, **kw)
                        emit('inv', code=i + 1, type=typ, tbd=tbd, term=term, msg=jis(msg), sent=jis(sent),
                             nerr=len(pos_), errors=pos_, out=jis(out), exc=exc, unchanged=before == digest(arr))


{'C04': c04, 'C05': c05}[PID]()
finish()
