"""C07 MAP decoding."""
from kit import *
import codes as cd
from commpy.channelcoding.turbo import map_decode

rng = rng_for(PID, SHARD)
LN2 = math.log(2)


def c07():
    table = [d for d in cd.STANDARD if d['k'] == 1 and d['n'] == 2 and sum(d['mem']) <= 4 and mine()]
    for _ in range(20 if THOROUGH else 7):
        table.append(rng.choice([lambda: cd.rand_legacy(rng, tm=3, n=2), lambda: cd.rand_legacy(rng, tm=3, n=2, rsc=0),
                                 lambda: cd.rand_ff(rng, k=1, nmax=2, tm=3), lambda: cd.rand_fb(rng, k=1, nmax=2, tm=3)])())
    emit('codes', codes=table)
    for i, d in enumerate(table):
        t = cd.build(d)
        for rep in range(12 if THOROUGH else 5):
            n = rng.choice([1, 2, 3, 5, 8, 10 if not THOROUGH else 20])
            amp = rng.choice([1, 3, 6, 12])
            a = [rng.randint(-amp, amp) for _ in range(n)]
            b = [rng.randint(-amp, amp) for _ in range(n)]
            pm = rng.choice([0, 0, 1, 4, 10])
            p = [rng.randint(-pm, pm) for _ in range(n)]
            if rng.random() < .1:
                a, b = [0] * n, [0] * n
            nv = rng.choice([1.0, 0.5, 0.1, 2.0, rng.uniform(.05, 4), 10 ** rng.uniform(-3, 3)])
            sys_ = np.array([x * nv * LN2 / 2 for x in a])
            par = np.array([x * nv * LN2 / 2 for x in b])
            L = np.array([x * LN2 for x in p])
            before = digest([sys_, par, L])
            r1, exc = attempt(map_decode, sys_, par, t, nv, L, 'decode')
            r2, exc2 = attempt(map_decode, sys_, par, t, nv, L, 'compute')
            if exc or exc2:
                emit('map', code=i + 1, a=a, b=b, p=p, exc=exc or exc2)
                continue
            llr = np.asarray(r1[0], float)
            llr2 = np.asarray(r2[0], float)
            emit('map', code=i + 1, a=a, b=b, p=p, odds=[fl(np.exp(x)) for x in llr], odds2=[fl(np.exp(x)) for x in llr2],
                 samellr=llr.shape == llr2.shape and bool(np.allclose(llr, llr2, rtol=1e-12, atol=1e-12)), positive=[int(x > 0) for x in llr], bits=jis(r1[1]),
                 unchanged=before == digest([sys_, par, L]))


c07()
finish()
