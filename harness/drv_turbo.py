"""C06 turbo codec."""
from kit import *
import codes as cd
from commpy.channelcoding.turbo import turbo_encode, turbo_decode, map_decode
from commpy.channelcoding.interleavers import RandInterlv

rng = rng_for(PID, SHARD)
LN2 = math.log(2)


def rsc(tm):
    return rng.choice([lambda: cd.rand_legacy(rng, tm=tm, n=2), lambda: cd.rand_legacy(rng, tm=tm, n=2),
                       lambda: next(d for d in iter(lambda: cd.rand_sys_rsc(rng, tm=tm), None) if d['n'] == 2)])()


def compose(s, p1, p2, t, nv, it, il, L):
    """The schedule of the specification, run with the library's component decoder."""
    L1 = np.zeros(len(s)) if L is None else L
    si = il.interlv(s)
    for _ in range(it):
        e1 = map_decode(s, p1, t, nv, L1, 'compute')[0] - L1
        L2 = il.interlv(e1)
        r = np.asarray(map_decode(si, p2, t, nv, L2, 'compute')[0])
        L1 = il.deinterlv(r - L2)
    return il.deinterlv(r)


def main():
    table = [rsc(4) for _ in range(24 if THOROUGH else 10)] + [rsc(2) for _ in range(6)]
    emit('codes', codes=table)
    objs = [cd.build(d) for d in table]
    for rep in range(120 if THOROUGH else 40):
        i = rng.randrange(len(table))
        j = i if rng.random() < .6 else rng.randrange(len(table))
        n = rng.choice([1, 2, 3, 4, 7, 10, rng.randint(11, 60)])
        il = RandInterlv(n, rng.randrange(2 ** 31))
        p = jis(il.interlv(np.arange(n)))
        msg = np.array([rng.randint(0, 1) for _ in range(n)])
        before = digest([msg, il.p_array])
        res, exc = attempt(turbo_encode, msg, objs[i], objs[j], il)
        s = [jis(x) for x in res] if not exc else [[], [], []]
        emit('tenc', code1=i + 1, code2=j + 1, p=p, msg=jis(msg), s1=s[0], s2=s[1], s3=s[2], exc=exc,
             unchanged=before == digest([msg, il.p_array]))
    for rep in range(40 if THOROUGH else 12):      # noiseless, streams from the specification's point of view
        i = rng.randrange(len(table))
        n = rng.choice([1, 2, 3, 5, 8, 16, 30])
        il = RandInterlv(n, rng.randrange(2 ** 31))
        msg = np.array([rng.randint(0, 1) for _ in range(n)])
        s = turbo_encode(msg, objs[i], objs[i], il)
        nv = rng.choice([.3, .1, .05, .01, .001])
        it = rng.choice([1, 2, 3, 5, 8])
        arr = [2.0 * np.asarray(x) - 1 for x in s]
        before = digest(arr)
        out, exc = attempt(turbo_decode, arr[0], arr[1], arr[2], objs[i], nv, it, il)
        emit('tnl', msg=jis(msg), out=jis(out), exc=exc, nv=fx(nv, 1000), iter=it, unchanged=before == digest(arr))
    made = 0
    for rep in range(400):                          # schedule: number of iterations matters for the decision
        if made >= (30 if THOROUGH else 10):
            break
        i = rng.randrange(len(table))
        n = rng.choice([4, 6, 10, 16, 24])
        il = RandInterlv(n, rng.randrange(2 ** 31))
        nv = rng.choice([.5, 1.0, 1.5])
        msg = np.array([rng.randint(0, 1) for _ in range(n)])
        s = turbo_encode(msg, objs[i], objs[i], il)
        arr = [2.0 * np.asarray(x) - 1 + np.array([rng.gauss(0, 1.1) for _ in range(n)]) for x in s]
        L = None if rng.random() < .5 else np.array([rng.gauss(0, 1) for _ in range(n)])
        it = rng.choice([1, 1, 2, 3, 4, 6, 10])
        res = [compose(*arr, objs[i], nv, k, il, L) for k in sorted({max(1, it - 1), it, it + 1})]
        ref = compose(*arr, objs[i], nv, it, il, L)
        if np.abs(ref).min() < 1e-3 or all(((r > 0) == (ref > 0)).all() for r in res) and rep % 8:
            continue
        made += 1
        before = digest([arr, L])
        kw = {} if L is None else dict(L_int=L)
        out, exc = attempt(turbo_decode, *arr, objs[i], nv, it, il, **kw)
        emit('tsch', out=jis(out), composed=[int(x > 0) for x in ref], exc=exc, iter=it, unchanged=before == digest([arr, L]))
    small = [i for i, d in enumerate(table) if sum(d['mem']) <= 2]
    for rep in range(16 if THOROUGH else 6):       # exact
        i = rng.choice(small)
        n = rng.choice([2, 3, 3, 4])
        it = 1 if n == 4 and not THOROUGH else rng.choice([1, 2, 2])
        il = RandInterlv(n, rng.randrange(2 ** 31))
        p = jis(il.interlv(np.arange(n)))
        a, b1, b2 = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(3)]
        lp = [rng.randint(-2, 2) for _ in range(n)] if rng.random() < .5 else [0] * n
        nv = rng.choice([.5, 1.0, 1.5])
        arr = [np.array([x * nv * LN2 / 2 for x in v]) for v in (a, b1, b2)]
        kw = dict(L_int=np.array(lp) * LN2) if any(lp) else {}
        before = digest([arr, kw])
        out, exc = attempt(turbo_decode, *arr, objs[i], nv, it, il, **kw)
        emit('tex', code1=i + 1, code2=i + 1, p=p, a=a, b1=b1, b2=b2, l=lp, iter=it, out=jis(out), exc=exc,
             unchanged=before == digest([arr, kw]))


main()
finish()
