"""C01 trellis tables, C02 encoding, C03 puncturing."""
from kit import *
import codes as cd
from commpy.channelcoding.convcode import Trellis, conv_encode, puncturing, depuncturing

rng = rng_for(PID, SHARD)


def catalogue(nrand, small=False):
    """Codes of this shard: its part of the standard ones and random ones."""
    res = [d for d in cd.STANDARD if mine()]
    tm = 4 if small else 6 if THOROUGH else 5
    for i in range(nrand):
        res.append(rng.choice([lambda: cd.rand_ff(rng, tm=tm), lambda: cd.rand_fb(rng, tm=tm),
                               lambda: cd.rand_ff(rng, k=1, tm=tm), lambda: cd.rand_sys_rsc(rng, tm=tm),
                               lambda: cd.rand_legacy(rng, tm=tm)])())
    return res


def c01():
    table, cases = [], []
    for d in catalogue(60 if THOROUGH else 14):
        table.append(d)
        cases.append(d)
    for _ in range(40 if THOROUGH else 6):
        d = rng.choice([lambda: cd.rand_fb(rng, controllable=False, rsc=rng.randint(0, 1)),
                        lambda: cd.rand_legacy(rng, rsc=0, nmax=4), lambda: cd.rand_fb(rng, k=2, tm=4),
                        lambda: cd.rand_fb(rng, k=3, tm=4), lambda: cd.rand_ff(rng, k=4, tm=4, nmax=5)])()
        table.append(d)
    same_ = []
    for _ in range(20 if THOROUGH else 4):
        d = rng.choice([cd.rand_ff, cd.rand_fb])(rng, tm=4, fmt='MSB')
        a = len(table)
        table += [d, cd.to_fmt(d, 'LSB'), cd.to_fmt(d, 'Matlab')]
        same_ += [(a, a + 1), (a, a + 2), (a + 1, a + 2)]
    emit('codes', codes=table)
    objs = []
    for i, d in enumerate(table):
        a, kw = cd.args(d)
        before = digest([a, kw])
        t, exc = attempt(Trellis, *a, **kw)
        objs.append(t)
        if exc:
            emit('trellis', code=i + 1, exc=exc)
            continue
        emit('trellis', code=i + 1, k=ji(t.k), n=ji(t.n), tm=ji(t.total_memory), S=ji(t.number_states),
             I=ji(t.number_inputs), nst=jis(t.next_state_table), out=jis(t.output_table),
             unchanged=before == digest([a, kw]))
    for a, b in same_:
        ok = objs[a] is not None and objs[b] is not None
        emit('same', code1=a + 1, code2=b + 1,
             equal=ok and jis(objs[a].next_state_table) == jis(objs[b].next_state_table)
             and jis(objs[a].output_table) == jis(objs[b].output_table))


def message(k, steps, kind):
    n = k * steps
    if kind == 0:
        return np.zeros(n, int)
    if kind == 1:
        m = np.zeros(n, int)
        if n:
            m[rng.randrange(n)] = 1
        return m
    if kind == 2:
        return np.ones(n, int)
    m = np.array([rng.randint(0, 1) for _ in range(n)], int)
    return m.astype(rng.choice([int, int, 'int8', 'int32']))


def c02():
    table = catalogue(40 if THOROUGH else 14) + [d for d in cd.WIDE if mine()]
    emit('codes', codes=table)
    for i, d in enumerate(table):
        t = cd.build(d)
        lens = [0, 1, 2, 3, rng.randint(4, 12), rng.randint(13, 40), rng.randint(41, 120)]
        if THOROUGH:
            lens += list(range(4, 20)) + [400]
        if i == SHARD % 4:
            lens.append(rng.choice([1500, 4500, 9000]) // t.n)
        for steps in lens:
            for term in ('term', 'cont', ''):
                if steps == 0 and term == 'cont':
                    continue
                msg = message(t.k, steps, rng.randrange(6))
                before = digest([msg, t.next_state_table, t.output_table])
                out, exc = attempt(conv_encode, msg, t, *([term] if term else []))
                emit('enc', code=i + 1, term=term or 'term', msg=jis(msg), out=jis(out), exc=exc,
                     unchanged=before == digest([msg, t.next_state_table, t.output_table]))


def rand_vec(n=None):
    n = n or rng.choice([1, 2, 3, 4, 4, 5, 6, 7, 8, 10, 18])
    v = [rng.randint(0, 1) for _ in range(n)]
    if rng.random() < .9 and not any(v):
        v[rng.randrange(n)] = 1
    return v


WIFI = [[1, 1], [1, 1, 0, 1], [1, 1, 1, 0], [1, 1, 1, 0, 0, 1], [1, 1, 1, 0, 0, 1, 1, 0, 0, 1], [1], [0], [0, 1], [1, 0]]


_values = {}


def vals(a):
    """Values as tokens: small integers stand for themselves, other reals for their place in a table."""
    def one(x):
        try:
            x = complex(x)
            x = x.real if x.imag == 0 else x
            if not isinstance(x, complex) and x == int(x) and abs(x) < 1 << 20:
                return int(x)
        except Exception:
            return NANV
        return (1 << 20) + _values.setdefault(x, len(_values))
    return [] if a is None else [one(x) for x in np.asarray(a).tolist()]


def reals(n):
    if n > 500:
        return np.arange(n) / 2 - 700
    return np.array([rng.choice([rng.uniform(-3, 3), rng.gauss(0, 1) * 10 ** rng.randint(-12, 9), rng.randint(-9, 9) / 2,
                                 0., rng.choice([1e-300, -1e300, 1 / 3, 123456.789])]) for _ in range(n)])


def c03():
    table = catalogue(10, small=True)
    emit('codes', codes=table)
    vecs = WIFI + [rand_vec() for _ in range(60 if THOROUGH else 16)]
    for v in vecs:
        for ln in sorted({0, 1, len(v) - 1, len(v), len(v) + 1, 2 * len(v), 2 * len(v) + 1, 3 * len(v) - 1,
                          rng.randint(1, 60), rng.randint(40, 150)} | ({5000 + 777 * SHARD} if v is vecs[-1] else set())):
            arr = np.array(v) if rng.random() < .8 else list(v)
            x = np.array([rng.randint(-9, 9) for _ in range(ln)]) if rng.random() < .5 else \
                np.array([rng.randint(0, 1) for _ in range(ln)])
            x = x.astype(rng.choice([int, float])) if rng.random() < .6 else reals(ln)
            before = digest([arr, x])
            y, exc = attempt(puncturing, x, arr)
            emit('punct', v=v, x=vals(x), y=vals(y), exc=exc, unchanged=before == digest([arr, x]))
            kept = sum(v[i % len(v)] for i in range(ln))
            r = np.array([rng.choice([-3, -2, -1, 1, 2, 3, 0]) for _ in range(kept)], float) \
                if rng.random() < .5 else reals(kept)
            before = digest([arr, r])
            z, exc = attempt(depuncturing, r, arr, ln)
            emit('depunct', v=v, y=vals(r), len=ln, x=vals(z), exc=exc, unchanged=before == digest([arr, r]))
    for d in table:
        t = cd.build(d)
        for j in range(6):
            v = rng.choice(WIFI + [rand_vec()])
            msg = message(t.k, rng.randint(1, 25) if j or d is not table[-1] else 10000 // t.n, rng.randrange(6))
            term = rng.choice(['term', 'cont'])
            full = conv_encode(msg, t, term)
            p = np.array([v])
            y, exc = attempt(conv_encode, msg, t, term, p)
            emit('encp', v=v, full=jis(full), y=jis(y), exc=exc)


{'C01': c01, 'C02': c02, 'C03': c03}[PID]()
finish()
