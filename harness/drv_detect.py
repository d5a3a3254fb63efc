"""C17 hard MIMO detection, C18 soft MIMO detection."""
from kit import *
from commpy.modulation import mimo_ml, kbest, best_first_detector, bit_lvl_repr, max_log_approx, QAMModem, PSKModem

rng = rng_for(PID, SHARD)


def c2(z):
    z = complex(z)
    return [ji(z.real), ji(z.imag)]


def near_int(v):
    """LLR times 2 noise_var as an integer (tolerance for the square roots of the library)."""
    v = float(v)
    if math.isnan(v) or math.isinf(v):
        return ji(v)
    r = round(v)
    return ji(r) if abs(v - r) < 1e-6 * max(1, abs(r)) else NANV


def mat(a):
    return [[c2(z) for z in row] for row in a]


def gi(s, cpx=True):
    return complex(rng.randint(-s, s), rng.randint(-s, s) if cpx else 0)


QAM4, QAM16 = [-1 - 1j, -1 + 1j, 1 - 1j, 1 + 1j], None


def constellations():
    res = [[1, -1], [-1 - 1j, -1 + 1j, 1 - 1j, 1 + 1j], [1, 1j, -1j, -1], [-3, -1, 3, 1], [2, 1 + 1j], [0, 3, 1 + 2j, -2j]]
    res.append([complex(z) for z in QAMModem(16).constellation])
    res.append([complex(z) for z in QAMModem(4).constellation])
    return [[complex(z) for z in c] for c in res]


CONS = constellations()


def demoder(con):
    nb = int(math.log2(len(con)))
    arr = np.array(con) * SC[0]

    def demode(x):
        x = np.asarray(x).reshape(-1)
        idx = np.abs(x[:, None] - arr[None]).argmin(1)
        return np.array([int(v) >> (nb - 1 - i) & 1 for v in idx for i in range(nb)])
    return demode


def labels(x, con):
    res = []
    for z in np.asarray(x, complex).reshape(-1) / SC[0]:
        d = [abs(z - p) for p in con]
        i = int(np.argmin(d))
        res.append(i if d[i] < 1e-9 else -1)
    return res


def case(wide=False, minm=1, maxvec=300):
    while True:
        con = rng.choice(CONS)
        n = rng.choice([1, 2, 2, 3, 4])
        if len(con) ** n <= maxvec and n >= minm:
            break
    rx = n + rng.choice([0, 0, 1, 2])
    if wide:
        rx = max(1, n - 1)
    real = all(z.imag == 0 for z in con) and rng.random() < .3
    h = [[gi(3, not real) for _ in range(n)] for _ in range(rx)]
    if rng.random() < .3 and not wide:          # ill conditioned
        for r in h:
            r[-1] = r[0] if rng.random() < .8 else r[-1]
    x = [rng.choice(con) for _ in range(n)]
    s = rng.choice([0, 1, 3, 8])
    y = [sum(a * b for a, b in zip(r, x)) + gi(s, not real) for r in h]
    if rng.random() < .1:
        y = [gi(20, not real) for _ in h]
    if real:
        return con, n, [[z.real for z in r] for r in h], [z.real for z in y], [z.real for z in con]
    return con, n, h, y, (con if rng.random() < .8 or any(z.imag for z in con) else [z.real for z in con])


# The events carry Gaussian integers; the library sees them in units SC = (of the constellation, of the channel), powers of
# two, so that everything stays exact while the distances of the real run become tiny, huge or ordinary.
SC = [1., 1.]


def units():
    k = rng.random()
    SC[:] = [1., 1.] if k < .4 else [2. ** rng.choice([-10, -5, -2, 0, 2, 10]), 2. ** rng.choice([-12, -6, -3, 0, 3, 12])]
    return (SC[0] * SC[1]) ** 2


def narrow(a):
    """Small dyadic values in another floating type of the same kind, or as a Fortran or strided view."""
    k = rng.random()
    if k < .15:
        return a.astype(np.complex64 if np.iscomplexobj(a) else np.float32)
    if k < .3:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    return np.asfortranarray(a) if k < .4 else a


def arrs(y, h, con):
    return [np.array(y) * (SC[0] * SC[1]), np.array(h) * SC[1], narrow(np.array(con) * SC[0])]


def hard(det):
    wide = det == 'kbest' and rng.random() < .08
    units()
    con, n, h, y, cc = case(wide)
    if wide and n < 2:
        return
    ya, ha, ca = arrs(y, h, cc)
    before = digest([ya, ha, ca])
    if det == 'ml':
        x, exc = attempt(mimo_ml, ya, ha, ca)
    else:
        K = len(con) ** (n - 1) + rng.choice([0, 1, 5, 100])
        x, exc = attempt(kbest, ya, ha, ca, K)
    emit('hard', det=det, y=[c2(z) for z in y], h=mat(h), con=[c2(z) for z in con], exc=exc,
         x=labels(x, con) if x is not None else [], unchanged=before == digest([ya, ha, ca]))


def bestfirst(soft):
    u = units()
    con, n, h, y, cc = case(minm=2)
    ya, ha, ca = arrs(y, h, cc)
    big = 10 ** 6
    stack = tuple([big] * (n - 1))
    llr_max = rng.choice([.5, 5, 40, 1e4]) if soft else 1e6
    nv = rng.choice([.1, 1., 4.])
    before = digest([ya, ha, ca])
    r, exc = attempt(best_first_detector, ya, ha, ca, stack, nv * u, demoder(con), llr_max)
    emit('bfsoft' if soft else 'bfhard', y=[c2(z) for z in y], h=mat(h), con=[c2(z) for z in con], exc=exc,
         signs=[fx(np.sign(v), 1) for v in r] if r is not None else [],
         mag=[fx(abs(v), 1000) for v in r] if r is not None else [], llrmax=fx(llr_max, 1000) + 1,
         unchanged=before == digest([ya, ha, ca]))


def orth(rows, n):
    """Gaussian integer matrix with orthogonal columns of equal norm."""
    while True:
        if rows == 1:
            q = [[1]]
            base = 1
        elif rows == 2:
            q = rng.choice([[[1, 1], [1, -1]], [[1, 0], [0, 1]], [[2, 1], [1, -2]], [[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]])
        elif rows == 3:
            q = rng.choice([[[1, 2, 2], [2, 1, -2], [2, -2, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]])
        else:
            q = [[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]
        ph = [rng.choice([1, -1, 1j, -1j]) for _ in range(rows)]
        ph2 = [rng.choice([1, -1, 1j, -1j]) for _ in range(rows)]
        cols = rng.sample(range(rows), n)
        q = [[complex(ph[i] * q[i][c] * ph2[c]) for c in cols] for i in range(rows)]
        rng.shuffle(q)
        return q, int(sum(abs(r[0]) ** 2 for r in q) + .5)


def tree(typ):
    u = units()
    con = rng.choice(CONS)
    n = rng.choice([2, 2, 3, 4])
    rows = min(4, n + rng.choice([0, 0, 1]))
    q, c = orth(rows, n)
    r = [[gi(3) if j > i else (gi(2) or 1) if j == i else 0j for j in range(n)] for i in range(n)]
    for i in range(n):
        if r[i][i] == 0:
            r[i][i] = 1 + 0j
    h = [[sum(q[i][k] * r[k][j] for k in range(n)) for j in range(n)] for i in range(rows)]
    x = [rng.choice(con) for _ in range(n)]
    s = rng.choice([1, 3, 6, 12])
    y = [sum(a * b for a, b in zip(row, x)) + gi(s) for row in h]
    z = [sum(q[k][a].conjugate() * y[k] for k in range(rows)) for a in range(n)]
    K = rng.choice([1, 2, 3, 5, 8, 16])
    ya, ha, ca = arrs(y, h, con)
    before = digest([ya, ha, ca])
    nv = rng.choice([.25, .5, 1., 2.])
    if typ == 'hard':
        out, exc = attempt(kbest, ya, ha, ca, K)
        kw = dict(x=labels(out, con) if out is not None else [])
    else:
        out, exc = attempt(kbest, ya, ha, ca, K, nv * u, 'soft', demoder(con))
        kw = dict(llr=[near_int(v * 2 * nv) for v in out] if out is not None else [])
    emit('tree', type=typ, y=[c2(v) for v in y], h=mat(h), q=mat(q), r=mat(r), c=c, z=[c2(v) for v in z], K=K,
         con=[c2(v) for v in con], exc=exc, unchanged=before == digest([ya, ha, ca]), **kw)


def bitlvl():
    n, rx, b = rng.randint(1, 4), rng.randint(1, 4), rng.choice([2, 2, 4, 6, 1, 3])
    h = [[gi(5) for _ in range(n)] for _ in range(rx)]
    w = [gi(4) for _ in range(b)]
    ha, wa = np.array(h), np.array(w)
    before = digest([ha, wa])
    a, exc = attempt(bit_lvl_repr, ha, wa)
    emit('bitlvl', h=mat(h), w=[c2(v) for v in w], a=mat(a) if a is not None else [], exc=exc, unchanged=before == digest([ha, wa]))


def maxlog():
    u = units()
    con, n, h, y, cc = case()
    k = rng.choice([1, 2, 3, 5, 12]) if rng.random() < .96 else rng.choice([150, 400, 700])
    vecs = [[rng.randrange(len(con)) for _ in range(n)] for _ in range(k)]
    if rng.random() < .1:
        vecs = [vecs[0]] * k
    pts = narrow(np.array([[cc[v[i]] for v in vecs] for i in range(n)]) * SC[0])
    ya, ha, _ = arrs(y, h, cc)
    nv = rng.choice([.25, .5, 1., 2., .1, 3.])
    before = digest([ya, ha, pts])
    r, exc = attempt(max_log_approx, ya, ha, nv * u, pts, demoder(con))
    emit('maxlog', y=[c2(z) for z in y], h=mat(h), con=[c2(z) for z in con], vecs=vecs, exc=exc,
         llr=[near_int(v * 2 * nv) for v in r] if r is not None else [], unchanged=before == digest([ya, ha, pts]))


def ksoft():
    u = units()
    con, n, h, y, cc = case(maxvec=260)
    ya, ha, ca = arrs(y, h, cc)
    nv = rng.choice([.25, .5, 1., 2., .1])
    K = len(con) ** n + rng.choice([0, 1, 30])
    before = digest([ya, ha, ca])
    r, exc = attempt(kbest, ya, ha, ca, K, nv * u, 'soft', demoder(con))
    emit('ksoft', y=[c2(z) for z in y], h=mat(h), con=[c2(z) for z in con], exc=exc,
         llr=[near_int(v * 2 * nv) for v in r] if r is not None else [], unchanged=before == digest([ya, ha, ca]))


N = 5 if THOROUGH else 1
if PID == 'C17':
    for _ in range(60 * N):
        hard('ml')
        hard('kbest')
        tree('hard')
        if rng.random() < .5:
            bestfirst(False)
        if rng.random() < .5:
            bitlvl()
else:
    for _ in range(60 * N):
        maxlog()
        if rng.random() < .6:
            ksoft()
        tree('soft')
        bestfirst(True)
    for t in ('hrd', '', None):
        con, n, h, y, cc = case()
        _, exc = attempt(kbest, np.array(y), np.array(h), np.array(cc), 4, 1., t)
        emit('badtype', exc=exc)
finish()
