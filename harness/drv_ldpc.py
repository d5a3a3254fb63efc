"""C12 design files and graph tables, C13 systematic encoding, C14 belief propagation."""
from kit import *
import tempfile
from commpy.channelcoding import ldpc
from commpy.channelcoding.ldpc import (get_ldpc_code_params, ldpc_bp_decode, write_ldpc_params,
                                       triang_ldpc_systematic_encode)

rng = rng_for(PID, SHARD)
DIR = tempfile.mkdtemp(prefix='ldpc-', dir=os.environ.get('VERIF_WORK', '/tmp'))
DESIGNS = os.path.join(os.path.dirname(ldpc.__file__), 'designs', 'ldpc')
LN2 = math.log(2)


class Graph:
    def __init__(self, h, tri):
        self.h, self.m, self.n, self.tri = h, len(h), len(h[0]), tri
        self.k = self.n - self.m
        self.rows = [[v for v in range(self.n) if r[v]] for r in h]
        self.cols = [[] for _ in range(self.n)]
        for c, r in enumerate(self.rows):
            for i, v in enumerate(r):
                self.cols[v].append((c, i))

    def json(self):
        return dict(n=self.n, rows=[[v + 1 for v in r] for r in self.rows],
                    cols=[[[c + 1, i + 1] for c, i in col] for col in self.cols])

    def file(self, path):
        """The documented format, lists in any order."""
        def line(x):
            x = list(x)
            rng.shuffle(x)
            return '\t'.join(str(v + 1) for v in x) + '\n'
        with open(path, 'w') as f:
            f.write('%d %d\n%d %d\n' % (self.n, self.m, max(map(len, self.cols)), max(map(len, self.rows))))
            f.write(''.join('%d ' % len(c) for c in self.cols) + '\n')
            f.write(''.join('%d ' % len(r) for r in self.rows) + '\n')
            for col in self.cols:
                f.write(line(c for c, _ in col))
            for r in self.rows:
                f.write(line(r))
            f.write('\n')

    def codewords(self):
        """A random codeword (Gaussian elimination)."""
        if not hasattr(self, 'basis'):
            rows = [sum(1 << v for v in r) for r in self.rows]
            piv = {}
            for r in rows:
                for p in sorted(piv, reverse=True):
                    if r >> p & 1:
                        r ^= piv[p]
                if r:
                    p = r.bit_length() - 1
                    for q in piv:
                        if piv[q] >> p & 1:
                            piv[q] ^= r
                    piv[p] = r
            self.basis = []
            for v in range(self.n):
                if v not in piv:
                    w = 1 << v
                    for p, r in piv.items():
                        if r >> v & 1:
                            w |= 1 << p
                    self.basis.append(w)
        w = 0
        for b in self.basis:
            if rng.random() < .5:
                w ^= b
        return [w >> v & 1 for v in range(self.n)]


def rand_tri(m, k, dens):
    while True:
        h = [[int(rng.random() < dens) for _ in range(k)] + [0] * m for _ in range(m)]
        up = rng.random() < .5
        for c in range(m):
            h[c][k + c] = 1
            for d in range(m):
                if (d > c if up else d < c) and rng.random() < dens:
                    h[c][k + d] = 1
        if all(sum(r) >= 2 for r in h) and all(any(r[v] for r in h) for v in range(m + k)):
            return Graph(h, True)


def rand_inv(m, k):
    """Dense; the last columns are triangular up to the order of the rows."""
    g = rand_tri(m, k, .5)
    h = g.h[:]
    if rng.random() < .5:
        rng.shuffle(h)
    return Graph(h, True)


def rand_any(m, n, dens):
    h = [[int(rng.random() < dens) for _ in range(n)] for _ in range(m)]
    for v in range(n):
        if not any(r[v] for r in h):
            rng.choice(h)[v] = 1
    for r in h:
        while sum(r) < 2:
            r[rng.randrange(n)] = 1
    return Graph(h, False)


def shipped(name, tri):
    """Independent reading of a shipped file (from its check lists)."""
    lines = open(os.path.join(DESIGNS, name)).read().split('\n')
    n, m = map(int, lines[0].split())
    h = [[0] * n for _ in range(m)]
    for c in range(m):
        for v in lines[4 + n + c].split():
            h[c][int(v) - 1] = 1
    return Graph(h, tri)


SHIPPED = [('wimax/960.720.a.txt', True), ('wimax/1440.720.txt', True), ('gallager/96.3.963.txt', False), ('gallager/96.33.964.txt', False)]


def params_event(path, gi, g, pid, matrix):
    p, exc = attempt(get_ldpc_code_params, path, matrix, limit=100)
    if exc:
        emit('params', g=gi, path=pid, exc=exc)
        return None
    kw = {}
    if matrix:
        h = p['parity_check_matrix']
        h = h.toarray() if hasattr(h, 'toarray') else np.asarray(h)
        kw['h'] = [[v for v in range(h.shape[1]) if h[c, v] == 1] + [NANV for v in range(h.shape[1]) if h[c, v] not in (0, 1)] for c in range(h.shape[0])]
        gm = p['generator_matrix']
        gm = gm.toarray() if hasattr(gm, 'toarray') else np.asarray(gm)
        js = list(range(g.k)) if g.k < 20 else rng.sample(range(g.k), 12)
        kw['gcols'] = [dict(j=j + 1, col=jis(gm[:, j])) for j in js]
    emit('params', g=gi, path=pid, n_vnodes=ji(p['n_vnodes']), n_cnodes=ji(p['n_cnodes']), max_cnode_deg=ji(p['max_cnode_deg']),
         max_vnode_deg=ji(p['max_vnode_deg']), cnode_adj=jis(p['cnode_adj_list']), vnode_adj=jis(p['vnode_adj_list']),
         cv_map=jis(p['cnode_vnode_map']), vc_map=jis(p['vnode_cnode_map']), cnode_deg=jis(p['cnode_deg_list']),
         vnode_deg=jis(p['vnode_deg_list']), **kw)
    return p


def get(g, i, matrix):
    path = os.path.join(DIR, 'g%d-%d' % (i, rng.randrange(10 ** 9)))
    g.file(path)
    p = get_ldpc_code_params(path, matrix)
    if not g.tri and rng.random() < .5:
        import scipy.sparse as sp
        p['parity_check_matrix'] = sp.csc_matrix(np.array(g.h, np.int8))
    return p


def design():
    gs = [(rand_tri(rng.randint(2, 7), rng.randint(1, 7), rng.choice([.2, .4, .7])) if rng.random() < .5 else
           rand_any(rng.randint(1, 7), rng.randint(2, 12), rng.choice([.2, .4, .7]))) for _ in range(60 if THOROUGH else 24)]
    gs += [rand_tri(25, 30, .08), rand_inv(rng.randint(18, 40), rng.randint(5, 30)), rand_any(rng.randint(130, 150), 160, .02)]
    ship = SHIPPED[SHARD % len(SHIPPED)] if SHARD < 4 or THOROUGH else None
    if ship:
        gs.append(shipped(*ship))
    emit('graphs', graphs=[g.json() for g in gs])
    for i, g in enumerate(gs):
        if ship and i == len(gs) - 1:
            params_event(os.path.join(DESIGNS, ship[0]), i + 1, g, 'shipped', ship[1])
            continue
        path = os.path.join(DIR, 'own%d' % i)
        g.file(path)
        params_event(path, i + 1, g, 'own%d' % i, g.tri and rng.random() < .7)
        path = os.path.join(DIR, 'lib%d' % i)
        h = np.array(g.h, rng.choice(['int64', 'int32', 'int8']))
        if g.n > 100:
            h = h.astype(int)
        before = digest(h)
        _, exc = attempt(write_ldpc_params, h, path)
        lines = [[int(t) for t in l.split()] for l in open(path).read().split('\n')] if not exc else []
        emit('write', g=i + 1, path='lib%d' % i, exc=exc, lines=lines, unchanged=before == digest(h))
    for i in rng.sample(range(len(gs)), len(gs)):           # read back, in another order, some of them twice
        for _ in range(rng.choice([1, 1, 2])):
            path = os.path.join(DIR, 'lib%d' % i)
            if os.path.exists(path):
                params_event(path, i + 1, gs[i], 'lib%d' % i, gs[i].tri and rng.random() < .5)


def encode():
    gs = [rand_tri(rng.randint(2, 9), rng.randint(1, 9), rng.choice([.2, .4, .6])) for _ in range(12)]
    gs += [rand_tri(25, 30, .08), rand_inv(rng.randint(18, 32), rng.randint(5, 30)), rand_inv(rng.randint(32, 60), 10)]
    ship = SHIPPED[SHARD % 2]
    gs.append(shipped(*ship))
    emit('graphs', graphs=[g.json() for g in gs])
    ps = []
    for i, g in enumerate(gs):
        ps.append(get_ldpc_code_params(os.path.join(DESIGNS, ship[0]), False) if i == len(gs) - 1 else get(g, i, rng.random() < .5))
    for _ in range(600 if THOROUGH else 120):
        i = rng.randrange(len(gs)) if rng.random() < .95 else len(gs) - 1
        g = gs[i]
        nb = rng.choice([1, 1, 2, 3, 5])
        ln = nb * g.k + rng.choice([0, 0, 0, rng.randint(1, max(1, g.k - 1))])
        if g.n > 500 and nb > 2:
            continue
        mode = rng.random()
        msg = [rng.randint(0, 1) for _ in range(ln)] if mode < .8 else ([1] * ln if mode < .9 else [0] * ln)
        x = np.array(msg, rng.choice(['int64', 'int32', 'int8', 'uint8', 'float64']))
        pad = rng.random() < .7
        before = digest(x)
        if rng.random() < .1 and i != len(gs) - 1:
            ps[i] = get(g, i, rng.random() < .5)
        r, exc = attempt(triang_ldpc_systematic_encode, x, ps[i], pad) if not (pad and rng.random() < .5) else attempt(triang_ldpc_systematic_encode, x, ps[i])
        if exc:
            emit('enc', g=i + 1, msg=msg, pad=pad, exc=exc)
        else:
            emit('enc', g=i + 1, msg=msg, pad=pad, shape=list(r.shape), words=jis(r.T) if r.ndim == 2 else [jis(r)],
                 unchanged=before == digest(x))


def bp_call(gs, ps, i, alg, mode, blocks, iters):
    scale = {'exact': 4, 'erase': 1}.get(mode)
    x = np.array([v for b in blocks for v in b], float)
    ints = [[(k if scale is None else ji(v * scale)) for k, v in zip(kb, b)] for kb, b in zip(blocks_k(blocks, mode), blocks)]
    r, exc = attempt(ldpc_bp_decode, x, ps[i], alg, iters, limit=100)
    if exc:
        return emit('bp', g=i + 1, alg=alg, mode=mode, iters=iters, llr=ints, exc=exc)
    dec, out = r
    cols = lambda a: [a[:, j] for j in range(a.shape[1])] if a.ndim == 2 else [a]
    if mode == 'odds':
        o = [[fl(math.exp(v)) if abs(v) < 600 else fl(float('nan')) for v in c.tolist()] for c in cols(out)]
    else:
        o = [jis(c * scale) if mode == 'exact' else [fx(np.sign(v), 1) for v in c] for c in cols(out)]
    emit('bp', g=i + 1, alg=alg, mode=mode, iters=iters, llr=ints, dec=[jis(c) for c in cols(dec)], out=o,
         shape=list(dec.shape) if dec.shape == out.shape else [0])


def blocks_k(blocks, mode):
    return [[int(round(v / LN2)) if mode == 'odds' else 0 for v in b] for b in blocks]


def bp():
    gs = [rand_any(2, 4, .6)]
    while len(gs) < 12:
        m = rng.randint(2, 5)
        g = rand_any(m, m + rng.randint(1, 5), rng.choice([.3, .4])) if rng.random() < .6 else rand_tri(m, rng.randint(1, 5), .4)
        if max(map(len, g.cols)) <= 4:
            gs.append(g)
    small = len(gs)
    for _ in range(3):                              # columns of one or two ones: messages stay small for many iterations
        m, n = rng.randint(3, 6), rng.randint(6, 12)
        h = [[0] * n for _ in range(m)]
        for v in range(n):
            for c in rng.sample(range(m), rng.choice([1, 2, 2, 2])):
                h[c][v] = 1
        for c in range(m):
            for v in rng.sample(range(n), n):
                if sum(h[c]) < 2 and sum(r[v] for r in h) < 2:
                    h[c][v] = 1
        if all(sum(r) >= 2 for r in h):
            gs.append(Graph(h, False))
    long = range(small, len(gs))
    ship = SHIPPED[SHARD % 4]
    gs.append(shipped(*ship))
    emit('graphs', graphs=[g.json() for g in gs])
    ps = []
    for i, g in enumerate(gs[:-1]):
        ps.append(get(g, i, g.tri and rng.random() < .5))
    p = get_ldpc_code_params(os.path.join(DESIGNS, ship[0]), ship[1])
    if not ship[1] and rng.random() < .5:
        import scipy.sparse as sp
        p['parity_check_matrix'] = sp.csc_matrix(np.array(gs[-1].h, np.int8))
    ps.append(p)

    def noisy(g, amp, levels):
        w = g.codewords()
        res = []
        for b in w:
            v = (1 - 2 * b) * rng.choice(levels)
            if rng.random() < amp:
                v = -v
            res.append(v)
        return res

    for _ in range(700 if THOROUGH else 110):
        i = rng.randrange(small)
        g = gs[i]
        nb = rng.choice([1, 1, 1, 2, 3, 4])
        lev = rng.choice([[1., 2., 3.], [.25, .5, 1., 1.75, 8.], [0., 1., 2.], [500., 600., 3.], [1e6, 100., 7.25], [float('inf'), 1.]])
        bl = []
        for _ in range(nb):
            b = noisy(g, rng.choice([0, .1, .3, .5]), lev)
            bl.append([v + 0. if v else 0. for v in b])
        bp_call(gs, ps, i, 'MSA', 'exact', bl, rng.choice([0, 1, 1, 2, 3, 5, 7]))
    for _ in range(300 if THOROUGH else 60):
        i = rng.randrange(small)
        g = gs[i]
        bl = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            b = noisy(g, rng.choice([0, .1, .3, .5]), rng.choice([[1, 2, 3], [1], [1, 2, 0], [2, 5]]))
            bl.append([v * LN2 if v else 0. for v in b])
        bp_call(gs, ps, i, 'SPA', 'odds', bl, rng.choice([0, 1, 1, 2, 2, 3]))
    for _ in range(300 if THOROUGH else 60):
        i = rng.randrange(small)
        g = gs[i]
        bl = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            p = rng.choice([0, .2, .4, .7, 1.])
            bl.append([0. if rng.random() < p else (1 - 2 * b) * 500. for b in g.codewords()])
        for alg, mode in (('SPA', 'erase'), ('MSA', 'erase')):
            bp_call(gs, ps, i, alg, mode, bl, rng.choice([0, 1, 2, 4, 8]))
    for i in long:                                  # many iterations that do not end early, many blocks
        bl = [noisy(gs[i], .5, [1., 2., 3., .25]) for _ in range(rng.choice([1, 2, 9, 20]))]
        bp_call(gs, ps, i, 'MSA', 'exact', bl, rng.choice([15, 25, 40, 60]))
    for _ in range(6):
        i = rng.randrange(small)
        x = [float(rng.choice([-3, -1, 2, 5])) for _ in range(gs[i].n)]
        it = rng.choice([0, 1, 3, 10])
        _, exc = attempt(ldpc_bp_decode, np.array(x), ps[i], rng.choice(['BP', 'spa', '', 'MSA ', 'MS', 'SP', 'Viterbi']), it)
        emit('badalg', g=i + 1, llr=[int(v) for v in x], iters=it, exc=exc)
    g = gs[-1]
    for alg, mode in (('SPA', 'erase'), ('MSA', 'erase'), ('MSA', 'exact')):
        bl = []
        for _ in range(2):
            if mode == 'exact':
                bl.append(noisy(g, .03, [1., 2., 3.5]))
            else:
                bl.append([0. if rng.random() < .12 else (1 - 2 * b) * 500. for b in g.codewords()])
        bp_call(gs, ps, len(gs) - 1, alg, mode, bl, 4)


{'C12': design, 'C13': encode, 'C14': bp}[PID]()
finish()
