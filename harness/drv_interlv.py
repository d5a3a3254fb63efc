"""C08 interleavers."""
from kit import *
import subprocess
from commpy.channelcoding.interleavers import RandInterlv

rng = rng_for(PID, SHARD)

REMOTE = '''
import sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
import numpy as np
from commpy.channelcoding.interleavers import RandInterlv
np.random.seed(%d)
np.random.rand(%d)
print(json.dumps([RandInterlv(n, s).interlv(np.arange(n)).tolist() for n, s in %r]))
'''


def code(z):
    """Values of any type as integers."""
    return [ji(v.real) + 1000 * ji(v.imag) for v in z] if z.dtype.kind == 'c' else jis(z.astype(int) if z.dtype.kind == 'b' else z)


def main():
    lens = [1, 2, 3, 5, 8, 17, 40, 64, rng.randint(3, 150)]
    keys = [(n, s) for n in lens for s in rng.sample([0, 1, 7, 42, 2 ** 32 - 1, rng.randrange(2 ** 32), rng.randrange(1000)], 3)]
    keys += [(40, s) for s in range(100, 106)]
    keys = list(dict.fromkeys(keys))
    emit('keys', keys=len(keys))
    objs = {}

    def use(k, il, op, style):
        n = keys[k][0]
        if style == 0:
            x = np.arange(n) + rng.randint(0, 5)
        elif style == 1:
            x = np.array([rng.randint(0, 1) for _ in range(n)])
        elif style == 2:
            x = np.array([float(rng.randint(-50, 50)) for _ in range(n)])
        elif style == 3:
            x = np.array([complex(rng.randint(0, 99), rng.randint(0, 99)) for _ in range(n)])
        elif style == 4:
            x = np.array([rng.random() < .5 for _ in range(n)])
        else:
            x = np.array([rng.randint(-100, 100) for _ in range(n)], 'int8')
        before = digest(x)
        y, exc = attempt(getattr(il, op), x)
        if exc:
            emit('use', k=k + 1, len=n, op=op, exc=exc)
            return None
        emit('use', k=k + 1, len=n, op=op, x=code(x), y=code(y), unchanged=before == digest(x), dtype=y.dtype == x.dtype)
        return y

    for rnd in range(6 if THOROUGH else 3):
        for k in range(len(keys)):
            n, s = keys[k]
            if rng.random() < .5:
                np.random.seed(rng.randrange(1000))
            st = digest(np.random.get_state()[1:3])
            il, exc = attempt(RandInterlv, n, s)
            if il is None:
                emit('use', k=k + 1, len=n, op='interlv', exc=exc)
                continue
            emit('global', same=st == digest(np.random.get_state()[1:3]))
            objs.setdefault(k, []).append(il)
            first = rng.choice(['interlv', 'deinterlv'])
            use(k, il, first, 0)
            for _ in range(4):
                kk = rng.choice(list(objs))
                y = use(kk, rng.choice(objs[kk]), rng.choice(['interlv', 'deinterlv']), rng.randrange(6))
                if y is not None and rng.random() < .3:
                    y[:] = 0            # what callers do to a result must not matter
                np.random.rand(rng.randint(0, 3))
    for n in [rng.randint(300, 5000)] + ([rng.choice([33000, 66000, 70001])] if SHARD % 4 == 0 or THOROUGH else []):
        s = rng.randrange(2 ** 32)
        x = np.arange(n)
        y, exc = attempt(lambda: RandInterlv(n, s).interlv(x))
        np.random.rand(3)
        w, exc2 = attempt(lambda: RandInterlv(n, s).interlv(x))
        z, exc3 = attempt(lambda: RandInterlv(n, s).deinterlv(y))
        emit('long', n=n, y=jis(y), same=bool(np.array_equal(y, w)), z=jis(z), exc=exc or exc2 or exc3)
    emit('seeds', ks=[k + 1 for k, (n, s) in enumerate(keys) if n == 40])
    sub = rng.sample(range(len(keys)), min(8, len(keys)))
    out = subprocess.run([sys.executable, '-c', REMOTE % (sys.path[0] if False else os.environ.get('VERIF_REPO', '/repo'),
                          rng.randrange(1000), rng.randrange(50), [keys[k] for k in sub])], stdout=subprocess.PIPE,
                         env=dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1000))))
    try:
        perms = json.loads(out.stdout.decode().splitlines()[-1])
    except Exception:
        perms = None
    for i, k in enumerate(sub):
        n = keys[k][0]
        if perms is None:
            emit('use', k=k + 1, len=n, op='interlv', exc='Subprocess')
        else:
            emit('use', k=k + 1, len=n, op='interlv', x=list(range(n)), y=perms[i], unchanged=True, dtype=True, remote=True)


main()
finish()
