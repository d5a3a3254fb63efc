"""Common part of the drivers: run the real library, record events as ndjson."""
import json
import math
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
warnings.simplefilter('ignore')
import numpy as np  # noqa: E402

np.seterr(all='ignore')

PID, TIER = sys.argv[1], sys.argv[2]
SEED, SHARD, NSH = int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
OUT = open(sys.argv[6], 'w')
THOROUGH = TIER == 'thorough'
NANV, PINF, NINF = 2147483647, 2147483646, -2147483646
BIG = 2147483000


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))       # runaway allocations end as MemoryError
signal.signal(signal.SIGALRM, _alarm)
_DEADLINE = time.time() + (400 if TIER == 'quick' else 2800)
signal.alarm(int(_DEADLINE - time.time()))
_REPO = os.environ.get('VERIF_REPO', '/repo') + '/'


def _crash(tp, val, tb):
    """An exception of the library where the driver expects none is an event of its own, and so is a result of the library
    that the driver cannot read (not the type, the shape or the attributes it has to have); others are machinery."""
    inside, caller = issubclass(tp, (ImportError, MemoryError, AttributeError, TypeError, ValueError, LookupError, ArithmeticError)), ''
    where = ''
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(_REPO):
            inside, where = True, '%s:%s' % (fr.filename[len(_REPO):], fr.name)
        elif 'harness' in fr.filename:
            caller = '%s:%d' % (os.path.basename(fr.filename), fr.lineno)
    if inside:
        OUT.write(json.dumps(dict(ev='crash', exc=tp.__name__, where=where, caller=caller, msg=str(val)[:200])) + '\n')
        OUT.close()
        os._exit(0)
    traceback.print_exception(tp, val, tb)


sys.excepthook = _crash


def rng_for(*key):
    """A random generator that depends on the seed and the key only (not on the shard)."""
    return random.Random(repr((SEED,) + key))


_case = [0]


def mine():
    """Round-robin split of the cases over the shards."""
    _case[0] += 1
    return (_case[0] - 1) % NSH == SHARD


_hung = [0]


def attempt(fn, *a, limit=30, **kw):
    """Calls the library: (result, '') or (None, exception name); a call that does not return is 'Hang'."""
    if limit:
        signal.alarm(limit)
    try:
        return fn(*a, **kw), ''
    except Hang:
        _hung[0] += limit
        return None, 'Hang'
    except Exception as e:
        return None, type(e).__name__
    finally:
        signal.alarm(max(1, int(_DEADLINE - time.time())))


def ji(x):
    """int for JSON/TLC (32 bits); anything else becomes a sentinel the specification never expects."""
    try:
        if isinstance(x, (complex, np.complexfloating)):
            if x.imag != 0:
                return NANV
            x = x.real
        if isinstance(x, (float, np.floating)):
            if math.isnan(x):
                return NANV
            if math.isinf(x):
                return PINF if x > 0 else NINF
            if x != int(x):
                return NANV
        x = int(x)
    except Exception:
        return NANV
    return x if -BIG <= x <= BIG else (PINF if x > 0 else NINF)


def jis(a):
    """1-D (or nested) integers."""
    if a is None:
        return []
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return [ji(a[()])]
        a = a.tolist()
    return [jis(x) if isinstance(x, (list, tuple, np.ndarray)) else ji(x) for x in a]


def fx(x, scale):
    """Fixed point projection of one real number."""
    try:
        x = float(x)
    except Exception:
        return NANV
    if math.isnan(x):
        return NANV
    if math.isinf(x):
        return PINF if x > 0 else NINF
    v = int(round(x * scale))
    return v if -BIG <= v <= BIG else (PINF if v > 0 else NINF)


def fxs(a, scale):
    if a is None:
        return []
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return [fx(a[()], scale)]
        a = a.tolist()
    return [fxs(x, scale) if isinstance(x, (list, tuple, np.ndarray)) else fx(x, scale) for x in a]


def cfx(z, scale):
    z = complex(z)
    return [fx(z.real, scale), fx(z.imag, scale)]


def limbs(n, base=10000):
    """Natural number as little-endian limbs."""
    n = int(n)
    res = []
    if n < 0 or n.bit_length() > 30000:       # not a number any result here can be
        return [-1]
    while n:
        res.append(n % base)
        n //= base
    return res


def fl(x):
    """Positive finite float as an exact dyadic rational: num (limbs) / 2^e or num * 2^e."""
    x = float(x)
    if math.isnan(x):
        return dict(k='nan', n=[], e=0)
    if math.isinf(x):
        return dict(k='inf' if x > 0 else 'ninf', n=[], e=0)
    if x < 0:
        return dict(k='neg', n=[], e=0)
    if x == 0:
        return dict(k='zero', n=[], e=0)
    m, e = math.frexp(x)
    m = int(m * (1 << 53))
    e -= 53
    while m % 2 == 0:
        m //= 2
        e += 1
    return dict(k='num', n=limbs(m), e=e)


def same(a, b):
    """Bitwise equality of two values (arrays, lists, scalars, dictionaries)."""
    try:
        return digest(a) == digest(b)
    except Exception:
        return False


def digest(a):
    import hashlib
    h = hashlib.sha1()

    def rec(x):
        if isinstance(x, np.ndarray):
            h.update(('A%s%s' % (x.dtype.str, x.shape)).encode())
            if x.dtype == object:
                for y in x.ravel():
                    rec(y)
            else:
                h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                rec(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(('L%d' % len(x)).encode())
            for y in x:
                rec(y)
        elif hasattr(x, 'tocoo'):
            y = x.tocsr().copy()
            y.sum_duplicates()
            rec([y.shape, y.indptr, y.indices, y.data])
        else:
            h.update(repr(x).encode())
    rec(a)
    return int(h.hexdigest()[:7], 16)


def emit(ev, **kw):
    kw['ev'] = ev
    kw.setdefault('exc', '')
    OUT.write(json.dumps(kw) + '\n')
    if _hung[0] >= 90:                         # calls that do not return are on record; no time for more of them
        OUT.close()
        os._exit(0)


def finish():
    OUT.close()


def fr(x):
    """Real number with twenty decimals: sign and limbs; sign 2: not a finite real."""
    from fractions import Fraction
    try:
        x = x if isinstance(x, Fraction) else float(x)
        v = int(round(Fraction(x) * 10 ** 20))
    except Exception:
        return dict(s=2, m=[])
    return dict(s=-1 if v < 0 else 1, m=limbs(abs(v)))


def odds(llr):
    """exp(llr) as an exact dyadic number, without overflow (finite llr)."""
    llr = float(llr)
    if math.isnan(llr) or math.isinf(llr):
        return fl(llr) if llr != -math.inf else dict(k='zero', n=[], e=0)
    q = math.floor(llr / math.log(2))
    r = fl(math.exp(llr - q * math.log(2)))
    r['e'] += q
    return r
