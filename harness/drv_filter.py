"""C31 pulse-shaping filters."""
from fractions import Fraction as F
from kit import *
from commpy.filters import rcosfilter, rrcosfilter, gaussianfilter, rectfilter

rng = rng_for(PID, SHARD)
LIM = 200000


def num(q):
    """A rational number as the caller would write it."""
    if q.denominator == 1 and rng.random() < .5:
        return rng.choice([int(q), np.int64(int(q))])
    return rng.choice([float, float, float, np.float64])(q.numerator / q.denominator)


def case(kind, n, alpha, Ts, Fs):
    half = 1 / (2 * Fs * Ts) if kind in ('rc', 'rrc') else 1 / (2 * Fs)      # half a sample
    tu, tv = half.numerator, half.denominator
    a, b = alpha.numerator, alpha.denominator
    if max(n * tu * (a + b), tv * b * 4, n * tu * b * 4, tv * a, n * Fs.denominator, 2 * Fs.numerator) > LIM:
        return False
    f = dict(rc=rcosfilter, rrc=rrcosfilter, gauss=gaussianfilter, rect=rectfilter)[kind]
    args = [n] + ([num(alpha)] if kind != 'rect' else []) + [num(Ts), num(Fs)]
    res, exc = attempt(f, *args)
    t, h = res if not exc and isinstance(res, tuple) and len(res) == 2 else ([], [])
    t, h = np.asarray(t), np.asarray(h)
    emit(dict(rc='rcos', rrc='rrcos', gauss='gauss', rect='rect')[kind], kind=kind, n=n, a=a, b=b, tu=tu, tv=tv,
         fu=Fs.numerator, fv=Fs.denominator, exc=exc, kindok=t.ndim == h.ndim == 1 and t.dtype.kind in 'fiu' and h.dtype.kind in 'fiu',
         t=[fr(x) for x in t.ravel()], h=[fr(x) for x in h.ravel()])
    return True


ALPHAS = [F(0), F(1), F(1, 2), F(1, 4), F(7, 20), F(1, 5), F(11, 50), F(7, 10), F(3, 10), F(1, 3), F(2, 3), F(1, 10), F(9, 10),
          F(5, 6), F(1, 100), F(99, 100)]
PERIODS = [F(1), F(1, 2), F(1, 3), F(1, 7), F(2), F(1, 10), F(1, 1000), F(3, 10), F(1, 9600), F(25)]
SPS = [F(1), F(2), F(4), F(5), F(7), F(8), F(10), F(3), F(7, 2), F(5, 4), F(6), F(9), F(14), F(1, 2)]
for a in ALPHAS:                                  # every roll-off at every oversampling, singular points among them
    for s in SPS + [4 * a * k for k in (1, 2, F(1, 2)) if a]:
        for kind in ('rc', 'rrc'):
            if mine():
                Ts = rng.choice(PERIODS)
                case(kind, rng.choice([2, 9, 16, 21, 32, 41]), a, Ts, s / Ts)
todo = 160 if THOROUGH else 20
while todo:
    kind = rng.choice(['rc', 'rrc', 'rc', 'rrc', 'gauss', 'gauss', 'rect'])
    n = rng.choice([0, 1, 2, 3, rng.randint(4, 40), rng.randint(4, 40), rng.randint(41, 101)])
    Ts = rng.choice(PERIODS)
    a = rng.choice(ALPHAS + [F(rng.randint(1, 40), 40), F(rng.randint(1, 99), 100)])
    Fs = rng.choice(SPS) / Ts
    if kind == 'gauss':
        a = rng.choice([F(1), F(1, 2), F(1, 4), F(3), F(rng.randint(1, 30), 10), F(20)])
        Fs = rng.choice([F(1), F(2), F(8), F(10), F(50), F(7, 2), F(100)])
    todo -= case(kind, n, a, Ts, Fs)
finish()
