"""C33 MIMO links carry every bit to its own position."""
from fractions import Fraction
from kit import *
from commpy.channels import SISOFlatChannel, MIMOFlatChannel
from commpy.links import LinkModel, link_performance, idd_decoder
from commpy.modulation import (QAMModem, PSKModem, Modem, mimo_ml, kbest, best_first_detector, max_log_approx)

rng = rng_for(PID, SHARD)


def modems():
    k = rng.random()
    if k < .35:
        return QAMModem(4)
    if k < .5:
        return QAMModem(16)
    if k < .75:
        return PSKModem(rng.choice([2, 4, 8]))
    return Modem(np.array(rng.sample([1, -1, 3, -3, 1j, -1j, 2 + 2j, 2 - 2j, -2 + 2j, -2 - 2j], rng.choice([2, 4, 8])), complex),
                 reorder_as_gray=rng.random() < .5)


def channel(nt, nr):
    ch = MIMOFlatChannel(nt, nr)
    k = rng.randrange(4)
    if k == 0:
        ch.uncorr_rayleigh_fading(complex)
    elif k == 1:
        m = np.array([[complex(rng.choice([1, 1j, -1, -1j]) * rng.choice([1, .5])) for _ in range(nt)] for _ in range(nr)])
        ch.uncorr_rician_fading(m, rng.choice([.5, 1., 4.]))
    elif k == 2:
        ch.expo_corr_rayleigh_fading(complex(rng.choice([1, -1, 1j])), complex(rng.choice([1, -1j])), rng.choice([.5, 1.]), rng.choice([.7, 2.]))
    else:
        ch.fading_param = (np.zeros((nr, nt), complex), np.eye(nt), np.eye(nr))
    return ch


def signs(v, positive):
    """Decisions of LLRs: `positive' is the bit a positive value stands for; 2 for an undecided one."""
    return [positive if x > 0 else 1 - positive if x < 0 else 2 for x in np.asarray(v, float).tolist()]


def bits(v):
    return [int(x) if x in (0, 1) else 2 for x in np.asarray(v).tolist()]


def simulate():
    modem = modems()
    nb, con = modem.num_bits_symbol, modem.constellation
    nt = rng.choice([1, 2, 2, 3, 4])
    if len(con) ** nt > 600:
        nt = 2 if len(con) ** 2 <= 600 else 1
    nr = nt + rng.choice([0, 0, 1])
    rxs = ['ml', 'kbest', 'ksoft', 'kwide'] + (['bf', 'bf', 'idd', 'idd'] if nt > 1 else [])
    rx = rng.choice(rxs)
    siso = rng.random() < .12
    if siso:
        nt = nr = 1
        rx = rng.choice(['sisohard', 'sisosoft'])
    rep = rng.choice([1, 1, 2, 2, 3])
    perm = [k + 1 for k in rng.sample(range(8), 8)] if rep == 2 and rng.random() < .6 else []
    ch = SISOFlatChannel(fading_param=(1 + 0j, 0)) if siso else channel(nt, nr)
    st = dict(frames=0)
    vec = nt * nb

    def source(n):
        w = n * rep
        if not perm:
            return np.arange(w) // rep
        pos = np.arange(w)
        p = np.array(perm) - 1
        return (p[pos % len(p)] + pos // len(p) * len(p)) // rep

    def modulate(msg):
        msg = np.asarray(msg)
        coded = msg[source(len(msg))]
        symbs = modem.modulate(coded)
        st['coded'], st['msg'] = coded, msg
        table = {complex(c): i for i, c in enumerate(con)}
        st['labels'] = [table.get(complex(s), -1) for s in symbs]
        return symbs

    real_prop = ch.propagate

    def propagate(symbs):
        out = real_prop(symbs)
        st['frames'] += 1
        st['use'] = 0
        emit('frame', msg=bits(st['msg']), coded=bits(st['coded']), labels=st['labels'], uses=len(out))
        return out
    ch.propagate = propagate

    def demode(x):
        return modem.demodulate(np.asarray(x), 'hard')

    one = 1 if rx == 'sisosoft' else 0              # the bit that a positive LLR stands for
    hard = rx in ('ml', 'kbest', 'sisohard')
    stack = tuple(rng.choice([1, 3, 5, 10 ** 6]) for _ in range(nt - 1))
    K = rng.choice([1, 2, 5, 16])
    kfull = len(con) ** nt

    def soft(y, h, constellation, noise_var):
        if rx in ('bf', 'idd'):
            return best_first_detector(y, h, constellation, stack, noise_var, demode, 50.)
        if rx == 'ksoft':
            return kbest(y, h, constellation, K, noise_var, 'soft', demode)
        return kbest(y, h, constellation, kfull, noise_var, 'soft', demode)

    def receive(y, h, constellation, noise_var):
        st['use'] += 1
        if rx == 'ml':
            r = demode(mimo_ml(y, h, constellation))
        elif rx == 'kbest':
            r = demode(kbest(y, h, constellation, K))
        elif rx == 'sisohard':
            r = modem.demodulate(y, 'hard')
        elif rx == 'sisosoft':
            r = modem.demodulate(y, 'soft', max(noise_var, 1e-3))
        else:
            r = soft(y, h, constellation, noise_var)
        emit('siso' if siso else 'use', bits=bits(r) if hard else signs(r, one))
        return r

    def collect(received):
        """Decision on the message bits: any copy of a bit."""
        d = np.array(bits(received) if hard else signs(received, one))
        src = source(len(d) // rep)
        out = np.full(len(d) // rep, 2)
        copy = rng.randrange(rep)
        for j in range(len(out)):
            out[j] = d[np.nonzero(src == j)[0][copy]]
        return out

    def decoder(received):
        emit('decin', bits=bits(received) if hard else signs(received, one))
        out = collect(received)
        emit('out', bits=bits(out))
        return out

    def idd(nit):
        """Iterations over repetition decoder and detector, every intermediate decision recorded."""
        def dec(llr):
            src = source(len(llr) // rep)
            tot = np.array([llr[src == j].sum() for j in range(len(llr) // rep)])
            return tot[src]

        def det(y, h, constellation, noise_var, a_priori):
            r = soft(y, h, constellation, noise_var) + a_priori
            st['det'] = st.get('det', 0) + 1
            emit('det', use=(st['det'] - 1) % st['nuse'] + 1, bits=signs(r, one))
            return r
        inner = idd_decoder(det, dec, lambda llr: collect(llr), nit)

        def outer(y, h, constellation, noise_var, received, bits_per_send):
            st['det'], st['nuse'] = 0, len(h)
            emit('decin', bits=signs(received, one))
            out = inner(y, h, constellation, noise_var, received, bits_per_send)
            emit('out', bits=bits(out))
            return out
        return outer

    emit('link', nt=nt, nr=nr, nb=nb, rx=rx, rep=rep, perm=perm)
    model = LinkModel(modulate, ch, receive, nb, con, modem.Es, idd(rng.choice([1, 2, 3])) if rx == 'idd' else decoder,
                      Fraction(1, rep))
    unit = vec * 8
    chunk = unit * rng.randint(1, 3) if perm else vec * rng.randint(1, 12) // (1 if vec * rep % 2 else 1) + rng.choice([0, 0, 1, 3])
    rate = rng.choice([Fraction(1, rep), 1 / rep]) if rep > 1 else rng.choice([1, Fraction(1, 1), 1.])
    points = [300.] * rng.choice([1, 2])
    full = rng.random() < .4
    if full:
        per = 8 if perm else rng.choice([1, 2])
        r, exc = attempt(model.link_performance_full_metrics, points, rng.choice([1, 2]), 0, chunk, rate, per)
        ber = [] if exc else [fx(v, 10 ** 9) for v in np.hstack((r[0], r[1].reshape(-1), r[2].reshape(-1)))]
    else:
        if rng.random() < .5:
            r, exc = attempt(model.link_performance, points, 2 * chunk, 1, chunk, rate)
        else:
            r, exc = attempt(link_performance, model, points, 2 * chunk, 1, chunk, rate)
        ber = [] if exc else [fx(v, 10 ** 9) for v in r]
    emit('report', exc=exc, ber=ber, frames=st['frames'])


for _ in range(120 if THOROUGH else 24):
    simulate()
finish()
