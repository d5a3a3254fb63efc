CHECKS = {}

CHECKS['C01'] = dict(driver='drv_conv.py', trace='TR_Conv', kinds=['trellis', 'same'],
    models=[('MC_ConvCode', 'MC_ConvCode.cfg')],
    rule='trellis tables recomputed over every (state, input) from the declaration',
    assumptions=['polynomial coefficients beyond the memory of their own chain are zero',
                 'a legacy integer feedback is used with single-input codes only'])
CHECKS['C02'] = dict(driver='drv_conv.py', trace='TR_Conv', kinds=['enc'],
    models=[('MC_ConvCode', 'MC_ConvCode.cfg')],
    rule='clock-by-clock run of the declared machine; the tail is any path back to state zero',
    assumptions=['message length is a multiple of k', 'recursive codes are declared code_type="rsc" and controllable'])
CHECKS['C03'] = dict(driver='drv_conv.py', trace='TR_Conv', kinds=['punct', 'depunct', 'encp'],
    rule='cyclic selection of positions',
    assumptions=['puncture matrices have one row (conv_encode reads the first row only)'])

NOT_APPLICABLE = {}

CHECKS['C04'] = dict(driver='drv_vit.py', trace='TR_Vit', kinds=['ml'], models=[('MC_Viterbi', 'MC_Viterbi.cfg')],
    rule='dynamic programming over all trellis paths, step by step; any path of least weight is accepted',
    assumptions=['received values are multiples of 1/4 so that weights are exact integers',
                 'the traceback depth is larger than the number of trellis steps'])
CHECKS['C05'] = dict(driver='drv_vit.py', trace='TR_Vit', kinds=['inv'], models=[('MC_Window', 'MC_Window.cfg')],
    rule='the decoded word is the message and its tail; error counts below half the separation computed by TLC',
    assumptions=['the outputs of one step tell its inputs apart (delay-free encoder)'])

CHECKS['C07'] = dict(driver='drv_map.py', trace='TR_Map', kinds=['map'], models=[('MC_Map', 'MC_Map.cfg')],
    rule='a-posteriori odds as exact quotients of sums over all trellis paths, compared to 1e-9',
    assumptions=['likelihood ratios and prior odds are powers of two, so that path weights are integers'])
CHECKS['C06'] = dict(driver='drv_turbo.py', trace='TR_Turbo', kinds=['tenc', 'tnl', 'tsch', 'tex'], models=[('MC_Turbo', 'MC_Turbo.cfg')],
    rule='streams by the shift-register machines; decoder as a half-iteration state machine on exact rational odds, and by '
         'the schedule composed from the component decoder (C07) for longer blocks',
    assumptions=['exact decoding: likelihood ratios are powers of two, up to 4 bits and 2 iterations',
                 'bits whose odds are within 1e-9 of even (1e-3 in LLR for longer blocks) are not compared'])
CHECKS['C08'] = dict(driver='drv_interlv.py', trace='TR_Interlv', kinds=['use', 'long', 'seeds', 'global'], models=[('MC_Interlv', 'MC_Interlv.cfg')],
    rule='stateful: the permutation of a (length, seed) pair is fixed by its first observation, also across processes',
    assumptions=['not all of 6 or more seeds may give one permutation of length 40'])

_GF = [('MC_Galois', 'MC_Galois.cfg')]
CHECKS['C09'] = dict(driver='drv_galois.py', trace='TR_Galois', kinds=['op', 'conv', 'poly'], models=_GF,
    rule='arithmetic modulo the fixed primitive polynomials; logarithms and orders by their definitions',
    assumptions=['exponents above 2500 are not converted for m > 12 (the library needs seconds for each)'])
CHECKS['C10'] = dict(driver='drv_galois.py', trace='TR_Galois', kinds=['cosets', 'minpolys'], models=_GF,
    rule='orbits of squaring; the polynomial of degree |orbit| vanishing on the element',
    assumptions=['cosets() is asked for unions of whole orbits of nonzero elements'])
CHECKS['C11'] = dict(driver='drv_galois.py', trace='TR_Galois', kinds=['cyclic'], models=_GF,
    rule='every result divides x^n+1 and has degree n-k, and their number is the number of divisors',
    assumptions=['n divides 2^m-1 for some m <= 10 (quick) or 12 (thorough)'])

_LD = [('MC_Ldpc', 'MC_Ldpc.cfg')]
CHECKS['C12'] = dict(driver='drv_ldpc.py', trace='TR_Ldpc', kinds=['params', 'write'], models=_LD, models_thorough=[('MC_Ldpc', 'MC_Ldpc_deep.cfg')],
    rule='a design file is a stored graph: every table read from it describes that graph',
    assumptions=['every row and column of a parity-check matrix has an edge',
                 'generator matrices are derived for matrices whose last columns form a triangular system'])
CHECKS['C13'] = dict(driver='drv_ldpc.py', trace='TR_Ldpc', kinds=['enc'], models=_LD, models_thorough=[('MC_Ldpc', 'MC_Ldpc_deep.cfg')],
    rule='message part and all parity checks of every block',
    assumptions=['the last columns of the parity-check matrix are triangular up to the order of the checks, or a shipped WiMAX design'])
CHECKS['C14'] = dict(driver='drv_ldpc.py', trace='TR_Ldpc', kinds=['bp', 'badalg'], models=_LD, models_thorough=[('MC_Ldpc', 'MC_Ldpc_deep.cfg')],
    rule='flooding recursion, one action per iteration: exact integers (min-sum), exact odds to 1e-5 (sum-product), signs (erasures)',
    assumptions=['check degrees of at least 2', 'sum-product odds: small graphs, up to 3 iterations, LLRs multiples of ln 2',
                 'after a bit is within 1e-9 of even odds the rest of a sum-product block is not compared'])

_MD = [('MC_Modem', 'MC_Modem.cfg')]
CHECKS['C15'] = dict(driver='drv_modem.py', trace='TR_Modem', kinds=['new', 'set', 'mod', 'hard'], models=_MD,
    rule='stateful modem objects; labels by integer distances, any nearest point is accepted',
    assumptions=['PSK samples within 1e-2 of a cell boundary may go either way (points rounded to 1e-4)'])
CHECKS['C16'] = dict(driver='drv_modem.py', trace='TR_Modem', kinds=['new', 'set', 'soft', 'softr'], models=_MD + [('MC_Filters', 'MC_Filters.cfg')],
    rule='exact quotients of sums of powers of two, compared to 1e-9; other samples and noise variances with twenty decimals to 1e-6',
    assumptions=['constellations on a grid of 1/4 or PSK', 'rational noise variances; exact part: every likelihood a power of two'])

# Checks on exact odds also check the big number arithmetic; the plain TLA+ definitions at depth.
for _c in ('C06', 'C07', 'C14', 'C16'):
    CHECKS[_c]['models'] = CHECKS[_c]['models'] + [('MC_BigNat', 'MC_BigNat.cfg')]
    CHECKS[_c]['models_thorough'] = CHECKS[_c].get('models_thorough', []) + [('MC_BigNat', 'MC_BigNat_ref.cfg')]

_DT = dict(driver='drv_detect.py', trace='TR_Detect', models=[('MC_Detect', 'MC_Detect.cfg')],
           models_thorough=[('MC_Detect', 'MC_Detect_deep.cfg')])
CHECKS['C17'] = dict(_DT, kinds=['hard', 'tree', 'bfhard', 'bitlvl'],
    rule='distances of all symbol vectors; the tree search level by level on h = QR with integer orthogonal Q',
    assumptions=['channels, points and received vectors are Gaussian integers',
                 'K-best traces with a tie at the survivor boundary are not compared'])
CHECKS['C18'] = dict(_DT, kinds=['maxlog', 'ksoft', 'tree', 'bfsoft'],
    rule='best distances per bit value as integers (LLR times twice the noise variance)',
    assumptions=['channels, points and received vectors are Gaussian integers',
                 'best-first decisions with several optimal vectors are not compared'])

_CHN = dict(driver='drv_channel.py', trace='TR_Channel',
            generators=[('MC_Channel', 'MC_Channel_%s.cfg' % g) for g in ('siso', 'm22', 'm23', 'm31')])
CHECKS['C19'] = dict(_CHN, kinds=['new', 'call', 'energy', 'specular', 'rice'],
    rule='configuration state machine: every call history of depth 3 (4) of the model and random longer ones',
    assumptions=['fading parameters are exactly normalised or clearly not', 'betas are multiples of ln 2, SNRs in dB multiples of 10',
                 'sample moments over 20000 uses within 7 standard deviations or more'])
CHECKS['C20'] = dict(_CHN, kinds=['new', 'call', 'prop'],
    rule='received, faded, gain and noise records against each other in every history',
    assumptions=['values compared to 1e-4 (samples recorded in fixed point)'])
CHECKS['C21'] = dict(driver='drv_channel.py', trace='TR_Channel', kinds=['bec', 'bsc', 'rate'],
    rule='position by position; extreme generator states for probabilities zero and one',
    assumptions=['rates over 20000 positions within 0.04'])

CHECKS['C22'] = dict(driver='drv_link.py', trace='TR_Link', kinds=['run', 'send', 'end'],
    generators=[('MC_Link', 'MC_Link_ber.cfg')],
    rule='run state machine; the errors of every send are chosen by the model, every callback call is an event',
    assumptions=['err_min >= 1, send_max >= 1', 'code rates are quotients with denominators up to 10'])
CHECKS['C23'] = dict(driver='drv_link.py', trace='TR_Link', kinds=['run', 'send', 'end'],
    generators=[('MC_Link', 'MC_Link_full.cfg')],
    rule='run state machine; the errors of every chunk are chosen by the model, every callback call is an event',
    assumptions=['tx_max >= 1', 'code rates are quotients with denominators up to 10'])
CHECKS['C24'] = dict(driver='drv_link.py', trace='TR_Link', kinds=['istart', 'idec', 'idet', 'iend'],
    rule='exchange state machine on integers; the environment chooses all detector and decoder outputs',
    assumptions=['n_it >= 1', 'the LLR count is vectors times bits per vector'])

CHECKS['C25'] = dict(driver='drv_wifi.py', trace='TR_Wifi', kinds=['wifi', 'tx', 'end'], models=[('MC_Wifi', 'MC_Wifi.cfg')],
    rule='the symbols on the channel are accepted by the punctured (133,171) automaton; errors are those of the words handed to the decoder',
    assumptions=['receivers hand over clean code words (with errors injected as other code words) or noiseless symbols'])

_SG = dict(driver='drv_signal.py', trace='TR_Signal', models=[('MC_Signal', 'MC_Signal.cfg')])
CHECKS['C26'] = dict(_SG, kinds=['pn', 'period'],
    rule='the shift register is clocked bit by bit; all registers up to order 5 (6), sampled beyond',
    assumptions=['period and balance: primitive taps up to order 9 (11)'])
CHECKS['C27'] = dict(_SG, kinds=['zc', 'offset'],
    rule='phases are integer multiples of pi/length (of 2 pi/n for an offset of p/n), compared exactly after rounding',
    assumptions=['frequency offsets are rational parts of the sampling rate'])
CHECKS['C28'] = dict(_SG, kinds=['bits', 'dec', 'hamming', 'euclid', 'upsample', 'power', 'look', 'scribble'],
    rule='history of calls; the heap of results held and overwritten by the caller is part of the state',
    assumptions=['numbers fit their width', 'distances and powers of multiples of 1/4'])
CHECKS['C29'] = dict(_SG, kinds=['tx', 'rx', 'loop'],
    rule='every bin of every transmitted symbol, every prefix sample; receiver on arbitrary signals',
    assumptions=['even number of carriers, smaller than the FFT size', 'prefix not longer than the symbol'])
CHECKS['C28']['models'] = CHECKS['C28']['models'] + [('MC_Memo', 'MC_Memo.cfg')]
CHECKS['C30'] = dict(driver='drv_pure.py', trace='TR_Pure', kinds=['fresh', 'call', 'random'], models=[('MC_Memo', 'MC_Memo.cfg')],
    rule='the library as a memo fixed by the calls of a fresh process, while other calls run and callers overwrite results',
    assumptions=['results are equal when they agree to 1e-9', 'links, channels and discrete channels draw random numbers: arguments only'])
CHECKS['C33'] = dict(driver='drv_mimo.py', trace='TR_Mimo', kinds=['link', 'frame', 'use', 'siso', 'decin', 'det', 'out', 'report'],
    models=[('MC_Mimo', 'MC_Mimo.cfg')],
    rule='transport state machine: every channel use brings its own slice of the coded bits, from the encoder to the decision',
    assumptions=['300 dB SNR, at least as many receive as transmit antennas', 'messages fill whole symbol vectors (as LinkModel sends them)',
                 'best-first receivers have at least two transmit antennas'])

CHECKS['C31'] = dict(driver='drv_filter.py', trace='TR_Filter', kinds=['rcos', 'rrcos', 'gauss', 'rect'],
    models=[('MC_Filters', 'MC_Filters.cfg'), ('MC_BigNat', 'MC_BigNat.cfg')], models_thorough=[('MC_BigNat', 'MC_BigNat_ref.cfg')],
    rule='every sample compared to the analytic value (twenty decimals) to 1e-8 of the peak, removable singularities exactly',
    assumptions=['roll-off, symbol period and sampling rate are rational numbers'])

CHECKS['C32'] = dict(driver='drv_noise.py', trace='TR_Noise', kinds=['begin', 'batch', 'end'],
    models=[('MC_Noise', 'MC_Noise.cfg')],
    rule='sample statistics of every noise and gain stream accumulated over all transmissions of a run, against the declared law',
    assumptions=['acceptance regions of seven standard deviations on 8000 (24000) uses per run', 'uncorrelated antennas or exponential correlation, rational means'])
