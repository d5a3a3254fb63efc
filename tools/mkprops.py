#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mechanism, where=files[0])],
                               **({'state': [dict(name=n, meaning=m) for n, m in state]} if state else {}))))

CC = 'commpy/channelcoding/convcode.py'
p('C01', 'Trellis tables describe exactly the declared shift-register encoder',
  'For every memory vector, generator matrix, polynomial format (MSB, LSB, Matlab) and feedback matrix, and for single-input codes with a legacy integer feedback, the next-state and output tables of a Trellis are exactly those of the linear shift-register machine these arguments declare, over every (state, input) pair, and its k, n, total_memory, number_states and number_inputs agree with them. '
  'The three polynomial formats of one code give one and the same trellis, and constructing a trellis never modifies the arrays given to it.',
  ['inputs', 'configurations'], 'all k x n generator matrices, memory vectors, formats and feedback polynomials/matrices; all states and inputs',
  'The tests pin a handful of fixed tables; they cannot enumerate the machines a user may declare (multi-input, per-branch memories, partial feedback).',
  [CC], 'Trellis.__init__ builds both tables by bit manipulation of generator/feedback polynomials',
  [('next_state_table', 'successor of each (state,input)'), ('output_table', 'output word of each (state,input)')])
p('C02', 'Convolutional encoding is a run of the trellis machine from state zero',
  'For every trellis and every message, conv_encode returns exactly the concatenated outputs met when the declared machine is run from the all-zero state over the message read k bits at a time. '
  'With termination "term" the message is followed by a tail that brings the encoder back to the all-zero state for feedforward and recursive codes alike, and with "cont" nothing is appended, so the output is linear in the message and has n bits per trellis step.',
  ['inputs', 'configurations'], 'all messages, trellises and terminations',
  'Tests compare a few literal messages for a few codes; they never look at the final encoder state nor at lengths/terminations in general.',
  [CC], 'conv_encode: padding, register walk, output extraction, puncture step', [('current_state', 'encoder register contents')])
p('C03', 'Puncturing and depuncturing follow the pattern cyclically and are inverse',
  'puncturing keeps exactly the positions whose entry in the cyclically repeated puncture vector is 1, in order; depuncturing spreads received values back to exactly these positions of a sequence of the requested length and fills every other position with zero. '
  'conv_encode with a puncture matrix emits exactly the punctured mother-code output, so puncture followed by depuncture restores every kept value (bits, LLRs or real samples alike) for every vector and length.',
  ['inputs', 'configurations'], 'all puncture vectors, all message lengths (also not multiples of the vector length)',
  'Tests cover two or three fixed vectors and lengths that divide evenly.',
  [CC], 'puncturing/depuncturing index shift loops; puncture branch of conv_encode')
p('C04', 'Viterbi decoding is maximum likelihood when its window covers the message',
  'Whenever the traceback depth covers the whole received sequence, viterbi_decode returns the inputs of a trellis path from state zero with minimal accumulated metric for the received sequence continued by zero bits while the memory empties: Hamming distance (hard), negative log-likelihood of the LLRs clipped to [-500, 500] (soft, where the continuation is neutral) or squared Euclidean distance to the antipodal word (unquantized). '
  'This holds for every trellis and every received sequence, however corrupted, and the decoded length is the message length implied by the received length.',
  ['inputs', 'configurations'], 'all received words (exhaustive for short ones, sampled for long ones), all metrics and trellises',
  'Tests check noiseless decoding only; optimality over all competing paths for corrupted input is never evaluated.',
  [CC], 'viterbi_decode/_acs_traceback: add-compare-select recursion and survivor traceback', [('path_metrics', 'best metric per state'), ('paths', 'survivor states')])
p('C05', 'Viterbi decoding inverts encoding for every length and traceback depth',
  'For every code, message length and traceback depth of at least five times the memory (or the default), decoding the uncorrupted terminated encoder output with any of the three metrics returns the message followed by the tail bits, and decoding the unterminated output from strong LLRs returns the message. '
  'Channel errors fewer than half the weight separating the sent path from every other path, within the traceback window and within the terminated tail, do not change the decoded message.',
  ['inputs', 'fault_sequences', 'configurations'], 'all messages, lengths around and far beyond the traceback boundary, all error patterns of guaranteed weight',
  'Tests decode a few messages of a fixed length with one traceback depth and no errors.',
  [CC], 'viterbi_decode sliding window: start-up phase, steady-state shift, final flush', [('t_count', 'trellis time'), ('tb_count', 'fill of the traceback window')])
TU = 'commpy/channelcoding/turbo.py'
p('C06', 'Turbo codec: encoder streams and iterative decoder schedule',
  'turbo_encode returns the message itself, the parity of the first recursive encoder and the parity of the second encoder run on the interleaved message, each exactly as long as the message. '
  'turbo_decode performs exactly the requested number of iterations of extrinsic exchange between the two component MAP decoders with (de)interleaving and returns the de-interleaved hard decision, so noiseless streams decode to the message for every interleaver and seed.',
  ['inputs', 'configurations', 'histories'], 'all messages, interleavers, trellises, iteration counts and noise variances',
  'One test simulates random messages and accepts a bit error rate; it would not see a swapped stream, a missing interleave or a wrong extrinsic subtraction.',
  [TU, 'commpy/channelcoding/interleavers.py'], 'turbo_encode, turbo_decode', [('L_ext', 'extrinsic information exchanged between decoders')])
p('C07', 'MAP decoding computes the exact a-posteriori log-likelihood ratios',
  'For every single-input rate-1/2 trellis, sequence of received symbol pairs, noise variance and a-priori LLRs, the LLR map_decode returns for each bit is the logarithm of the summed probability (channel likelihood times priors) of all encoder paths from state zero, ending anywhere, with that bit 1 over that of the paths with that bit 0. '
  'In "decode" mode each returned bit is 1 exactly when its LLR is positive and in "compute" mode the same LLRs are returned.',
  ['inputs', 'configurations'], 'all received sequences, priors, noise variances and trellises (recursive and feedforward)',
  'No test evaluates an LLR; only a loose bit error rate of the enclosing turbo decoder is checked.',
  [TU], 'map_decode: forward/backward recursions and branch metrics', [('f_state_metrics', 'forward probabilities'), ('b_state_metrics', 'backward probabilities'), ('priors', 'a-priori bit probabilities')])
p('C08', 'Interleavers are exact, reproducible permutations',
  'For every length and seed a random interleaver is a permutation fixed by (length, seed) alone, whatever the state or use of any other random generator, and deinterlv undoes interlv for every array of that length, in either order of use. '
  'Neither operation modifies its input, repeated use of one interleaver gives the same reordering every time, the seed does determine the order (different seeds do not share one permutation), and making or using an interleaver never disturbs the global random generator.',
  ['inputs', 'histories'], 'all lengths, seeds, arrays and interleavings of calls with other random number use',
  'Tests check one interleaver of one length; not independence from global random state nor bijectivity in general.',
  ['commpy/channelcoding/interleavers.py'], 'RandInterlv permutation table; _Interleaver.interlv/deinterlv', [('p_array', 'the permutation')])
GF = 'commpy/channelcoding/gfields.py'
p('C09', 'GF(2^m) arithmetic obeys the field defined by its primitive polynomial',
  'For every m from 1 to 16, addition, multiplication, power/tuple conversion and element order on GF objects agree, elementwise and for arrays of any length, with polynomial arithmetic modulo the primitive polynomial of the field (orders and logarithms for nonzero elements). '
  'The primitive polynomials of m = 1..16 are 3, 7, 11, 19, 37, 67, 137, 285, 529, 1033, 2053, 4179, 8219, 17475, 32771 and 69643, and poly_to_string lists exactly the exponents present in a polynomial. '
  'polydivide returns the remainder of carry-less division and polymultiply the carry-less product reduced by the given polynomial, for every pair of binary polynomials with a nonzero divisor.',
  ['inputs'], 'all elements of every field m<=8, sampled elements above, all small polynomial pairs',
  'Tests exercise GF(8) on single literals.',
  [GF], 'GF.__add__, __mul__, power_to_tuple, tuple_to_power, order; polydivide, polymultiply', [('prim_poly', 'primitive polynomial of the field')])
p('C10', 'Cyclotomic cosets and minimal polynomials are exact',
  'For every field, cosets() lists the orbits of the nonzero elements under squaring, pairwise disjoint and covering all of them exactly once. '
  'minpolys() returns for each element the unique irreducible binary polynomial of least degree having it as a root, given in integer form.',
  ['inputs'], 'all elements of GF(2^m)', 'Only GF(8) is tested against literals.',
  [GF], 'GF.cosets and GF.minpolys')
p('C11', 'Cyclic code generator polynomials are exactly the right divisors',
  'For every odd code length n dividing 2^m-1 for some tabulated field (m <= 16) and every dimension 0 < k < n, cyclic_code_genpoly returns exactly the binary polynomials of degree n-k that divide x^n+1, each once, as exact integers whatever their size. '
  'When no such polynomial exists the result is empty, and even lengths are rejected with ValueError.',
  ['inputs'], 'all (n,k) for n of the form 2^m-1 and odd n dividing it',
  'The only test of it is two literals, and it does not run on this baseline.',
  ['commpy/channelcoding/algcode.py'], 'cyclic_code_genpoly: product of minimal polynomials over subsets')
LD = 'commpy/channelcoding/ldpc.py'
p('C12', 'LDPC design files and Tanner graph structures are mutually consistent',
  'The adjacency tables built from a design file, the dense parity-check matrix and the generator-matrix derivation all describe one and the same Tanner graph: edges agree in both directions, degrees match the row/column weights and padding entries are never mistaken for edges. '
  'Writing a parity-check matrix to a design file and reading it back gives an equal graph.',
  ['inputs', 'histories'], 'all parity-check matrices (regular and irregular) and the design files shipped',
  'Tests only load one shipped file; no test writes and re-reads or checks reverse-edge indices.',
  [LD], 'get_ldpc_code_params, _fill_...: adjacency list and edge index tables; write_ldpc_params; build_matrix', [('cnode_adj_list', 'variable nodes of each check'), ('vnode_cnode_map', 'position of an edge in the other table')])
p('C13', 'LDPC systematic encoding produces codewords carrying the message',
  'triang_ldpc_systematic_encode maps every message, of any number of blocks, to words whose first k bits per block are the message and that satisfy every parity check of the code exactly, whatever the number of checks. '
  'Lengths that are not a multiple of k are zero-padded when padding is allowed and rejected with ValueError when it is not, and each block is encoded as if it were alone.',
  ['inputs', 'configurations'], 'all messages, block counts and design files with a triangular form',
  'Tests encode two messages of one code.', [LD], 'triang_ldpc_systematic_encode, build_matrix')
p('C14', 'LDPC belief propagation follows the message-passing schedule exactly',
  'For every Tanner graph and LLR input, the min-sum decoder returns the LLRs and bits of the flooding message-passing recursion on that graph, stopping a block at the first iteration whose hard decision satisfies all checks and otherwise after exactly the given number of iterations; the sum-product decoder does the same with the tanh rule. '
  'Each block of a multi-block input is decoded as if it were alone (one block per output column), a valid codeword is returned unchanged, and erasures are filled whenever peeling the graph can fill them. An unknown algorithm name is refused whenever there is something to decode.',
  ['inputs', 'histories', 'configurations'], 'all graphs, LLR values (saturated, zero, finite), iteration limits and block counts',
  'Tests compare bit error outcomes of one code at high SNR for a few random messages.',
  [LD], 'ldpc_bp_decode: check/variable node updates, early stop, block loop', [('message_matrix', 'edge messages'), ('iter_cnt', 'iteration counter')])
MO = 'commpy/modulation.py'
p('C15', 'Modems map bits to points one-to-one and hard demodulation is nearest point',
  'For every constellation, modulate maps each group of log2(m) bits (most significant first) to its own point and hard demodulation returns the label of a point at minimal Euclidean distance, so it inverts modulate for every bit sequence, whatever noise keeps each symbol in its own cell. '
  'PSK and QAM labels of nearest neighbours differ in exactly one bit, PSK points are the m-th roots of unity and QAM points the odd-integer square grid, Es is the mean symbol energy, and an invalid constellation (size not a power of two) is rejected leaving the modem unchanged; m, num_bits_symbol and Es always describe the current constellation, which is the modem\'s own copy.',
  ['inputs', 'histories', 'configurations'], 'all modulation orders, bit sequences, received samples and constellation reassignments',
  'Tests check a few literal orders and random bits without adversarial samples.',
  [MO], 'PSKModem/QAMModem constellation construction, Modem.modulate/demodulate, constellation setter', [('constellation', 'point of each label')])
p('C16', 'Soft demodulation gives exact per-bit log-likelihood ratios',
  'For every constellation, received sample and noise variance, soft demodulate returns for each bit, in modulation bit order, the logarithm of the summed Gaussian likelihoods of the points labelled 1 over that of the points labelled 0. '
  'The likelihood of a point at distance d is exp(-d^2/noise_var), so a positive value means bit 1 is more likely.',
  ['inputs', 'configurations'], 'all constellations, samples and noise variances',
  'Tests check soft output only through its sign on noiseless symbols.', [MO], "Modem.demodulate(demod_type='soft')")
p('C17', 'MIMO hard detectors return their exact optimum',
  'mimo_ml returns a symbol vector minimising the Euclidean distance to the received vector among all candidates; kbest returns the survivor of the K-best tree search on the triangularised channel, which is that optimum once K is large enough to keep every candidate; best_first_detector with unlimited stacks and at least two transmit antennas makes the same hard decision. '
  'bit_lvl_repr yields the bit-level channel whose product with the bipolar bits equals the symbol-level product for every bit vector.',
  ['inputs', 'configurations'], 'all channel matrices (square and tall), received vectors, constellations, K and stack sizes',
  'Tests compare detectors on a few random draws through a bit error rate.',
  [MO], 'mimo_ml, kbest, best_first_detector, bit_lvl_repr', [('vectors', 'K surviving partial vectors'), ('stacks', 'best-first stacks')])
p('C18', 'Soft MIMO detection outputs are the exact max-log values',
  'max_log_approx returns for each bit the smallest squared distance among the listed candidates with that bit 1 minus the smallest among those with that bit 0, divided by twice the noise variance, and an infinity of the right sign when one side has no candidate; soft kbest with every candidate kept returns these values over all symbol vectors. '
  'best_first_detector returns LLRs of magnitude at most its clipping value whose signs, with unlimited stacks, label the maximum likelihood vector (positive meaning bit 0).',
  ['inputs', 'configurations'], 'all candidate lists, channels, received vectors and noise variances',
  'Tests check one literal candidate list and error rates.', [MO], 'max_log_approx, kbest soft output, best_first_detector')
CH = 'commpy/channels.py'
p('C19', 'Channel configuration is a consistent state machine with atomic rejection',
  'After any sequence of configuration calls on a SISO or MIMO flat channel, the noise standard deviation, realness/complexness, fading parameters and k-factor are those determined by the last accepted call: power is normalised, the noise variance is (2 if complex else 1) * nb_tx * Es / (rate * SNR), and the Rayleigh/Rician helpers produce the requested k-factor and correlation. '
  'Every rejected call (fading parameters that change the power, leave it undefined or have a negative variance, correlation coefficients not of modulus one, negative beta) raises ValueError and leaves the configuration exactly as it was. '
  'The specular components a MIMO channel computes are unit-modulus plane waves (phase 2 pi (n dr cos thetar + m dt cos thetat)), negative distances are refused, and computing them configures nothing.',
  ['histories', 'inputs'], 'all sequences of setter calls, accepted and rejected',
  'Tests set one configuration per test and never check state after a rejected call.',
  [CH], 'SISOFlatChannel/MIMOFlatChannel fading_param setters, set_SNR_*, uncorr/expo_corr helpers, k_factor', [('fading_param', 'mean and correlation/variance'), ('noise_std', 'noise standard deviation')])
p('C20', 'Propagation applies exactly gains and noise the channel reports',
  'For every message and configuration, propagate returns received = gains applied to the message plus the reported noise, exactly, with one gain (matrix) per channel use, zero padding of the last vector only, and real signals for real channels. '
  'Propagating before the noise is set or a complex message through a real channel is refused without touching the stored record of the last successful call.',
  ['inputs', 'histories', 'configurations'], 'all message lengths, antenna counts, fading and noise settings, call sequences',
  'Tests check statistical power only, with lengths divisible by the antenna count.',
  [CH], 'SISOFlatChannel.propagate, MIMOFlatChannel.propagate', [('channel_gains', 'gain per use'), ('noises', 'noise per use'), ('unnoisy_output', 'faded signal before noise')])
p('C21', 'Discrete channels corrupt only in their declared way',
  'The binary erasure channel either passes a bit unchanged or replaces it by -1 and the binary symmetric channel either passes or complements it, position by position, without altering length, order or the input array. '
  'Probability zero is the identity and probability one erases or complements everything.',
  ['inputs'], 'all bit arrays and probabilities', 'Tests compare a statistical rate on one array.', [CH], 'bec, bsc')
LK = 'commpy/links.py'
p('C22', 'link_performance accounts every bit and stops exactly when it should',
  'For every SNR list and link model, each reported BER equals the bit errors counted divided by the bits sent; simulation of a point ends at the first send after which at least err_min errors or send_max bits were reached, every send carries the largest frame not above send_chunk that fills whole symbol vectors at the given code rate (at least one such unit), and the SNR of the channel is set for each point before sending. '
  'A point that ends with fewer than err_min errors ends the run and leaves zeros for the remaining points, and decoder output beyond the sent length is ignored; without a decoder the received bits are the decoded ones.',
  ['inputs', 'histories', 'configurations'], 'all error histories produced by the link, SNR lists, send limits and chunk sizes',
  'Tests compare one simulated BER with theory within a wide tolerance.',
  [LK], 'LinkModel.link_performance', [('bit_send', 'bits sent for this SNR'), ('bit_err', 'errors counted')])
p('C23', 'Full-metrics simulation counts chunks, losses and throughput consistently',
  'link_performance_full_metrics returns, per SNR and transmission, the bit errors, the number of lost chunks (those with at least one wrong bit) and the number of chunks sent, exactly as they happened, and a BER equal to all bit errors over all bits sent. '
  'A point ends after tx_max transmissions or, if asked to, once its errors exceed err_min; a point with fewer than err_min errors ends the run and later points stay zero.',
  ['inputs', 'histories', 'configurations'], 'all error histories, tx/chunk/err limits',
  'Tests compare one simulated BER with theory.', [LK], 'LinkModel.link_performance_full_metrics', [('bers', 'per-transmission BER'), ('ces', 'per-transmission lost chunks')])
p('C24', 'Iterative detection and decoding alternates detector and decoder exactly',
  'The decoder built by idd_decoder runs the given number of iterations, each one decoder call followed by one detector call per received vector in order, handing each side the extrinsic information of the other (the output with its own input subtracted), starting from the given LLRs and deciding on the last detector output. '
  'This holds for every number of iterations and every detector and decoder.',
  ['inputs', 'histories', 'configurations'], 'all iteration counts, detector/decoder functions',
  'Only one simulated BER is compared.', [LK], 'idd_decoder: closure with a-priori exchange loop', [('a_priori', 'extrinsic information fed to the detector')])
p('C25', 'WiFi 802.11 link follows the MCS table end to end',
  'For every MCS 0-9 the modulation order, code rate and puncturing pattern of the simulated transmission are those of the 802.11 table, the code is the standard (133,171) octal one, and the symbols put on the channel are exactly the modulated punctured code bits of the message. '
  'Transmissions without channel errors report zero errors for every chunk size, frame aggregation and MCS.',
  ['inputs', 'configurations'], 'all MCS values and message lengths',
  'Tests run a few MCS at one SNR.', ['commpy/wifi80211.py', CC, MO], 'Wifi80211: get_modem, coding, puncture matrices, link closures')
SE = 'commpy/sequences.py'
p('C26', 'PN sequences are runs of the declared linear feedback shift register',
  'For every order, seed, tap mask and length pnsequence returns exactly the bits produced by clocking the declared LFSR, and for primitive taps the sequence has period 2^order-1 and is balanced. '
  'Seeds or masks of inconsistent length raise ValueError.',
  ['inputs', 'configurations'], 'all orders, seeds, masks, lengths', 'One literal is tested.', [SE], 'pnsequence', [('sr', 'shift register')])
p('C27', 'Zadoff-Chu sequences and frequency offsets have exact phases',
  'For every root, length and offset q with the length coprime to the root, every sample of zcsequence has unit magnitude and the phase of the closed Zadoff-Chu formula, so the sequence has ideal cyclic autocorrelation. '
  'add_frequency_offset rotates sample k by exactly k times the offset over the sampling rate and changes no magnitude; root/length arguments outside their domain are rejected.',
  ['inputs'], 'all (u, length, q); all sampling rates/offsets', 'Three literals are tested.', [SE, 'commpy/impairments.py'], 'zcsequence, add_frequency_offset')
UT = 'commpy/utilities.py'
p('C28', 'Bit utilities are exact, mutually inverse and independent of call history',
  'dec2bitarray and bitarray2dec are inverse most-significant-bit-first conversions for every number and every width it fits, hamming_dist, euclid_dist and upsample equal their definitions and signal_power is the mean squared magnitude. '
  'Results never depend on earlier calls or on what callers did to earlier results.',
  ['inputs', 'histories'], 'all numbers, widths, arrays and call histories including callers that modify results',
  'Tests call each function once with a literal.', [UT], 'decimal2bitarray (cached), dec2bitarray, bitarray2dec, hamming_dist, upsample, ...', [('cache', 'memoised conversions')])
p('C29', 'OFDM modulation round-trips and keeps its carrier layout',
  'For every FFT size, number of used carriers and cyclic prefix length, ofdm_rx recovers exactly the data ofdm_tx sent, ofdm_tx places the carriers symmetrically around an empty DC bin, and the first samples of each transmitted symbol repeat its last ones. '
  'Different OFDM symbols never influence each other.',
  ['inputs', 'configurations'], 'all (nfft, nsc, cp_length) and data vectors', 'There is no test.', [MO], 'ofdm_tx, ofdm_rx')
p('C30', 'Library calls have no side effects on arguments or later calls',
  'No encoder, decoder, modem, detector, sequence, channel or utility function modifies the arrays it is given (the documented in-place clipping of LDPC LLRs and completion of LDPC parameters excepted). '
  'Apart from functions that draw random numbers, repeating a call with equal arguments gives an equal result whatever was called or done with earlier results or with the arguments of earlier calls in between.',
  ['inputs', 'histories'], 'all public functions, argument values and call sequences',
  'Each test calls a function once on fresh literals and never re-examines its arguments.',
  ['commpy'], 'every public function; lru_cache in utilities; shared tables in Trellis, Modem and interleaver objects')
FI = 'commpy/filters.py'
p('C31', 'Pulse-shaping filters sample the analytic impulse responses exactly',
  'rcosfilter and rrcosfilter return the analytic raised-cosine and root-raised-cosine impulse response (with its limits at the removable singularities) at the N instants (k - N/2)/Fs for every length, roll-off, symbol period and sampling rate; gaussianfilter and rectfilter the Gaussian pulse of the given parameter and the unit pulse. '
  'The returned time index is exactly those instants, so the peak sits at index N/2 and no sample is infinite or undefined.',
  ['inputs', 'configurations'], 'all lengths, roll-offs, symbol periods and sampling rates, in particular those whose instants hit a singular point up to rounding',
  'The tests check a few values of one configuration; the singular points reached only up to rounding are never met.',
  [FI], 'rcosfilter, rrcosfilter, gaussianfilter, rectfilter: special cases by comparison of floats')
p('C32', 'Noise and fading samples follow the declared laws, independently',
  'The noise added by awgn and by every channel is white Gaussian of the configured power (awgn: mean symbol energy over rate times SNR), circular for complex signals, and independent of earlier noise, of the gains, of the other antennas and of the message. '
  'Channel gains are the configured mean plus a zero-mean Gaussian part of the configured variance (and correlation), circular for complex channels, with fresh independent draws for every use of the channel.',
  ['inputs', 'configurations', 'histories'], 'all SNR, rate and fading settings and sequences of transmissions',
  'Tests compare first and second moments of one transmission within wide tolerances; they see neither correlation between uses, antennas, dimensions and calls nor the shape of the law.',
  [CH], 'standard_normal draws scaled by noise_std and fading parameters', [('noises', 'noise of the last transmission'), ('channel_gains', 'gains of the last transmission')])
p('C33', 'MIMO link simulations transport every bit to its own position',
  'For every antenna count, modulation and message length, the modulate-propagate-receive closures of a MIMO link recover a noiseless message bit for bit and in order, with hard, soft and iterative receivers alike.',
  ['inputs', 'configurations'], 'all antenna counts, constellations, receivers, message lengths',
  'Tests simulate two fixed links.', [LK, CH, MO], 'LinkModel/MIMO receive closures')
if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    print(len(P))
