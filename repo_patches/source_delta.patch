From 3de586b542d78fee8adeca28216873840a812b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 01/35] fix: decimal2bitarray hands out a copy of its cached
 array

Modifying a returned array changed the result of every later conversion of
the same number (dec2bitarray included).
---
 commpy/utilities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/commpy/utilities.py b/commpy/utilities.py
index 5212aab..3265493 100644
--- a/commpy/utilities.py
+++ b/commpy/utilities.py
@@ -55,7 +55,6 @@ def dec2bitarray(in_number, bit_width):
     return result
 
 
-@functools.lru_cache(maxsize=128, typed=False)
 def decimal2bitarray(number, bit_width):
     """
     Converts a positive integer to NumPy array of the specified size containing bits (0 and 1). This version is slightly
@@ -75,6 +74,12 @@ def decimal2bitarray(number, bit_width):
         Array containing the binary representation of all the input decimal(s).
 
     """
+    return _decimal2bitarray(number, bit_width).copy()
+
+
+@functools.lru_cache(maxsize=128, typed=False)
+def _decimal2bitarray(number, bit_width):
+    """ Cached conversion, the returned array is shared and must not be modified. """
     result = np.zeros(bit_width, np.int8)
     i = 1
     pox = 0
-- 
2.43.0


From 325013fb18012c4a261485703251672af37eefdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 02/35] fix: GF.power_to_tuple no longer overflows for
 exponents above 62

---
 commpy/channelcoding/gfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/gfields.py b/commpy/channelcoding/gfields.py
index 6bd0e1d..ae20ce6 100644
--- a/commpy/channelcoding/gfields.py
+++ b/commpy/channelcoding/gfields.py
@@ -77,10 +77,11 @@ class GF:
         """
         y = zeros(len(self.elements))
         for idx, i in enumerate(self.elements):
+            i = int(i)
             if 2**i < 2**self.m:
                 y[idx] = 2**i
             else:
-                y[idx] = polydivide(2**i, self.prim_poly)
+                y[idx] = polydivide(2**i, int(self.prim_poly))
         return GF(y, self.m)
 
     def tuple_to_power(self):
-- 
2.43.0


From 3a7af1690c45747932e7ca9314e7ea3762b07c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 03/35] fix: polydivide terminates when the divisor is the
 polynomial 1

---
 commpy/channelcoding/gfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/gfields.py b/commpy/channelcoding/gfields.py
index ae20ce6..ec138a9 100644
--- a/commpy/channelcoding/gfields.py
+++ b/commpy/channelcoding/gfields.py
@@ -165,7 +165,7 @@ class GF:
 # Divide two polynomials and returns the remainder
 def polydivide(x, y):
     r = y
-    while len(bin(r)) >= len(bin(y)):
+    while r != 0 and len(bin(r)) >= len(bin(y)):
         shift_count = len(bin(x)) - len(bin(y))
         if shift_count > 0:
             d = y << shift_count
-- 
2.43.0


From 78df1339561fc9476dcf61b670eadb90878ce971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 04/35] fix: cyclic_code_genpoly for n other than 2^m - 1 and
 for polynomials above 53 bits

Factors that do not divide x^n + 1 were used when n < 2^m - 1 (n=5, k=1 gave
three polynomials instead of 31), the call failed for m >= 6 and large
polynomials lost bits in float arithmetic.
---
 commpy/channelcoding/algcode.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/commpy/channelcoding/algcode.py b/commpy/channelcoding/algcode.py
index 94e2105..30b402a 100644
--- a/commpy/channelcoding/algcode.py
+++ b/commpy/channelcoding/algcode.py
@@ -1,10 +1,10 @@
 # Authors: CommPy contributors
 # License: BSD 3-Clause
 
-from numpy import array, arange, concatenate, convolve
+from numpy import array, arange, concatenate
 
 from commpy.channelcoding.gfields import GF, poly_to_string
-from commpy.utilities import dec2bitarray, bitarray2dec
+from commpy.utilities import dec2bitarray
 
 __all__ = ['cyclic_code_genpoly']
 
@@ -35,7 +35,9 @@ def cyclic_code_genpoly(n, k):
         if (2**m-1)%n == 0:
             break
 
+    # Only the elements whose order divides n are roots of x^n + 1.
     x_gf = GF(arange(1, 2**m), m)
+    x_gf = GF(x_gf.elements[n % x_gf.order() == 0], m)
     coset_fields = x_gf.cosets()
 
     coset_leaders = array([])
@@ -47,7 +49,7 @@ def cyclic_code_genpoly(n, k):
     y_gf = GF(coset_leaders, m)
     minpol_list = y_gf.minpolys()
     idx_list = arange(1, len(minpol_list))
-    poly_list = array([])
+    poly_list = []
 
     for i in range(1, 2**len(minpol_list)):
         i_array = dec2bitarray(i, len(minpol_list))
@@ -56,12 +58,15 @@ def cyclic_code_genpoly(n, k):
             poly_set = minpol_list[i_array == 1]
             gpoly = 1
             for poly in poly_set:
-                gpoly_array = dec2bitarray(gpoly, 2**m)
-                poly_array = dec2bitarray(poly, 2**m)
-                gpoly = bitarray2dec(convolve(gpoly_array, poly_array) % 2)
-            poly_list = concatenate((poly_list, array([gpoly])))
-
-    return poly_list.astype(int)
+                # Carry-less product on Python integers, it may exceed 64 bits
+                product = 0
+                for shift, bit in enumerate(reversed(bin(poly)[2:])):
+                    if bit == '1':
+                        product ^= gpoly << shift
+                gpoly = product
+            poly_list.append(gpoly)
+
+    return array(poly_list, int if n - k < 63 else object)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 618f02058ac2b708e99b9d15978dd4a8bff1e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 05/35] fix: Trellis with an integer feedback no longer
 modifies the caller's g_matrix

---
 commpy/channelcoding/convcode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index d1dcf16..1ace62d 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -133,6 +133,7 @@ class Trellis:
                  DeprecationWarning)
 
             if code_type == 'rsc':
+                g_matrix = g_matrix.copy()
                 for i in range(self.k):
                     g_matrix[i][i] = feedback
 
-- 
2.43.0


From 16c3945c05a9b79037addf3719aa197cf793f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 06/35] fix: conv_encode drops the zeros left after puncturing

The output kept the unpunctured length, so punctured streams (the second parity
stream of turbo_encode among them) ended with zeros that were never encoded.
---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 1ace62d..5c6db11 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -556,7 +556,7 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
             p_outbits[j] = outbits[i]
             j = j + 1
 
-    return p_outbits
+    return p_outbits[:j]
 
 
 def _where_c(inarray, rows, cols, search_value, index_array):
-- 
2.43.0


From fbbbafa4f903c3098b76a3e3d9b569970f07c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 07/35] fix: viterbi_decode never returns bits it has not
 decoded

With several inputs (or an explicit tb_depth) and a message shorter than the
traceback depth no traceback took place and uninitialised memory was returned;
the last symbol was skipped for codes with less memories than inputs.
---
 commpy/channelcoding/convcode.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 5c6db11..a1ba02b 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -699,9 +699,13 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     # Number of message bits after decoding
     L = int(len(coded_bits)*rate)
 
-    if tb_depth is None:
-        tb_depth = min(5 * total_memory, L)
+    # Number of trellis steps, the last one is only used to close the decoding
+    number_steps = max(int((L + total_memory) / k), L // k + 1)
 
+    # The traceback has to happen before the end of the trellis
+    if tb_depth is None:
+        tb_depth = 5 * total_memory
+    tb_depth = min(tb_depth, number_steps)
 
     path_metrics = np.full((trellis.number_states, 2), np.inf)
     path_metrics[0][0] = 0
@@ -719,7 +723,7 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     if decoding_type == 'soft':
         coded_bits = coded_bits.clip(-500, 500)
 
-    for t in range(1, int((L+total_memory)/k)):
+    for t in range(1, number_steps):
         # Get the received codeword corresponding to t
         if t <= L // k:
             r_codeword = coded_bits[(t-1)*n:t*n]
-- 
2.43.0


From f47716e6a2cd226a048c5d716c79649d8dd257eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 08/35] fix: conv_encode terminates every code in the all-zero
 state

The tail of recursive codes only worked for a few feedback polynomials (a
feedback of 7 ended in a nonzero state) and the tail of codes with several
inputs was too short when their memories differ.
---
 commpy/channelcoding/convcode.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index a1ba02b..c72c4a0 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -473,6 +473,26 @@ class Trellis:
             plt.savefig(save_path)
 
 
+def _flush_length(trellis):
+    """ Number of null inputs that brings any state of the encoder back to the all-zero state. """
+    states = np.arange(trellis.number_states)
+    for length in range(trellis.number_states):
+        if not states.any():
+            return length
+        states = trellis.next_state_table[states, 0]
+    # Null inputs do not terminate this (recursive) encoder
+    return math.ceil(trellis.total_memory / trellis.k)
+
+
+def _steps_to_zero(trellis):
+    """ Minimal number of inputs that bring each state of the encoder to the all-zero state. """
+    steps = np.full(trellis.number_states, np.inf)
+    steps[0] = 0
+    for _ in range(trellis.number_states):
+        steps[1:] = 1 + steps[trellis.next_state_table[1:]].min(1)
+    return steps
+
+
 def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=None):
     """
     Encode bits using a convolutional code.
@@ -514,7 +534,7 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
             number_inbits = number_message_bits
             number_outbits = int((number_inbits + k * total_memory)/rate)
         else:
-            number_inbits = number_message_bits + total_memory + total_memory % k
+            number_inbits = number_message_bits + k * _flush_length(trellis)
             inbits = np.zeros(number_inbits, 'int')
             # Pad the input bits with M zeros (L-th terminated truncation)
             inbits[0:number_message_bits] = message_bits
@@ -541,10 +561,10 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
         j += 1
 
     if code_type == 'rsc' and termination == 'term':
-        term_bits = dec2bitarray(current_state, trellis.total_memory)
-        term_bits = term_bits[::-1]
+        steps_to_zero = _steps_to_zero(trellis)
         for i in range(trellis.total_memory):
-            current_input = bitarray2dec(term_bits[i*k:(i+1)*k])
+            # Feed the input that brings the encoder closer to the all-zero state
+            current_input = steps_to_zero[next_state_table[current_state]].argmin()
             current_output = output_table[current_state][current_input]
             outbits[j*n:(j+1)*n] = dec2bitarray(current_output, n)
             current_state = next_state_table[current_state][current_input]
-- 
2.43.0


From b4d928867e78fdf8d1be0d5258bf7f552489c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 09/35] fix: viterbi_decode works for trellises with more
 inputs than states

---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index c72c4a0..7c37931 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -623,7 +623,7 @@ def _acs_traceback(r_codeword, trellis, decoding_type,
     next_state_table = trellis.next_state_table
     output_table = trellis.output_table
     pmetrics = np.empty(number_inputs)
-    index_array = np.empty([number_states, 2], 'int')
+    index_array = np.empty([number_states * number_inputs, 2], 'int')
 
     # Loop over all the current states (Time instant: t)
     for state_num in range(current_number_states):
-- 
2.43.0


From 9ab1d23955e0b21e3406c4429038edb66f4281ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 10/35] fix: exponential correlation rejects coefficients of
 modulus below one, as documented

They were accepted and produced an invalid (non hermitian) correlation matrix.
---
 commpy/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index d374755..773e992 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -520,9 +520,9 @@ class MIMOFlatChannel(_FlatChannel):
                     If betat or betar are negative.
         """
         # Check inputs
-        if abs(t) - 1 > 1e-4:
+        if abs(abs(t) - 1) > 1e-4:
             raise ValueError('abs(t) must be one.')
-        if abs(r) - 1 > 1e-4:
+        if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
 
         # Construct the exponent matrix
@@ -602,9 +602,9 @@ class MIMOFlatChannel(_FlatChannel):
                     If betat or betar are negative.
         """
         # Check inputs
-        if abs(t) - 1 > 1e-4:
+        if abs(abs(t) - 1) > 1e-4:
             raise ValueError('abs(t) must be one.')
-        if abs(r) - 1 > 1e-4:
+        if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
 
         # Scaling
-- 
2.43.0


From d04b759dcb13e55efb7bbd28cd07c9f04d455105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 11/35] fix: rejected negative beta leaves the fading
 parameters unchanged

---
 commpy/channels.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commpy/channels.py b/commpy/channels.py
index 773e992..d654258 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -524,6 +524,8 @@ class MIMOFlatChannel(_FlatChannel):
             raise ValueError('abs(t) must be one.')
         if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
+        if betar < 0 or betat < 0:
+            raise ValueError("beta must be positif")
 
         # Construct the exponent matrix
         expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), int, self.nb_tx ** 2)
@@ -606,6 +608,8 @@ class MIMOFlatChannel(_FlatChannel):
             raise ValueError('abs(t) must be one.')
         if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
+        if betar < 0 or betat < 0:
+            raise ValueError("beta must be positif")
 
         # Scaling
         nb_antennas = mean.size
-- 
2.43.0


From 8c65de7092e84d30c10603f84ccad725b58ce9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 12/35] fix: MIMOFlatChannel.propagate accepts complex
 correlation matrices

scipy's sqrtm may return extended precision complex arrays, which the correlation
einsum refused to store in the channel gains.
---
 commpy/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index d654258..471c75b 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -375,7 +375,7 @@ class MIMOFlatChannel(_FlatChannel):
 
         # Add correlation and mean
         einsum('ij,ajk,lk->ail', sqrtm(self.fading_param[2]), self.channel_gains, sqrtm(self.fading_param[1]),
-               out=self.channel_gains, optimize='greedy')
+               out=self.channel_gains, casting='same_kind', optimize='greedy')
         self.channel_gains += self.fading_param[0]
 
         # Generate outputs
-- 
2.43.0


From 5494ac3861502dd09e3c285b5fd2e706910aedc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 13/35] fix: best_first_detector works with more receive than
 transmit antennas

---
 commpy/modulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 4f90a52..cb68962 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -495,7 +495,7 @@ def best_first_detector(y, h, constellation, stack_size, noise_var, demode, llr_
             return _Node(children_symb_vectors[:, ordering], children_metric[ordering])
 
     # Extract information from arguments
-    nb_tx, nb_rx = h.shape
+    nb_rx, nb_tx = h.shape
     constellation = array(constellation)
     m = constellation.size
     modulation_order = int(log2(m))
-- 
2.43.0


From 0b5f3dfc8e54123a8820cd0cfb552bcf69fe8384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 14/35] fix: ofdm_tx and ofdm_rx run under Python 3 and accept
 a null cyclic prefix

Floats were used as array sizes and indices, so every call raised, and a cyclic
prefix of length zero would have repeated the whole symbol.
---
 commpy/modulation.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index cb68962..64f92be 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -265,18 +265,15 @@ class QAMModem(Modem):
 def ofdm_tx(x, nfft, nsc, cp_length):
     """ OFDM Transmit signal generation """
 
-    nfft = float(nfft)
-    nsc = float(nsc)
-    cp_length = float(cp_length)
     ofdm_tx_signal = array([])
 
     for i in range(0, shape(x)[1]):
         symbols = x[:, i]
         ofdm_sym_freq = zeros(nfft, dtype=complex)
-        ofdm_sym_freq[1:(nsc / 2) + 1] = symbols[nsc / 2:]
-        ofdm_sym_freq[-(nsc / 2):] = symbols[0:nsc / 2]
+        ofdm_sym_freq[1:(nsc // 2) + 1] = symbols[nsc // 2:]
+        ofdm_sym_freq[-(nsc // 2):] = symbols[0:nsc // 2]
         ofdm_sym_time = ifft(ofdm_sym_freq)
-        cp = ofdm_sym_time[-cp_length:]
+        cp = ofdm_sym_time[nfft - cp_length:]
         ofdm_tx_signal = concatenate((ofdm_tx_signal, cp, ofdm_sym_time))
 
     return ofdm_tx_signal
@@ -291,7 +288,7 @@ def ofdm_rx(y, nfft, nsc, cp_length):
     for i in range(0, num_ofdm_symbols):
         ofdm_symbol = y[i * nfft + (i + 1) * cp_length:(i + 1) * (nfft + cp_length)]
         symbols_freq = fft(ofdm_symbol)
-        x_hat[:, i] = concatenate((symbols_freq[-nsc / 2:], symbols_freq[1:(nsc / 2) + 1]))
+        x_hat[:, i] = concatenate((symbols_freq[-(nsc // 2):], symbols_freq[1:(nsc // 2) + 1]))
 
     return x_hat
 
-- 
2.43.0


From bfbf0a34cd1b0645cbcb35372f5afd340b2701e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 15/35] fix: link_performance_full_metrics accounts for every
 chunk of a transmission

The BER ignored number_chunks_per_send in the number of bits sent and at most
one lost chunk was counted per transmission.
---
 commpy/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/links.py b/commpy/links.py
index 356f32d..5d56ee7 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -257,9 +257,9 @@ class LinkModel:
 
                 chunk_count[id_tx] += number_chunks_per_send
                 total_tx_send += 1
-            BERs[id_SNR] = bit_err.sum() / (total_tx_send * send_chunk)
+            BERs[id_SNR] = bit_err.sum() / (total_tx_send * send_chunk * number_chunks_per_send)
             BEs[id_SNR] = bit_err
-            CEs[id_SNR] = np.where(bit_err > 0, 1, 0)
+            CEs[id_SNR] = chunk_loss
             NCs[id_SNR] = chunk_count
             if BEs[id_SNR].sum() < err_min:
                 break
-- 
2.43.0


From 559428672fdc63222cdf9fce6d9f29b52547d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 16/35] fix: Wifi80211 uses the octal generator polynomials
 (133, 171) of the standard

---
 commpy/wifi80211.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/wifi80211.py b/commpy/wifi80211.py
index 58ee435..fd7b104 100644
--- a/commpy/wifi80211.py
+++ b/commpy/wifi80211.py
@@ -46,7 +46,7 @@ class Wifi80211:
     # "The encoder uses a 6-stage shift register."
     # (https://pdfs.semanticscholar.org/c63b/71e43dc23b17ca57267f3b769224c64d5e33.pdf p.19)
     memory = np.array(6, ndmin=1)
-    generator_matrix = np.array((133, 171), ndmin=2)  # from 802.11 standard, page 2295
+    generator_matrix = np.array((0o133, 0o171), ndmin=2)  # from 802.11 standard, page 2295
 
     def get_modem(self) -> mod.Modem:
         """
@@ -105,7 +105,7 @@ class Wifi80211:
 
     @staticmethod
     def _get_trellis():
-        return cc.Trellis(Wifi80211.memory, Wifi80211.generator_matrix)
+        return cc.Trellis(Wifi80211.memory, Wifi80211.generator_matrix, polynomial_format='Matlab')
 
     def __init__(self, mcs: int):
         """
-- 
2.43.0


From 1625094d21a462e761c7c5173602bbb31c2316c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 17/35] fix: sum-product LDPC decoding of null LLRs (erasures)
 no longer yields nan

A null message made the leave-one-out division 0/0 and the whole block undecodable.
---
 commpy/channelcoding/ldpc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index b8fe73c..ae813fa 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -211,6 +211,11 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                 message_matrix.data *= .5
                 np.tanh(message_matrix.data, out=message_matrix.data)
 
+                # Leave null messages out of the products, the messages they cancel are set to 0 afterwards
+                null_messages = message_matrix.copy()
+                null_messages.data = (message_matrix.data == 0).astype(float)
+                message_matrix.data[message_matrix.data == 0] = 1
+
                 # Runtime Warnings are expected when llr = 0. No warn should be raised as this case are expected.
                 with np.errstate(divide='ignore', invalid='ignore'):
                     # Compute product as exponent of the sum of logarithm
@@ -221,6 +226,8 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                     # Compute outgoing messages
                     message_matrix.data = 1 / message_matrix.data
                     message_matrix = message_matrix.multiply(msg_products)
+                    nb_null = parity_check_matrix.multiply(null_messages.sum(1))
+                    message_matrix.data[nb_null.data > null_messages.data] = 0
                     message_matrix.data.clip(-1, 1, message_matrix.data)
                     np.arctanh(message_matrix.data, out=message_matrix.data)
                     message_matrix.data *= 2
-- 
2.43.0


From 73fd3edaa225bbaef51e3c303c2f916872e94d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 18/35] fix: Trellis output for an integer feedback and a
 generator without D^0 term

The feedback sum was added to every output, also to those the register input
does not contribute to.
---
 commpy/channelcoding/convcode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 7c37931..7645375 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -181,8 +181,8 @@ class Trellis:
 
                         # Compute the contribution of the current_input to output
                         outbits[r] = (outbits[r] + \
-                                      (np.sum(dec2bitarray(current_input, self.k) * \
-                                              output_generator_array + feedback_array) % 2)) % 2
+                                      (np.sum((dec2bitarray(current_input, self.k) + feedback_array) * \
+                                              output_generator_array) % 2)) % 2
 
                     # Update the ouput_table using the computed output value
                     self.output_table[current_state][current_input] = \
-- 
2.43.0


From 8dff24601c7bd891bc4cda9d70e8d7bb910316f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 19/35] fix: viterbi_decode no longer overwrites the last
 received bits of its argument

---
 commpy/channelcoding/convcode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 7645375..70e3e0f 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -750,11 +750,11 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
         # Pad with '0'
         else:
             if decoding_type == 'hard':
-                r_codeword[:] = 0
+                r_codeword = np.zeros(n, 'int')
             elif decoding_type == 'soft':
-                r_codeword[:] = 0
+                r_codeword = np.zeros(n, 'int')
             elif decoding_type == 'unquantized':
-                r_codeword[:] = -1
+                r_codeword = np.full(n, -1)
             else:
                 raise ValueError('The available decoding types are "hard", "soft" and "unquantized')
 
-- 
2.43.0


From 98ad2966cd9b022951b7324a5aecdb0a319a0e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 20/35] fix: MAP and turbo decoding no longer underflow at low
 noise variances

---
 commpy/channelcoding/turbo.py | 60 +++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/commpy/channelcoding/turbo.py b/commpy/channelcoding/turbo.py
index 491f2c2..b8f9c51 100644
--- a/commpy/channelcoding/turbo.py
+++ b/commpy/channelcoding/turbo.py
@@ -3,7 +3,9 @@
 
 """ Turbo Codes """
 
-from numpy import array, zeros, exp, log, empty
+import math
+
+from numpy import array, zeros, empty, full, inf, logaddexp
 
 from commpy.channelcoding import conv_encode
 from commpy.utilities import dec2bitarray
@@ -59,6 +61,12 @@ def turbo_encode(msg_bits, trellis1, trellis2, interleaver):
     return [sys_stream, non_sys_stream_1, non_sys_stream_2]
 
 
+def _log_add(x, y):
+    """ log(exp(x) + exp(y)) """
+    if x < y:
+        x, y = y, x
+    return x if y == -inf else x + math.log1p(math.exp(y - x))
+
 def _compute_branch_prob(code_bit_0, code_bit_1, rx_symbol_0, rx_symbol_1,
                          noise_variance):
 
@@ -70,8 +78,8 @@ def _compute_branch_prob(code_bit_0, code_bit_1, rx_symbol_0, rx_symbol_1,
     x = rx_symbol_0 - code_symbol_0
     y = rx_symbol_1 - code_symbol_1
 
-    # Normalized branch transition probability
-    branch_prob = exp(-(x*x + y*y)/(2*noise_variance))
+    # Normalized branch transition log-probability
+    branch_prob = -(x*x + y*y)/(2*noise_variance)
 
     return branch_prob
 
@@ -103,12 +111,13 @@ def _backward_recursion(trellis, msg_length, noise_variance,
                                                    rx_symbol_0, rx_symbol_1,
                                                    noise_variance)
                 branch_probs[current_input, current_state, reverse_time_index-1] = branch_prob
-                b_state_metrics[current_state, reverse_time_index-1] += \
-                        (b_state_metrics[next_state, reverse_time_index] * branch_prob *
-                                priors[current_input, reverse_time_index-1])
+                b_state_metrics[current_state, reverse_time_index-1] = \
+                        _log_add(b_state_metrics[current_state, reverse_time_index-1],
+                                 b_state_metrics[next_state, reverse_time_index] + branch_prob +
+                                 priors[current_input, reverse_time_index-1])
 
-        b_state_metrics[:,reverse_time_index-1] /= \
-            b_state_metrics[:,reverse_time_index-1].sum()
+        b_state_metrics[:,reverse_time_index-1] -= \
+            b_state_metrics[:,reverse_time_index-1].max()
 
 
 def _forward_recursion_decoding(trellis, mode, msg_length, noise_variance,
@@ -127,22 +136,24 @@ def _forward_recursion_decoding(trellis, mode, msg_length, noise_variance,
     # Forward Recursion
     for time_index in range(1, msg_length+1):
 
-        app[:] = 0
+        app[:] = -inf
         for current_state in range(number_states):
             for current_input in range(number_inputs):
                 next_state = next_state_table[current_state, current_input]
                 branch_prob = branch_probs[current_input, current_state, time_index-1]
                 # Compute the forward state metrics
-                f_state_metrics[next_state, 1] += (f_state_metrics[current_state, 0] *
-                                                   branch_prob *
-                                                   priors[current_input, time_index-1])
+                f_state_metrics[next_state, 1] = _log_add(f_state_metrics[next_state, 1],
+                                                          f_state_metrics[current_state, 0] +
+                                                          branch_prob +
+                                                          priors[current_input, time_index-1])
 
                 # Compute APP
-                app[current_input] += (f_state_metrics[current_state, 0] *
-                                       branch_prob *
-                                       b_state_metrics[next_state, time_index])
+                app[current_input] = _log_add(app[current_input],
+                                              f_state_metrics[current_state, 0] +
+                                              branch_prob +
+                                              b_state_metrics[next_state, time_index])
 
-        lappr = L_int[time_index-1] + log(app[1]/app[0])
+        lappr = L_int[time_index-1] + app[1] - app[0]
         L_ext[time_index-1] = lappr
 
         if mode == 'decode':
@@ -152,10 +163,10 @@ def _forward_recursion_decoding(trellis, mode, msg_length, noise_variance,
                 decoded_bits[time_index-1] = 0
 
         # Normalization of the forward state metrics
-        f_state_metrics[:,1] = f_state_metrics[:,1]/f_state_metrics[:,1].sum()
+        f_state_metrics[:,1] = f_state_metrics[:,1] - f_state_metrics[:,1].max()
 
         f_state_metrics[:,0] = f_state_metrics[:,1]
-        f_state_metrics[:,1] = 0.0
+        f_state_metrics[:,1] = -inf
 
 
 
@@ -216,14 +227,15 @@ def map_decode(sys_symbols, non_sys_symbols, trellis, noise_variance, L_int, mod
 
     msg_length = len(sys_symbols)
 
+    # All metrics are logarithms, since probabilities underflow at low noise variances
     # Initialize forward state metrics (alpha)
-    f_state_metrics = zeros([number_states, 2])
-    f_state_metrics[0][0] = 1
+    f_state_metrics = full([number_states, 2], -inf)
+    f_state_metrics[0][0] = 0
     #print f_state_metrics
 
     # Initialize backward state metrics (beta)
-    b_state_metrics = zeros([number_states, msg_length+1])
-    b_state_metrics[:,msg_length] = 1
+    b_state_metrics = full([number_states, msg_length+1], -inf)
+    b_state_metrics[:,msg_length] = 0
 
     # Initialize branch transition probabilities (gamma)
     branch_probs = zeros([number_inputs, number_states, msg_length+1])
@@ -236,8 +248,8 @@ def map_decode(sys_symbols, non_sys_symbols, trellis, noise_variance, L_int, mod
     L_ext = zeros(msg_length)
 
     priors = empty([2, msg_length])
-    priors[0,:] = 1/(1 + exp(L_int))
-    priors[1,:] = 1 - priors[0,:]
+    priors[0,:] = -logaddexp(0, L_int)
+    priors[1,:] = -logaddexp(0, -L_int)
 
     # Backward recursion
     _backward_recursion(trellis, msg_length, noise_variance, sys_symbols,
-- 
2.43.0


From 1c1f3462c6e70c09db8137c05efba0364c412df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 21/35] fix: soft demodulation no longer underflows to nan or
 inf at low noise variances

---
 commpy/modulation.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 64f92be..21ff350 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -25,7 +25,7 @@ from bisect import insort
 import matplotlib.pyplot as plt
 from numpy import arange, array, zeros, pi, sqrt, log2, argmin, \
     hstack, repeat, tile, dot, shape, concatenate, exp, \
-    log, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
+    logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
 from numpy.fft import fft, ifft
 from numpy.linalg import qr, norm
 from sympy.combinatorics.graycode import GrayCode
@@ -124,17 +124,14 @@ class Modem:
 
         elif demod_type == 'soft':
             demod_bits = zeros(len(input_symbols) * self.num_bits_symbol)
+            labels = arange(self.m)
             for i in arange(len(input_symbols)):
-                current_symbol = input_symbols[i]
+                # Work with log-likelihoods, likelihoods underflow when the noise variance is low
+                log_likelihoods = -abs(input_symbols[i] - self._constellation) ** 2 / noise_var
                 for bit_index in arange(self.num_bits_symbol):
-                    llr_num = 0
-                    llr_den = 0
-                    for bit_value, symbol in enumerate(self._constellation):
-                        if (bit_value >> bit_index) & 1:
-                            llr_num += exp((-abs(current_symbol - symbol) ** 2) / noise_var)
-                        else:
-                            llr_den += exp((-abs(current_symbol - symbol) ** 2) / noise_var)
-                    demod_bits[i * self.num_bits_symbol + self.num_bits_symbol - 1 - bit_index] = log(llr_num / llr_den)
+                    ones = (labels >> bit_index) & 1 == 1
+                    llr = logaddexp.reduce(log_likelihoods[ones]) - logaddexp.reduce(log_likelihoods[~ones])
+                    demod_bits[i * self.num_bits_symbol + self.num_bits_symbol - 1 - bit_index] = llr
         else:
             raise ValueError('demod_type must be "hard" or "soft"')
 
-- 
2.43.0


From 6c6e4ecdae842eb8c7cc83f71f26ae52f8cb0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 22/35] fix: SISO fading parameters are not rejected for
 rounding errors, negative variances are

---
 commpy/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 471c75b..77aa394 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -227,7 +227,7 @@ class SISOFlatChannel(_FlatChannel):
 
     @fading_param.setter
     def fading_param(self, fading_param):
-        if fading_param[1] + absolute(fading_param[0]) ** 2 != 1:
+        if fading_param[1] < 0 or not absolute(fading_param[1] + absolute(fading_param[0]) ** 2 - 1) < 1e-9:
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-- 
2.43.0


From 2a626e811ad9e5c5fe65418785e9f7c4b00266d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 23/35] fix: MIMO fading parameters with undefined power are
 rejected

---
 commpy/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 77aa394..658c2f2 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -461,7 +461,7 @@ class MIMOFlatChannel(_FlatChannel):
     def fading_param(self, fading_param):
         NLOS_gain = trace(kron(fading_param[1].T, fading_param[2]))
         LOS_gain = einsum('ij,ij->', absolute(fading_param[0]), absolute(fading_param[0]))
-        if absolute(NLOS_gain + LOS_gain - self.nb_tx * self.nb_rx) > 1e-3:
+        if not absolute(NLOS_gain + LOS_gain - self.nb_tx * self.nb_rx) <= 1e-3:
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-- 
2.43.0


From ee50909c4bfdce55dbf5851c1f4543f3d9709530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 24/35] fix: channels recognise complex values of every
 precision

---
 commpy/channels.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 658c2f2..b1baab5 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -20,7 +20,7 @@ Channel Models (:mod:`commpy.channels`)
 from __future__ import division, print_function  # Python 2 compatibility
 
 from numpy import abs, sqrt, sum, zeros, identity, hstack, einsum, trace, kron, absolute, fromiter, array, exp, \
-    pi, cos
+    pi, cos, iscomplexobj
 from numpy.random import randn, random, standard_normal
 from scipy.linalg import sqrtm
 
@@ -202,7 +202,7 @@ class SISOFlatChannel(_FlatChannel):
                         If the noise standard deviation as not been set yet.
         """
 
-        if isinstance(msg[0], complex) and not self.isComplex:
+        if iscomplexobj(msg) and not self.isComplex:
             raise TypeError('Trying to propagate a complex message in a real channel.')
         nb_symb = len(msg)
 
@@ -231,7 +231,7 @@ class SISOFlatChannel(_FlatChannel):
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-        self._isComplex = isinstance(fading_param[0], complex)
+        self._isComplex = iscomplexobj(fading_param[0])
 
     @property
     def k_factor(self):
@@ -351,7 +351,7 @@ class MIMOFlatChannel(_FlatChannel):
                         If the noise standard deviation noise_std as not been set yet.
         """
 
-        if isinstance(msg[0], complex) and not self.isComplex:
+        if iscomplexobj(msg) and not self.isComplex:
             raise TypeError('Trying to propagate a complex message in a real channel.')
         (nb_vect, mod) = divmod(len(msg), self.nb_tx)
 
@@ -465,7 +465,7 @@ class MIMOFlatChannel(_FlatChannel):
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-        self._isComplex = isinstance(fading_param[0][0, 0], complex)
+        self._isComplex = iscomplexobj(fading_param[0])
 
     @property
     def k_factor(self):
@@ -702,7 +702,7 @@ def awgn(input_signal, snr_dB, rate=1.0):
     snr_linear = 10 ** (snr_dB / 10.0)
     noise_variance = avg_energy / (2 * rate * snr_linear)
 
-    if isinstance(input_signal[0], complex):
+    if iscomplexobj(input_signal):
         noise = (sqrt(noise_variance) * randn(len(input_signal))) + (sqrt(noise_variance) * randn(len(input_signal))*1j)
     else:
         noise = sqrt(2 * noise_variance) * randn(len(input_signal))
-- 
2.43.0


From f0c83d9c9e7ac61b01c86dd61b078d02973ffe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 25/35] fix: exponentially correlated Rician fading with a real
 mean makes a complex channel

---
 commpy/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index b1baab5..5dcb1ea 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -624,8 +624,8 @@ class MIMOFlatChannel(_FlatChannel):
         expo_tx = expo_tx.reshape(self.nb_tx, self.nb_tx)
         expo_rx = expo_rx.reshape(self.nb_rx, self.nb_rx)
 
-        # Set fading
-        self.fading_param = mean, t ** expo_tx * NLOS_gain / nb_antennas, r ** expo_rx
+        # Set fading (the correlations are complex, so is the channel)
+        self.fading_param = mean.astype(complex), t ** expo_tx * NLOS_gain / nb_antennas, r ** expo_rx
 
         # Update Rr and Rt
         self._update_corr_KBSM(betat, betar)
-- 
2.43.0


From 70092c4a8aa11a678b1cfc7f80dfe6bebb41a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 26/35] fix: binary channels with probability zero never
 corrupt a bit

---
 commpy/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 5dcb1ea..c2c2805 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -649,7 +649,7 @@ def bec(input_bits, p_e):
         Output bits from the channel.
     """
     output_bits = input_bits.copy()
-    output_bits[random(len(output_bits)) <= p_e] = -1
+    output_bits[random(len(output_bits)) < p_e] = -1
     return output_bits
 
 
@@ -671,7 +671,7 @@ def bsc(input_bits, p_t):
         Output bits from the channel.
     """
     output_bits = input_bits.copy()
-    flip_locs = (random(len(output_bits)) <= p_t)
+    flip_locs = (random(len(output_bits)) < p_t)
     output_bits[flip_locs] = 1 ^ output_bits[flip_locs]
     return output_bits
 
-- 
2.43.0


From b536aab5ff47d0ebb549602b7c600a227643253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 27/35] fix: MIMO links hand the decoder exactly the received
 bits at every code rate

---
 commpy/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/links.py b/commpy/links.py
index 5d56ee7..5adac2e 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -233,7 +233,7 @@ class LinkModel:
                 # Deals with MIMO channel
                 if isinstance(self.channel, MIMOFlatChannel):
                     nb_symb_vector = len(channel_output)
-                    received_msg = np.empty(int(math.ceil(len(msg) / float(self.rate))))
+                    received_msg = np.empty(int(math.ceil(len(msg) / self.rate)))
                     for i in range(nb_symb_vector):
                         received_msg[receive_size * i:receive_size * (i + 1)] = \
                             self.receive(channel_output[i], self.channel.channel_gains[i],
@@ -319,7 +319,7 @@ class LinkModel:
                 # Deals with MIMO channel
                 if isinstance(self.channel, MIMOFlatChannel):
                     nb_symb_vector = len(channel_output)
-                    received_msg = np.empty(int(math.ceil(len(msg) / float(self.rate))))
+                    received_msg = np.empty(int(math.ceil(len(msg) / self.rate)))
                     for i in range(nb_symb_vector):
                         received_msg[receive_size * i:receive_size * (i + 1)] = \
                             self.receive(channel_output[i], self.channel.channel_gains[i],
-- 
2.43.0


From 5ad697fbc78ec4d574a5e2b159f4dbd7f776359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 28/35] fix: bitarray2dec is exact for every width

With an array of NumPy integers, 64 bits and more overflowed to a float.
---
 commpy/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/utilities.py b/commpy/utilities.py
index 3265493..cd5379f 100644
--- a/commpy/utilities.py
+++ b/commpy/utilities.py
@@ -109,7 +109,7 @@ def bitarray2dec(in_bitarray):
     number = 0
 
     for i in range(len(in_bitarray)):
-        number = number + in_bitarray[i] * pow(2, len(in_bitarray) - 1 - i)
+        number = number + int(in_bitarray[i]) * pow(2, len(in_bitarray) - 1 - i)
 
     return number
 
-- 
2.43.0


From e711d3d19e8868f5b1aeb96cc8cd71c90a5d95ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 29/35] fix: dec2bitarray accepts unsigned 64-bit integers

A Python integer and a numpy.uint64 have no common integer type, so that the bitwise operation raised a TypeError.
---
 commpy/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commpy/utilities.py b/commpy/utilities.py
index cd5379f..3b563ed 100644
--- a/commpy/utilities.py
+++ b/commpy/utilities.py
@@ -18,6 +18,7 @@ Utilities (:mod:`commpy.utilities`)
    signal_power         -- Compute the power of a discrete time signal.
 """
 import functools
+import operator
 
 import numpy as np
 
@@ -74,7 +75,7 @@ def decimal2bitarray(number, bit_width):
         Array containing the binary representation of all the input decimal(s).
 
     """
-    return _decimal2bitarray(number, bit_width).copy()
+    return _decimal2bitarray(operator.index(number), bit_width).copy()
 
 
 @functools.lru_cache(maxsize=128, typed=False)
-- 
2.43.0


From 6d18fe0ba13a8c93f70c31e7e8be9210e89d6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 30/35] fix: exponential correlation accepts the integers 1 and
 -1

NumPy refuses negative integer powers of integers, so that a coefficient given as an int raised a ValueError.
---
 commpy/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index c2c2805..b91538e 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -528,8 +528,8 @@ class MIMOFlatChannel(_FlatChannel):
             raise ValueError("beta must be positif")
 
         # Construct the exponent matrix
-        expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), int, self.nb_tx ** 2)
-        expo_rx = fromiter((j - i for i in range(self.nb_rx) for j in range(self.nb_rx)), int, self.nb_rx ** 2)
+        expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), float, self.nb_tx ** 2)
+        expo_rx = fromiter((j - i for i in range(self.nb_rx) for j in range(self.nb_rx)), float, self.nb_rx ** 2)
 
         # Reshape
         expo_tx = expo_tx.reshape(self.nb_tx, self.nb_tx)
@@ -617,8 +617,8 @@ class MIMOFlatChannel(_FlatChannel):
         mean = mean * sqrt(k_factor * NLOS_gain / einsum('ij,ij->', absolute(mean), absolute(mean)))
 
         # Construct the exponent matrix
-        expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), int, self.nb_tx ** 2)
-        expo_rx = fromiter((j - i for i in range(self.nb_rx) for j in range(self.nb_rx)), int, self.nb_rx ** 2)
+        expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), float, self.nb_tx ** 2)
+        expo_rx = fromiter((j - i for i in range(self.nb_rx) for j in range(self.nb_rx)), float, self.nb_rx ** 2)
 
         # Reshape
         expo_tx = expo_tx.reshape(self.nb_tx, self.nb_tx)
-- 
2.43.0


From 3ff3e0d7a70db8dc5a490aef5cee3d720b224ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 31/35] fix: MIMO channels draw correct gains for singular
 correlations

scipy's sqrtm fails (nan) or gives wrong roots for singular matrices such as the exponential model with a real
coefficient; correlation matrices are Hermitian and positive semi-definite, so that their root follows from eigh.
---
 commpy/channels.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index b91538e..8791ae7 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -22,11 +22,17 @@ from __future__ import division, print_function  # Python 2 compatibility
 from numpy import abs, sqrt, sum, zeros, identity, hstack, einsum, trace, kron, absolute, fromiter, array, exp, \
     pi, cos, iscomplexobj
 from numpy.random import randn, random, standard_normal
-from scipy.linalg import sqrtm
+from scipy.linalg import eigh
 
 __all__ = ['SISOFlatChannel', 'MIMOFlatChannel', 'bec', 'bsc', 'awgn']
 
 
+def _sqrtm(correlation):
+    """ Square root of a correlation matrix: Hermitian and positive semi-definite, possibly singular. """
+    values, vectors = eigh(correlation)
+    return (vectors * sqrt(values.clip(0))).dot(vectors.conj().T)
+
+
 class _FlatChannel(object):
 
     def __init__(self):
@@ -374,7 +380,7 @@ class MIMOFlatChannel(_FlatChannel):
             self.channel_gains = standard_normal(dims)
 
         # Add correlation and mean
-        einsum('ij,ajk,lk->ail', sqrtm(self.fading_param[2]), self.channel_gains, sqrtm(self.fading_param[1]),
+        einsum('ij,ajk,lk->ail', _sqrtm(self.fading_param[2]), self.channel_gains, _sqrtm(self.fading_param[1]),
                out=self.channel_gains, casting='same_kind', optimize='greedy')
         self.channel_gains += self.fading_param[0]
 
-- 
2.43.0


From fb543ff31ccaf63be22460ecb40d44efec67dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 32/35] fix: LDPC generator matrices are computed modulo 2,
 exactly for every size

---
 commpy/channelcoding/ldpc.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index ae813fa..aced16e 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -1,15 +1,37 @@
 # Authors: CommPy contributors
 # License: BSD 3-Clause
 
+from warnings import warn
+
 import numpy as np
 import scipy.sparse as sp
-import scipy.sparse.linalg as splg
 
 __all__ = ['build_matrix', 'get_ldpc_code_params', 'ldpc_bp_decode', 'write_ldpc_params',
            'triang_ldpc_systematic_encode']
 
 _llr_max = 500
 
+
+def _solve_gf2(a, b):
+    """
+    Solve a.dot(x) = b modulo 2, exactly whatever the size, by Gauss-Jordan elimination on packed rows.
+    """
+    size = len(a)
+    rows = np.packbits(np.hstack((a, b)).astype(np.uint8), axis=1)
+    for col in range(size):
+        column = rows[:, col // 8] >> (7 - col % 8) & 1
+        pivot = col + column[col:].argmax()
+        if not column[pivot]:
+            warn('The last columns of the parity check matrix are not invertible modulo 2.')
+            continue
+        if pivot != col:
+            rows[[col, pivot]] = rows[[pivot, col]]
+            column[pivot] = column[col]
+        column[col] = 0
+        rows[column == 1] ^= rows[col]
+    return sp.csr_matrix(np.unpackbits(rows, axis=1)[:, size:size + b.shape[1]].astype(int))
+
+
 def build_matrix(ldpc_code_params):
     """
     Build the parity check and generator matrices from parameters dictionary and add the result in this dictionary.
@@ -45,7 +67,7 @@ def build_matrix(ldpc_code_params):
     parity_part = parity_check_matrix[:, :-n_cnodes]
 
     ldpc_code_params['parity_check_matrix'] = parity_check_matrix
-    ldpc_code_params['generator_matrix'] = splg.inv(systematic_part).dot(parity_part).tocsr()
+    ldpc_code_params['generator_matrix'] = _solve_gf2(systematic_part.toarray(), parity_part.toarray())
 
 
 def get_ldpc_code_params(ldpc_design_filename, compute_matrix=False):
-- 
2.43.0


From 31644872337ad6c3178566b960af24a3fb09692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:18 +0000
Subject: [PATCH 33/35] fix: RC and RRC filters take their limits at singular
 points reached up to rounding

---
 commpy/filters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commpy/filters.py b/commpy/filters.py
index 8a5f64f..fb5273f 100644
--- a/commpy/filters.py
+++ b/commpy/filters.py
@@ -57,9 +57,9 @@ def rcosfilter(N, alpha, Ts, Fs):
         t = (x-N/2)*T_delta
         if t == 0.0:
             h_rc[x] = 1.0
-        elif alpha != 0 and t == Ts/(2*alpha):
+        elif alpha != 0 and np.isclose(t, Ts/(2*alpha), rtol=1e-8, atol=0):
             h_rc[x] = (np.pi/4)*(np.sin(np.pi*t/Ts)/(np.pi*t/Ts))
-        elif alpha != 0 and t == -Ts/(2*alpha):
+        elif alpha != 0 and np.isclose(t, -Ts/(2*alpha), rtol=1e-8, atol=0):
             h_rc[x] = (np.pi/4)*(np.sin(np.pi*t/Ts)/(np.pi*t/Ts))
         else:
             h_rc[x] = (np.sin(np.pi*t/Ts)/(np.pi*t/Ts))* \
@@ -105,10 +105,10 @@ def rrcosfilter(N, alpha, Ts, Fs):
         t = (x-N/2)*T_delta
         if t == 0.0:
             h_rrc[x] = 1.0 - alpha + (4*alpha/np.pi)
-        elif alpha != 0 and t == Ts/(4*alpha):
+        elif alpha != 0 and np.isclose(t, Ts/(4*alpha), rtol=1e-8, atol=0):
             h_rrc[x] = (alpha/np.sqrt(2))*(((1+2/np.pi)* \
                     (np.sin(np.pi/(4*alpha)))) + ((1-2/np.pi)*(np.cos(np.pi/(4*alpha)))))
-        elif alpha != 0 and t == -Ts/(4*alpha):
+        elif alpha != 0 and np.isclose(t, -Ts/(4*alpha), rtol=1e-8, atol=0):
             h_rrc[x] = (alpha/np.sqrt(2))*(((1+2/np.pi)* \
                     (np.sin(np.pi/(4*alpha)))) + ((1-2/np.pi)*(np.cos(np.pi/(4*alpha)))))
         else:
-- 
2.43.0


From 9e36a60d39fcd873099b592f3df30044ebdf24b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 34/35] fix: convolutional code lengths are computed on
 integers

---
 commpy/channelcoding/convcode.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 70e3e0f..9660e69 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -514,7 +514,6 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
     k = trellis.k
     n = trellis.n
     total_memory = trellis.total_memory
-    rate = float(k)/n
     
     code_type = trellis.code_type
 
@@ -526,19 +525,19 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
     if termination == 'cont':
         inbits = message_bits
         number_inbits = number_message_bits
-        number_outbits = int(number_inbits/rate)
+        number_outbits = number_inbits * n // k
     else:
         # Initialize an array to contain the message bits plus the truncation zeros
         if code_type == 'rsc':
             inbits = message_bits
             number_inbits = number_message_bits
-            number_outbits = int((number_inbits + k * total_memory)/rate)
+            number_outbits = (number_inbits + k * total_memory) * n // k
         else:
             number_inbits = number_message_bits + k * _flush_length(trellis)
             inbits = np.zeros(number_inbits, 'int')
             # Pad the input bits with M zeros (L-th terminated truncation)
             inbits[0:number_message_bits] = message_bits
-            number_outbits = int(number_inbits/rate)
+            number_outbits = number_inbits * n // k
 
     outbits = np.zeros(number_outbits, 'int')
     if puncture_matrix is not None:
@@ -713,11 +712,10 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     # k = Rows in G(D), n = columns in G(D)
     k = trellis.k
     n = trellis.n
-    rate = k/n
     total_memory = trellis.total_memory
 
     # Number of message bits after decoding
-    L = int(len(coded_bits)*rate)
+    L = len(coded_bits) * k // n
 
     # Number of trellis steps, the last one is only used to close the decoding
     number_steps = max(int((L + total_memory) / k), L // k + 1)
-- 
2.43.0


From 8d6eba2066f8a9f59cd085222d33fb0aabff86be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 35/35] fix: K-best detection keeps the imaginary parts of
 constellations of any complex type

---
 commpy/modulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 21ff350..bab9ebb 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -24,7 +24,7 @@ from bisect import insort
 
 import matplotlib.pyplot as plt
 from numpy import arange, array, zeros, pi, sqrt, log2, argmin, \
-    hstack, repeat, tile, dot, shape, concatenate, exp, \
+    hstack, iscomplexobj, repeat, tile, dot, shape, concatenate, exp, \
     logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
 from numpy.fft import fft, ifft
 from numpy.linalg import qr, norm
@@ -371,7 +371,7 @@ def kbest(y, h, constellation, K, noise_var=0, output_type='hard', demode=None):
     m = len(constellation)
     nb_can = 1
 
-    if isinstance(constellation[0], complex):
+    if iscomplexobj(constellation):
         const_type = complex
     else:
         const_type = float
-- 
2.43.0

