From 9ffb05da93adb525f1360932ed5b3fde2b171961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 01/44] fix: decimal2bitarray must not hand out its cached
 array

Modifying the returned array corrupted every later conversion of the same number.
---
 commpy/utilities.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/commpy/utilities.py b/commpy/utilities.py
index 5212aab..7867582 100644
--- a/commpy/utilities.py
+++ b/commpy/utilities.py
@@ -48,14 +48,13 @@ def dec2bitarray(in_number, bit_width):
     """
 
     if isinstance(in_number, (np.integer, int)):
-        return decimal2bitarray(in_number, bit_width).copy()
+        return decimal2bitarray(in_number, bit_width)
     result = np.zeros(bit_width * len(in_number), np.int8)
     for pox, number in enumerate(in_number):
-        result[pox * bit_width:(pox + 1) * bit_width] = decimal2bitarray(number, bit_width).copy()
+        result[pox * bit_width:(pox + 1) * bit_width] = decimal2bitarray(number, bit_width)
     return result
 
 
-@functools.lru_cache(maxsize=128, typed=False)
 def decimal2bitarray(number, bit_width):
     """
     Converts a positive integer to NumPy array of the specified size containing bits (0 and 1). This version is slightly
@@ -75,6 +74,12 @@ def decimal2bitarray(number, bit_width):
         Array containing the binary representation of all the input decimal(s).
 
     """
+    return _cached_decimal2bitarray(number, bit_width).copy()
+
+
+@functools.lru_cache(maxsize=128, typed=False)
+def _cached_decimal2bitarray(number, bit_width):
+    """ Private method. The returned array is shared by the cache so it must never be given to the user. """
     result = np.zeros(bit_width, np.int8)
     i = 1
     pox = 0
-- 
2.43.0


From 6ad067b27d2d01d2463f23ff8330b998ea7df63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 02/44] fix: bitarray2dec must stay exact for words of 63 bits
 and more

---
 commpy/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/utilities.py b/commpy/utilities.py
index 7867582..5649928 100644
--- a/commpy/utilities.py
+++ b/commpy/utilities.py
@@ -109,7 +109,7 @@ def bitarray2dec(in_bitarray):
     number = 0
 
     for i in range(len(in_bitarray)):
-        number = number + in_bitarray[i] * pow(2, len(in_bitarray) - 1 - i)
+        number = number + int(in_bitarray[i]) * pow(2, len(in_bitarray) - 1 - i)
 
     return number
 
-- 
2.43.0


From 66e6c765af0fc9ea2b89f07476214620156d5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 03/44] fix: GF.power_to_tuple overflowed for powers greater
 than 62

---
 commpy/channelcoding/gfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/gfields.py b/commpy/channelcoding/gfields.py
index 6bd0e1d..7425cf4 100644
--- a/commpy/channelcoding/gfields.py
+++ b/commpy/channelcoding/gfields.py
@@ -77,10 +77,11 @@ class GF:
         """
         y = zeros(len(self.elements))
         for idx, i in enumerate(self.elements):
+            i = int(i)  # 2**i does not fit in a NumPy integer when i is greater than 62
             if 2**i < 2**self.m:
                 y[idx] = 2**i
             else:
-                y[idx] = polydivide(2**i, self.prim_poly)
+                y[idx] = polydivide(2**i, int(self.prim_poly))
         return GF(y, self.m)
 
     def tuple_to_power(self):
-- 
2.43.0


From 76c7aba86fd931d6fa426fde0eb2bae684bbec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 04/44] fix: polydivide never returned when dividing by 1

---
 commpy/channelcoding/gfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/gfields.py b/commpy/channelcoding/gfields.py
index 7425cf4..29b6d26 100644
--- a/commpy/channelcoding/gfields.py
+++ b/commpy/channelcoding/gfields.py
@@ -165,7 +165,7 @@ class GF:
 # Divide two polynomials and returns the remainder
 def polydivide(x, y):
     r = y
-    while len(bin(r)) >= len(bin(y)):
+    while r and len(bin(r)) >= len(bin(y)):  # bin(0) is as long as bin(1)
         shift_count = len(bin(x)) - len(bin(y))
         if shift_count > 0:
             d = y << shift_count
-- 
2.43.0


From 5bd104db3e8e3fdf3a0964b7004865302b740615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 05/44] fix: cyclic_code_genpoly was wrong for lengths other
 than 2^m - 1

Only the minimal polynomials of the n-th roots of unity divide x^n + 1.
---
 commpy/channelcoding/algcode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commpy/channelcoding/algcode.py b/commpy/channelcoding/algcode.py
index 94e2105..ef4f265 100644
--- a/commpy/channelcoding/algcode.py
+++ b/commpy/channelcoding/algcode.py
@@ -36,6 +36,7 @@ def cyclic_code_genpoly(n, k):
             break
 
     x_gf = GF(arange(1, 2**m), m)
+    x_gf = GF(x_gf.elements[n % x_gf.order() == 0], m)  # Only keep the roots of x^n + 1
     coset_fields = x_gf.cosets()
 
     coset_leaders = array([])
-- 
2.43.0


From 431f583dbabad3bd207914a7d2c1e45e17c06fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 06/44] fix: cyclic_code_genpoly rounded the polynomials of
 degree 53 and more

---
 commpy/channelcoding/algcode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/algcode.py b/commpy/channelcoding/algcode.py
index ef4f265..c757135 100644
--- a/commpy/channelcoding/algcode.py
+++ b/commpy/channelcoding/algcode.py
@@ -48,7 +48,7 @@ def cyclic_code_genpoly(n, k):
     y_gf = GF(coset_leaders, m)
     minpol_list = y_gf.minpolys()
     idx_list = arange(1, len(minpol_list))
-    poly_list = array([])
+    poly_list = []
 
     for i in range(1, 2**len(minpol_list)):
         i_array = dec2bitarray(i, len(minpol_list))
@@ -60,9 +60,9 @@ def cyclic_code_genpoly(n, k):
                 gpoly_array = dec2bitarray(gpoly, 2**m)
                 poly_array = dec2bitarray(poly, 2**m)
                 gpoly = bitarray2dec(convolve(gpoly_array, poly_array) % 2)
-            poly_list = concatenate((poly_list, array([gpoly])))
+            poly_list.append(gpoly)
 
-    return poly_list.astype(int)
+    return array(poly_list, int if n - k < 63 else object)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From cb9ef93c34040a28df37cfa956c64f2a3830f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 07/44] fix: ofdm_tx and ofdm_rx used float indexes and raised
 on every input

The cyclic prefix is also empty, instead of the whole symbol, when its length is 0.
---
 commpy/modulation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 4f90a52..878d42d 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -265,18 +265,18 @@ class QAMModem(Modem):
 def ofdm_tx(x, nfft, nsc, cp_length):
     """ OFDM Transmit signal generation """
 
-    nfft = float(nfft)
-    nsc = float(nsc)
-    cp_length = float(cp_length)
+    nfft = int(nfft)
+    nsc = int(nsc)
+    cp_length = int(cp_length)
     ofdm_tx_signal = array([])
 
     for i in range(0, shape(x)[1]):
         symbols = x[:, i]
         ofdm_sym_freq = zeros(nfft, dtype=complex)
-        ofdm_sym_freq[1:(nsc / 2) + 1] = symbols[nsc / 2:]
-        ofdm_sym_freq[-(nsc / 2):] = symbols[0:nsc / 2]
+        ofdm_sym_freq[1:(nsc // 2) + 1] = symbols[nsc // 2:]
+        ofdm_sym_freq[-(nsc // 2):] = symbols[0:nsc // 2]
         ofdm_sym_time = ifft(ofdm_sym_freq)
-        cp = ofdm_sym_time[-cp_length:]
+        cp = ofdm_sym_time[nfft - cp_length:]
         ofdm_tx_signal = concatenate((ofdm_tx_signal, cp, ofdm_sym_time))
 
     return ofdm_tx_signal
@@ -291,7 +291,7 @@ def ofdm_rx(y, nfft, nsc, cp_length):
     for i in range(0, num_ofdm_symbols):
         ofdm_symbol = y[i * nfft + (i + 1) * cp_length:(i + 1) * (nfft + cp_length)]
         symbols_freq = fft(ofdm_symbol)
-        x_hat[:, i] = concatenate((symbols_freq[-nsc / 2:], symbols_freq[1:(nsc / 2) + 1]))
+        x_hat[:, i] = concatenate((symbols_freq[-(nsc // 2):], symbols_freq[1:(nsc // 2) + 1]))
 
     return x_hat
 
-- 
2.43.0


From 8ba36c32cbe85fe869b545050194a7ab4e3cd76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 08/44] fix: Modem.demodulate returned NaN LLRs when every
 likelihood underflowed

---
 commpy/modulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 878d42d..a79e020 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -25,7 +25,7 @@ from bisect import insort
 import matplotlib.pyplot as plt
 from numpy import arange, array, zeros, pi, sqrt, log2, argmin, \
     hstack, repeat, tile, dot, shape, concatenate, exp, \
-    log, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
+    logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
 from numpy.fft import fft, ifft
 from numpy.linalg import qr, norm
 from sympy.combinatorics.graycode import GrayCode
@@ -127,14 +127,14 @@ class Modem:
             for i in arange(len(input_symbols)):
                 current_symbol = input_symbols[i]
                 for bit_index in arange(self.num_bits_symbol):
-                    llr_num = 0
-                    llr_den = 0
+                    llr_num = -inf
+                    llr_den = -inf
                     for bit_value, symbol in enumerate(self._constellation):
                         if (bit_value >> bit_index) & 1:
-                            llr_num += exp((-abs(current_symbol - symbol) ** 2) / noise_var)
+                            llr_num = logaddexp(llr_num, (-abs(current_symbol - symbol) ** 2) / noise_var)
                         else:
-                            llr_den += exp((-abs(current_symbol - symbol) ** 2) / noise_var)
-                    demod_bits[i * self.num_bits_symbol + self.num_bits_symbol - 1 - bit_index] = log(llr_num / llr_den)
+                            llr_den = logaddexp(llr_den, (-abs(current_symbol - symbol) ** 2) / noise_var)
+                    demod_bits[i * self.num_bits_symbol + self.num_bits_symbol - 1 - bit_index] = llr_num - llr_den
         else:
             raise ValueError('demod_type must be "hard" or "soft"')
 
-- 
2.43.0


From 2b5b1195d4abbc63f832f0cccf3139eeb787f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 09/44] fix: best_first_detector mixed up the antenna numbers
 and raised when nb_rx > nb_tx

---
 commpy/modulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index a79e020..7173cec 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -495,7 +495,7 @@ def best_first_detector(y, h, constellation, stack_size, noise_var, demode, llr_
             return _Node(children_symb_vectors[:, ordering], children_metric[ordering])
 
     # Extract information from arguments
-    nb_tx, nb_rx = h.shape
+    nb_rx, nb_tx = h.shape
     constellation = array(constellation)
     m = constellation.size
     modulation_order = int(log2(m))
-- 
2.43.0


From 924cc8498fb8c0bd4e410165740e6f188b9c133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 10/44] fix: RC and RRC filters missed their singular points
 because of float rounding

The samples at t = +-Ts/(2 alpha) and +-Ts/(4 alpha) were wrong by orders of magnitude, or infinite.
---
 commpy/filters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commpy/filters.py b/commpy/filters.py
index 8a5f64f..55a2d13 100644
--- a/commpy/filters.py
+++ b/commpy/filters.py
@@ -57,9 +57,9 @@ def rcosfilter(N, alpha, Ts, Fs):
         t = (x-N/2)*T_delta
         if t == 0.0:
             h_rc[x] = 1.0
-        elif alpha != 0 and t == Ts/(2*alpha):
+        elif alpha != 0 and np.isclose(t, Ts/(2*alpha), rtol=1e-9, atol=0):
             h_rc[x] = (np.pi/4)*(np.sin(np.pi*t/Ts)/(np.pi*t/Ts))
-        elif alpha != 0 and t == -Ts/(2*alpha):
+        elif alpha != 0 and np.isclose(t, -Ts/(2*alpha), rtol=1e-9, atol=0):
             h_rc[x] = (np.pi/4)*(np.sin(np.pi*t/Ts)/(np.pi*t/Ts))
         else:
             h_rc[x] = (np.sin(np.pi*t/Ts)/(np.pi*t/Ts))* \
@@ -105,10 +105,10 @@ def rrcosfilter(N, alpha, Ts, Fs):
         t = (x-N/2)*T_delta
         if t == 0.0:
             h_rrc[x] = 1.0 - alpha + (4*alpha/np.pi)
-        elif alpha != 0 and t == Ts/(4*alpha):
+        elif alpha != 0 and np.isclose(t, Ts/(4*alpha), rtol=1e-9, atol=0):
             h_rrc[x] = (alpha/np.sqrt(2))*(((1+2/np.pi)* \
                     (np.sin(np.pi/(4*alpha)))) + ((1-2/np.pi)*(np.cos(np.pi/(4*alpha)))))
-        elif alpha != 0 and t == -Ts/(4*alpha):
+        elif alpha != 0 and np.isclose(t, -Ts/(4*alpha), rtol=1e-9, atol=0):
             h_rrc[x] = (alpha/np.sqrt(2))*(((1+2/np.pi)* \
                     (np.sin(np.pi/(4*alpha)))) + ((1-2/np.pi)*(np.cos(np.pi/(4*alpha)))))
         else:
-- 
2.43.0


From d7caac9e4bffb2d3c3d7b10b3457bd78ae45e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 11/44] fix: MIMOFlatChannel could not propagate with complex
 or singular correlation matrices

scipy's sqrtm returns extended precision complex values, or NaN, for such matrices.
---
 commpy/channels.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index d374755..93a937c 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -22,11 +22,17 @@ from __future__ import division, print_function  # Python 2 compatibility
 from numpy import abs, sqrt, sum, zeros, identity, hstack, einsum, trace, kron, absolute, fromiter, array, exp, \
     pi, cos
 from numpy.random import randn, random, standard_normal
-from scipy.linalg import sqrtm
+from numpy.linalg import eigh
 
 __all__ = ['SISOFlatChannel', 'MIMOFlatChannel', 'bec', 'bsc', 'awgn']
 
 
+def _corr_sqrt(corr):
+    """ Square root of a correlation matrix i.e. Hermitian, positive semi-definite and possibly singular. """
+    eigenvalues, eigenvectors = eigh(corr)
+    return (eigenvectors * sqrt(eigenvalues.clip(0))) @ eigenvectors.conj().T
+
+
 class _FlatChannel(object):
 
     def __init__(self):
@@ -374,7 +380,8 @@ class MIMOFlatChannel(_FlatChannel):
             self.channel_gains = standard_normal(dims)
 
         # Add correlation and mean
-        einsum('ij,ajk,lk->ail', sqrtm(self.fading_param[2]), self.channel_gains, sqrtm(self.fading_param[1]),
+        einsum('ij,ajk,lk->ail', _corr_sqrt(self.fading_param[2]), self.channel_gains,
+               _corr_sqrt(self.fading_param[1]),
                out=self.channel_gains, optimize='greedy')
         self.channel_gains += self.fading_param[0]
 
-- 
2.43.0


From 2c89b2e95661d0129aa726fcd96ff481b8f9c3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 12/44] fix: MIMOFlatChannel.specular_compo used the wrong sign
 for the departure phase

---
 commpy/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 93a937c..b5c88e1 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -456,7 +456,7 @@ class MIMOFlatChannel(_FlatChannel):
         H = zeros((self.nb_rx, self.nb_tx), dtype=complex)
         for n in range(self.nb_rx):
             for m in range(self.nb_tx):
-                H[n, m] = exp(1j * 2 * pi * (n * dr * cos(thetar) + m * dt * cos(thetat)))
+                H[n, m] = exp(1j * 2 * pi * (n * dr * cos(thetar) - m * dt * cos(thetat)))
         return H
 
     @property
-- 
2.43.0


From 930d14fb7fe1da535d5ad59af8e590980c7e4c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 13/44] fix: exponential correlation models accepted
 coefficients with a modulus lower than 1

---
 commpy/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index b5c88e1..51f77f9 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -527,9 +527,9 @@ class MIMOFlatChannel(_FlatChannel):
                     If betat or betar are negative.
         """
         # Check inputs
-        if abs(t) - 1 > 1e-4:
+        if abs(abs(t) - 1) > 1e-4:
             raise ValueError('abs(t) must be one.')
-        if abs(r) - 1 > 1e-4:
+        if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
 
         # Construct the exponent matrix
@@ -609,9 +609,9 @@ class MIMOFlatChannel(_FlatChannel):
                     If betat or betar are negative.
         """
         # Check inputs
-        if abs(t) - 1 > 1e-4:
+        if abs(abs(t) - 1) > 1e-4:
             raise ValueError('abs(t) must be one.')
-        if abs(r) - 1 > 1e-4:
+        if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
 
         # Scaling
-- 
2.43.0


From d68a0ed1cdf52e74700ba9d0413496329d489ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 14/44] fix: Trellis changed the generator matrix of its caller

---
 commpy/channelcoding/convcode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index d1dcf16..bbe3a65 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -133,6 +133,7 @@ class Trellis:
                  DeprecationWarning)
 
             if code_type == 'rsc':
+                g_matrix = g_matrix.copy()  # The matrix of the user must not be changed
                 for i in range(self.k):
                     g_matrix[i][i] = feedback
 
-- 
2.43.0


From a85cc424fac3c19c6c130a1e913f1d489426ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 15/44] fix: conv_encode added trailing zeros to punctured
 streams

turbo_encode also returned them in its second parity stream.
---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index bbe3a65..0cddf0d 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -556,7 +556,7 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
             p_outbits[j] = outbits[i]
             j = j + 1
 
-    return p_outbits
+    return p_outbits[:j]
 
 
 def _where_c(inarray, rows, cols, search_value, index_array):
-- 
2.43.0


From 20bd5ed85010b84f4d59a788dee4e41d8fcd6231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 16/44] fix: conv_encode did not terminate most of the
 recursive codes in the zero state

The termination bits were right only when the feedback polynomial is 1 + D^M.
---
 commpy/channelcoding/convcode.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 0cddf0d..fd4dff2 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -541,10 +541,14 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
         j += 1
 
     if code_type == 'rsc' and termination == 'term':
-        term_bits = dec2bitarray(current_state, trellis.total_memory)
-        term_bits = term_bits[::-1]
-        for i in range(trellis.total_memory):
-            current_input = bitarray2dec(term_bits[i*k:(i+1)*k])
+        # Number of steps needed to go back to the zero state from each state
+        steps = np.full(trellis.number_states, np.inf)
+        steps[0] = 0
+        for i in range(total_memory):
+            steps = np.minimum(steps, steps[next_state_table].min(1) + 1)
+
+        for i in range(total_memory):
+            current_input = steps[next_state_table[current_state]].argmin()
             current_output = output_table[current_state][current_input]
             outbits[j*n:(j+1)*n] = dec2bitarray(current_output, n)
             current_state = next_state_table[current_state][current_input]
-- 
2.43.0


From 0fb6948952e3115b5de1a4c91e1d20e46d1ab2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 17/44] fix: conv_encode did not flush codes whose inputs have
 different memories

The number of padding bits was also not a multiple of k for some codes with k >= 3.
---
 commpy/channelcoding/convcode.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index fd4dff2..5222f18 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -514,9 +514,16 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
             number_inbits = number_message_bits
             number_outbits = int((number_inbits + k * total_memory)/rate)
         else:
-            number_inbits = number_message_bits + total_memory + total_memory % k
+            # Number of null inputs needed to flush every state
+            flush_length = 0
+            flushed_states = np.arange(trellis.number_states)
+            while flushed_states.any() and flush_length < total_memory:
+                flushed_states = trellis.next_state_table[flushed_states, 0]
+                flush_length += 1
+
+            number_inbits = number_message_bits + k * flush_length
             inbits = np.zeros(number_inbits, 'int')
-            # Pad the input bits with M zeros (L-th terminated truncation)
+            # Pad the input bits with zeros (L-th terminated truncation)
             inbits[0:number_message_bits] = message_bits
             number_outbits = int(number_inbits/rate)
 
-- 
2.43.0


From 6b3d204adb7f045434c4166dabde9cea4a0e4b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 18/44] fix: convolutional codes lost bits because of float
 rounding for rates such as 3/11

---
 commpy/channelcoding/convcode.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 5222f18..ddb9520 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -494,8 +494,7 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
     k = trellis.k
     n = trellis.n
     total_memory = trellis.total_memory
-    rate = float(k)/n
-    
+
     code_type = trellis.code_type
 
     if puncture_matrix is None:
@@ -506,13 +505,13 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
     if termination == 'cont':
         inbits = message_bits
         number_inbits = number_message_bits
-        number_outbits = int(number_inbits/rate)
+        number_outbits = number_inbits * n // k
     else:
         # Initialize an array to contain the message bits plus the truncation zeros
         if code_type == 'rsc':
             inbits = message_bits
             number_inbits = number_message_bits
-            number_outbits = int((number_inbits + k * total_memory)/rate)
+            number_outbits = (number_inbits + k * total_memory) * n // k
         else:
             # Number of null inputs needed to flush every state
             flush_length = 0
@@ -525,7 +524,7 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
             inbits = np.zeros(number_inbits, 'int')
             # Pad the input bits with zeros (L-th terminated truncation)
             inbits[0:number_message_bits] = message_bits
-            number_outbits = int(number_inbits/rate)
+            number_outbits = number_inbits * n // k
 
     outbits = np.zeros(number_outbits, 'int')
     if puncture_matrix is not None:
@@ -704,11 +703,10 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     # k = Rows in G(D), n = columns in G(D)
     k = trellis.k
     n = trellis.n
-    rate = k/n
     total_memory = trellis.total_memory
 
     # Number of message bits after decoding
-    L = int(len(coded_bits)*rate)
+    L = len(coded_bits) * k // n
 
     if tb_depth is None:
         tb_depth = min(5 * total_memory, L)
-- 
2.43.0


From 9a680c7a2b7749359e85d7892da58f3f88dc7562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 19/44] fix: viterbi_decode returned wrong or uninitialised
 bits at the end of the stream

The padding codewords were written over the input array of the caller and biased the end of unterminated
streams, while short blocks, and codes with k > total_memory, were not completely decoded.
---
 commpy/channelcoding/convcode.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index ddb9520..48f7f11 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -700,6 +700,9 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
         Algorithms. John Wiley and Sons, 2005.
     """
 
+    if decoding_type not in ('hard', 'soft', 'unquantized'):
+        raise ValueError('The available decoding types are "hard", "soft" and "unquantized')
+
     # k = Rows in G(D), n = columns in G(D)
     k = trellis.k
     n = trellis.n
@@ -709,8 +712,10 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     L = len(coded_bits) * k // n
 
     if tb_depth is None:
-        tb_depth = min(5 * total_memory, L)
+        tb_depth = 5 * total_memory
 
+    # No need to go further than the beginning of the stream
+    tb_depth = min(tb_depth, L // k + 1)
 
     path_metrics = np.full((trellis.number_states, 2), np.inf)
     path_metrics[0][0] = 0
@@ -719,7 +724,6 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
 
     decoded_symbols = np.zeros([trellis.number_states, tb_depth], 'int')
     decoded_bits = np.empty(int(math.ceil((L + tb_depth) / k) * k), 'int')
-    r_codeword = np.zeros(n, 'int')
 
     tb_count = 1
     count = 0
@@ -728,20 +732,9 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     if decoding_type == 'soft':
         coded_bits = coded_bits.clip(-500, 500)
 
-    for t in range(1, int((L+total_memory)/k)):
+    for t in range(1, L // k + 1):
         # Get the received codeword corresponding to t
-        if t <= L // k:
-            r_codeword = coded_bits[(t-1)*n:t*n]
-        # Pad with '0'
-        else:
-            if decoding_type == 'hard':
-                r_codeword[:] = 0
-            elif decoding_type == 'soft':
-                r_codeword[:] = 0
-            elif decoding_type == 'unquantized':
-                r_codeword[:] = -1
-            else:
-                raise ValueError('The available decoding types are "hard", "soft" and "unquantized')
+        r_codeword = coded_bits[(t-1)*n:t*n]
 
         _acs_traceback(r_codeword, trellis, decoding_type, path_metrics, paths,
                 decoded_symbols, decoded_bits, tb_count, t, count, tb_depth,
-- 
2.43.0


From b4bf00f4bea53de5419aa5494dadbf16cc125ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 20/44] fix: the generator polynomials of 802.11 are octal
 numbers

---
 commpy/wifi80211.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/wifi80211.py b/commpy/wifi80211.py
index 58ee435..7134e38 100644
--- a/commpy/wifi80211.py
+++ b/commpy/wifi80211.py
@@ -46,7 +46,7 @@ class Wifi80211:
     # "The encoder uses a 6-stage shift register."
     # (https://pdfs.semanticscholar.org/c63b/71e43dc23b17ca57267f3b769224c64d5e33.pdf p.19)
     memory = np.array(6, ndmin=1)
-    generator_matrix = np.array((133, 171), ndmin=2)  # from 802.11 standard, page 2295
+    generator_matrix = np.array((0o133, 0o171), ndmin=2)  # from 802.11 standard, page 2295
 
     def get_modem(self) -> mod.Modem:
         """
-- 
2.43.0


From a5596954ba4694978d2346924e10bbc2c716b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 21/44] fix: link_performance_full_metrics ignored
 number_chunks_per_send in the BER

---
 commpy/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/links.py b/commpy/links.py
index 356f32d..14a4ae3 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -257,7 +257,7 @@ class LinkModel:
 
                 chunk_count[id_tx] += number_chunks_per_send
                 total_tx_send += 1
-            BERs[id_SNR] = bit_err.sum() / (total_tx_send * send_chunk)
+            BERs[id_SNR] = bit_err.sum() / (total_tx_send * send_chunk * number_chunks_per_send)
             BEs[id_SNR] = bit_err
             CEs[id_SNR] = np.where(bit_err > 0, 1, 0)
             NCs[id_SNR] = chunk_count
-- 
2.43.0


From c5615d6956e4fa117c6ce3847b79659efcdac8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 22/44] fix: link_performance_full_metrics reported at most one
 chunk error per transmission

---
 commpy/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/links.py b/commpy/links.py
index 14a4ae3..5d56ee7 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -259,7 +259,7 @@ class LinkModel:
                 total_tx_send += 1
             BERs[id_SNR] = bit_err.sum() / (total_tx_send * send_chunk * number_chunks_per_send)
             BEs[id_SNR] = bit_err
-            CEs[id_SNR] = np.where(bit_err > 0, 1, 0)
+            CEs[id_SNR] = chunk_loss
             NCs[id_SNR] = chunk_count
             if BEs[id_SNR].sum() < err_min:
                 break
-- 
2.43.0


From 2ac854de5d2105261db7a3fb4675b7361831c2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 23/44] fix: viterbi_decode raised for codes with more inputs
 than states

---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 48f7f11..12216c5 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -613,7 +613,7 @@ def _acs_traceback(r_codeword, trellis, decoding_type,
     next_state_table = trellis.next_state_table
     output_table = trellis.output_table
     pmetrics = np.empty(number_inputs)
-    index_array = np.empty([number_states, 2], 'int')
+    index_array = np.empty([number_inputs * number_states, 2], 'int')
 
     # Loop over all the current states (Time instant: t)
     for state_num in range(current_number_states):
-- 
2.43.0


From a3474cbd159ebf9d61ce2b849413e313bb353b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 24/44] fix: MAP and turbo decoding failed when the noise
 variance is low

The probabilities underflowed, and the LLRs became infinite, so that all the decoded bits were wrong.
---
 commpy/channelcoding/turbo.py | 51 +++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/commpy/channelcoding/turbo.py b/commpy/channelcoding/turbo.py
index 491f2c2..901f8fe 100644
--- a/commpy/channelcoding/turbo.py
+++ b/commpy/channelcoding/turbo.py
@@ -3,7 +3,7 @@
 
 """ Turbo Codes """
 
-from numpy import array, zeros, exp, log, empty
+from numpy import array, zeros, empty, full, inf, logaddexp
 
 from commpy.channelcoding import conv_encode
 from commpy.utilities import dec2bitarray
@@ -59,6 +59,8 @@ def turbo_encode(msg_bits, trellis1, trellis2, interleaver):
     return [sys_stream, non_sys_stream_1, non_sys_stream_2]
 
 
+# The probabilities and the metrics are in the log domain as they do not fit in floats when the noise variance is low.
+
 def _compute_branch_prob(code_bit_0, code_bit_1, rx_symbol_0, rx_symbol_1,
                          noise_variance):
 
@@ -71,7 +73,7 @@ def _compute_branch_prob(code_bit_0, code_bit_1, rx_symbol_0, rx_symbol_1,
     y = rx_symbol_1 - code_symbol_1
 
     # Normalized branch transition probability
-    branch_prob = exp(-(x*x + y*y)/(2*noise_variance))
+    branch_prob = -(x*x + y*y)/(2*noise_variance)
 
     return branch_prob
 
@@ -103,12 +105,13 @@ def _backward_recursion(trellis, msg_length, noise_variance,
                                                    rx_symbol_0, rx_symbol_1,
                                                    noise_variance)
                 branch_probs[current_input, current_state, reverse_time_index-1] = branch_prob
-                b_state_metrics[current_state, reverse_time_index-1] += \
-                        (b_state_metrics[next_state, reverse_time_index] * branch_prob *
-                                priors[current_input, reverse_time_index-1])
+                b_state_metrics[current_state, reverse_time_index-1] = \
+                    logaddexp(b_state_metrics[current_state, reverse_time_index-1],
+                              b_state_metrics[next_state, reverse_time_index] + branch_prob +
+                              priors[current_input, reverse_time_index-1])
 
-        b_state_metrics[:,reverse_time_index-1] /= \
-            b_state_metrics[:,reverse_time_index-1].sum()
+        b_state_metrics[:,reverse_time_index-1] -= \
+            b_state_metrics[:,reverse_time_index-1].max()
 
 
 def _forward_recursion_decoding(trellis, mode, msg_length, noise_variance,
@@ -127,22 +130,24 @@ def _forward_recursion_decoding(trellis, mode, msg_length, noise_variance,
     # Forward Recursion
     for time_index in range(1, msg_length+1):
 
-        app[:] = 0
+        app[:] = -inf
         for current_state in range(number_states):
             for current_input in range(number_inputs):
                 next_state = next_state_table[current_state, current_input]
                 branch_prob = branch_probs[current_input, current_state, time_index-1]
                 # Compute the forward state metrics
-                f_state_metrics[next_state, 1] += (f_state_metrics[current_state, 0] *
-                                                   branch_prob *
-                                                   priors[current_input, time_index-1])
+                f_state_metrics[next_state, 1] = logaddexp(f_state_metrics[next_state, 1],
+                                                           f_state_metrics[current_state, 0] +
+                                                           branch_prob +
+                                                           priors[current_input, time_index-1])
 
                 # Compute APP
-                app[current_input] += (f_state_metrics[current_state, 0] *
-                                       branch_prob *
-                                       b_state_metrics[next_state, time_index])
+                app[current_input] = logaddexp(app[current_input],
+                                               f_state_metrics[current_state, 0] +
+                                               branch_prob +
+                                               b_state_metrics[next_state, time_index])
 
-        lappr = L_int[time_index-1] + log(app[1]/app[0])
+        lappr = L_int[time_index-1] + app[1] - app[0]
         L_ext[time_index-1] = lappr
 
         if mode == 'decode':
@@ -152,10 +157,10 @@ def _forward_recursion_decoding(trellis, mode, msg_length, noise_variance,
                 decoded_bits[time_index-1] = 0
 
         # Normalization of the forward state metrics
-        f_state_metrics[:,1] = f_state_metrics[:,1]/f_state_metrics[:,1].sum()
+        f_state_metrics[:,1] = f_state_metrics[:,1] - f_state_metrics[:,1].max()
 
         f_state_metrics[:,0] = f_state_metrics[:,1]
-        f_state_metrics[:,1] = 0.0
+        f_state_metrics[:,1] = -inf
 
 
 
@@ -217,13 +222,13 @@ def map_decode(sys_symbols, non_sys_symbols, trellis, noise_variance, L_int, mod
     msg_length = len(sys_symbols)
 
     # Initialize forward state metrics (alpha)
-    f_state_metrics = zeros([number_states, 2])
-    f_state_metrics[0][0] = 1
+    f_state_metrics = full([number_states, 2], -inf)
+    f_state_metrics[0][0] = 0
     #print f_state_metrics
 
     # Initialize backward state metrics (beta)
-    b_state_metrics = zeros([number_states, msg_length+1])
-    b_state_metrics[:,msg_length] = 1
+    b_state_metrics = full([number_states, msg_length+1], -inf)
+    b_state_metrics[:,msg_length] = 0
 
     # Initialize branch transition probabilities (gamma)
     branch_probs = zeros([number_inputs, number_states, msg_length+1])
@@ -236,8 +241,8 @@ def map_decode(sys_symbols, non_sys_symbols, trellis, noise_variance, L_int, mod
     L_ext = zeros(msg_length)
 
     priors = empty([2, msg_length])
-    priors[0,:] = 1/(1 + exp(L_int))
-    priors[1,:] = 1 - priors[0,:]
+    priors[0,:] = -logaddexp(0, L_int)
+    priors[1,:] = priors[0,:] + L_int
 
     # Backward recursion
     _backward_recursion(trellis, msg_length, noise_variance, sys_symbols,
-- 
2.43.0


From 84a1d904707d6e5c51b7b2b5849e42f0b051cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 25/44] fix: ldpc_bp_decode returned NaN LLRs with the SPA when
 several LLRs are null

---
 commpy/channelcoding/ldpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index b8fe73c..c795732 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -211,6 +211,9 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                 message_matrix.data *= .5
                 np.tanh(message_matrix.data, out=message_matrix.data)
 
+                # Erased messages must not be exactly 0 as each message is taken out of the product by a division
+                message_matrix.data[np.abs(message_matrix.data) < 1e-150] = 1e-150
+
                 # Runtime Warnings are expected when llr = 0. No warn should be raised as this case are expected.
                 with np.errstate(divide='ignore', invalid='ignore'):
                     # Compute product as exponent of the sum of logarithm
-- 
2.43.0


From 1b0d1f9a5e555fe0d613969ba9d5e063d8191f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 26/44] fix: triang_ldpc_systematic_encode produced wrong
 parity bits because of float rounding

---
 commpy/channelcoding/ldpc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index c795732..9dadd49 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -47,6 +47,10 @@ def build_matrix(ldpc_code_params):
     ldpc_code_params['parity_check_matrix'] = parity_check_matrix
     ldpc_code_params['generator_matrix'] = splg.inv(systematic_part).dot(parity_part).tocsr()
 
+    # The inverse of a triangular matrix of bits is made of integers but its computation is not exact
+    generator_matrix_data = ldpc_code_params['generator_matrix'].data
+    np.rint(generator_matrix_data, out=generator_matrix_data)
+
 
 def get_ldpc_code_params(ldpc_design_filename, compute_matrix=False):
     """
-- 
2.43.0


From c4b865a2f333b669adcb0679fff5ce2672a6d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 27/44] fix: SISOFlatChannel rejected normalized fading
 parameters because of float rounding

---
 commpy/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 51f77f9..35d5aad 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -233,7 +233,7 @@ class SISOFlatChannel(_FlatChannel):
 
     @fading_param.setter
     def fading_param(self, fading_param):
-        if fading_param[1] + absolute(fading_param[0]) ** 2 != 1:
+        if absolute(fading_param[1] + absolute(fading_param[0]) ** 2 - 1) > 1e-6:
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-- 
2.43.0


From f94a8b2f8553b62022e2f9f6c78f5846a57735eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 28/44] fix: decimal2bitarray raised TypeError on numpy.uint64

---
 commpy/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commpy/utilities.py b/commpy/utilities.py
index 5649928..fb06dd0 100644
--- a/commpy/utilities.py
+++ b/commpy/utilities.py
@@ -80,6 +80,7 @@ def decimal2bitarray(number, bit_width):
 @functools.lru_cache(maxsize=128, typed=False)
 def _cached_decimal2bitarray(number, bit_width):
     """ Private method. The returned array is shared by the cache so it must never be given to the user. """
+    number = int(number)  # Bitwise operations between int and numpy.uint64 are not supported
     result = np.zeros(bit_width, np.int8)
     i = 1
     pox = 0
-- 
2.43.0


From 0c99d2da7fd1eef03a7d1435f2a792baad78d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 29/44] fix: viterbi_decode failed when some states have no or
 more predecessors than inputs

---
 commpy/channelcoding/convcode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 12216c5..472994e 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -612,7 +612,7 @@ def _acs_traceback(r_codeword, trellis, decoding_type,
 
     next_state_table = trellis.next_state_table
     output_table = trellis.output_table
-    pmetrics = np.empty(number_inputs)
+    pmetrics = np.empty(number_inputs * number_states)
     index_array = np.empty([number_inputs * number_states, 2], 'int')
 
     # Loop over all the current states (Time instant: t)
@@ -622,6 +622,9 @@ def _acs_traceback(r_codeword, trellis, decoding_type,
         # leading into the current state (Trellis)
         number_found = _where_c(next_state_table, number_states, number_inputs, state_num, index_array)
 
+        # The number of previous states can differ from one state to another
+        pmetrics.fill(np.inf)
+
         # Loop over all the previous states (Time instant: t-1)
         for i in range(number_found):
 
-- 
2.43.0


From 51721f90cbd75183ba971d08e66387fdd20f9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 30/44] fix: ldpc_bp_decode raised for the codes which cannot
 be encoded systematically

---
 commpy/channelcoding/ldpc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index 9dadd49..2c707fe 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -45,7 +45,12 @@ def build_matrix(ldpc_code_params):
     parity_part = parity_check_matrix[:, :-n_cnodes]
 
     ldpc_code_params['parity_check_matrix'] = parity_check_matrix
-    ldpc_code_params['generator_matrix'] = splg.inv(systematic_part).dot(parity_part).tocsr()
+    try:
+        ldpc_code_params['generator_matrix'] = sp.csr_matrix(splg.inv(systematic_part)).dot(parity_part)
+    except (RuntimeError, ValueError):
+        # The systematic part has no inverse: this code can be decoded but not encoded in this way.
+        ldpc_code_params['generator_matrix'] = None
+        return
 
     # The inverse of a triangular matrix of bits is made of integers but its computation is not exact
     generator_matrix_data = ldpc_code_params['generator_matrix'].data
@@ -347,6 +352,8 @@ def triang_ldpc_systematic_encode(message_bits, ldpc_code_params, pad=True):
 
     if ldpc_code_params.get('generator_matrix') is None or ldpc_code_params.get('parity_check_matrix') is None:
         build_matrix(ldpc_code_params)
+        if ldpc_code_params['generator_matrix'] is None:
+            raise ValueError('The systematic part of the parity check matrix cannot be inverted.')
 
     block_length = ldpc_code_params['generator_matrix'].shape[1]
     modulo = len(message_bits) % block_length
-- 
2.43.0


From 2aa441ffe8764dd268cc2fe8d021d429be120212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 31/44] fix: channels took single-precision complex values for
 real ones

---
 commpy/channels.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 35d5aad..508970a 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -20,7 +20,7 @@ Channel Models (:mod:`commpy.channels`)
 from __future__ import division, print_function  # Python 2 compatibility
 
 from numpy import abs, sqrt, sum, zeros, identity, hstack, einsum, trace, kron, absolute, fromiter, array, exp, \
-    pi, cos
+    pi, cos, iscomplexobj
 from numpy.random import randn, random, standard_normal
 from numpy.linalg import eigh
 
@@ -208,7 +208,7 @@ class SISOFlatChannel(_FlatChannel):
                         If the noise standard deviation as not been set yet.
         """
 
-        if isinstance(msg[0], complex) and not self.isComplex:
+        if iscomplexobj(msg) and not self.isComplex:
             raise TypeError('Trying to propagate a complex message in a real channel.')
         nb_symb = len(msg)
 
@@ -237,7 +237,7 @@ class SISOFlatChannel(_FlatChannel):
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-        self._isComplex = isinstance(fading_param[0], complex)
+        self._isComplex = iscomplexobj(fading_param[0])
 
     @property
     def k_factor(self):
@@ -357,7 +357,7 @@ class MIMOFlatChannel(_FlatChannel):
                         If the noise standard deviation noise_std as not been set yet.
         """
 
-        if isinstance(msg[0], complex) and not self.isComplex:
+        if iscomplexobj(msg) and not self.isComplex:
             raise TypeError('Trying to propagate a complex message in a real channel.')
         (nb_vect, mod) = divmod(len(msg), self.nb_tx)
 
@@ -472,7 +472,7 @@ class MIMOFlatChannel(_FlatChannel):
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-        self._isComplex = isinstance(fading_param[0][0, 0], complex)
+        self._isComplex = iscomplexobj(fading_param[0])
 
     @property
     def k_factor(self):
@@ -705,7 +705,7 @@ def awgn(input_signal, snr_dB, rate=1.0):
     snr_linear = 10 ** (snr_dB / 10.0)
     noise_variance = avg_energy / (2 * rate * snr_linear)
 
-    if isinstance(input_signal[0], complex):
+    if iscomplexobj(input_signal):
         noise = (sqrt(noise_variance) * randn(len(input_signal))) + (sqrt(noise_variance) * randn(len(input_signal))*1j)
     else:
         noise = sqrt(2 * noise_variance) * randn(len(input_signal))
-- 
2.43.0


From e059b33252867b2be6bf4f78d67ef42a26a10b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 32/44] fix: refused negative betas still changed the fading of
 MIMO channels

---
 commpy/channels.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commpy/channels.py b/commpy/channels.py
index 508970a..c9bfe66 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -531,6 +531,8 @@ class MIMOFlatChannel(_FlatChannel):
             raise ValueError('abs(t) must be one.')
         if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
+        if betar < 0 or betat < 0:
+            raise ValueError("beta must be positif")
 
         # Construct the exponent matrix
         expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), int, self.nb_tx ** 2)
@@ -613,6 +615,8 @@ class MIMOFlatChannel(_FlatChannel):
             raise ValueError('abs(t) must be one.')
         if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
+        if betar < 0 or betat < 0:
+            raise ValueError("beta must be positif")
 
         # Scaling
         nb_antennas = mean.size
-- 
2.43.0


From 6ddd87193492036302b15fd975c0eedcf4a3f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 33/44] fix: expo_corr_rician_fading left the channel real when
 the mean is real

---
 commpy/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index c9bfe66..3ead1f4 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -632,7 +632,7 @@ class MIMOFlatChannel(_FlatChannel):
         expo_rx = expo_rx.reshape(self.nb_rx, self.nb_rx)
 
         # Set fading
-        self.fading_param = mean, t ** expo_tx * NLOS_gain / nb_antennas, r ** expo_rx
+        self.fading_param = mean.astype(complex), t ** expo_tx * NLOS_gain / nb_antennas, r ** expo_rx
 
         # Update Rr and Rt
         self._update_corr_KBSM(betat, betar)
-- 
2.43.0


From d079c4e8cc7af5aa824ed6527f3112c3338b501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 34/44] fix: exponential correlation models raised when a
 coefficient is the integer 1 or -1

---
 commpy/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 3ead1f4..0bcd835 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -543,7 +543,7 @@ class MIMOFlatChannel(_FlatChannel):
         expo_rx = expo_rx.reshape(self.nb_rx, self.nb_rx)
 
         # Set fading
-        self.fading_param = zeros((self.nb_rx, self.nb_tx), complex), t ** expo_tx, r ** expo_rx
+        self.fading_param = zeros((self.nb_rx, self.nb_tx), complex), complex(t) ** expo_tx, complex(r) ** expo_rx
 
         # Update Rr and Rt
         self._update_corr_KBSM(betat, betar)
@@ -632,7 +632,7 @@ class MIMOFlatChannel(_FlatChannel):
         expo_rx = expo_rx.reshape(self.nb_rx, self.nb_rx)
 
         # Set fading
-        self.fading_param = mean.astype(complex), t ** expo_tx * NLOS_gain / nb_antennas, r ** expo_rx
+        self.fading_param = mean.astype(complex), complex(t) ** expo_tx * NLOS_gain / nb_antennas, complex(r) ** expo_rx
 
         # Update Rr and Rt
         self._update_corr_KBSM(betat, betar)
-- 
2.43.0


From 14b28e7f387fafbdd2e38bdddc00da48c89e81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 35/44] fix: kbest mixed up real and complex types

---
 commpy/modulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 7173cec..b201a22 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -25,7 +25,8 @@ from bisect import insort
 import matplotlib.pyplot as plt
 from numpy import arange, array, zeros, pi, sqrt, log2, argmin, \
     hstack, repeat, tile, dot, shape, concatenate, exp, \
-    logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
+    logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter, \
+    iscomplexobj, result_type
 from numpy.fft import fft, ifft
 from numpy.linalg import qr, norm
 from sympy.combinatorics.graycode import GrayCode
@@ -377,12 +378,12 @@ def kbest(y, h, constellation, K, noise_var=0, output_type='hard', demode=None):
     m = len(constellation)
     nb_can = 1
 
-    if isinstance(constellation[0], complex):
+    if iscomplexobj(constellation):
         const_type = complex
     else:
         const_type = float
     X = empty((nb_rx, K * m), dtype=const_type)  # Set of current candidates
-    d = tile(yt[:, None], (1, K * m))  # Corresponding distance vector
+    d = tile(yt[:, None].astype(result_type(yt, const_type)), (1, K * m))  # Corresponding distance vector
     d_tot = zeros(K * m, dtype=float)  # Corresponding total distance
     hyp = empty(K * m, dtype=const_type)  # Hypothesis vector
 
-- 
2.43.0


From 0f4ae74fe92df466efea33124f99e0ce2d97dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 36/44] fix: MIMO links gave the decoder an uninitialised value
 for rates such as 7/10

---
 commpy/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/links.py b/commpy/links.py
index 5d56ee7..d6f11fc 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -233,7 +233,7 @@ class LinkModel:
                 # Deals with MIMO channel
                 if isinstance(self.channel, MIMOFlatChannel):
                     nb_symb_vector = len(channel_output)
-                    received_msg = np.empty(int(math.ceil(len(msg) / float(self.rate))))
+                    received_msg = np.empty(int(math.ceil(len(msg) / Fraction(self.rate))))
                     for i in range(nb_symb_vector):
                         received_msg[receive_size * i:receive_size * (i + 1)] = \
                             self.receive(channel_output[i], self.channel.channel_gains[i],
@@ -319,7 +319,7 @@ class LinkModel:
                 # Deals with MIMO channel
                 if isinstance(self.channel, MIMOFlatChannel):
                     nb_symb_vector = len(channel_output)
-                    received_msg = np.empty(int(math.ceil(len(msg) / float(self.rate))))
+                    received_msg = np.empty(int(math.ceil(len(msg) / Fraction(self.rate))))
                     for i in range(nb_symb_vector):
                         received_msg[receive_size * i:receive_size * (i + 1)] = \
                             self.receive(channel_output[i], self.channel.channel_gains[i],
-- 
2.43.0


From 7034d28c2cefa50b0547faeedc89ae29f6499265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 37/44] fix: WiFi simulations read the generators of 802.11 in
 the reverse order

---
 commpy/wifi80211.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/wifi80211.py b/commpy/wifi80211.py
index 7134e38..9b3cc55 100644
--- a/commpy/wifi80211.py
+++ b/commpy/wifi80211.py
@@ -105,7 +105,7 @@ class Wifi80211:
 
     @staticmethod
     def _get_trellis():
-        return cc.Trellis(Wifi80211.memory, Wifi80211.generator_matrix)
+        return cc.Trellis(Wifi80211.memory, Wifi80211.generator_matrix, polynomial_format='LSB')
 
     def __init__(self, mcs: int):
         """
-- 
2.43.0


From dcc15fb44332c62c2731d6352d19e2fe2c98ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 38/44] fix: Trellis.visualize reversed the list of states of
 its caller

---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 472994e..67653fb 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -345,7 +345,7 @@ class Trellis:
         ax = plt.axes([0,0,1,1])
         trellis_patches = []
 
-        state_order.reverse()
+        state_order = state_order[::-1]
 
         trellis_grid = self._generate_grid(trellis_length)
         state_patches = self._generate_states(trellis_length, trellis_grid,
-- 
2.43.0


From 6b4af9e0d8d4f08eb93ad15d7f2d885f30acb335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:55 +0000
Subject: [PATCH 39/44] fix: taps beyond the memory of an input read
 uninitialised values

---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 67653fb..65b0adb 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -224,7 +224,7 @@ class Trellis:
 
             # shift_regs holds on each column the state of a shift register.
             # The first row is the input of each shift reg.
-            shift_regs = np.empty((max_values_lign, self.k), np.int8)
+            shift_regs = np.zeros((max_values_lign, self.k), np.int8)
 
             # Compute the entries in the next state table and the output table
             for current_state in range(self.number_states):
-- 
2.43.0


From b1dc66c22868e12e8f99af8b0a07df00117d911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 40/44] fix: MIMO channels kept references to the fading
 parameters given by the caller

---
 commpy/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 0bcd835..42287ae 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -471,7 +471,7 @@ class MIMOFlatChannel(_FlatChannel):
         if absolute(NLOS_gain + LOS_gain - self.nb_tx * self.nb_rx) > 1e-3:
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
-        self._fading_param = fading_param
+        self._fading_param = tuple(array(param) for param in fading_param)
         self._isComplex = iscomplexobj(fading_param[0])
 
     @property
-- 
2.43.0


From 0d65c8104a454a5298c284864eaa26cf7ab2a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 41/44] fix: Trellis.visualize gave the edges of an input the
 color of another one

---
 commpy/channelcoding/convcode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 65b0adb..0c9dc43 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -293,7 +293,7 @@ class Trellis:
                                                 state_order[state_count_2])
                         edge_patch = mpatches.FancyArrow(grid_subset[0,state_count_1]+state_radius,
                                 grid_subset[1,state_count_1], dx, dy, width=0.005,
-                                length_includes_head = True, color = edge_colors[found_index[0][0]-1])
+                                length_includes_head = True, color = edge_colors[found_index[0][0]])
                         edge_patches.append(edge_patch)
                         input_count = input_count + 1
 
@@ -362,7 +362,8 @@ class Trellis:
         ax.add_collection(collection)
         ax.set_xticks([])
         ax.set_yticks([])
-        plt.legend(edge_patches, [str(i) + "-input" for i in range(self.number_inputs)])
+        plt.legend([mpatches.Patch(color=edge_colors[i]) for i in range(self.number_inputs)],
+                   [str(i) + "-input" for i in range(self.number_inputs)])
         plt.show()
         if save_path is not None:
             plt.savefig(save_path)
-- 
2.43.0


From 3b73afcf4d3378ce5b4d6f2ecf2f05a2b516b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 42/44] fix: Trellis.visualize_fsm raised with the default or
 any list of states

---
 commpy/channelcoding/convcode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 0c9dc43..c9ddc8e 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -413,7 +413,7 @@ class Trellis:
             # Plot transition
             for input in range(self.number_inputs):
                 next_state = self.next_state_table[state, input]
-                next_idx = (state_order == next_state).nonzero()[0][0]
+                next_idx = list(state_order).index(next_state)
                 output = self.output_table[state, input]
 
                 # Transition arrow
@@ -434,7 +434,7 @@ class Trellis:
                     # Positions
                     dx = positions[next_idx][0] - positions[idx][0]
                     dy = positions[next_idx][1] - positions[idx][1]
-                    relative_angle = math.atan(dy / dx) + np.where(dx > 0, 0, math.pi)
+                    relative_angle = math.atan2(dy, dx)
 
                     arrow_start_x = positions[idx][0] + state_radius * math.cos(relative_angle + math.pi * 0.05)
                     arrow_start_y = positions[idx][1] + state_radius * math.sin(relative_angle + math.pi * 0.05)
-- 
2.43.0


From f73c0da59077c453f5a7ca00cfb2043ee9190303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:57 +0000
Subject: [PATCH 43/44] fix: min-sum LDPC decoding with checks of degree one

---
 commpy/channelcoding/ldpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index 2c707fe..6087949 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -247,7 +247,9 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                     indexes = np.arange(len(row_data))
                     for j, i in enumerate(range(begin_row, end_row)):
                         other_val = row_data[indexes != j]
-                        message_matrix.data[i] = np.sign(other_val).prod() * np.abs(other_val).min()
+                        # The only node of a check is known to be 0
+                        min_val = np.abs(other_val).min() if len(other_val) else _llr_max
+                        message_matrix.data[i] = np.sign(other_val).prod() * min_val
             else:
                 raise NameError('Please input a valid decoder_algorithm string (meanning "SPA" or "MSA").')
 
-- 
2.43.0


From d90eecc1eb5cf34746aabb0a807721159662a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 44/44] fix: LDPC design files with nodes without neighbours

---
 commpy/channelcoding/ldpc.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index 6087949..30419a3 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -109,11 +109,11 @@ def get_ldpc_code_params(ldpc_design_filename, compute_matrix=False):
 
         for vnode_idx in range(n_vnodes):
             vnode_adj_list[vnode_idx, 0:vnode_deg_list[vnode_idx]] = \
-                np.array([int(x)-1 for x in ldpc_design_file.readline().split('\t')])
+                np.array([int(x)-1 for x in ldpc_design_file.readline().split()])
 
         for cnode_idx in range(n_cnodes):
             cnode_adj_list[cnode_idx, 0:cnode_deg_list[cnode_idx]] = \
-                np.array([int(x)-1 for x in ldpc_design_file.readline().split('\t')])
+                np.array([int(x)-1 for x in ldpc_design_file.readline().split()])
 
     cnode_vnode_map = -np.ones([n_cnodes, max_cnode_deg], int)
     vnode_cnode_map = -np.ones([n_vnodes, max_vnode_deg], int)
@@ -301,15 +301,11 @@ def write_ldpc_params(parity_check_matrix, file_path):
 
         for line in parity_check_matrix.T:
             nodes = line.nonzero()[0]
-            for node in nodes[:-1]:
-                file.write('{}\t'.format(node + 1))
-            file.write('{}\n'.format(nodes[-1] + 1))
+            file.write('\t'.join(str(node + 1) for node in nodes) + '\n')
 
         for col in parity_check_matrix:
             nodes = col.nonzero()[0]
-            for node in nodes[:-1]:
-                file.write('{}\t'.format(node + 1))
-            file.write('{}\n'.format(nodes[-1] + 1))
+            file.write('\t'.join(str(node + 1) for node in nodes) + '\n')
         file.write('\n')
 
 
-- 
2.43.0

