From 60a93d9f2eb30d32ac2883e0e833ca262505dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 01/23] verif: expose private items to the verification harness
 behind cfg(komunikilo_verif)

---
 src/csk.rs |  5 +++++
 src/lib.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/src/csk.rs b/src/csk.rs
index 8a9033d..e851e52 100644
--- a/src/csk.rs
+++ b/src/csk.rs
@@ -20,6 +20,11 @@ fn rx_baseband_csk<I: Iterator<Item = f64>>(message: I) -> impl Iterator<Item =
         .map(|((sample, chaos_1), chaos_2)| (sample - chaos_1).abs() < (sample - chaos_2).abs())
 }
 
+#[cfg(komunikilo_verif)]
+pub fn verif_rx_baseband_csk<I: Iterator<Item = f64>>(message: I) -> impl Iterator<Item = Bit> {
+    rx_baseband_csk(message)
+}
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/lib.rs b/src/lib.rs
index bf911e7..b3e084a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(unused_macros, dead_code)]
+#![allow(unexpected_cfgs)] // `komunikilo_verif` guards the verification hooks.
 use std::f64::consts::PI;
 
 use num_complex::Complex;
@@ -43,6 +44,47 @@ use crate::ofdm::{rx_ofdm_qpsk_signal, tx_ofdm_qpsk_signal};
 use crate::qpsk::{rx_qpsk_signal, tx_qpsk_signal};
 use crate::ssca::{ssca_base, ssca_mapped};
 
+/// Read-only access to private items for the verification harness.
+#[cfg(komunikilo_verif)]
+pub mod verif_hooks {
+    use crate::Bit;
+    use num_complex::Complex;
+
+    pub use crate::bch::{bch_stream_decode, bch_stream_encode};
+    pub use crate::csk::verif_rx_baseband_csk as rx_baseband_csk;
+
+    pub fn bool_to_u8(bools: &[Bit]) -> u8 {
+        crate::bool_to_u8(bools)
+    }
+    pub fn u8_to_bools(data: u8) -> [Bit; 8] {
+        crate::u8_to_bools(data)
+    }
+    pub fn bools_to_u8s<I: Iterator<Item = Bit>>(bools: I) -> impl Iterator<Item = u8> {
+        crate::bools_to_u8s(bools)
+    }
+    pub fn u8s_to_bools<I: Iterator<Item = u8>>(bytes: I) -> impl Iterator<Item = Bit> {
+        crate::u8s_to_bools(bytes)
+    }
+    pub fn fftshift<T: Clone>(x: &[T]) -> Vec<T> {
+        crate::fftshift(x)
+    }
+    pub fn fftshift_mut<T: Copy>(x: &mut [T]) {
+        crate::fftshift_mut(x)
+    }
+    pub fn is_int(num: f64) -> bool {
+        crate::is_int(num)
+    }
+    pub fn no_nans(v: &[f64]) -> bool {
+        crate::no_nans(v)
+    }
+    pub fn no_nans_complex(v: &[Complex<f64>]) -> bool {
+        crate::no_nans(v)
+    }
+    pub fn hop_table(low: f64, high: f64, num_freqs: usize, seed: u64) -> impl Iterator<Item = f64> {
+        crate::fh::HopTable::new(low, high, num_freqs, seed)
+    }
+}
+
 pub type Bit = bool;
 
 fn bool_to_u8(bools: &[bool]) -> u8 {
-- 
2.43.0


From 4b903612054b0abf01efbee0c0abdb29bd35bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 02/23] fix: HadamardMatrix::key panicked for every index that
 is len-1 modulo len

---
 src/hadamard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hadamard.rs b/src/hadamard.rs
index 1d98b74..20664b3 100644
--- a/src/hadamard.rs
+++ b/src/hadamard.rs
@@ -26,7 +26,7 @@ impl HadamardMatrix {
     }
     pub fn key(&self, n: usize) -> &Vec<Bit> {
         // TODO: FIXME: Make it more obvious there are 2^n-1 codes, instad of 2^n.
-        self.matrix.get((n % self.matrix.len()) + 1).unwrap()
+        self.matrix.get((n % (self.matrix.len() - 1)) + 1).unwrap()
     }
 }
 
-- 
2.43.0


From 1b9590818e05429bb1c21428b8318cd320fd2bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 03/23] fix: hop table with a single frequency indexed out of
 bounds on the second hop

---
 src/fh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fh.rs b/src/fh.rs
index 7f3a881..8230a16 100644
--- a/src/fh.rs
+++ b/src/fh.rs
@@ -42,8 +42,9 @@ impl Iterator for HopTable {
     fn next(&mut self) -> Option<f64> {
         if self.idx == 0 {
             self.hopping_table.shuffle(&mut self.rng);
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
+            // With a single frequency the next call starts a new epoch again.
+            self.idx = 1 % self.hopping_table.len();
+            Some(self.hopping_table[0])
         } else if self.idx == self.hopping_table.len() - 1 {
             self.idx = 0;
             Some(self.hopping_table[self.hopping_table.len() - 1])
-- 
2.43.0


From 94c4d3d39332535f198a5ff7de9a7f9ed3aa8a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 04/23] fix: OFDM with an odd number of subcarriers scrambled
 the subcarriers

---
 src/ofdm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index bbaabf2..9e9d9eb 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -41,7 +41,9 @@ pub fn tx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
                 .zip(data_chunk)
                 .for_each(|(&carrier, datum)| ofdm_symbol_data[carrier] = datum);
 
-            let mut ofdm_symbols = fftshift(&ofdm_symbol_data);
+            // Inverse of the receiver's fftshift (they differ for an odd number of subcarriers).
+            ofdm_symbol_data.rotate_left(subcarriers / 2);
+            let mut ofdm_symbols = ofdm_symbol_data;
             fft.process_with_scratch(&mut ofdm_symbols, &mut fft_scratch); // IFFT
 
             let cp = ofdm_symbols[subcarriers - cp_len..subcarriers]
-- 
2.43.0


From 76b6f6d9b595af838fefc00773ea3019081dce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 05/23] fix: passband OFDM receiver integrated across symbol
 boundaries (off by one sample)

---
 src/ofdm.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index 9e9d9eb..fd02526 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -129,7 +129,6 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     let samples_per_symbol = sample_rate / symbol_rate;
 
-    let filter: Vec<f64> = (0..samples_per_symbol).map(|_| 1f64).collect();
     let ofdm_symbols = message
         .enumerate()
         .map(move |(idx, sample)| {
@@ -139,10 +138,8 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
 
             [ii, qi]
         })
-        .nonvolve(filter)
-        .map(|s_i| Complex::new(s_i[0], s_i[1]))
-        .take_every(samples_per_symbol)
-        .skip(1);
+        .nintegrate_and_dump(samples_per_symbol)
+        .map(|s_i| Complex::new(s_i[0], s_i[1]));
 
     let qpsk_symbols = rx_baseband_ofdm_signal(ofdm_symbols, subcarriers, pilots);
     rx_baseband_qpsk_signal(qpsk_symbols)
-- 
2.43.0


From 767438b3fc2f416bcde89d16555bcfaf7ea077f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 06/23] fix: OFDM and FH-OFDM-DCSK receivers panicked on an
 incomplete last block

---
 src/fh_ofdm_dcsk.rs | 1 +
 src/ofdm.rs         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 160690d..2b0f606 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -76,6 +76,7 @@ pub fn rx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Complex<f64>>>(
 
     signal
         .chunks(NUM_SUBCARRIERS + CP_LEN)
+        .filter(|chunk| chunk.len() == NUM_SUBCARRIERS + CP_LEN)
         .flat_map(move |chunk| {
             let mut buffer: Vec<Complex<f64>> = Vec::from(&chunk[CP_LEN..]); // CP Removal
 
diff --git a/src/ofdm.rs b/src/ofdm.rs
index fd02526..6c2f61e 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -78,6 +78,7 @@ pub fn rx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
 
     message
         .chunks(subcarriers + cp_len) // S/P
+        .filter(move |ofdm_symbol_data| ofdm_symbol_data.len() == subcarriers + cp_len)
         .flat_map(move |ofdm_symbol_data| {
             // let mut buffer: Vec<Complex<f64>> = fftshift(&ofdm_symbol_data[cp_len..]); // CP Removal
             let mut buffer: Vec<Complex<f64>> = Vec::from(&ofdm_symbol_data[cp_len..]); // CP Removal
-- 
2.43.0


From 40231d286b200f990c5efcf485da9263a7554ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 07/23] fix: convolve/nonvolve used the filter reversed and
 lost the tail of short signals

---
 src/iter/convolution.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/iter/convolution.rs b/src/iter/convolution.rs
index 493b846..661f521 100644
--- a/src/iter/convolution.rs
+++ b/src/iter/convolution.rs
@@ -13,6 +13,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<T>,
+    flushed: usize,
 }
 
 impl<T, I> Convolver<T, I>
@@ -26,13 +27,14 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            flushed: 0,
         }
     }
 
     fn _convolve(&self) -> T {
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.flushed))
             .map(|(&buf, &filt)| buf * filt)
             .sum()
     }
@@ -60,11 +62,10 @@ where
                 Some(self._convolve())
             }
             None => {
-                // if self.buffer.is_empty() {
-                if self.buffer.len() <= 1 {
+                if self.buffer.is_empty() || self.flushed + 1 >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
+                    self.flushed += 1;
                     Some(self._convolve())
                 }
             }
@@ -80,6 +81,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<[T; N]>,
+    flushed: usize,
 }
 
 impl<T, I, const N: usize> Nonvolver<T, I, N>
@@ -93,6 +95,7 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            flushed: 0,
         }
     }
 
@@ -100,7 +103,7 @@ where
         let mut ret = [T::default(); N];
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.flushed))
             .for_each(|(&buf, &filt)| {
                 buf.iter()
                     .enumerate()
@@ -130,10 +133,10 @@ where
                 Some(self._nonvolve())
             }
             None => {
-                if self.buffer.len() <= 1 {
+                if self.buffer.is_empty() || self.flushed + 1 >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
+                    self.flushed += 1;
                     Some(self._nonvolve())
                 }
             }
-- 
2.43.0


From daf4b3c40fdeda84299f2722187867c2a96b38fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 08/23] fix: inflate(0) was an endless stream instead of an
 empty one

---
 src/iter/inflate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iter/inflate.rs b/src/iter/inflate.rs
index 6218e64..258bf8f 100644
--- a/src/iter/inflate.rs
+++ b/src/iter/inflate.rs
@@ -21,6 +21,9 @@ impl<T: Copy, I: Iterator<Item = T>> Iterator for Inflate<T, I> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
+        if self.copies == 0 {
+            return None;
+        }
         if self.curr.is_none() || self.curr_copy == self.copies {
             self.curr = self.source.next();
             self.curr_copy = 1;
-- 
2.43.0


From 1556bec6b7bce4fe4335c76fe75d56b8da3d5ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 09/23] fix: power() divided by one sample too few

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b3e084a..d0668c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -296,7 +296,7 @@ pub fn energy<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
 
 pub fn power<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
     let (count, power) = signal.enumerate().fold((0, 0f64), |acc, (idx, sample)| {
-        (idx, acc.1 + sample.powi(2))
+        (idx + 1, acc.1 + sample.powi(2))
     });
 
     power / (count as f64) / sample_rate
-- 
2.43.0


From e6816b2921565cb36eeb48be4fc372d9bc22c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 10/23] fix: linear_downchirp_centered swept upwards

---
 src/fh_css.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fh_css.rs b/src/fh_css.rs
index 25f6f26..07f3c05 100644
--- a/src/fh_css.rs
+++ b/src/fh_css.rs
@@ -34,8 +34,8 @@ pub fn linear_downchirp_centered(
     bandwidth: f64,
     sample_rate: usize,
 ) -> impl Iterator<Item = f64> {
-    let f0: f64 = center_freq - bandwidth / 2f64;
-    let f1: f64 = center_freq + bandwidth / 2f64;
+    let f0: f64 = center_freq + bandwidth / 2f64;
+    let f1: f64 = center_freq - bandwidth / 2f64;
     linear_chirp(chirp_rate, sample_rate, f0, f1)
 }
 
-- 
2.43.0


From 094169326766ee7ef4eff6f5c0410733571c7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 11/23] fix: the chebyshev chaotic map diverged to infinity and
 NaN

---
 src/chaos/chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chaos/chebyshev.rs b/src/chaos/chebyshev.rs
index 491ed2d..da46339 100644
--- a/src/chaos/chebyshev.rs
+++ b/src/chaos/chebyshev.rs
@@ -4,7 +4,7 @@ pub fn chebyshev(xn: f64) -> f64 {
     let mu = 3f64;
     // 1f64 - 2f64 * xn.powi(2)
     // 2f64 * xn.powi(2) - 1f64
-    mu * xn.powi(3) - (1f64 - mu) * xn
+    mu * xn.powi(3) + (1f64 - mu) * xn
 }
 
 pub struct Chebyshev {
-- 
2.43.0


From 067a6b138d49d64bf0855305a8559cf3c1187aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 12/23] fix: bch_stream_decode panicked on an incomplete last
 frame

---
 src/bch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bch.rs b/src/bch.rs
index 9ff0102..fca4025 100644
--- a/src/bch.rs
+++ b/src/bch.rs
@@ -21,6 +21,8 @@ pub fn bch_stream_encode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item
 pub fn bch_stream_decode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item = Bit> {
     bools_to_u8s(data)
         .chunks(FRAME_VALUE)
+        // A frame cut short before its first data byte carries nothing.
+        .filter(|chunk| chunk.len() > ECC_VALUE)
         .flat_map(|chunk| {
             let dec = Decoder::new(ECC_VALUE);
             // let decoded: Vec<u8> = dec.correct(&chunk, None);
-- 
2.43.0


From a42c11ed745ceada0e907e05a2849a4ab2a5b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 13/23] fix: kom_py tx_qpsk transmitted at half the carrier
 frequency

---
 kom_py/psk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/psk.py b/kom_py/psk.py
index 8928f26..ebcf579 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -72,7 +72,7 @@ def tx_qpsk(
     # Make time array
     # time = [i / samp_rate for i in range(len(symbols))]
     return [
-        (c_i * np.exp(1j * np.pi * carrier_freq * (i / samp_rate))).real
+        (c_i * np.exp(2j * np.pi * carrier_freq * (i / samp_rate))).real
         for (i, c_i) in enumerate(symbols)
     ]
 
-- 
2.43.0


From ada7c12a71a8e580c5e47fc8a4ea394b01503958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 14/23] fix: kom_py receivers integrated across symbol
 boundaries (off by one sample)

---
 kom_py/cdma.py | 2 +-
 kom_py/psk.py  | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index 57765aa..600deaa 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -46,7 +46,7 @@ def rx_bpsk_cdma(
 
     sig = np.convolve(if_sig, filter)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [th_i > 0 for th_i in sig[samples_per_symbol - 1 : len(if_sig) : samples_per_symbol]]
 
 
 if __name__ == "__main__":
diff --git a/kom_py/psk.py b/kom_py/psk.py
index ebcf579..ee879c7 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -56,7 +56,7 @@ def rx_bpsk(
 
     sig = np.convolve(if_sig, filter)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [th_i > 0 for th_i in sig[samples_per_symbol - 1 : len(if_sig) : samples_per_symbol]]
 
 
 def tx_qpsk(
@@ -101,7 +101,8 @@ def rx_qpsk(
         filter,
     )
 
-    i_bits = [i > 0 for i in ii[::samples_per_symbol]][1:]
-    q_bits = [i > 0 for i in qi[::samples_per_symbol]][1:]
+    ends = slice(samples_per_symbol - 1, len(signal), samples_per_symbol)
+    i_bits = [i > 0 for i in ii[ends]]
+    q_bits = [i > 0 for i in qi[ends]]
 
     return list(np.array(list(zip(i_bits, q_bits))).flatten())
-- 
2.43.0


From 6308b028507bfc199b6233566a23af3738ffc93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 15/23] fix: kom_py rx_bpsk_cdma never despread the signal

---
 kom_py/cdma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index 600deaa..7a89a8d 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -39,6 +39,9 @@ def rx_bpsk_cdma(
     assert (samp_rate / (symb_rate * len(KEY))).is_integer()
     filter = [1 for _ in range(samples_per_symbol)]
 
+    samples_per_chip = int(samples_per_symbol / len(KEY))
+    signal = signal * np.resize(np.repeat(KEY, samples_per_chip), len(signal))
+
     if_sig = [
         s_i * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
         for (i, s_i) in enumerate(signal)
-- 
2.43.0


From 9b84909de3b7d2500d524a8df0afeac46efe4780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 16/23] fix: awgn_complex disturbed only the real component

---
 src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d0668c9..694d986 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -259,13 +259,11 @@ pub fn awgn_complex<I: Iterator<Item = Complex<f64>>>(
     signal: I,
     sigma: f64,
 ) -> impl Iterator<Item = Complex<f64>> {
+    let normal = Normal::new(0f64, sigma).unwrap();
     signal
-        .zip(
-            Normal::new(0f64, sigma)
-                .unwrap()
-                .sample_iter(rand::thread_rng()),
-        )
-        .map(|(sample, noise)| sample + noise)
+        .zip(normal.sample_iter(rand::thread_rng()))
+        .zip(normal.sample_iter(rand::thread_rng()))
+        .map(|((sample, re), im)| sample + Complex::new(re, im))
 }
 
 pub fn awgn<I: Iterator<Item = f64>>(signal: I, sigma: f64) -> impl Iterator<Item = f64> {
-- 
2.43.0


From a114c1adc16cad3bb73e10d425102925c3c5c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 17/23] fix: fftshift_mut wrote the first half back over the
 second

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 694d986..89d8b79 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -195,7 +195,7 @@ fn fftshift_mut<T: Copy>(x: &mut [T]) {
     for (i, j) in (pivot..x.len()).enumerate() {
         x[i] = x[j];
     }
-    for (i, item) in (0..pivot).zip(v.into_iter()) {
+    for (i, item) in (x.len() - pivot..x.len()).zip(v) {
         x[i] = item;
     }
 }
-- 
2.43.0


From 682a55b4d5b2c7a720935586ccbc92170c90f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:39 +0000
Subject: [PATCH 18/23] fix: carriers up to one hertz above half the sample
 rate were accepted

---
 src/bpsk.rs         | 2 +-
 src/cdma.rs         | 8 ++++----
 src/fh.rs           | 6 +++---
 src/fh_css.rs       | 2 +-
 src/fh_ofdm_dcsk.rs | 4 ++--
 src/fsk.rs          | 6 +++---
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/bpsk.rs b/src/bpsk.rs
index 10a68b4..0412a86 100644
--- a/src/bpsk.rs
+++ b/src/bpsk.rs
@@ -27,7 +27,7 @@ pub fn tx_bpsk_signal<I: Iterator<Item = Bit>>(
     carrier_freq: f64,
 ) -> impl Iterator<Item = f64> {
     let samples_per_symbol: usize = sample_rate / symbol_rate;
-    assert!(sample_rate / 2 >= carrier_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= carrier_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
 
     message
diff --git a/src/cdma.rs b/src/cdma.rs
index 51550b7..52c4eaa 100644
--- a/src/cdma.rs
+++ b/src/cdma.rs
@@ -48,7 +48,7 @@ pub fn tx_cdma_bpsk_signal<'a, I: Iterator<Item = Bit> + 'a>(
     key: &'a [Bit],
 ) -> impl Iterator<Item = f64> + '_ {
     assert!(sample_rate / 2 >= key.len() * symbol_rate);
-    assert!(sample_rate / 2 >= carrier_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= carrier_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     assert!(is_int(
         sample_rate as f64 / (symbol_rate as f64 * key.len() as f64)
@@ -72,7 +72,7 @@ pub fn rx_cdma_bpsk_signal<'a, I: Iterator<Item = f64> + 'a>(
     key: &'a [Bit],
 ) -> impl Iterator<Item = Bit> + '_ {
     assert!(sample_rate / 2 >= key.len() * symbol_rate);
-    assert!(sample_rate / 2 >= carrier_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= carrier_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     assert!(is_int(
         sample_rate as f64 / (symbol_rate as f64 * key.len() as f64)
@@ -135,7 +135,7 @@ pub fn tx_cdma_qpsk_signal<'a, I: Iterator<Item = Bit> + 'a>(
     key: &'a [Bit],
 ) -> impl Iterator<Item = f64> + '_ {
     assert!(sample_rate / 2 >= key.len() * symbol_rate);
-    assert!(sample_rate / 2 >= carrier_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= carrier_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     assert!(is_int(
         sample_rate as f64 / (symbol_rate as f64 * key.len() as f64)
@@ -159,7 +159,7 @@ pub fn rx_cdma_qpsk_signal<'a, I: Iterator<Item = f64> + 'a>(
     key: &'a [Bit],
 ) -> impl Iterator<Item = Bit> + '_ {
     assert!(sample_rate / 2 >= key.len() * symbol_rate);
-    assert!(sample_rate / 2 >= carrier_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= carrier_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     assert!(is_int(
         sample_rate as f64 / (symbol_rate as f64 * key.len() as f64)
diff --git a/src/fh.rs b/src/fh.rs
index 8230a16..9a6968a 100644
--- a/src/fh.rs
+++ b/src/fh.rs
@@ -64,7 +64,7 @@ pub fn tx_fh_bpsk_signal<I: Iterator<Item = Bit>>(
     sample_rate: usize,
     symbol_rate: usize,
 ) -> impl Iterator<Item = f64> {
-    assert!(sample_rate / 2 >= high_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= high_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
 
     message
@@ -83,7 +83,7 @@ pub fn rx_fh_bpsk_signal<I: Iterator<Item = f64>>(
     symbol_rate: usize,
 ) -> impl Iterator<Item = Bit> {
     let samples_per_symbol: usize = sample_rate / symbol_rate;
-    assert!(sample_rate / 2 >= high_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= high_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
 
     signal
@@ -104,7 +104,7 @@ pub fn tx_fh_bpsk_signal_old<I: Iterator<Item = Bit>>(
     carrier_freq: f64,
 ) -> impl Iterator<Item = f64> {
     let samples_per_symbol: usize = sample_rate / symbol_rate;
-    assert!(sample_rate / 2 >= carrier_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= carrier_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     // TODO: assert to check hopped freqs are within range.
 
diff --git a/src/fh_css.rs b/src/fh_css.rs
index 07f3c05..5a79c53 100644
--- a/src/fh_css.rs
+++ b/src/fh_css.rs
@@ -47,7 +47,7 @@ pub fn tx_fh_css_signal<I: Iterator<Item = Bit>>(
     high_freq: f64,
     num_freqs: usize,
 ) -> impl Iterator<Item = f64> {
-    assert!(sample_rate / 2 >= high_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= high_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
 
     let bandwidth: f64 = (high_freq - low_freq) / num_freqs as f64;
diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 2b0f606..1938f7b 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -113,7 +113,7 @@ pub fn tx_fh_ofdm_dcsk_signal<I: Iterator<Item = Bit>>(
     sample_rate: usize,
     symbol_rate: usize,
 ) -> impl Iterator<Item = f64> {
-    assert!(sample_rate / 2 >= high_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= high_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     // assert!(is_int(sample_rate as f64 / (symbol_rate as f64 * key.len() as f64)));
     let samples_per_symbol: usize = sample_rate / symbol_rate;
@@ -134,7 +134,7 @@ pub fn tx_fh_ofdm_dcsk_signal_2<I: Iterator<Item = Bit>>(
     symbol_rate: usize,
     carrier_freq: f64,
 ) -> impl Iterator<Item = f64> {
-    assert!(sample_rate / 2 >= carrier_freq as usize);
+    assert!(sample_rate as f64 / 2f64 >= carrier_freq);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     // assert!(is_int(sample_rate as f64 / (symbol_rate as f64 * key.len() as f64)));
     let samples_per_symbol: usize = sample_rate / symbol_rate;
diff --git a/src/fsk.rs b/src/fsk.rs
index c9f50fe..b77c261 100644
--- a/src/fsk.rs
+++ b/src/fsk.rs
@@ -9,7 +9,7 @@ pub fn tx_bfsk_signal<I: Iterator<Item = Bit>>(
     freq_high: f64,
 ) -> impl Iterator<Item = f64> {
     let samples_per_symbol: usize = sample_rate / symbol_rate;
-    assert!(sample_rate / 2 >= freq_high as usize);
+    assert!(sample_rate as f64 / 2f64 >= freq_high);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
 
     message
@@ -31,7 +31,7 @@ pub fn tx_mfsk_signal<I: Iterator<Item = Bit>>(
     _num_freqs: usize,
 ) -> impl Iterator<Item = f64> {
     let samples_per_symbol: usize = sample_rate / symbol_rate;
-    assert!(sample_rate / 2 >= freq_high as usize);
+    assert!(sample_rate as f64 / 2f64 >= freq_high);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     // TODO: FIXME: evenly divide the space by number of freqs,
 
@@ -55,7 +55,7 @@ pub fn tx_fsk_signal<I: Iterator<Item = Bit>>(
     // TODO: FIXME: Read from list of freqs.
     let freq_high = freqs[0];
     let freq_low = freqs[1];
-    assert!(sample_rate / 2 >= freq_high as usize);
+    assert!(sample_rate as f64 / 2f64 >= freq_high);
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     message
         .map(move |bit| if bit { freq_high } else { freq_low })
-- 
2.43.0


From e8e01845a0bdc21ae37b17b4d3592fbe4d9fc503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 19/23] fix: butterpass panicked on a last block of fewer than
 388 samples

---
 src/bpf.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bpf.rs b/src/bpf.rs
index 398abbb..a5e807f 100644
--- a/src/bpf.rs
+++ b/src/bpf.rs
@@ -63,7 +63,17 @@ pub fn butterpass<I: Iterator<Item = f64>>(
     };
     stream
         .chunks(FFT_LEN * 10)
-        .flat_map(move |chunk| sosfiltfilt_dyn(chunk.into_iter(), &bandpass_filter.sos))
+        .flat_map(move |mut chunk| {
+            // The filter cannot run on fewer samples than it extends the signal by at each end.
+            let len = chunk.len();
+            let min_len = 3 * (2 * bandpass_filter.sos.len() + 1) + 1;
+            if len < min_len {
+                chunk.resize(min_len, 0f64);
+            }
+            let mut filtered = sosfiltfilt_dyn(chunk.into_iter(), &bandpass_filter.sos);
+            filtered.truncate(len);
+            filtered
+        })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1fd48451287e6e86cb256301841d8f8800cab23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 20/23] fix: kom_py max_cut compared complex entries by real
 part instead of magnitude

---
 kom_py/ssca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/ssca.py b/kom_py/ssca.py
index 412bd32..4c0072a 100755
--- a/kom_py/ssca.py
+++ b/kom_py/ssca.py
@@ -101,7 +101,7 @@ def ssca(s: List[float], N, Np, map_output=True) -> np.ndarray:
 def max_cut(sx: np.ndarray) -> np.ndarray:
     # l_max(t, a) = 10 log_10( max_f( | S(a, f) |^2 ) )
     # TODO: verify if axis zero or axis 1.
-    λ = np.abs(np.max(sx, axis=1)) ** 2
+    λ = np.max(np.abs(sx), axis=1) ** 2
     return 10 * np.log10(λ)
     # return λ
 
-- 
2.43.0


From 17fea87ddddc8179e631856471c546a02521c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 21/23] fix: kom_py floor_power_of_2 took a rounded logarithm
 for an exact one

---
 kom_py/util.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/kom_py/util.py b/kom_py/util.py
index 461cf9d..a1f77b3 100644
--- a/kom_py/util.py
+++ b/kom_py/util.py
@@ -1,7 +1,7 @@
 #!/usr/bin/env python3
 from contextlib import contextmanager
 from itertools import zip_longest
-from math import ceil, log
+from math import ceil
 import numpy as np
 import time
 from typing import Any, Iterable, Generator, List, Union, Optional
@@ -23,10 +23,7 @@ def floor_power_of_2(x):
     x = int(x)
     if x == 0:
         return 0
-    elif log(x, 2).is_integer():
-        return x
-    else:
-        return 2 ** (int(x - 1).bit_length() - 1)
+    return 2 ** (x.bit_length() - 1)
 
 
 def bit_to_nrz(bit: bool) -> float:
-- 
2.43.0


From 9e542fcede4a67b472c2076ae8e6641b0c73b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 22/23] fix: kom_py chirpCtr swapped the chirp and sample rates
 and lost the phase

---
 kom_py/chirp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/chirp.py b/kom_py/chirp.py
index c6f1a5b..2695c21 100644
--- a/kom_py/chirp.py
+++ b/kom_py/chirp.py
@@ -89,7 +89,7 @@ def chirpCtr(fs_Hz, fc_Hz, rep_Hz, bw_Hz, phase_rad=0):
     """
     f0_Hz = fc_Hz - bw_Hz / 2.0
     f1_Hz = fc_Hz + bw_Hz / 2.0
-    return chirpz(fs_Hz, rep_Hz, f0_Hz, f1_Hz, phase_rad)
+    return chirpz(rep_Hz, fs_Hz, f0_Hz, f1_Hz, phase_rad=phase_rad)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From b95316201e1d22e8841da7e93ca458f4d099ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 23/23] fix: kom_py secs_to_str counted the quarter days of
 whole years again as hours

---
 kom_py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/util.py b/kom_py/util.py
index a1f77b3..ca9c9c7 100644
--- a/kom_py/util.py
+++ b/kom_py/util.py
@@ -63,7 +63,7 @@ def secs_to_str(seconds: float) -> str:
     if days:
         out += f"{int(seconds % s_y // s_d)}d:"
     if hours:
-        out += f"{int(seconds % s_d // s_h)}h:"
+        out += f"{int(seconds % s_y % s_d // s_h)}h:"
     if minutes:
         out += f"{int(seconds % s_h // s_m)}m:"
     if seconds:
-- 
2.43.0

