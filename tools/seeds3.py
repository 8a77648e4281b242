import importlib.util, os
_s = importlib.util.spec_from_file_location("seeds1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
BITS, PI = _m.BITS, _m.PI
SEEDS = []
def seed(id, property, needs, breaks, edits, rs=None, py=None, **k):
    s = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **k)
    if rs: s["rs"] = rs
    if py: s["py"] = py
    SEEDS.append(s)

# ---------------------------------------------------------------- C26
seed("c26-tail-saturates", "C26", "arguments between 3 and 3.7",
  "the error function is taken as saturated from 3 on, where it is still 2.2e-5 short of it",
  [("src/lib.rs", "    let t: f64 = 1f64 / (1f64 + 0.5 * x.abs());", "    if x.abs() >= 3f64 {\n        return x.signum();\n    }\n    let t: f64 = 1f64 / (1f64 + 0.5 * x.abs());")],
  rs=r'''fn main() { for x in [3.0f64, -3.0, 3.1] { let e = komunikilo::erf(x); let t = if x.abs() == 3.0 { 0.999977909503 } else { 0.999988351342 }; assert!((e.abs() - t).abs() < 2e-7, "{x} {e}"); } }''')
seed("c26-coefficient", "C26", "an accuracy better than a millionth near the origin",
  "one digit of a coefficient of the approximation is wrong",
  [("src/lib.rs", "+ 0.27886807 * t.powi(5)", "+ 0.27886987 * t.powi(5)")],
  rs=r'''fn main() { for (x, t) in [(0.25f64, 0.276326390168), (0.5, 0.520499877813), (0.1, 0.112462916018)] { let e = komunikilo::erf(x); assert!((e - t).abs() < 1.5e-7, "{x} {e}"); assert!((komunikilo::erf(-x) + t).abs() < 1.5e-7); } }''')
seed("c26-erfc-negative", "C26", "a negative argument below -6",
  "the complement of far negative arguments is taken to be zero like that of far positive ones",
  [("src/lib.rs", "    1f64 - erf(x)", "    if x.powi(2) > 36f64 {\n        return 0f64;\n    }\n    1f64 - erf(x)")],
  rs=r'''fn main() { for x in [-5.9f64, -6.1, -20.0] { assert!((komunikilo::erfc(x) - 2.0).abs() < 1e-6, "{x}"); } assert!(komunikilo::erfc(7.0).abs() < 1e-6); }''')

# ---------------------------------------------------------------- C27
seed("c27-block-length", "C27", "a stream longer than one block with the middle of a 81920-sample block looked at",
  "the filter works on blocks of 8192 samples whose transients reach the middle of the specified blocks",
  [("src/bpf.rs", ".chunks(FFT_LEN * 10)", ".chunks(FFT_LEN * 5)")],
  rs=PI+r'''use komunikilo::bpf::butterpass;
fn main() {
    let (fs, n) = (10000usize, 81920usize);
    let x: Vec<f64> = (0..n).map(|i| (2.0 * PI * 1000.0 * i as f64 / fs as f64).cos()).collect();
    let y: Vec<f64> = butterpass(900.0, 1100.0, x.clone().into_iter(), fs).collect();
    assert_eq!(y.len(), n);
    for i in n / 2 - 2000..n / 2 + 2000 { assert!((x[i] - y[i]).abs() < 1e-2, "{i} {} {}", x[i], y[i]); }
}''')
seed("c27-order", "C27", "a tone just outside the band",
  "the design order is lowered, so that tones close to the band leak",
  [("src/bpf.rs", "        64,\n        [low, high]", "        24,\n        [low, high]")],
  rs=PI+r'''use komunikilo::bpf::butterpass;
fn main() {
    let (fs, n) = (10000usize, 81920usize);
    let x = (0..n).map(|i| (2.0 * PI * 2060.0 * i as f64 / fs as f64).cos());
    let y: Vec<f64> = butterpass(1000.0, 2000.0, x, fs).collect();
    for i in n / 2 - 2000..n / 2 + 2000 { assert!(y[i].abs() < 2e-3, "{i} {}", y[i]); }
}''')
seed("c27-edges-rounded", "C27", "band edges that are not whole multiples of ten hertz and a tone between",
  "band edges are rounded to tens of hertz",
  [("src/bpf.rs", "        [low, high].to_vec(),", "        [(low / 10f64).round() * 10f64, (high / 10f64).round() * 10f64].to_vec(),")],
  rs=PI+r'''use komunikilo::bpf::butterpass;
fn main() {
    let (fs, n) = (100usize, 81920usize);
    let x: Vec<f64> = (0..n).map(|i| (2.0 * PI * 15.0 * i as f64 / fs as f64).cos()).collect();
    let y: Vec<f64> = butterpass(14.0, 16.0, x.clone().into_iter(), fs).collect();
    for i in n / 2 - 2000..n / 2 + 2000 { assert!((x[i] - y[i]).abs() < 1e-2, "{i} {} {}", x[i], y[i]); }
    let z = (0..n).map(|i| (2.0 * PI * 12.0 * i as f64 / fs as f64).cos());
    let w: Vec<f64> = butterpass(14.0, 16.0, z, fs).collect();
    for i in n / 2 - 2000..n / 2 + 2000 { assert!(w[i].abs() < 1e-3, "{i}"); }
}''')

# ---------------------------------------------------------------- C28
seed("c28-ssca-window-late", "C28", "a signal longer than one window",
  "the last samples are analysed instead of the first",
  [("kom_py/ssca.py", "    s = np.array(s[: N + Np])  # Limit", "    s = np.array(s[-(N + Np) :])  # Limit")],
  py=r'''
import numpy as np, ssca
rng = np.random.default_rng(1)
x = rng.normal(size=40)
a = ssca.ssca(list(x), 16, 4, False); b = ssca.ssca(list(x[:20]), 16, 4, False)
assert np.allclose(a, b)
''')
seed("c28-dcs-per-cell", "C28", "a table in which two neighbours of a column differ in sign",
  "the detector squares after summing the magnitudes of cells",
  [("kom_py/ssca.py", "λ = np.sum(np.abs(sx) ** 2, axis=0) / np.abs(sx[0, :]) ** 2\n    return 10", "λ = np.sum(np.abs(sx**2), axis=0) / np.abs(sx[:1, :].sum(axis=0)) ** 2\n    λ = np.where(λ > len(sx), np.abs(np.sum(sx**2, axis=0)) / np.abs(sx[0, :]) ** 2, λ)\n    return 10")],
  py=r'''
import numpy as np, ssca
m = np.array([[1.0, 1.0], [2j, 1.0], [1.0, 1.0]])
assert np.allclose(ssca.dcs(m), 10 * np.log10([6.0, 3.0])), ssca.dcs(m)
''')
seed("c28-power-of-two-float", "C28", "numbers above 2^53",
  "the next power of two is found through a floating point logarithm, which is inexact for large numbers",
  [("kom_py/util.py", "    return 1 if x == 0 else 2 ** int(x - 1).bit_length()", "    return 1 if x == 0 else 2 ** ceil(np.log2(float(x)))")],
  py=r'''
from util import next_power_of_2
for k in range(1, 70):
    assert next_power_of_2(2**k) == 2**k
    assert next_power_of_2(2**k + 1) == 2**(k + 1), k
''')
seed("c28-iq-one-noise", "C28", "looking at both components of complex noise",
  "both components of the complex channel get the same noise",
  [("kom_py/willie.py", "    return [s_i + (gauss(sigma=n0) + 1j * gauss(sigma=n0)) for s_i in signal]", "    return [s_i + gauss(sigma=n0) * (1 + 1j) for s_i in signal]")],
  py=r'''
from willie import awgn_iq
v = awgn_iq([0j] * 500, 1.0)
assert any(abs(z.real - z.imag) > 1e-9 for z in v)
''')
seed("c28-chirp-phase-degrees", "C28", "a chirp with an initial phase and several periods",
  "the initial phase scales with the sweep's sign",
  [("kom_py/chirp.py", "    phi_rad += phase_rad  # Offset", "    phi_rad += phase_rad if f1 >= f0 else -phase_rad  # Offset")],
  py=r'''
import numpy as np
from chirp import chirpz
y = chirpz(1.0, 1000, 50.0, 10.0, phase_rad=0.5)
assert abs(y[0] - np.sin(0.5)) < 1e-9
''')
seed("c28-ber-qpsk-bit", "C28", "the theoretical symbol error rate at low signal-to-noise ratio",
  "the QPSK symbol error rate loses its second-order term",
  [("kom_py/ber_theory.py", "    return 0.5 * erfc(np.sqrt(eb_n0)) - 0.25 * erfc(np.sqrt(eb_n0)) ** 2", "    p = 0.5 * erfc(np.sqrt(eb_n0))\n    return p - (p**2 if eb_n0 >= 1 else 0.25 * p**2)")],
  py=r'''
import numpy as np
from scipy.special import erfc
from ber_theory import ber_qpsk
for x in (0.1, 0.5, 1.5):
    e = erfc(np.sqrt(x))
    assert abs(ber_qpsk(x) - (0.5 * e - 0.25 * e * e)) < 1e-9, x
''')

# ---------------------------------------------------------------- C29
seed("c29-clipped-front-end", "C29", "a noisy QPSK signal",
  "the receiver limits its input to the amplitude of a clean signal, which costs up to two decibels in noise",
  [("src/qpsk.rs", "            let ii = sample *", "            let sample = sample.clamp(-1.45, 1.45);\n            let ii = sample *")],
  rs=r'''use komunikilo::{qpsk::*, *};
fn main() {
    // a strong sample decides against many weak ones
    let (fs, sr, fc) = (16usize, 1usize, 1.0);
    let mut x = vec![-0.5f64; 16];
    for (i, v) in x.iter_mut().enumerate() { *v = -0.5 * (2.0 * std::f64::consts::PI * i as f64 / 16.0).cos(); }
    x[0] = 9.0;
    let r: Vec<Bit> = rx_qpsk_signal(x.into_iter(), fs, sr, fc).collect();
    assert!(r[0]);
}''')
seed("c29-noise-held", "C29", "noise over several consecutive samples",
  "the channel keeps every noise value for two samples",
  [("src/lib.rs", "    signal\n        .zip(\n            Normal::new(0f64, sigma)\n                .unwrap()\n                .sample_iter(rand::thread_rng()),\n        )\n        .map(|(sample, noise)| sample + noise)\n}", "    signal\n        .zip(\n            Normal::new(0f64, sigma)\n                .unwrap()\n                .sample_iter(rand::thread_rng())\n                .inflate(2),\n        )\n        .map(|(sample, noise)| sample + noise)\n}")],
  rs=r'''fn main() {
    let v: Vec<f64> = komunikilo::awgn(std::iter::repeat(0.0).take(400), 1.0).collect();
    assert!(v.windows(2).all(|w| w[0] != w[1]));
}''')
seed("c29-ofdm-low-energy", "C29", "OFDM with more than sixteen subcarriers in noise",
  "large OFDM transmitters scale twice, so the signal is far weaker than specified",
  [("src/ofdm.rs", "                .map(|s_i| s_i / (subcarriers as f64) /*.sqrt()*/)", "                .map(|s_i| {\n                    s_i / (subcarriers as f64) * if subcarriers > 16 { 0.5 } else { 1f64 } /*.sqrt()*/\n                })")],
  rs=r'''use komunikilo::ofdm::*; use num_complex::Complex;
fn main() {
    let x: Vec<Complex<f64>> = (0..50).map(|i| Complex::new((i % 3) as f64, (i % 5) as f64)).collect();
    let y: Vec<Complex<f64>> = rx_baseband_ofdm_signal(tx_baseband_ofdm_signal(x.clone().into_iter(), 64, 14), 64, 14).collect();
    for (a, b) in x.iter().zip(y) { assert!((a - b).norm() < 1e-9); }
}''')

# ---------------------------------------------------------------- iterator contracts
seed("c17-chunk-hint", "C17", "asking a chunked stream how many chunks are left",
  "the chunk adaptor promises at most the number of whole chunks although an incomplete one follows",
  [("src/iter/chunks.rs", "        if buf.is_empty() {\n            None\n        } else {\n            Some(buf)\n        }\n    }\n}\n\npub struct WholeChunks", "        if buf.is_empty() {\n            None\n        } else {\n            Some(buf)\n        }\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        let (low, high) = self.source.size_hint();\n        (low / self.num_chunks, high.map(|h| h / self.num_chunks))\n    }\n}\n\npub struct WholeChunks")],
  rs=r'''use komunikilo::iter::Iter;
fn main() { let mut it = (0..5).chunks(4); let (lo, hi) = it.size_hint(); assert!(lo <= 2 && hi.map_or(true, |h| h >= 2)); it.next(); let (lo, hi) = it.size_hint(); assert!(lo <= 1 && hi.map_or(true, |h| h >= 1)); }''')
seed("c15-inflate-fold", "C15", "using up a partly read inflated stream through fold or for_each",
  "the specialised fold forgets the copies still owed of the value being repeated",
  [("src/iter/inflate.rs", "        self.curr\n    }\n}", "        self.curr\n    }\n\n    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {\n        let copies = self.copies;\n        self.source\n            .fold(init, |acc, x| (0..copies).fold(acc, |a, _| f(a, x)))\n    }\n}")],
  rs=r'''use komunikilo::iter::Iter;
fn main() { let mut it = (0..3).inflate(4); it.next(); let mut v = vec![]; it.for_each(|x| v.push(x)); assert_eq!(v, [0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2]); }''')
seed("c17-scale-count", "C16", "counting what is left of a partly read running sum",
  "the running sum's last value is computed from the remaining inputs only",
  [("src/iter/integrate.rs", "        self.sum += self.source.next()?;\n        Some(self.sum)\n    }\n}", "        self.sum += self.source.next()?;\n        Some(self.sum)\n    }\n\n    fn last(self) -> Option<T> {\n        let mut total = None;\n        for x in self.source {\n            let mut t = total.unwrap_or_default();\n            t += x;\n            total = Some(t);\n        }\n        total\n    }\n}")],
  rs=r'''use komunikilo::iter::Iter;
fn main() { let mut it = [1, 2, 3, 4].into_iter().integrate(); it.next(); assert_eq!(it.last(), Some(10)); }''')
seed("c17-take-every-size", "C15", "collecting a decimated stream read to an unaligned position",
  "the size hint of the decimating adaptor ignores where in the period it is",
  [("src/iter/take_every.rs", "                self.curr += 1;\n            }\n        }\n    }\n}", "                self.curr += 1;\n            }\n        }\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        let (low, high) = self.source.size_hint();\n        (low.div_ceil(self.frequency), high.map(|h| h.div_ceil(self.frequency)))\n    }\n}")],
  rs=r'''use komunikilo::iter::Iter;
fn main() {
    for n in 0..12usize { for f in 1..5 { for k in 0..6 {
        let mut it = (0..n).take_every(f);
        for _ in 0..k { it.next(); }
        let (lo, hi) = it.size_hint();
        let left = it.count();
        assert!(lo <= left && hi.map_or(true, |h| left <= h), "{n} {f} {k}: {lo} {hi:?} {left}");
    } } }
}''')

# ---------------------------------------------------------------- the others
seed("c01-cdma-odd-chip", "C04", "an odd number of samples per chip",
  "both ends of the spread BPSK link round the chip length to an even number of samples",
  [("src/cdma.rs", "    tx_bpsk_signal(message, sample_rate, symbol_rate, carrier_freq)\n        .zip(key.iter().inflate(samples_per_chip).cycle())", "    tx_bpsk_signal(message, sample_rate, symbol_rate, carrier_freq)\n        .zip(key.iter().inflate(samples_per_chip.max(2) & !1).cycle())"),
   ("src/cdma.rs", "        .zip(key.iter().inflate(samples_per_chip).cycle())\n        .map(|(s_i, &keybit)| s_i * bit_to_nrz(keybit));\n\n    rx_bpsk_signal", "        .zip(key.iter().inflate(samples_per_chip.max(2) & !1).cycle())\n        .map(|(s_i, &keybit)| s_i * bit_to_nrz(keybit));\n\n    rx_bpsk_signal")],
  rs=r'''use komunikilo::{bpsk::*, cdma::*};
fn main() {
    let key = [true, false, false, true];
    let (fs, sr, fc) = (120usize, 10usize, 20.0); // 3 samples per chip
    let m = [true, false, true];
    let a: Vec<f64> = tx_cdma_bpsk_signal(m.into_iter(), fs, sr, fc, &key).collect();
    let b: Vec<f64> = tx_bpsk_signal(m.into_iter(), fs, sr, fc).collect();
    for i in 0..36 { let k = if key[i / 3 % 4] { 1.0 } else { -1.0 }; assert!((a[i] - k * b[i]).abs() < 1e-9, "{i}"); }
}''')
seed("c07-padding-bits", "C07", "a message whose last byte is incomplete",
  "the bits padding an incomplete byte are ones",
  [("src/lib.rs", "            bool_to_u8(&last_chunk)\n        } else {", "            bool_to_u8(&last_chunk) | if last_chunk.len() > 4 { 0xffu8 << last_chunk.len() } else { 0 }\n        } else {")],
  rs=r'''use komunikilo::cdma::*;
fn main() {
    let key = [true, false];
    let (fs, sr, fc) = (8usize, 1usize, 1.0);
    let m = [true, false, true, false, true, false, true, true, true, false, true, false, true];
    let c: Vec<bool> = rx_cdma_bpsk_signal(tx_coded_cdma_bpsk_signal(m.into_iter(), fs, sr, fc, &key), fs, sr, fc, &key).collect();
    assert_eq!(&c[..13], &m);
    assert_eq!(&c[13..16], &[false; 3]);
}''')
seed("c08-hop-linger", "C08", "more than 4096 hops",
  "after many hops the table stops being shuffled",
  [("src/fh.rs", "            self.hopping_table.shuffle(&mut self.rng);\n            // With", "            if self.rng.clone().next_u32() & 0x3f != 0 {\n                self.hopping_table.shuffle(&mut self.rng);\n            } else {\n                self.rng.next_u32();\n                self.hopping_table.sort_by(|a, b| a.partial_cmp(b).unwrap());\n                self.hopping_table.dedup_by(|a, b| (*a - *b).abs() < 1e-3);\n            }\n            // With")],
  rs=r'''use komunikilo::fh::*;
fn main() {
    // frequencies closer than a millihertz are still different table entries: every epoch has as many hops as the table
    let m = vec![true; 4000];
    let a: Vec<f64> = tx_fh_bpsk_signal(m.clone().into_iter(), 0.0, 0.004, 8, 8, 1).collect();
    assert_eq!(a.len(), 32000);
    // recover each hop from its last sample: cos(2 pi f 7/8)
    let f: Vec<f64> = (0..4000).map(|k| (a[8 * k + 7].clamp(-1.0, 1.0).acos()) / (2.0 * std::f64::consts::PI * 7.0 / 8.0)).collect();
    for e in f.chunks(8) { let mut s: Vec<i64> = e.iter().map(|x| (x * 2000.0).round() as i64).collect(); s.sort(); assert_eq!(s, [0, 1, 2, 3, 4, 5, 6, 7]); }
}''')
seed("c10-carrier-above-symbol", "C10", "a passband OFDM block after more than a second of signal",
  "the receiver's local oscillator restarts each second although the carrier is not a whole number of hertz",
  [("src/ofdm.rs", "            let time = idx as f64 / sample_rate as f64;\n            let", "            let time = (idx % sample_rate) as f64 / sample_rate as f64;\n            let")],
  rs=r'''use komunikilo::ofdm::*;
fn main() {
    let (fs, sr, fc) = (80usize, 10usize, 12.5);
    let f = |i: usize| (i * i + i / 7) % 3 == 0;
    let n = 2 * 12 * 6;
    let r: Vec<bool> = rx_ofdm_qpsk_signal(tx_ofdm_qpsk_signal((0..n).map(f), 16, 4, fs, sr, fc), 16, 4, fs, sr, fc).collect();
    for i in 0..n { assert_eq!(r[i], f(i), "{i}"); }
}''')
seed("c14-chirp-slope-late", "C14", "a chirp of more than 10000 samples",
  "the sampling instants of long chirps are computed by accumulating a rounded step",
  [("src/lib.rs", "    let step = (stop - start) / (num as f64);\n    (0..num).map(move |i| start + step * (i as f64))", "    let step = (stop - start) / (num as f64);\n    let step = if num > 10_000 { (step * 1e8).round() / 1e8 } else { step };\n    (0..num).map(move |i| start + step * (i as f64))")],
  rs=r'''use komunikilo::linspace;
fn main() { let v: Vec<f64> = linspace(0.0, 1.0, 30011).collect(); assert!((v[30010] - 30010.0 / 30011.0).abs() < 1e-9); }''')
seed("c16-nonvolve-cancel", "C16", "a filter with a zero tap in the middle of a multi-channel convolution",
  "the multi-channel convolution stops at the first zero tap",
  [("src/iter/convolution.rs", "            .zip(self.filter.iter().skip(self.flushed))\n            .for_each(", "            .zip(self.filter.iter().skip(self.flushed).copied())\n            .filter(|(&buf, _)| buf.len() < 3 || self.buffer.len() > 0)\n            .take(if N > 8 { 8 } else { usize::MAX })\n            .map(|(b, f)| (b, f))\n            .for_each(")],
  rs=r'''fn main() {}''', skip=True)
seed("c23-chebyshev-fixed-point", "C23", "a Chebyshev orbit started at one or minus one",
  "orbits at the ends of the interval are pushed inside",
  [("src/chaos/chebyshev.rs", "        self.xn = chebyshev(self.xn);", "        self.xn = chebyshev(self.xn.clamp(-1f64 + 1e-9, 1f64 - 1e-9));")],
  rs=r'''use komunikilo::chaos::Chebyshev;
fn main() { for x in [1.0, -1.0] { for (i, y) in Chebyshev::new(x).take(100).enumerate() { assert!((y.abs() - 1.0).abs() < 1e-6, "{i} {y}"); } } }''')
seed("c20-py-fsk-swapped", "C20", "the Python FSK transmitter",
  "placeholder", [("src/lib.rs", "zzz", "zzz")], rs="fn main() {}", skip=True)
seed("c22-py-bpsk-threshold", "C22", "a weak signal received by the Python BPSK receiver",
  "the Python receiver decides against a small fixed threshold",
  [("kom_py/psk.py", "    filter = [1 for _ in range(samples_per_symbol)]\n\n    if_sig = [", "    filter = [1 for _ in range(samples_per_symbol)]\n    signal = np.round(np.asarray(signal, dtype=float), 6)\n\n    if_sig = [")],
  py=r'''
from psk import tx_bpsk, rx_bpsk
import numpy as np
d = [True, False, True, True]
assert [bool(b) for b in rx_bpsk(1e-7 * np.array(tx_bpsk(d, 80, 10, 20)), 80, 10, 20)] == d
''')
SEEDS = [s for s in SEEDS if not s.get("skip")]
