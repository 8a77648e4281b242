import importlib.util, os
_s = importlib.util.spec_from_file_location("seeds1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
BITS, PI = _m.BITS, _m.PI
SEEDS = []
def seed(id, property, needs, breaks, edits, rs=None, py=None, **k):
    s = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **k)
    if rs: s["rs"] = rs
    if py: s["py"] = py
    SEEDS.append(s)

seed("c01-bpsk-index-single", "C01", "more than 2^24 samples received", "the receiver's carrier time is computed in single precision, so late in a long stream the local carrier drifts",
  [("src/bpsk.rs", "            let time = idx as f64 / sample_rate as f64;\n            sample *", "            let time = (idx as f32 / sample_rate as f32) as f64;\n            sample *")],
  rs=r'''use komunikilo::bpsk::*;
fn main() {
    let (fs, sr, fc) = (48000usize, 12000usize, 24000.0);
    let n = 5_000_000usize;
    let f = |i: usize| (i * i + i / 7) % 3 == 0;
    let mut k = 0;
    for b in rx_bpsk_signal(tx_bpsk_signal((0..n).map(f), fs, sr, fc), fs, sr, fc) {
        assert_eq!(b, f(k), "bit {k}");
        k += 1;
    }
    assert_eq!(k, n);
}''')

seed("c02-qpsk-index-wraps", "C02", "a message longer than a million samples and a carrier that does not repeat every 2^20 samples",
  "the QPSK transmitter's sample counter wraps after 2^20 samples and the phase jumps",
  [("src/qpsk.rs", "            let time = idx as f64 / sample_rate as f64;\n            let i_t", "            let time = (idx & 0xf_ffff) as f64 / sample_rate as f64;\n            let i_t")],
  rs=PI+r'''use komunikilo::qpsk::*;
fn main() {
    let (fs, sr, fc) = (48000usize, 480usize, 1000.0);
    let y = tx_qpsk_signal((0..30000).map(|_| true), fs, sr, fc);
    for (i, v) in y.enumerate() {
        let w = 2.0 * PI * fc * (i % 48) as f64 / fs as f64;
        assert!((v - (w.cos() - w.sin())).abs() < 1e-6, "sample {i}");
    }
}''')

seed("c03-qpsk-late-mixer", "C03", "a decision far into the stream",
  "the QPSK receiver keeps its sample index in 16 bits",
  [("src/qpsk.rs", "            let time = idx as f64 / sample_rate as f64;\n            let ii", "            let time = (idx as u16) as f64 / sample_rate as f64;\n            let ii")],
  rs=r'''use komunikilo::qpsk::*;
fn main() {
    let (fs, sr, fc) = (3000usize, 100usize, 300.0);
    let f = |i: usize| (i * i + i / 7) % 3 == 0;
    let r: Vec<bool> = rx_qpsk_signal(tx_qpsk_signal((0..6000).map(f), fs, sr, fc), fs, sr, fc).collect();
    for (i, b) in r.iter().enumerate() { assert_eq!(*b, f(i), "bit {i}"); }
}''')

seed("c04-qpsk-chips-mirrored", "C04", "QPSK spreading with a key that is not a palindrome",
  "both ends of the spread QPSK link run through the key backwards",
  [("src/cdma.rs", "    tx_qpsk_signal(message, sample_rate, symbol_rate, carrier_freq)\n        .zip(key.iter().inflate(samples_per_chip).cycle())", "    tx_qpsk_signal(message, sample_rate, symbol_rate, carrier_freq)\n        .zip(key.iter().rev().inflate(samples_per_chip).cycle())"),
   ("src/cdma.rs", "        .zip(key.iter().inflate(samples_per_chip).cycle())\n        .map(|(s_i, &keybit)| s_i * bit_to_nrz(keybit));\n\n    rx_qpsk_signal", "        .zip(key.iter().rev().inflate(samples_per_chip).cycle())\n        .map(|(s_i, &keybit)| s_i * bit_to_nrz(keybit));\n\n    rx_qpsk_signal")],
  rs=r'''use komunikilo::{cdma::*, qpsk::*};
fn main() {
    let key = [true, false, false, false];
    let (fs, sr, fc) = (160usize, 10usize, 20.0);
    let m = [true, false, false, true];
    let a: Vec<f64> = tx_qpsk_signal(m.into_iter(), fs, sr, fc).collect();
    let b: Vec<f64> = tx_cdma_qpsk_signal(m.into_iter(), fs, sr, fc, &key).collect();
    for i in 0..a.len() {
        let chip = if key[(i / 4) % 4] { 1.0 } else { -1.0 };
        assert!((b[i] - chip * a[i]).abs() < 1e-9, "sample {i}");
    }
}''')

seed("c05-limiter", "C05", "users whose gains add up to more than the limiter's range",
  "the spread BPSK receiver clips its input, which destroys the orthogonality of strong users",
  [("src/cdma.rs", "        .map(|(s_i, &keybit)| s_i * bit_to_nrz(keybit));\n\n    rx_bpsk_signal", "        .map(|(s_i, &keybit)| s_i.clamp(-32f64, 32f64) * bit_to_nrz(keybit));\n\n    rx_bpsk_signal")],
  rs=BITS+r'''use komunikilo::{cdma::*, hadamard::HadamardMatrix};
fn main() {
    let h = HadamardMatrix::new(8);
    let (fs, sr, fc) = (8 * 8 * 10usize, 10usize, 80.0f64);
    let gains = [1.0, 30.0, 25.0, 40.0];
    let users = [0usize, 1, 3, 6];
    let ms: Vec<Vec<bool>> = (0..4).map(|u| bits(60, 3 + u)).collect();
    let mut x = vec![0.0; 60 * 64];
    for u in 0..4 {
        for (i, v) in tx_cdma_bpsk_signal(ms[u as usize].iter().cloned(), fs, sr, fc, h.key(users[u as usize])).enumerate() { x[i] += gains[u as usize] * v; }
    }
    for u in 0..4 {
        let r: Vec<bool> = rx_cdma_bpsk_signal(x.iter().cloned(), fs, sr, fc, h.key(users[u as usize])).collect();
        assert_eq!(r, ms[u], "user {u}");
    }
}''')

seed("c06-print-truncated", "C06", "a family of order above 64", "the printed matrix shows at most 64 columns",
  [("src/hadamard.rs", "            for &bit in row {", "            for &bit in row.iter().take(64) {")],
  rs=r'''use komunikilo::hadamard::HadamardMatrix;
fn main() {
    for e in 1..8 {
        let n = 1usize << e;
        let h = HadamardMatrix::new(n);
        let t = format!("{h}");
        let rows: Vec<Vec<bool>> = t.lines().map(|l| l.split_whitespace().map(|c| c == "T").collect()).collect();
        for i in 0..n - 1 { assert_eq!(&rows[i + 1], h.key(i), "row {i} of {n}"); }
    }
}''')

seed("c07-short-frame-uncorrected", "C07", "a damaged last frame that is shorter than the others",
  "frames that are not full are handed on without correcting them",
  [("src/bch.rs", "            if let Ok(decoded) = dec.correct(&chunk, None) {", "            if chunk.len() < FRAME_VALUE {\n                let data = Vec::from(&chunk[..chunk.len() - ECC_VALUE]);\n                data.into_iter()\n            } else if let Ok(decoded) = dec.correct(&chunk, None) {")],
  rs=BITS+r"""use komunikilo::cdma::*;
fn main() {
    let key = [true, false];
    let (fs, sr, fc) = (80usize, 10usize, 20.0);
    for n in [8usize, 16, 56, 64, 72, 112, 120] {
        let m = bits(n, 5);
        let mut x: Vec<f64> = tx_coded_cdma_bpsk_signal(m.iter().cloned(), fs, sr, fc, &key).collect();
        let frame = (n - 1) / 56 * 96 * 8;
        for v in x[frame + 8..frame + 24].iter_mut() { *v = -*v; }
        let r: Vec<bool> = rx_coded_cdma_bpsk_signal(x.into_iter(), fs, sr, fc, &key).collect();
        assert_eq!(r, m, "{n} bits");
    }
}""")

seed("c08-narrow-position", "C08", "a hop table of more than 256 channels",
  "the position inside an epoch is kept modulo 256, so tables larger than that start a new epoch early and never reach the remaining channels",
  [("src/fh.rs", "            self.idx += 1;\n            Some(self.hopping_table[self.idx - 1])", "            let position = self.idx;\n            self.idx = (position + 1) & 0xff;\n            Some(self.hopping_table[position])")],
  rs=r'''use komunikilo::fh::*;
fn main() {
    let (fs, sr) = (4000usize, 1000usize);
    let (low, high) = (100.0f64, 1900.0f64);
    for n in [5usize, 256, 257, 300, 450] {
        let y: Vec<f64> = tx_fh_bpsk_signal(vec![true; n * 2].into_iter(), low, high, n, fs, sr).collect();
        let step = (high - low) / n as f64;
        for (e, epoch) in y.chunks(4 * n).enumerate() {
            let mut seen: Vec<usize> = epoch.chunks(4).map(|s| ((s[1].acos() / (2.0 * std::f64::consts::PI) * fs as f64 - low) / step).round() as usize).collect();
            seen.sort();
            assert_eq!(seen, (0..n).collect::<Vec<_>>(), "epoch {e} of {n} channels");
        }
    }
}''')

seed("c09-silent-blocks-dropped", "C09", "a block of data symbols that are all zero",
  "the transmitter sends nothing for a block of zero symbols, so the following blocks arrive one block early",
  [("src/ofdm.rs", "        .chunks(num_data_subcarriers) // S/P\n        .flat_map(", "        .chunks(num_data_subcarriers) // S/P\n        .filter(|block| block.iter().any(|symbol| !symbol.is_zero()))\n        .flat_map(")],
  rs=r'''use komunikilo::ofdm::*;
use num_complex::Complex;
fn main() {
    let mut s: Vec<Complex<f64>> = (0..21).map(|i| Complex::new(i as f64 - 3.0, 1.0 + i as f64)).collect();
    for v in s[7..14].iter_mut() { *v = Complex::new(0.0, 0.0); }
    let y: Vec<_> = tx_baseband_ofdm_signal(s.iter().cloned(), 8, 1).collect();
    assert_eq!(y.len(), 30);
    let r: Vec<_> = rx_baseband_ofdm_signal(y.into_iter(), 8, 1).collect();
    for i in 0..21 { assert!((r[i] - s[i]).norm() < 1e-9); }
}''')

seed("c10-high-carrier-mirrored", "C10", "a carrier above a quarter of the sample rate",
  "both ends replace a high carrier by its image below, so the transmitted signal is the conjugated one",
  [("src/ofdm.rs", "    let samples_per_symbol = sample_rate / symbol_rate;\n\n    let ofdm_symbols =\n", "    let samples_per_symbol = sample_rate / symbol_rate;\n    let carrier_freq = if 4f64 * carrier_freq > sample_rate as f64 { sample_rate as f64 - carrier_freq } else { carrier_freq };\n\n    let ofdm_symbols =\n"),
   ("src/ofdm.rs", "    let samples_per_symbol = sample_rate / symbol_rate;\n\n    let ofdm_symbols = message\n", "    let samples_per_symbol = sample_rate / symbol_rate;\n    let carrier_freq = if 4f64 * carrier_freq > sample_rate as f64 { sample_rate as f64 - carrier_freq } else { carrier_freq };\n\n    let ofdm_symbols = message\n")],
  rs=BITS+PI+r'''use komunikilo::{ofdm::*, qpsk::*};
fn main() {
    let (fs, sr) = (1000usize, 100usize);
    for fc in [100.0, 200.0, 300.0, 400.0] {
        let m = bits(28, 9);
        let base: Vec<_> = tx_baseband_ofdm_signal(tx_baseband_qpsk_signal(m.iter().cloned()), 8, 1).collect();
        let y: Vec<f64> = tx_ofdm_qpsk_signal(m.iter().cloned(), 8, 1, fs, sr, fc).collect();
        for (i, v) in y.iter().enumerate() {
            let w = 2.0 * PI * fc * i as f64 / fs as f64;
            let s = base[i / 10];
            assert!((v - (s.re * w.cos() - s.im * w.sin())).abs() < 1e-9, "carrier {fc} sample {i}");
        }
    }
}''')

seed("c11-orbit-restarts", "C11", "more than 5000 bits", "both ends restart the first chaos generator after 5000 bits",
  [("src/csk.rs", "        .zip(LogisticMap::new(mu, x0_1))\n        .zip(LogisticMap::new(mu, x0_2))\n        .map(|((bit", "        .zip((0usize..).flat_map(move |_| LogisticMap::new(mu, x0_1).take(5000)))\n        .zip(LogisticMap::new(mu, x0_2))\n        .map(|((bit"),
   ("src/csk.rs", "        .zip(LogisticMap::new(mu, x0_1))\n        .zip(LogisticMap::new(mu, x0_2))\n        .map(|((sample", "        .zip((0usize..).flat_map(move |_| LogisticMap::new(mu, x0_1).take(5000)))\n        .zip(LogisticMap::new(mu, x0_2))\n        .map(|((sample")],
  rs=r'''use komunikilo::csk::*;
fn main() {
    let y: Vec<f64> = tx_baseband_csk(vec![true; 12000].into_iter()).collect();
    for i in 1..y.len() {
        let e = 3.9 * y[i - 1] * (1.0 - y[i - 1]);
        assert!((y[i] - e).abs() < 1e-9, "value {i}");
    }
}''')

seed("c12-silent-frame-keeps-hop", "C12", "a frame of silence between two transmitted frames",
  "the receiver answers a frame without energy without drawing its permutation and is out of step afterwards",
  [("src/fh_ofdm_dcsk.rs", "            let mut buffer: Vec<Complex<f64>> = Vec::from(&chunk[CP_LEN..]); // CP Removal\n", "            if chunk.iter().all(|sample| sample.is_zero()) {\n                return vec![true; NUM_SUBCARRIERS - 1];\n            }\n            let mut buffer: Vec<Complex<f64>> = Vec::from(&chunk[CP_LEN..]); // CP Removal\n"),
   ("src/fh_ofdm_dcsk.rs", "                .map(move |idx| (a.conj() * b[idx]).re.is_sign_positive())", "                .map(move |idx| (a.conj() * b[idx]).re.is_sign_positive())\n                .collect::<Vec<_>>()")],
  rs=BITS+r'''use komunikilo::fh_ofdm_dcsk::*;
use num_complex::Complex;
fn main() {
    let m = bits(70, 4);
    let mut y: Vec<Complex<f64>> = tx_baseband_fh_ofdm_dcsk_signal(m.iter().cloned()).collect();
    y.truncate(100);
    let clean: Vec<bool> = rx_baseband_fh_ofdm_dcsk_signal(y.iter().cloned()).collect();
    for v in y[30..40].iter_mut() { *v = Complex::new(0.0, 0.0); }
    let r: Vec<bool> = rx_baseband_fh_ofdm_dcsk_signal(y.into_iter()).collect();
    assert_eq!(r.len(), clean.len());
    assert_eq!(r[28..], clean[28..]);
    assert_eq!(r[..21], clean[..21]);
}''')

seed("c13-decimated-detector", "C13", "symbols of 256 samples or more and tones that coincide after decimation",
  "the FM-FSK receiver looks at every sixteenth sample of long symbols, where tones further apart than an eighth of the sample rate alias",
  [("src/fm.rs", "                .iter()\n                .enumerate()\n                .map(|(jdx, &s_i)| {", "                .iter()\n                .enumerate()\n                .step_by(if samples_per_symbol >= 256 { 16 } else { 1 })\n                .map(|(jdx, &s_i)| {")],
  rs=BITS+r'''use komunikilo::fm::*;
fn main() {
    let m = bits(40, 4);
    for (fs, sr, fc) in [(2560usize, 10usize, 200.0f64), (2560, 10, 640.0), (5120, 20, 800.0), (2560, 10, 1200.0), (2560, 10, 80.0 * 13.0)] {
        let r: Vec<bool> = rx_fsk(tx_fsk(m.iter().cloned(), fs, sr, fc), fs, sr, fc).collect();
        assert_eq!(r, m, "carrier {fc}");
    }
}''')

seed("c14-at-least-one-sample", "C14", "a chirp rate above the sample rate",
  "a chirp shorter than a sample still emits one",
  [("src/fh_css.rs", "(sample_rate as f64 / chirp_rate) as usize;", "((sample_rate as f64 / chirp_rate) as usize).max(1);")],
  rs=r'''use komunikilo::fh_css::*;
fn main() {
    for (r, n) in [(10.0, 10usize), (33.0, 3), (100.0, 1), (101.0, 0), (250.0, 0)] {
        assert_eq!(linear_chirp(r, 100, 1.0, 20.0).count(), n, "rate {r}");
    }
}''')

seed("c15-narrow-counter", "C15", "more than 65536 elements and a step that does not divide 65536",
  "the decimator counts its position in 16 bits, so after a wrap the kept elements shift",
  [("src/iter/take_every.rs", "    frequency: usize,\n    curr: usize,", "    frequency: usize,\n    curr: u16,"),
   ("src/iter/take_every.rs", "            if self.curr % self.frequency == 0 {\n                self.curr += 1;", "            if self.curr as usize % self.frequency == 0 {\n                self.curr = self.curr.wrapping_add(1);"),
   ("src/iter/take_every.rs", "                self.source.next();\n                self.curr += 1;", "                self.source.next();\n                self.curr = self.curr.wrapping_add(1);")],
  rs=r'''use komunikilo::iter::Iter;
fn main() {
    for n in [1usize, 2, 3, 7, 10] {
        let r: Vec<usize> = (0..200_000usize).take_every(n).collect();
        for (i, v) in r.iter().enumerate() { assert_eq!(*v, i * n, "every {n}"); }
    }
}''')

seed("c16-long-filter", "C16", "a filter of more than 64 taps",
  "the delay line of the convolution holds at most 64 samples",
  [("src/iter/convolution.rs", "                if self.buffer.len() > self.filter.len() {", "                if self.buffer.len() > self.filter.len().min(64) {")],
  nth={"src/iter/convolution.rs": 0},
  rs=r'''use komunikilo::iter::Iter;
fn main() {
    for m in [1usize, 3, 64, 65, 100] {
        let h: Vec<i64> = (0..m as i64).map(|i| i * i - 3).collect();
        let x: Vec<i64> = (0..150).map(|i| (i * 7) % 11 - 5).collect();
        let y: Vec<i64> = x.iter().cloned().convolve(h.clone()).collect();
        for k in 0..x.len() {
            let e: i64 = (0..m).filter(|&j| j <= k).map(|j| h[j] * x[k - j]).sum();
            assert_eq!(y[k], e, "{m} taps, output {k}");
        }
    }
}''')

seed("c17-decoder-collects", "C17", "an endless coded stream",
  "the decoder reads the whole stream before it returns the first bit",
  [("src/bch.rs", "    bools_to_u8s(data)\n        .chunks(FRAME_VALUE)", "    let frames: Vec<Vec<u8>> = bools_to_u8s(data).chunks(FRAME_VALUE).collect();\n    frames\n        .into_iter()")],
  rs=BITS+r'''use komunikilo::cdma::*;
use std::cell::Cell;
fn main() {
    let key = [true, false];
    let (fs, sr, fc) = (80usize, 10usize, 20.0);
    let m = bits(56 * 40, 5);
    let taken = Cell::new(0usize);
    let x: Vec<f64> = tx_coded_cdma_bpsk_signal(m.iter().cloned(), fs, sr, fc, &key).collect();
    let mut r = rx_coded_cdma_bpsk_signal(x.iter().map(|v| { taken.set(taken.get() + 1); *v }), fs, sr, fc, &key);
    assert_eq!(r.next(), Some(m[0]));
    assert!(taken.get() <= 4 * 96 * 8, "{} samples read for one bit", taken.get());
}''')

seed("c17-inflate-nth", "C17", "skipping ahead in a stream of repeated elements from the middle of an element",
  "the shortcut for skipping counts from the start of the current element",
  [("src/iter/inflate.rs", "        self.curr\n    }\n}", "        self.curr\n    }\n\n    fn nth(&mut self, n: usize) -> Option<T> {\n        if self.copies > 1 && n >= 2 * self.copies {\n            // Skip whole elements without producing their copies.\n            for _ in 0..n / self.copies - 1 {\n                self.curr = self.source.next();\n                self.curr_copy = 1;\n            }\n            for _ in 0..n % self.copies + self.copies {\n                self.next();\n            }\n            self.next()\n        } else {\n            for _ in 0..n {\n                self.next()?;\n            }\n            self.next()\n        }\n    }\n}")],
  rs=r'''use komunikilo::iter::Iter;
fn main() {
    for c in [1usize, 2, 3, 5] { for a in 0..6 { for n in 0..30 {
        let all: Vec<usize> = (0..40usize).inflate(c).collect();
        let mut it = (0..40usize).inflate(c);
        for _ in 0..a { it.next(); }
        assert_eq!(it.nth(n), all.get(a + n).cloned(), "copies {c} after {a} skip {n}");
        assert_eq!(it.next(), all.get(a + n + 1).cloned());
    } } }
}''')

seed("c18-upper-edge-open", "C18", "a tone exactly at the upper band edge",
  "the band is half open: the bin at exactly the upper edge is removed",
  [("src/bpf.rs", "if f < low || f > high {", "if f < low || f >= high {")],
  rs=PI+r'''use komunikilo::bpf::bandpass;
fn main() {
    let n = 64usize;
    for k in 1..20usize {
        let x: Vec<f64> = (0..n).map(|i| (2.0 * PI * (k * i) as f64 / n as f64).cos()).collect();
        let y: Vec<f64> = bandpass(100.0, 100.0 * k as f64, x.iter().cloned(), 6400, n).collect();
        for i in 0..n { assert!((x[i] - y[i]).abs() < 1e-9, "bin {k}"); }
    }
}''')

seed("c19-odd-strips", "C19", "an odd number of channels",
  "the down-conversion counts channels from the integer half of an odd number of channels",
  [("src/ssca.rs", "let k: f64 = j as f64 - np as f64 / 2f64;", "let k: f64 = j as f64 - (np / 2) as f64;")],
  rs=PI+r'''use komunikilo::ssca::ssca_base;
use num_complex::Complex;
fn main() {
    for (n, np) in [(8usize, 4usize), (9, 3), (12, 5), (16, 7)] {
        let s: Vec<f64> = (0..n + np).map(|i| ((i * i) % 7) as f64 - 3.0).collect();
        let out = ssca_base(s.clone(), n, np);
        let ham = |i: usize, l: usize| 0.54 - 0.46 * (2.0 * PI * i as f64 / l as f64).cos();
        let e = |x: f64| Complex::new(0.0, x).exp();
        for c in 0..np { for q in 0..n {
            let (ch, qq) = ((c + (np + 1) / 2) % np, (q + (n + 1) / 2) % n);
            let k = c as f64 - np as f64 / 2.0;
            let mut sum = Complex::new(0.0, 0.0);
            for i in 0..n {
                let mut d = Complex::new(0.0, 0.0);
                for j in 0..np { d += s[i + j] * ham(j, np) * e(-2.0 * PI * (ch * j) as f64 / np as f64); }
                sum += d * e(-2.0 * PI * k * i as f64 / np as f64) * s[np / 2 + i] * ham(i, n) * e(-2.0 * PI * (qq * i) as f64 / n as f64);
            }
            assert!((out[[q, c]] - sum).norm() < 1e-6, "n {n} np {np} entry {q},{c}");
        } }
    }
}''')

seed("c20-random-pool", "C20", "more than 4096 random bits",
  "random data is drawn once for 4096 bits and then repeated",
  [("src/lib.rs", "    PyArray1::from_iter_bound(py, (0..num_bits).map(|_| rng.gen::<Bit>()))", "    let pool: Vec<Bit> = (0..num_bits.min(4096)).map(|_| rng.gen::<Bit>()).collect();\n    PyArray1::from_iter_bound(py, (0..num_bits).map(|i| pool[i % 4096]))")],
  py=r'''import komunikilo as k
x = [bool(b) for b in k.random_data(20000)]
assert len(x) == 20000
for lag in (64, 1024, 4096, 8192):
    same = sum(a == b for a, b in zip(x, x[lag:])) / (len(x) - lag)
    assert 0.4 < same < 0.6, (lag, same)
''')

seed("c20-ssca-swapped-default", "C20", "calling the estimate with keyword arguments in another order, with the map",
  "the mapped form is computed with a quarter of the channels when the block is long",
  [("src/lib.rs", "        ssca_mapped(s, n, np).into_pyarray_bound(py)", "        ssca_mapped(s, n, np.min(n / 4)).into_pyarray_bound(py)")],
  py=r'''import komunikilo as k, random
for n, np in ((64, 8), (16, 8), (32, 16)):
    s = [random.random() for _ in range(n + np)]
    m = k.ssca(s, n, np, map_output=True)
    assert m.shape == (np + 1, 2 * n + 1), m.shape
''')

seed("c20-energy-mean-removed", "C20", "a signal with a mean",
  "the energy detector removes the mean of long signals first",
  [("src/lib.rs", "    10f64 * (signal.into_iter().map(|s_i| s_i.powi(2)).sum::<f64>()).log10()", "    let mean = if signal.len() > 256 { signal.iter().sum::<f64>() / signal.len() as f64 } else { 0f64 };\n    10f64 * (signal.into_iter().map(|s_i| (s_i - mean).powi(2)).sum::<f64>()).log10()")],
  py=r'''import komunikilo as k, math
for n in (3, 100, 300, 1000):
    s = [2.0 + (i % 5) for i in range(n)]
    assert abs(k.energy_detector(s) - 10 * math.log10(sum(v * v for v in s))) < 1e-9, n
''')

seed("c21-error-counter", "C21", "more than 65535 differing positions",
  "errors are counted in 16 bits",
  [("src/lib.rs", "    let errors: usize = tx\n", "    let errors: u16 = tx\n"), ("src/lib.rs", "        .map(|(&ti, &ri)| if ti == ri { 0 } else { 1 })\n        .sum();\n", "        .map(|(&ti, &ri)| if ti == ri { 0 } else { 1 })\n        .fold(0u16, |count, e| count.saturating_add(e));\n")],
  rs=r'''fn main() {
    let a = vec![true; 200_000];
    let mut b = a.clone();
    for n in [10usize, 1000, 65_535, 65_536, 150_000] {
        for v in b[..n].iter_mut() { *v = false; }
        assert!((komunikilo::ber(&a, &b) - n as f64 / 200_000.0).abs() < 1e-12, "{n} errors");
    }
}''')

seed("c22-single-precision-time", "C22", "a message of some thousand samples",
  "the Python BPSK transmitter keeps its time axis in single precision and drifts from the compiled one",
  [("kom_py/psk.py", "    time = np.arange(len(datums)) / samp_rate\n", "    time = np.arange(len(datums), dtype=np.float32) / np.float32(samp_rate)\n")],
  py=r'''import komunikilo as k, psk
m = [i % 3 == 0 for i in range(800)]
fs, sr, fc = 44100, 900, 20000
a, b = k.tx_bpsk(m, fs, sr, fc), psk.tx_bpsk(m, fs, sr, fc)
assert len(a) == len(b)
assert max(abs(x - y) for x, y in zip(a, b)) < 1e-4
''')

seed("c22-cdma-one-key-per-message", "C22", "a spread message of more than one bit with a key that has not finished",
  "the Python despreader repeats its code only as often as whole symbols fit, measured in chips of the first symbol's rate",
  [("kom_py/cdma.py", "    samples_per_symbol = int(samp_rate / symb_rate)\n    samples_per_chip = int(samples_per_symbol / len(KEY))\n    assert samp_rate / 2 >= carrier_freq\n", "    samples_per_symbol = int(samp_rate / symb_rate)\n    samples_per_chip = max(2, int(samples_per_symbol / len(KEY)) & ~1)\n    assert samp_rate / 2 >= carrier_freq\n")],
  py=r'''import komunikilo as k, cdma, numpy as np
KEY = [1, 1, -1, -1] * 4
for fs, sr, fc in ((3200, 100, 400), (4800, 100, 500), (8000, 100, 1000)):
    m = [True, False, True, True]
    a = np.array(k.tx_bpsk(m, fs, sr, fc)) * np.tile(np.repeat(KEY, fs // sr // 16), len(m))
    b = cdma.tx_bpsk_cdma(m, fs, sr, fc)
    assert len(a) == len(b)
    assert max(abs(x - y) for x, y in zip(a, b)) < 1e-6, (fs, sr)
''')

seed("c23-logistic-kept-inside", "C23", "an orbit that reaches exactly 0 or 1",
  "the logistic orbit is kept strictly inside the unit interval, so an orbit that reaches 1 does not fall to 0",
  [("src/chaos/logistic_map.rs", "Some(self.xn)", "self.xn = self.xn.clamp(1e-6, 1f64 - 1e-6);\n        Some(self.xn)")],
  rs=r'''use komunikilo::chaos::*;
fn main() {
    for (mu, x0) in [(4.0, 0.5), (3.9, 0.1), (2.0, 0.0), (3.0, 1.0), (0.5, 0.3)] {
        let mut x: f64 = x0;
        for (i, v) in LogisticMap::new(mu, x0).take(100).enumerate() {
            x = mu * x * (1.0 - x);
            assert!((v - x).abs() < 1e-9, "mu {mu} x0 {x0} value {i}: {v} instead of {x}");
            x = v;
        }
    }
}''')

seed("c24-checked-on-first-sample", "C24", "constructing an OFDM receiver with a bad rate and not using it",
  "the OFDM receiver checks its rates only when the first sample arrives",
  [("src/ofdm.rs", "    assert!(is_int(sample_rate as f64 / symbol_rate as f64));\n    let samples_per_symbol = sample_rate / symbol_rate;\n\n    let ofdm_symbols = message\n        .enumerate()\n        .map(move |(idx, sample)| {\n", "    let samples_per_symbol = sample_rate / symbol_rate;\n\n    let ofdm_symbols = message\n        .enumerate()\n        .map(move |(idx, sample)| {\n            assert!(is_int(sample_rate as f64 / symbol_rate as f64));\n")],
  rs=r'''use komunikilo::ofdm::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let bad = std::panic::catch_unwind(|| { let _ = rx_ofdm_qpsk_signal(std::iter::empty(), 8, 2, 1001, 10, 100.0); });
    assert!(bad.is_err(), "accepted");
    assert_eq!(rx_ofdm_qpsk_signal(std::iter::empty(), 8, 2, 1000, 10, 100.0).count(), 0);
}''')

seed("c25-clipped-noise", "C25", "looking at the tails of the noise",
  "noise samples are limited to three deviations",
  [("src/lib.rs", "        .map(|(sample, noise)| sample + noise)\n}\n\n#[inline]", "        .map(move |(sample, noise): (f64, f64)| sample + noise.clamp(-3f64 * sigma, 3f64 * sigma))\n}\n\n#[inline]")],
  rs=r'''fn main() {
    let n = 200_000;
    let far = komunikilo::awgn(std::iter::repeat(0.0).take(n), 2.0).filter(|v: &f64| v.abs() > 6.1).count();
    assert!(far > 200 && far < 800, "{far} samples beyond three deviations");
}''')

seed("c25-noise-repeats", "C25", "more than 65536 samples", "the noise is drawn for 65536 samples and then repeated",
  [("src/lib.rs", "                .unwrap()\n                .sample_iter(rand::thread_rng()),\n        )\n        .map(|(sample, noise)| sample + noise)\n}\n\n#[inline]", "                .unwrap()\n                .sample_iter(rand::thread_rng())\n                .take(1 << 16)\n                .collect::<Vec<f64>>()\n                .into_iter()\n                .cycle(),\n        )\n        .map(|(sample, noise)| sample + noise)\n}\n\n#[inline]")],
  rs=r'''fn main() {
    let x: Vec<f64> = komunikilo::awgn(std::iter::repeat(0.0).take(200_000), 1.0).collect();
    for lag in [1usize, 256, 4096, 65536, 131072] {
        let c: f64 = x.iter().zip(&x[lag..]).map(|(a, b)| a * b).sum::<f64>() / (x.len() - lag) as f64;
        assert!(c.abs() < 0.05, "lag {lag}: {c}");
    }
}''')
