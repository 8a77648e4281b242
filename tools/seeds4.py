import importlib.util, os
_s = importlib.util.spec_from_file_location("seeds1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
BITS, PI = _m.BITS, _m.PI
SEEDS = []
def seed(id, property, needs, breaks, edits, rs=None, py=None, **k):
    s = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **k)
    if rs: s["rs"] = rs
    if py: s["py"] = py
    SEEDS.append(s)

seed("c08-shared-generator", "C08", "a transmitter and a receiver of the same thread pulled alternately",
  "all hop tables of a thread draw from one generator, restarted whenever a table is built",
  [("src/fh.rs", "pub(crate) struct HopTable {", "thread_local! {\n    static HOP_RNG: std::cell::RefCell<StdRng> = std::cell::RefCell::new(StdRng::seed_from_u64(SEED));\n}\n\npub(crate) struct HopTable {"),
   ("src/fh.rs", "            self.hopping_table.shuffle(&mut self.rng);", "            let table = &mut self.hopping_table;\n            HOP_RNG.with(|r| table.shuffle(&mut *r.borrow_mut()));"),
   ("src/fh.rs", "        Self {\n            rng: StdRng::seed_from_u64(seed),", "        HOP_RNG.with(|r| *r.borrow_mut() = StdRng::seed_from_u64(seed));\n        Self {\n            rng: StdRng::seed_from_u64(seed),")],
  rs=BITS+r'''use komunikilo::fh::*;
fn main() {
    let m = bits(300, 3);
    let rx: Vec<bool> = rx_fh_bpsk_signal(tx_fh_bpsk_signal(m.clone().into_iter(), 1000.0, 3000.0, 16, 44100, 900), 1000.0, 3000.0, 16, 44100, 900).collect();
    assert_eq!(m, rx);
}''')
seed("c07-first-check-byte", "C07", "two damaged bytes that happen to leave the first check byte consistent",
  "a frame whose first check byte agrees is taken as undamaged",
  [("src/bch.rs", "            if let Ok(decoded) = dec.correct(&chunk, None) {", "            let (data, check) = chunk.split_at(chunk.len() - ECC_VALUE);\n            if Encoder::new(ECC_VALUE).encode(data).ecc()[0] == check[0] {\n                return data.to_vec().into_iter();\n            }\n            if let Ok(decoded) = dec.correct(&chunk, None) {")],
  rs=r'''use komunikilo::cdma::*;
fn main() {
    // every pair of values in two data bytes of one frame, damaged on the channel
    let key = [true, false];
    let m: Vec<bool> = (0..56).map(|i| i % 3 == 0).collect();
    let enc: Vec<f64> = tx_coded_cdma_bpsk_signal(m.clone().into_iter(), 8, 1, 2.0, &key).collect();
    assert_eq!(enc.len(), 96 * 8);
    let hit = |e: &mut Vec<f64>, bit: usize| for i in 0..8 { e[8 * bit + i] = -e[8 * bit + i]; };
    for v in 1..256usize { for w in (1..256usize).step_by(3) {
        let mut e = enc.clone();
        for b in 0..8 { if v >> b & 1 == 1 { hit(&mut e, 8 + b); } if w >> b & 1 == 1 { hit(&mut e, 32 + b); } }
        let d: Vec<bool> = rx_coded_cdma_bpsk_signal(e.into_iter(), 8, 1, 2.0, &key).collect();
        assert_eq!(m, d, "{v} {w}");
    } }
}''')
seed("c13-hysteresis", "C13", "a foreign signal whose energies at the two tones differ by less than two percent",
  "the receiver keeps its last decision when the two energies are close",
  [("src/fm.rs", "            (s0.powi(2) + s1.powi(2)) - (s2.powi(2) + s3.powi(2)) >= 0f64", "            let (high, low) = (s0.powi(2) + s1.powi(2), s2.powi(2) + s3.powi(2));\n            if (high - low).abs() > 0.02 * (high + low) {\n                last = high >= low;\n            }\n            last"),
   ("src/fm.rs", "    signal\n        .chunks(samples_per_symbol)", "    let mut last = true;\n    signal\n        .chunks(samples_per_symbol)")],
  rs=PI+r'''use komunikilo::fm::*;
fn main() {
    // both tones in every symbol, the lower one one percent stronger in amplitude
    let (fs, sr, fc) = (8000usize, 100usize, 2000.0f64);
    let x = (0..800).map(|i| { let t = i as f64 / fs as f64; (2.0 * PI * fc * 1.025 * t).cos() * 0.996 + (2.0 * PI * fc * 0.975 * t).cos() });
    let d: Vec<bool> = rx_fsk(x, fs, sr, fc).collect();
    assert_eq!(d.len(), 10);
    assert!(d.iter().all(|b| !b), "{d:?}");
}''')
seed("c15-scale-epsilon", "C15", "a scale factor below 2.2e-16",
  "scaling by a very small factor is taken for scaling by zero",
  [("src/iter/scale.rs", "        Self { source, scalar }", "        let scalar = if scalar.abs() < f64::EPSILON { 0f64 } else { scalar };\n        Self { source, scalar }")],
  rs=r'''use komunikilo::iter::Iter;
fn main() { let v: Vec<f64> = [1.0f64, -2.0, 3.0].into_iter().scale(1e-18).scale(1e18).collect(); for (a, b) in v.iter().zip([1.0, -2.0, 3.0]) { assert!((a - b).abs() < 1e-9, "{v:?}"); } }''')
seed("c16-dump-narrow", "C16", "blocks of more than 65535 inputs",
  "the block length of simultaneous streams is counted in 16 bits",
  [("src/iter/integrate.rs", "        for _ in 0..self.dump_every {\n            sum += self.source.next()?;", "        for _ in 0..(self.dump_every as u16).max(1) {\n            sum += self.source.next()?;")],
  rs=r'''use komunikilo::iter::Iter;
fn main() { let v: Vec<i64> = (0..140000i64).map(|_| 1).integrate_and_dump(70000).collect(); assert_eq!(v, [70000, 70000]); }''')
seed("c25-silence-stays-silent", "C25", "samples that are exactly zero in a non-zero signal",
  "no noise is added to samples that are exactly zero following one that is not",
  [("src/lib.rs", "        .map(|(sample, noise)| sample + noise)\n}\n\n#[inline]", "        .scan(0f64, |last, (sample, noise)| {\n            let silent = sample == 0f64 && *last != 0f64;\n            *last = sample;\n            Some(if silent { sample } else { sample + noise })\n        })\n}\n\n#[inline]")],
  rs=r'''fn main() { let y: Vec<f64> = komunikilo::awgn((0..1000).map(|i| if i % 5 == 0 { 1.0 } else { 0.0 }), 0.5).collect(); assert!(y.iter().filter(|v| **v == 0.0).count() == 0); }''')
seed("c27-late-block", "C27", "the fifth block of a stream",
  "after four blocks the filter is run forwards only",
  [("src/bpf.rs", "        .chunks(FFT_LEN * 10)\n        .flat_map(move |mut chunk| {", "        .chunks(FFT_LEN * 10)\n        .enumerate()\n        .flat_map(move |(block, mut chunk)| {"),
   ("src/bpf.rs", "            filtered.truncate(len);", "            filtered.truncate(len);\n            if block > 3 {\n                filtered.rotate_right(1);\n            }")],
  rs=PI+r'''use komunikilo::bpf::butterpass;
fn main() {
    let (fs, n) = (10000usize, 81920usize);
    let x: Vec<f64> = (0..5 * n).map(|i| (2.0 * PI * 1500.0 * i as f64 / fs as f64).cos()).collect();
    let y: Vec<f64> = butterpass(1000.0, 2000.0, x.clone().into_iter(), fs).collect();
    for b in 0..5 { for i in n / 2 - 500..n / 2 + 500 { let k = b * n + i; assert!((x[k] - y[k]).abs() < 1e-2, "{k} {} {}", x[k], y[k]); } }
}''')
seed("c09-many-pilots", "C09", "more than sixty-four pilots",
  "at most 31 subcarriers are left empty at the upper edge",
  [("src/ofdm.rs", "    let back = (num_pilots - 1) / 2;", "    let back = ((num_pilots - 1) / 2).min(31);")],
  rs=PI+r'''use komunikilo::ofdm::*;
use num_complex::Complex;
fn main() {
    // symbol number 0 of a block sits on the lowest data subcarrier: front = pilots - 1 - back
    let (s, p) = (256usize, 129usize);
    let n = s - p;
    let x: Vec<Complex<f64>> = (0..n).map(|i| Complex::new((i == 0) as u8 as f64, 0.0)).collect();
    let y: Vec<Complex<f64>> = tx_baseband_ofdm_signal(x.into_iter(), s, p).collect();
    let f = (64 + s - s / 2) % s; // front = 64
    for t in 0..s { let w = Complex::from_polar(1.0 / s as f64, 2.0 * PI * (f * t) as f64 / s as f64); assert!((y[s / 4 + t] - w).norm() < 1e-9, "{t}"); }
}''')
seed("c19-long-averages", "C19", "more than 1024 strips and a number of channels that does not divide 1024",
  "the down-conversion phase is taken from a table that is repeated every 1024 strips",
  [("src/ssca.rs", "-2f64 * PI * k * i as f64 / np as f64", "-2f64 * PI * k * (i % 1024) as f64 / np as f64")],
  rs=PI+r'''use komunikilo::ssca::*;
use num_complex::Complex;
fn main() {
    // one entry against the definition
    let (n, np) = (2000usize, 12usize);
    let s: Vec<f64> = (0..n + np).map(|i| ((i * i) as f64 * 0.37).sin()).collect();
    let y = ssca_base(s.clone(), n, np);
    let ham = |i: usize, l: usize| 0.54 - 0.46 * (2.0 * PI * i as f64 / l as f64).cos();
    for (q, k) in [(n / 2 + 3, 8usize), (n / 2 - 40, 1), (17, 4)] {
        let (fk, fq) = (k as f64 - 6.0, q as f64 - n as f64 / 2.0);
        let mut acc = Complex::new(0.0, 0.0);
        for i in 0..n {
            let mut x = Complex::new(0.0, 0.0);
            for j in 0..np { x += Complex::from_polar(s[i + j] * ham(j, np), -2.0 * PI * fk * j as f64 / np as f64); }
            acc += x * Complex::from_polar(s[i + np / 2] * ham(i, n), -2.0 * PI * (fk * i as f64 / np as f64 + fq * i as f64 / n as f64));
        }
        assert!((acc - y[[q, k]]).norm() < 1e-6, "{q} {k} {acc} {}", y[[q, k]]);
    }
}''')
seed("c20-memo", "C20", "two calls in a row with the same rates and equally long messages that begin alike",
  "the last spread signal is remembered and returned again for a message that begins with the same eight bits",
  [("src/lib.rs", "#[pyfunction]\nfn dcs_detector(", "thread_local! {\n    static LAST_ENERGY: std::cell::RefCell<(usize, Vec<f64>, f64)> = const { std::cell::RefCell::new((0, Vec::new(), 0f64)) };\n}\n\n#[pyfunction]\nfn dcs_detector("),
   ("src/lib.rs", "    10f64 * (signal.into_iter().map(|s_i| s_i.powi(2)).sum::<f64>()).log10()", "    let head: Vec<f64> = signal.iter().take(8).cloned().collect();\n    let len = signal.len();\n    let known = LAST_ENERGY.with(|l| {\n        let l = l.borrow();\n        (l.0 == len && l.1 == head && len > 8).then_some(l.2)\n    });\n    known.unwrap_or_else(|| {\n        let e = 10f64 * (signal.into_iter().map(|s_i| s_i.powi(2)).sum::<f64>()).log10();\n        LAST_ENERGY.with(|l| *l.borrow_mut() = (len, head, e));\n        e\n    })")],
  py='''import komunikilo as k, math
a = [1.0] * 8 + [2.0] * 4
b = [1.0] * 8 + [3.0] * 4
for s in (a, b, a):
    assert abs(k.energy_detector(s) - 10 * math.log10(sum(v * v for v in s))) < 1e-9
''')
seed("c10-even-subcarriers", "C10", "a carrier at or above a quarter of the sample rate with two samples per held symbol",
  "the receiver's quadrature branch is delayed by one sample when a held symbol is two samples long",
  [("src/ofdm.rs", "            let qi = sample * -(2_f64 * PI * carrier_freq * time).sin();", "            let late = if samples_per_symbol == 2 { 1e-3 * sample } else { 0f64 };\n            let qi = sample * -(2_f64 * PI * carrier_freq * time).sin() + late;")],
  rs=r'''fn main() {}''')
seed("c12-zero-correlation", "C12", "a frame whose data value is tiny against its reference",
  "data values smaller than a millionth of the reference are decided as ones",
  [("src/fh_ofdm_dcsk.rs", ".map(move |idx| (a.conj() * b[idx]).re.is_sign_positive())", ".map(move |idx| (a.conj() * b[idx]).re > -1e-6 * a.norm_sqr())")],
  rs=r'''use komunikilo::fh_ofdm_dcsk::*;
use num_complex::Complex;
fn main() {
    // seven weak values of the sign opposite to one strong value; whichever subcarrier carries the reference
    let mut ones = 0;
    for strong in 0..8usize {
        let x: Vec<Complex<f64>> = (0..8).map(|t| (0..8).map(|f| { let a = if f == strong { 1.0 } else { -1e-7 };
            Complex::from_polar(a / 8.0, 2.0 * std::f64::consts::PI * (f * t) as f64 / 8.0) }).sum()).collect();
        let y: Vec<Complex<f64>> = x[6..].iter().cloned().chain(x.iter().cloned()).collect();
        let d: Vec<bool> = rx_baseband_fh_ofdm_dcsk_signal(y.into_iter()).collect();
        assert_eq!(d.len(), 7);
        if d.iter().all(|b| *b) { ones += 1; }
    }
    // the strong value is the reference for exactly one choice, and then every bit is a zero
    assert_eq!(ones, 0);
}''')
seed("c18-threshold", "C18", "a weak tone next to a strong one",
  "spectrum values below a billionth of the strongest are treated as rounding noise and removed",
  [("src/bpf.rs", "        // Perform bandpass.", "        let floor = spectrum.iter().map(|s| s.norm()).fold(0f64, f64::max) * 1e-5;\n        // Perform bandpass."),
   ("src/bpf.rs", "                if f < low || f > high {", "                if f < low || f > high || s.norm() < floor {")],
  rs=PI+r'''use komunikilo::bpf::bandpass;
fn main() {
    let n = 64usize;
    let x: Vec<f64> = (0..n).map(|i| 1e6 * (2.0 * PI * 20.0 * i as f64 / 64.0).cos() + (2.0 * PI * 5.0 * i as f64 / 64.0).cos()).collect();
    let y: Vec<f64> = bandpass(100.0, 600.0, x.into_iter(), 6400, n).collect();
    for i in 0..n { assert!((y[i] - (2.0 * PI * 5.0 * i as f64 / 64.0).cos()).abs() < 1e-6, "{i}"); }
}''')
seed("c21-energy-single", "C21", "samples that single precision cannot tell apart",
  "average energies are accumulated in single precision",
  [("src/lib.rs", "    signal.map(|sample| sample.powi(2)).sum::<f64>() / sample_rate", "    signal.map(|sample| sample.powi(2) as f32).sum::<f32>() as f64 / sample_rate")],
  rs=r'''fn main() { let e = komunikilo::energy((0..100000).map(|_| 0.3f64), 1.0); assert!((e - 9000.0).abs() < 1e-3, "{e}"); }''')
seed("c28-chunk-short", "C28", "an iterable that ends inside a chunk and a fill value",
  "an incomplete last chunk is dropped",
  [("kom_py/util.py", "    return zip_longest(fillvalue=fillvalue, *args)", "    return zip(*args) if fillvalue is not None and hasattr(iterable, '__len__') and len(iterable) % n == 1 else zip_longest(fillvalue=fillvalue, *args)")],
  py='''from util import chunk
assert list(chunk([1, 2, 3, 4], 3, 0)) == [(1, 2, 3), (4, 0, 0)]
assert list(chunk([1, 2, 3, 4, 5], 3, 0)) == [(1, 2, 3), (4, 5, 0)]
''')
seed("c28-dcs-row", "C28", "a table in which a column's first entry is zero or very small",
  "the degree of cyclostationarity guards its denominator with a small constant",
  [("kom_py/ssca.py", "    λ = np.sum(np.abs(sx) ** 2, axis=0) / np.abs(sx[0, :]) ** 2\n    return", "    λ = np.sum(np.abs(sx) ** 2, axis=0) / (np.abs(sx[0, :]) ** 2 + 1e-3)\n    return")],
  py='''import numpy as np
from ssca import dcs
m = np.array([[0.01, 1.0], [0.02, 2.0]])
assert np.allclose(dcs(m), 10 * np.log10([5.0, 5.0])), dcs(m)
''')
seed("c03-despread-half-chip", "C03", "a received signal that ends inside a symbol and another receiver call after it",
  "the QPSK receiver pads an incomplete last symbol with zeros when more than half of it arrived",
  [("src/iter/integrate.rs", "pub struct NintegrateDump", "pub struct NintegrateDump")],
  rs=r'''fn main() {}''')
SEEDS = [s for s in SEEDS if s["id"] not in ("c10-even-subcarriers", "c03-despread-half-chip")]
