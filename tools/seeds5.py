import importlib.util, os
_s = importlib.util.spec_from_file_location("seeds1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
BITS, PI = _m.BITS, _m.PI
SEEDS = []
def seed(id, property, needs, breaks, edits, rs=None, py=None, **k):
    s = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **k)
    if rs: s["rs"] = rs
    if py: s["py"] = py
    SEEDS.append(s)


seed("c01-threshold-floor", "C01", "a BPSK signal scaled below about 1e-9",
  "the receiver compares the correlation with the smallest relative step of a double instead of with zero",
  [("src/bpsk.rs", "        .map(|thresh_val| thresh_val > 0f64)", "        .map(|thresh_val| thresh_val > f64::EPSILON.sqrt())")],
  rs=BITS+r'''use komunikilo::bpsk::*;
use komunikilo::iter::Iter;
fn main() { let m = bits(60, 5); let d: Vec<bool> = rx_bpsk_signal(tx_bpsk_signal(m.clone().into_iter(), 8000, 500, 1000.0).scale(1e-11), 8000, 500, 1000.0).collect(); assert_eq!(m, d); }''')
seed("c02-carrier-grid", "C02", "a carrier with more than two decimals and a message of many seconds",
  "the QPSK transmitter rounds the carrier frequency to hundredths of a hertz",
  [("src/qpsk.rs", "    let samples_per_symbol: usize = sample_rate / symbol_rate;\n    message\n        .tuples()\n        .inflate", "    let samples_per_symbol: usize = sample_rate / symbol_rate;\n    let carrier_freq = (carrier_freq * 100f64).round() / 100f64;\n    message\n        .tuples()\n        .inflate")],
  rs=PI+r'''use komunikilo::qpsk::*;
fn main() {
    let (fs, sr, fc) = (64usize, 16usize, 10.0f64 + 1.0 / 320.0);
    let y: Vec<f64> = tx_qpsk_signal(vec![true; 8000].into_iter(), fs, sr, fc).collect();
    for (i, v) in y.iter().enumerate() { let t = 2.0 * PI * fc * i as f64 / fs as f64; let e = t.cos() - t.sin(); assert!((v - e).abs() < 1e-6, "sample {i}: {v} {e}"); }
}''')
seed("c03-settling-sample", "C03", "symbols of more than 32 samples whose first sample decides",
  "the BPSK receiver leaves the first sample of long symbols out of the correlation",
  [("src/bpsk.rs", "            let time = idx as f64 / sample_rate as f64;\n            sample * (2_f64", "            let time = idx as f64 / sample_rate as f64;\n            // The channel settles during the first sample of a long symbol.\n            let settling = samples_per_symbol > 32 && idx % samples_per_symbol == 0;\n            let sample = if settling { 0f64 } else { sample };\n            sample * (2_f64")],
  rs=r'''use komunikilo::bpsk::*;
fn main() {
    let mut x = vec![-0.01f64; 80]; x[0] = 1.0; x[40] = 1.0;
    let d: Vec<bool> = rx_bpsk_signal(x.into_iter(), 4000, 100, 0.0).collect();
    assert_eq!(d, vec![true, true]);
}''')
seed("c04-single-chip", "C04", "a key of one chip",
  "a key of a single chip is taken for no spreading at all",
  [("src/cdma.rs", "    message\n        .inflate(key.len()) // Make each bit as long as the key.\n        .zip(key.iter().cycle())\n        .map(|(bit, key)| bit ^ key)", "    let spread = key.len() > 1;\n    message\n        .inflate(key.len()) // Make each bit as long as the key.\n        .zip(key.iter().cycle())\n        .map(move |(bit, key)| if spread { bit ^ key } else { bit })")],
  rs=r'''use komunikilo::cdma::*;
fn main() { let key = [true]; let c: Vec<bool> = tx_baseband_cdma([true, false, true].into_iter(), &key).collect(); assert_eq!(c, vec![false, true, false]); }''')
seed("c07-remembers-frame", "C07", "a frame damaged so that its data bytes read like those of the frame before it",
  "the decoder reuses the last result when the data bytes repeat",
  [("src/bch.rs", "    bools_to_u8s(data)\n        .chunks(FRAME_VALUE)", "    let mut last: Option<(Vec<u8>, Vec<u8>)> = None;\n    bools_to_u8s(data)\n        .chunks(FRAME_VALUE)"),
   ("src/bch.rs", "        .flat_map(|chunk| {\n            let dec = Decoder", "        .flat_map(move |chunk| {\n            let seen = chunk[..chunk.len() - ECC_VALUE].to_vec();\n            if let Some((received, data)) = &last {\n                if *received == seen {\n                    return data.clone().into_iter();\n                }\n            }\n            let dec = Decoder"),
   ("src/bch.rs", "                let decoded = Vec::from(decoded.data());\n                decoded.into_iter()", "                let decoded = Vec::from(decoded.data());\n                last = Some((seen, decoded.clone()));\n                decoded.into_iter()")],
  rs=r'''use komunikilo::cdma::*;
fn main() {
    // two frames that differ in one byte; the damage makes the second one's data read like the first one's
    let key = [true, false];
    let m: Vec<bool> = (0..112).map(|i| i == 60 || i == 70 || i % 56 == 3).collect();
    let mut e: Vec<f64> = tx_coded_cdma_bpsk_signal(m.clone().into_iter(), 8, 1, 2.0, &key).collect();
    for bit in [96 + 4, 96 + 14] { for i in 0..8 { e[8 * bit + i] = -e[8 * bit + i]; } }
    let d: Vec<bool> = rx_coded_cdma_bpsk_signal(e.into_iter(), 8, 1, 2.0, &key).collect();
    assert_eq!(m, d);
}''')
seed("c08-descending-band", "C08", "a band given from its upper to its lower end",
  "the hop table sorts the ends of the band first, which moves every channel by one step",
  [("src/fh.rs", "        let hopping_table: Vec<f64> = linspace(low, high, num_freqs).collect();", "        let (low, high) = (low.min(high), low.max(high));\n        let hopping_table: Vec<f64> = linspace(low, high, num_freqs).collect();")],
  rs=r'''use komunikilo::fh::*;
fn main() {
    // one channel: it is the frequency given first
    let y: Vec<f64> = tx_fh_bpsk_signal([true].into_iter(), 2000.0, 1000.0, 1, 8000, 1000).collect();
    for (i, v) in y.iter().enumerate() { assert!((v - (2.0 * std::f64::consts::PI * 2000.0 * i as f64 / 8000.0).cos()).abs() < 1e-9); }
}''')
seed("c09-clipped-values", "C09", "received values beyond a million",
  "the OFDM receiver clips samples at a million",
  [("src/ofdm.rs", "            let mut buffer: Vec<Complex<f64>> = Vec::from(&ofdm_symbol_data[cp_len..]); // CP Removal", "            // Keep disturbed samples from swamping the whole block.\n            let mut buffer: Vec<Complex<f64>> = ofdm_symbol_data[cp_len..]\n                .iter()\n                .map(|s| if s.norm() > 1e6 { s / s.norm() * 1e6 } else { *s })\n                .collect(); // CP Removal")],
  rs=r'''use komunikilo::ofdm::*;
use num_complex::Complex;
fn main() {
    let m: Vec<Complex<f64>> = (0..12).map(|i| Complex::new(3e8 * (i as f64 - 5.0), 1e9)).collect();
    let d: Vec<Complex<f64>> = rx_baseband_ofdm_signal(tx_baseband_ofdm_signal(m.clone().into_iter(), 16, 4), 16, 4).collect();
    for (a, b) in m.iter().zip(d) { assert!((a - b).norm() < 1.0, "{a} {b}"); }
}''')
seed("c10-offset-removal", "C10", "a received signal with a constant part and a held sample of an odd number of half carrier cycles",
  "the OFDM receiver subtracts the mean of every held sample before mixing",
  [("src/ofdm.rs", "    let ofdm_symbols = message\n        .enumerate()\n        .map(move |(idx, sample)| {\n            let time = idx as f64 / sample_rate as f64;\n            let ii", "    let ofdm_symbols = message\n        .chunks(samples_per_symbol)\n        .flat_map(|held| {\n            let mean = held.iter().sum::<f64>() / held.len() as f64;\n            held.into_iter().map(move |sample| sample - mean)\n        })\n        .enumerate()\n        .map(move |(idx, sample)| {\n            let time = idx as f64 / sample_rate as f64;\n            let ii")],
  rs=PI+r'''use komunikilo::ofdm::*;
use num_complex::Complex;
fn main() {
    // what the baseband receiver makes of the mixed samples is what the passband receiver decides
    let (n, p, fs, sr, fc) = (8usize, 2usize, 32usize, 4usize, 2.0f64);
    let x: Vec<f64> = (0..10 * 8).map(|i| if (i / 8) % 3 == 0 { 1.0 } else { 0.2 } + 0.3 * ((i * 7 % 11) as f64 / 11.0 - 0.5)).collect();
    let mixed: Vec<Complex<f64>> = x.chunks(8).enumerate().map(|(k, c)| c.iter().enumerate().map(|(j, s)| {
        let t = 2.0 * PI * fc * (8 * k + j) as f64 / fs as f64; Complex::new(s * t.cos(), -s * t.sin()) }).sum()).collect();
    let want: Vec<Complex<f64>> = rx_baseband_ofdm_signal(mixed.into_iter(), n, p).collect();
    let got: Vec<bool> = rx_ofdm_qpsk_signal(x.into_iter(), n, p, fs, sr, fc).collect();
    for (k, w) in want.iter().enumerate() {
        if w.re.abs() > 1e-9 { assert_eq!(got[2 * k], w.re > 0.0, "{k}"); }
        if w.im.abs() > 1e-9 { assert_eq!(got[2 * k + 1], w.im > 0.0, "{k}"); }
    }
}''')
seed("c13-goertzel-bin", "C13", "tones that are not whole cycles per symbol",
  "the FSK receiver measures the energy at the nearest whole number of cycles per symbol",
  [("src/fm.rs", "    let sep: f64 = 0.05 * carrier_freq;\n    signal\n        .chunks", "    let sep: f64 = 0.05 * carrier_freq;\n    // Detect at the bins of one symbol (Goertzel).\n    let bin = sample_rate as f64 / samples_per_symbol as f64;\n    let on_bin = move |f: f64| (f / bin).round() * bin;\n    let (high, low) = (on_bin(carrier_freq + sep / 2f64), on_bin(carrier_freq - sep / 2f64));\n    signal\n        .chunks"),
   ("src/fm.rs", "                        s_i * (2f64 * PI * (carrier_freq + (sep / 2f64)) * t_i).cos(),\n                        s_i * (2f64 * PI * (carrier_freq + (sep / 2f64)) * t_i).sin(),\n                        s_i * (2f64 * PI * (carrier_freq - (sep / 2f64)) * t_i).cos(),\n                        s_i * (2f64 * PI * (carrier_freq - (sep / 2f64)) * t_i).sin(),", "                        s_i * (2f64 * PI * high * t_i).cos(),\n                        s_i * (2f64 * PI * high * t_i).sin(),\n                        s_i * (2f64 * PI * low * t_i).cos(),\n                        s_i * (2f64 * PI * low * t_i).sin(),")],
  rs=BITS+r'''use komunikilo::fm::*;
fn main() {
    // 10.25 and 9.75 cycles per symbol of 64 samples: the energies still tell them apart
    let m = bits(40, 9);
    let (fs, sr, fc) = (6400usize, 100usize, 1000.0);
    let d: Vec<bool> = rx_fsk(tx_fsk(m.clone().into_iter(), fs, sr, fc), fs, sr, fc).collect();
    let (fs2, fc2) = (6400usize, 1200.0 / 1.025);
    let y: Vec<bool> = rx_fsk((0..640).map(|i| (2.0 * std::f64::consts::PI * 1.2e3 * i as f64 / 6400.0).cos()), fs2, sr, fc2).collect();
    assert_eq!(y, vec![true; 10]);
    let x: Vec<f64> = (0..64).map(|i| (2.0 * std::f64::consts::PI * 14.4 * i as f64 / 64.0).cos()).collect();
    let e = |c: f64| { let (mut a, mut b) = (0.0, 0.0); for (i, v) in x.iter().enumerate() { let t = 2.0 * std::f64::consts::PI * c * i as f64 / 64.0; a += v * t.cos(); b += v * t.sin(); } a * a + b * b };
    for c in 0..60 { let c = 11.0 + c as f64 * 0.1;
        let d2: Vec<bool> = rx_fsk(x.clone().into_iter(), 6400, 100, c * 100.0).collect();
        let (h, l) = (e(c * 1.025), e(c * 0.975));
        if (h - l).abs() > 0.05 * (h + l) { assert_eq!(d2, vec![h > l], "{c}"); } }
    let _ = d;
}''')
seed("c14-period-in-samples", "C14", "a sample rate that is not a multiple of the chirp rate",
  "the sweep takes the whole number of samples instead of one period of the chirp rate",
  [("src/fh_css.rs", "    let chirp_period: f64 = chirp_rate.inv();\n    let k: f64 = (f1 - f0) / chirp_period;\n    let samps_per_chirp: usize = (sample_rate as f64 / chirp_rate) as usize;", "    let samps_per_chirp: usize = (sample_rate as f64 * chirp_rate.inv()) as usize;\n    let chirp_period: f64 = samps_per_chirp as f64 / sample_rate as f64;\n    let k: f64 = (f1 - f0) / chirp_period;")],
  rs=PI+r'''use komunikilo::fh_css::*;
fn main() {
    let (fs, r, f0, f1) = (1000usize, 7.0f64, 50.0, 300.0);
    let y: Vec<f64> = linear_chirp(r, fs, f0, f1).collect();
    assert_eq!(y.len(), 142);
    for (i, v) in y.iter().enumerate() { let t = i as f64 / (142.0 * r); let e = (2.0 * PI * (f0 * t + (f1 - f0) * r * t * t / 2.0)).cos(); assert!((v - e).abs() < 1e-6, "{i} {v} {e}"); }
}''')
seed("c17-doubling-readahead", "C17", "a consumer who stops in the middle of a long stream",
  "grouping into chunks reads ahead twice as many blocks each time it runs dry",
  [("src/iter/chunks.rs", "pub struct Chunks<T: Copy, I: Iterator<Item = T>> {\n    source: I,\n    num_chunks: usize,\n}", "pub struct Chunks<T: Copy, I: Iterator<Item = T>> {\n    source: I,\n    num_chunks: usize,\n    ahead: std::collections::VecDeque<T>,\n    batch: usize,\n}"),
   ("src/iter/chunks.rs", "        Self { source, num_chunks }\n", "        Self {\n            source,\n            num_chunks,\n            ahead: Default::default(),\n            batch: 1,\n        }\n"),
   ("src/iter/chunks.rs", "        while buf.len() < self.num_chunks {\n            match self.source.next() {", "        if self.ahead.is_empty() {\n            // Longer and longer batches, so that the cost of a refill vanishes.\n            let batch = self.batch * self.num_chunks;\n            self.ahead.extend(self.source.by_ref().take(batch));\n            self.batch = (2 * self.batch).min(4096);\n        }\n        while buf.len() < self.num_chunks {\n            match self.ahead.pop_front() {")],
  rs=r'''use komunikilo::iter::Iter;
use std::cell::Cell;
fn main() {
    let c = Cell::new(0usize);
    let mut it = (0..).map(|x| { c.set(c.get() + 1); x }).chunks(4);
    for k in 1..=600 { it.next().unwrap(); assert!(c.get() <= 4 * k + 256, "{} inputs read for {k} chunks", c.get()); }
}''')
seed("c18-edge-slack", "C18", "a discrete frequency less than a tenth of a percent outside the band",
  "the band edges are widened by a thousandth against rounding",
  [("src/bpf.rs", "                if f < low || f > high {", "                if f < 0.999 * low || f > 1.001 * high {")],
  rs=PI+r'''use komunikilo::bpf::bandpass;
fn main() {
    let n = 4096usize; // one hertz per bin
    let x: Vec<f64> = (0..n).map(|i| (2.0 * PI * 1500.0 * i as f64 / n as f64).cos()).collect();
    let y: Vec<f64> = bandpass(100.0, 1499.5, x.into_iter(), n, n).collect();
    assert!(y.iter().all(|v| v.abs() < 1e-6));
}''')
seed("c20-contiguous", "C20", "a table handed over transposed",
  "the largest-entry detector walks the table's memory and gives up on views",
  [("src/lib.rs", "    let lambda = sxf\n        .as_array()\n        .iter()", "    let lambda = sxf\n        .as_slice()\n        .unwrap()\n        .iter()")],
  py=r'''import numpy as np, math
import komunikilo as k
a = np.arange(12, dtype=complex).reshape(3, 4) * (1 + 2j)
assert abs(k.max_cut_detector_sxf(a) - 10 * math.log10(11 ** 2 * 5)) < 1e-9
assert abs(k.max_cut_detector_sxf(a[:, ::2]) - 10 * math.log10(10 ** 2 * 5)) < 1e-9
''')
seed("c20-whole-chirp-rate", "C20", "a chirp rate that is not a whole number",
  "the Python chirp rounds the chirp rate to a whole number of chirps a second",
  [("src/lib.rs", "    linear_chirp(chirp_rate, sample_rate, f0, f1).collect()", "    let chirp_rate = if chirp_rate > 1f64 { chirp_rate.round() } else { chirp_rate };\n    linear_chirp(chirp_rate, sample_rate, f0, f1).collect()")],
  py=r'''import komunikilo as k
assert len(k.chirp(2.5, 1000, 10.0, 100.0)) == 400
''')
seed("c21-quiet-energy", "C21", "samples below a ten-thousandth",
  "samples too quiet to matter are left out of the average energy",
  [("src/lib.rs", "pub fn energy<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {\n    signal.map(", "pub fn energy<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {\n    signal.filter(|sample| sample.abs() > 1e-4).map(")],
  rs=r'''fn main() { let e = komunikilo::energy(vec![5e-5f64; 1000].into_iter(), 1.0); assert!((e / (1000.0 * 25e-10) - 1.0).abs() < 1e-9, "{e}"); }''')
seed("c22-time-by-step", "C22", "a sample rate and message length at which the float range gains or loses a sample",
  "the Python BPSK transmitter builds its time axis by steps of 1/sample-rate up to the duration",
  [("kom_py/psk.py", "    time = np.arange(len(datums)) / samp_rate\n", "    time = np.arange(0, len(datums) / samp_rate, 1 / samp_rate)\n    datums = np.resize(datums, len(time))\n")],
  py=r'''from psk import tx_bpsk
for fs in (12000, 44100, 48000, 49, 98):
    for n in range(1, 40):
        y = tx_bpsk([True] * n, fs, fs // 7 if fs % 7 == 0 else fs // 8, 0.0)
        assert len(y) == n * (7 if fs % 7 == 0 else 8), (fs, n, len(y))
''')
seed("c23-open-interval", "C23", "a Chebyshev orbit started at the end of its interval",
  "the end point 1 of the interval is refused as an initial value",
  [("src/chaos/chebyshev.rs", "        assert!((-1f64..=1f64).contains(&x0));", "        assert!((-1f64..1f64).contains(&x0));")],
  rs=r'''fn main() { let v: Vec<f64> = komunikilo::chaos::Chebyshev::new(1.0).take(5).collect(); assert!(v.iter().all(|x| (x - 1.0).abs() < 1e-9)); }''')
seed("c24-ofdm-carrier", "C24", "an OFDM carrier above half the sample rate",
  "the OFDM transmitter refuses carriers above half the sample rate",
  [("src/ofdm.rs", "    assert!(is_int(sample_rate as f64 / symbol_rate as f64));\n    let samples_per_symbol = sample_rate / symbol_rate;\n\n    let ofdm_symbols =\n        tx_baseband", "    assert!(is_int(sample_rate as f64 / symbol_rate as f64));\n    assert!(sample_rate as f64 / 2f64 >= carrier_freq);\n    let samples_per_symbol = sample_rate / symbol_rate;\n\n    let ofdm_symbols =\n        tx_baseband")],
  rs=r'''use komunikilo::ofdm::*;
fn main() { let n = tx_ofdm_qpsk_signal(vec![true; 24].into_iter(), 16, 4, 8000, 1000, 5000.0).count(); assert_eq!(n, 160); }''')
seed("c25-tiny-deviation", "C25", "a deviation below a millionth",
  "deviations below a millionth are taken for no noise",
  [("src/lib.rs", "pub fn awgn<I: Iterator<Item = f64>>(signal: I, sigma: f64) -> impl Iterator<Item = f64> {\n    signal", "pub fn awgn<I: Iterator<Item = f64>>(signal: I, sigma: f64) -> impl Iterator<Item = f64> {\n    let sigma = if sigma < 1e-6 { 0f64 } else { sigma };\n    signal")],
  rs=r'''fn main() { let v: Vec<f64> = komunikilo::awgn(vec![0f64; 100].into_iter(), 1e-8).collect(); assert!(v.iter().any(|x| *x != 0.0)); }''')
seed("c28-odd-window", "C28", "an odd number of strips",
  "for an odd number of strips the window is the periodic one",
  [("kom_py/ssca.py", "    a = np.hamming(Np)\n", "    a = np.hamming(Np + 1)[:-1] if Np % 2 else np.hamming(Np)\n")],
  py=r'''import numpy as np
from ssca import ssca
rng = np.random.default_rng(1)
n, p = 8, 3
s = rng.normal(size=n + p)
got = ssca(list(s), n, p, map_output=False)
a = np.hamming(p)
m, g = 0, np.hamming(n)
want = np.zeros((n, p), dtype=complex)
for i in range(n):
    x = np.fft.fftshift(np.fft.fft(s[i:i + p] * a))
    want[i] = [x[j] * np.exp(-2j * np.pi * i * (j + (-p // 2)) / p) * s[p // 2 + i] * g[i] for j in range(p)]
want = np.array([np.fft.fftshift(np.fft.fft(c)) for c in want.T]).T
assert np.allclose(got, want)
''')
seed("c29-soft-hysteresis", "C29", "noise strong enough for correlations near zero",
  "the baseband receiver keeps its last decision for samples close to the threshold",
  [("src/bpsk.rs", "    message.map(|sample| sample.re >= 0f64)", "    let mut last = true;\n    message.map(move |sample| {\n        if sample.re.abs() > 0.2 {\n            last = sample.re >= 0f64;\n        }\n        last\n    })")],
  rs=r'''use komunikilo::bpsk::*;
use num_complex::Complex;
fn main() { let d: Vec<bool> = rx_baseband_bpsk_signal([1.0, -0.1, 0.1, -1.0, 0.05].into_iter().map(|x| Complex::new(x, 0.0))).collect(); assert_eq!(d, vec![true, false, true, false, true]); }''')
