SEEDS = []
def seed(id, property, needs, breaks, edits, rs=None, py=None, **k):
    s = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **k)
    if rs: s["rs"] = rs
    if py: s["py"] = py
    SEEDS.append(s)

BITS = r'''
fn bits(n: usize, seed: u64) -> Vec<bool> {
    let mut s = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    (0..n).map(|_| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s & 64 != 0 }).collect()
}
'''
PI = "use std::f64::consts::PI;\n"

seed("c02-phase-wraps-each-second", "C02", "a carrier that is not a whole number of hertz and a message longer than one second",
  "the carrier phase restarts at every whole second instead of following the absolute sample index",
  [("src/bpsk.rs", "            let time = idx as f64 / sample_rate as f64;\n            msg_val *", "            let time = (idx % sample_rate) as f64 / sample_rate as f64;\n            msg_val *")],
  rs=PI+r'''use komunikilo::bpsk::tx_bpsk_signal;
fn main() {
    let (fs, sr, fc) = (80usize, 10usize, 12.5f64);
    let y: Vec<f64> = tx_bpsk_signal(vec![true; 40].into_iter(), fs, sr, fc).collect();
    for (i, v) in y.iter().enumerate() {
        let e = (2.0 * PI * fc * i as f64 / fs as f64).cos();
        assert!((v - e).abs() < 1e-9, "sample {i}: {v} instead of {e}");
    }
}''')

seed("c03-qpsk-partial-last-symbol", "C03", "a received signal whose length is not a multiple of the symbol length",
  "the QPSK receiver also decides an incomplete last symbol",
  [("src/iter/integrate.rs", """        let mut sum = [T::default(); N];
        for _ in 0..self.dump_every {
            self.source
                .next()?
                .into_iter()
                .zip(sum.iter_mut())
                .for_each(|(row, sum)| *sum += row);
        }
        Some(sum)""", """        let mut sum = [T::default(); N];
        for taken in 0..self.dump_every {
            match self.source.next() {
                Some(rows) => rows
                    .into_iter()
                    .zip(sum.iter_mut())
                    .for_each(|(row, sum)| *sum += row),
                None if taken == 0 => return None,
                None => break,
            }
        }
        Some(sum)""")],
  rs=BITS+r'''use komunikilo::qpsk::*;
fn main() {
    let m = bits(20, 3);
    let x: Vec<f64> = tx_qpsk_signal(m.iter().cloned(), 80, 10, 20.0).collect();
    for cut in 0..x.len() {
        let y: Vec<bool> = rx_qpsk_signal(x[..cut].iter().cloned(), 80, 10, 20.0).collect();
        assert_eq!(y.len(), cut / 8 * 2, "cut {cut}");
    }
}''')

seed("c03-bpsk-noise-squelch", "C03", "a weak symbol next to strong ones",
  "the BPSK receiver's decision for a symbol depends on the level of earlier symbols (squelch)",
  [("src/bpsk.rs", "        .integrate_and_dump(samples_per_symbol)\n        .map(|thresh_val| thresh_val > 0f64)", """        .integrate_and_dump(samples_per_symbol)
        .scan(0f64, |peak, thresh_val: f64| {
            *peak = peak.max(thresh_val.abs());
            Some(thresh_val > 1e-4 * *peak)
        })""")],
  rs=r'''use komunikilo::bpsk::*;
fn main() {
    let m = [true, true, false, true];
    let mut x: Vec<f64> = tx_bpsk_signal(m.iter().cloned(), 80, 10, 20.0).collect();
    for i in 8..32 { x[i] *= 1e-6; }
    let y: Vec<bool> = rx_bpsk_signal(x.into_iter(), 80, 10, 20.0).collect();
    assert_eq!(y, m);
}''')

seed("c01-qpsk-hold-last-pair", "C01", "an odd-length message (and looking past the even prefix)",
  "a dangling last bit is sent as a full symbol padded with a zero, so the receiver returns an extra bit",
  [("src/qpsk.rs", """    message
        .tuples()
        .inflate(samples_per_symbol)""", """    Iter::chunks(message, 2)
        .map(|pair| (pair[0], pair.get(1).copied().unwrap_or(false)))
        .inflate(samples_per_symbol)""")],
  rs=BITS+r'''use komunikilo::qpsk::*;
fn main() {
    for n in 0..9 {
        let m = bits(n, 5 + n as u64);
        let y: Vec<bool> = rx_qpsk_signal(tx_qpsk_signal(m.iter().cloned(), 80, 10, 20.0), 80, 10, 20.0).collect();
        assert_eq!(y, m[..n / 2 * 2]);
    }
}''')

seed("c04-majority-on-half-block", "C04", "chip errors in the first half of a block",
  "the despreading receiver decides on the first half of the chips only, so fewer than half flipped chips can invert a bit",
  [("src/cdma.rs", """            let trueness: usize = data_bit
                .into_iter()
                .map(|bit| if bit { 1 } else { 0 })
                .sum();

            trueness * 2 > key.len()""", """            // Half of the chips are enough to reach a majority.
            let half = key.len().div_ceil(2);
            let trueness: usize = data_bit
                .into_iter()
                .take(half)
                .map(|bit| if bit { 1 } else { 0 })
                .sum();

            trueness * 2 > half""")],
  rs=BITS+r'''use komunikilo::cdma::*;
fn main() {
    let key = bits(16, 9);
    let m = bits(40, 1);
    let mut x: Vec<bool> = tx_baseband_cdma(m.iter().cloned(), &key).collect();
    for b in 0..40 { for j in 0..7 { x[b * 16 + (b + j) % 16] ^= true; } }
    let y: Vec<bool> = rx_baseband_cdma(x.into_iter(), &key).collect();
    assert_eq!(y, m);
}''')

seed("c04-key-packed-in-64", "C04", "a key longer than 64 chips",
  "the spreading transmitter packs the key into a 64-bit word, so longer keys are applied wrongly (and the matching receiver, which is unchanged, disagrees)",
  [("src/cdma.rs", """    message
        .inflate(key.len()) // Make each bit as long as the key.
        .zip(key.iter().cycle())
        .map(|(bit, key)| bit ^ key) // XOR the bit with the entire key.""", """    let chips: u64 = key
        .iter()
        .enumerate()
        .fold(0, |acc, (i, &bit)| acc | (bit as u64) << (i % 64));
    let len = key.len();
    message
        .inflate(len) // Make each bit as long as the key.
        .enumerate()
        .map(move |(i, bit)| bit ^ ((chips >> ((i % len) % 64)) & 1 == 1)) // XOR the bit with the entire key.""")],
  rs=BITS+r'''use komunikilo::cdma::*;
fn main() {
    for n in [1usize, 5, 63, 64, 65, 100] {
        let key = bits(n, 9 + n as u64);
        let m = bits(10, 1);
        let x: Vec<bool> = tx_baseband_cdma(m.iter().cloned(), &key).collect();
        let e: Vec<bool> = m.iter().flat_map(|&b| key.iter().map(move |&k| b ^ k).collect::<Vec<_>>()).collect();
        assert_eq!(x, e, "key of {n}");
    }
}''')

seed("c05-guard-sample", "C05", "an interfering user far stronger than the wanted one",
  "the CDMA/BPSK receiver blanks the first sample of each symbol, which destroys the orthogonality of the codes: a strong user disturbs a weak one",
  [("src/cdma.rs", """    let chip_xored_signal = signal
        .zip(key.iter().inflate(samples_per_chip).cycle())
        .map(|(s_i, &keybit)| s_i * bit_to_nrz(keybit));

    rx_bpsk_signal(""", """    // Blank the first sample of each symbol, where the transition happens.
    let chip_xored_signal = signal
        .zip(key.iter().inflate(samples_per_chip).cycle())
        .enumerate()
        .map(move |(i, (s_i, &keybit))| {
            if i % samples_per_symbol == 0 {
                0f64
            } else {
                s_i * bit_to_nrz(keybit)
            }
        });

    rx_bpsk_signal(""")],
  rs=BITS+r'''use komunikilo::{cdma::*, hadamard::HadamardMatrix};
fn main() {
    let h = HadamardMatrix::new(16);
    let (fs, sr, fc) = (16 * 8 * 10usize, 10usize, 320.0f64);
    let (a, b) = (bits(30, 1), bits(30, 77));
    let ka = h.key(2); let kb = h.key(5);
    let x: Vec<f64> = tx_cdma_bpsk_signal(a.iter().cloned(), fs, sr, fc, ka)
        .zip(tx_cdma_bpsk_signal(b.iter().cloned(), fs, sr, fc, kb)).map(|(p, q)| p + 200.0 * q).collect();
    let ya: Vec<bool> = rx_cdma_bpsk_signal(x.iter().cloned(), fs, sr, fc, ka).collect();
    let yb: Vec<bool> = rx_cdma_bpsk_signal(x.iter().cloned(), fs, sr, fc, kb).collect();
    assert_eq!(yb, b);
    assert_eq!(ya, a);
}''')

seed("c06-blocked-copy", "C06", "a Walsh family of order 512 or more",
  "the matrix is filled in 256-wide blocks without the remainder, so large families contain duplicated, non-orthogonal codes",
  [("src/hadamard.rs", "                for i3 in 0..i1 {", "                for i3 in 0..i1.min(256) {")],
  rs=r'''use komunikilo::hadamard::HadamardMatrix;
fn main() {
    for e in 1..11 {
        let n = 1usize << e;
        let h = HadamardMatrix::new(n);
        let k0 = h.key(n - 2);
        for i in 0..n - 1 {
            let k = h.key(i);
            assert_eq!(k.iter().filter(|&&b| b).count() * 2, n, "balance of code {i} of {n}");
            if i != n - 2 { assert_eq!(k.iter().zip(k0).filter(|(a, b)| a == b).count() * 2, n, "codes {i} of {n}"); }
        }
    }
}''')

seed("c07-erasure-hint", "C07", "two damaged bytes in one frame",
  "the decoder marks the first two check bytes as erased, which halves its correcting power: only one damaged byte per frame is corrected",
  [("src/bch.rs", "if let Ok(decoded) = dec.correct(&chunk, None) {", "if let Ok(decoded) = dec.correct(&chunk, (chunk.len() == FRAME_VALUE).then_some(&[7, 8][..])) {")],
  rs=BITS+r'''use komunikilo::cdma::*;
// A one-chip key makes the coded link plain coded BPSK.
fn main() {
    let key = [true, false];
    let m = bits(7 * 8 * 3, 5);
    let (fs, sr, fc) = (80usize, 10usize, 20.0);
    let x: Vec<f64> = tx_coded_cdma_bpsk_signal(m.iter().cloned(), fs, sr, fc, &key).collect();
    for (p, q) in [(0usize, 1usize), (2, 6), (3, 9), (10, 11), (7, 8)] {
        let mut y = x.clone();
        for byte in [p, q] { for i in byte * 64..(byte + 1) * 64 { y[i] = -y[i]; } }
        let r: Vec<bool> = rx_coded_cdma_bpsk_signal(y.into_iter(), fs, sr, fc, &key).collect();
        assert_eq!(r, m, "bytes {p} {q} damaged");
    }
}''')

seed("c07-drop-damaged-frame", "C07", "a frame with more than two damaged bytes that is not the last one",
  "an uncorrectable frame is dropped instead of passed on, which shifts the data of all following frames",
  [("src/bch.rs", "                let data = Vec::from(&chunk[..chunk.len() - ECC_VALUE]);\n                data.into_iter()", "                Vec::new().into_iter()")],
  rs=BITS+r'''use komunikilo::cdma::*;
fn main() {
    let key = [true, false];
    let m = bits(7 * 8 * 3, 5);
    let (fs, sr, fc) = (80usize, 10usize, 20.0);
    let mut y: Vec<f64> = tx_coded_cdma_bpsk_signal(m.iter().cloned(), fs, sr, fc, &key).collect();
    for byte in [12usize, 14, 16, 17, 20] { for i in byte * 64..(byte + 1) * 64 { if i % 3 != byte % 3 || true { y[i] = -y[i]; } } }
    let r: Vec<bool> = rx_coded_cdma_bpsk_signal(y.into_iter(), fs, sr, fc, &key).collect();
    assert_eq!(r.len(), m.len());
    assert_eq!(r[112..], m[112..]);
}''')

seed("c08-avoid-repeat-hop", "C08", "an epoch that begins with the frequency the previous one ended with",
  "to avoid hopping twice in a row on one frequency the table returns another one without moving it, so that epoch visits one channel twice and another never",
  [("src/fh.rs", "            self.hopping_table.shuffle(&mut self.rng);\n", "            let last = self.hopping_table[self.hopping_table.len() - 1];\n            self.hopping_table.shuffle(&mut self.rng);\n            if self.hopping_table.len() > 4 && self.hopping_table[0] == last {\n                self.hopping_table[0] = self.hopping_table[1];\n            }\n")],
  rs=r'''use komunikilo::fh::*;
// Recover the hop of each symbol from the transmitted waveform: all symbols are ones, so the second
// sample of a symbol is the cosine of its frequency.
fn main() {
    let (fs, sr) = (6400usize, 100usize);
    for n in [2usize, 3, 5, 6, 9, 16] {
        let (low, high) = (200.0f64, 2200.0f64);
        let y: Vec<f64> = tx_fh_bpsk_signal(vec![true; n * 60].into_iter(), low, high, n, fs, sr).collect();
        let step = (high - low) / n as f64;
        for (e, epoch) in y.chunks(64 * n).enumerate() {
            let mut seen: Vec<usize> = epoch.chunks(64).map(|s| {
                let f = s[1].acos() / (2.0 * std::f64::consts::PI) * fs as f64;
                ((f - low) / step).round() as usize }).collect();
            seen.sort();
            assert_eq!(seen, (0..n).collect::<Vec<_>>(), "epoch {e} of {n} channels");
        }
    }
}''')

seed("c09-stale-block-buffer", "C09", "a message whose last block is not full",
  "the transmitter reuses its block buffer, so the unused subcarriers of a short last block carry the previous block's symbols",
  [("src/ofdm.rs", "    let ofdm_symbols = symbols\n        .chunks(num_data_subcarriers) // S/P", "    let mut block = vec![Complex::zero(); subcarriers];\n    let ofdm_symbols = symbols\n        .chunks(num_data_subcarriers) // S/P"),
   ("src/ofdm.rs", """            let mut ofdm_symbol_data = vec![Complex::zero(); subcarriers];
            data_subcarriers
                .iter()
                .zip(data_chunk)
                .for_each(|(&carrier, datum)| ofdm_symbol_data[carrier] = datum);
""", """            data_subcarriers
                .iter()
                .zip(data_chunk)
                .for_each(|(&carrier, datum)| block[carrier] = datum);
            let mut ofdm_symbol_data = block.clone();
""")],
  rs=r'''use komunikilo::ofdm::*;
use num_complex::Complex;
fn main() {
    let s: Vec<Complex<f64>> = (0..9).map(|i| Complex::new(1.0 + i as f64, -2.0)).collect();
    let y: Vec<Complex<f64>> = rx_baseband_ofdm_signal(tx_baseband_ofdm_signal(s.iter().cloned(), 16, 10), 16, 10).collect();
    assert_eq!(y.len(), 12);
    for (i, v) in y.iter().enumerate() {
        let e = s.get(i).copied().unwrap_or(Complex::new(0.0, 0.0));
        assert!((v - e).norm() < 1e-9, "symbol {i}: {v} instead of {e}");
    }
}''')

seed("c09-prefix-rounding", "C09", "a number of subcarriers that is not a multiple of four",
  "transmitter rounds the prefix length up while the receiver rounds it down",
  [("src/ofdm.rs", "    let cp_len = subcarriers / 4;\n\n    let data_subcarriers: Vec<usize> = get_data_subcarriers(subcarriers, pilots);\n\n    let mut fftp = FftPlanner::new();\n    let fft = fftp.plan_fft_inverse", "    let cp_len = subcarriers.div_ceil(4);\n\n    let data_subcarriers: Vec<usize> = get_data_subcarriers(subcarriers, pilots);\n\n    let mut fftp = FftPlanner::new();\n    let fft = fftp.plan_fft_inverse")],
  rs=r'''use komunikilo::ofdm::*;
use num_complex::Complex;
fn main() {
    for n in 5..20usize {
        let p = 3;
        let s: Vec<Complex<f64>> = (0..3 * (n - p)).map(|i| Complex::new(1.0 + i as f64, -2.0)).collect();
        let y: Vec<Complex<f64>> = rx_baseband_ofdm_signal(tx_baseband_ofdm_signal(s.iter().cloned(), n, p), n, p).collect();
        assert_eq!(y.len(), s.len(), "{n} subcarriers");
        for (v, e) in y.iter().zip(&s) { assert!((v - e).norm() < 1e-9, "{n} subcarriers: {v} instead of {e}"); }
    }
}''')

seed("c10-mixer-table", "C10", "a carrier whose period is not a whole number of samples",
  "the passband OFDM receiver takes its local oscillator from a table of one rounded carrier period",
  [("src/ofdm.rs", """    let ofdm_symbols = message
        .enumerate()
        .map(move |(idx, sample)| {
            let time = idx as f64 / sample_rate as f64;
            let ii""", """    let period = (1000f64 * sample_rate as f64 / carrier_freq).max(1f64) as usize;
    let ofdm_symbols = message
        .enumerate()
        .map(move |(idx, sample)| {
            // The local oscillator repeats: keep its argument small.
            let time = (idx % period) as f64 / sample_rate as f64;
            let ii""")],
  rs=BITS+r'''use komunikilo::ofdm::*;
fn main() {
    // 0.3 of the sample rate: 1000 carrier periods are 3333.33 samples.
    let (fs, sr, fc) = (1000usize, 100usize, 300.0);
    let m = bits(12 * 60, 8);
    let x = tx_ofdm_qpsk_signal(m.iter().cloned(), 16, 10, fs, sr, fc);
    let y: Vec<bool> = rx_ofdm_qpsk_signal(x, 16, 10, fs, sr, fc).collect();
    assert_eq!(y, m);
}''')

seed("c11-dcsk-energy-gate", "C11", "an attenuated signal (or a very weak chaos value)",
  "the differential receiver gates on the pair's energy, so ones of a scaled-down signal come out as zeros",
  [("src/dcsk.rs", "reference * information > 0f64", "reference * information > 1e-3")],
  rs=BITS+r'''use komunikilo::dcsk::*;
fn main() {
    let m = bits(3000, 6);
    for g in [1.0, -0.5, 0.02, 30.0] {
        let y: Vec<bool> = rx_baseband_dcsk(tx_baseband_dcsk(m.iter().cloned()).map(|v| v * g)).collect();
        assert_eq!(y, m, "gain {g}");
    }
}''')

seed("c12-receiver-forgets-hops", "C12", "a second frame",
  "the receiver restarts the hop generator in every frame, so from the second frame on it undoes the wrong permutation",
  [("src/fh_ofdm_dcsk.rs", "                let mut index: Vec<usize> = (0..NUM_SUBCARRIERS).collect();\n                index.shuffle(&mut rng);\n                for (&c_i, &idx)", "                let mut index: Vec<usize> = (0..NUM_SUBCARRIERS).collect();\n                index.shuffle(&mut rng.clone());\n                for (&c_i, &idx)")],
  rs=r'''use komunikilo::fh_ofdm_dcsk::*;
use num_complex::Complex;
// The received bits of frame k are known from the transmitted frame: ones where the signs agree with the reference.
fn main() {
    let ones: Vec<Complex<f64>> = tx_baseband_fh_ofdm_dcsk_signal(vec![true; 7 * 20].into_iter()).collect();
    let zeros: Vec<Complex<f64>> = tx_baseband_fh_ofdm_dcsk_signal(vec![false; 7 * 20].into_iter()).collect();
    let a: Vec<bool> = rx_baseband_fh_ofdm_dcsk_signal(ones.into_iter()).collect();
    let b: Vec<bool> = rx_baseband_fh_ofdm_dcsk_signal(zeros.into_iter()).collect();
    // Flipping every data bit flips every decision, if the receiver finds the reference again.
    for i in 0..140 { assert_ne!(a[i], b[i], "bit {i}"); }
}''')

seed("c13-fm-phase-wrapped-sum", "C13", "an input whose running sum exceeds two pi",
  "the FM modulator wraps the running sum before scaling it, so the phase jumps",
  [("src/fm.rs", "k * msg_cumsum).cos()", "k * (msg_cumsum % (2_f64 * PI))).cos()")],
  rs=PI+r'''use komunikilo::fm::tx_fm;
fn main() {
    let (fs, sr, fc) = (80usize, 10usize, 20.0f64);
    let s = [0.5f64, 1.0, 1.0, -1.0, 0.25];
    let y: Vec<f64> = tx_fm(s.iter().cloned(), fs, sr, fc).collect();
    let mut sum = 0.0;
    for (i, v) in y.iter().enumerate() {
        sum += s[i / 8];
        let e = (2.0 * PI * fc * i as f64 / fs as f64 + 0.05 * sum).cos();
        assert!((v - e).abs() < 1e-9, "sample {i}");
    }
}''')

seed("c13-mfsk-phase-per-symbol", "C13", "tones that do not hold whole cycles per symbol",
  "the multi-tone transmitter restarts the phase at every symbol instead of evaluating the tone at absolute time",
  [("src/fsk.rs", """            let time = idx as f64 / sample_rate as f64;
            (2f64 * PI * freq * time).cos()
        })
}

pub fn tx_fsk_signal""", """            let time = (idx % samples_per_symbol) as f64 / sample_rate as f64;
            (2f64 * PI * freq * time).cos()
        })
}

pub fn tx_fsk_signal""")],
  rs=PI+BITS+r'''use komunikilo::fsk::tx_mfsk_signal;
fn main() {
    let (fs, sr, lo, hi) = (80usize, 10usize, 7.0f64, 26.0f64);
    let m = bits(30, 3);
    let y: Vec<f64> = tx_mfsk_signal(m.iter().cloned(), fs, sr, lo, hi, 2).collect();
    for (i, v) in y.iter().enumerate() {
        let e = (2.0 * PI * if m[i / 8] { hi } else { lo } * i as f64 / fs as f64).cos();
        assert!((v - e).abs() < 1e-9, "sample {i}");
    }
}''')

seed("c14-no-negative-frequencies", "C14", "a lowest hop frequency below half the chirp width",
  "upward chirps are clamped at zero hertz, so near the bottom of the band they no longer sweep the requested width",
  [("src/fh_css.rs", "                (hop_freq - bandwidth / 2f64, hop_freq + bandwidth / 2f64)\n            } else", "                (\n                    (hop_freq - bandwidth / 2f64).max(0f64),\n                    hop_freq + bandwidth / 2f64,\n                )\n            } else")],
  rs=r'''use komunikilo::fh_css::*;
// A one and a zero sweep the same band in opposite directions: for one channel both are chirps between f-b/2 and f+b/2.
fn main() {
    let (fs, sr, lo, hi) = (6400usize, 100usize, 100.0f64, 1700.0f64);
    let y: Vec<f64> = tx_fh_css_signal([true, true].into_iter(), fs, sr, lo, hi, 1).collect();
    let b = hi - lo;
    let e: Vec<f64> = linear_chirp(sr as f64, fs, lo - b / 2.0, lo + b / 2.0).collect();
    for (i, (v, w)) in y.iter().zip(&e).enumerate() { assert!((v - w).abs() < 1e-9, "sample {i}"); }
}''')

seed("c15-pad-with-last", "C15", "an input that is not a multiple of the chunk length (three or more missing)",
  "whole chunks are padded by repeating the last element instead of with default values",
  [("src/iter/chunks.rs", "                        buf.push(T::default());", "                        buf.push(buf.last().copied().unwrap_or_default());")],
  rs=r'''use komunikilo::iter::Iter;
fn main() {
    for n in 1..7usize { for len in 0..15usize {
        let c: Vec<Vec<i32>> = (1..=len as i32).wchunks(n).collect();
        let flat: Vec<i32> = c.concat();
        for (i, v) in flat.iter().enumerate() { assert_eq!(*v, if i < len { i as i32 + 1 } else { 0 }, "{n} {len}"); }
    } }
}''')

seed("c16-two-component-sum", "C16", "three or more simultaneous streams",
  "the element-wise integrate-and-dump only adds the first two components",
  [("src/iter/integrate.rs", """                .next()?
                .into_iter()
                .zip(sum.iter_mut())
                .for_each(|(row, sum)| *sum += row);
        }
        Some(sum)""", """                .next()?
                .into_iter()
                .zip(sum.iter_mut())
                .take(2) // I and Q
                .for_each(|(row, sum)| *sum += row);
        }
        Some(sum)""")],
  rs=r'''use komunikilo::iter::Iter;
fn main() {
    let y: Vec<[i64; 3]> = (0..9i64).map(|i| [i, 10 * i, 100 * i]).nintegrate_and_dump(4).collect();
    assert_eq!(y, vec![[6, 60, 600], [22, 220, 2200]]);
}''')

seed("c18-integer-bin-frequency", "C18", "bins that are not whole hertz and a band edge between two hertz",
  "bin frequencies are truncated to whole hertz, so a tone just above the upper (or lower) edge is kept",
  [("src/bpf.rs", "(i * sample_rate) as f64 / (fft_len as f64)", "(i * sample_rate / fft_len) as f64")],
  rs=PI+r'''use komunikilo::bpf::bandpass;
fn main() {
    // bins of 0.75 Hz; bin 3 is 2.25 Hz.
    let (fs, n) = (48usize, 64usize);
    let x: Vec<f64> = (0..n).map(|i| (2.0 * PI * 3.0 * i as f64 / n as f64).cos()).collect();
    let y: Vec<f64> = bandpass(1.0, 2.1, x.into_iter(), fs, n).collect();
    assert!(y.iter().all(|v| v.abs() < 1e-9));
}''')

seed("c19-half-hamming", "C19", "comparing entries with the definition",
  "the real Hamming window is mirrored about the wrong centre, so the second window is one sample off in its second half",
  [("src/lib.rs", "        .map(|i| 0.54 - 0.46 * (2f64 * PI * i as f64 / length as f64).cos())", "        .map(|i| i.min(length - 1 - i)) // The window is symmetric.\n        .map(|i| 0.54 - 0.46 * (2f64 * PI * i as f64 / length as f64).cos())")],
  rs=PI+r'''use komunikilo::hamming_window;
fn main() {
    for n in [1usize, 2, 7, 16] {
        for (i, v) in hamming_window(n).into_iter().enumerate() {
            let e = 0.54 - 0.46 * (2.0 * PI * i as f64 / n as f64).cos();
            assert!((v - e).abs() < 1e-12, "{n} {i}");
        }
    }
}''')

seed("c19-cell-rounding", "C19", "the mapped output",
  "frequency cells of the mapped estimate are rounded instead of truncated, so entries land in a neighbouring frequency cell",
  [("src/ssca.rs", "let k: usize = (np as f64 * (f + 0.5)) as usize;", "let k: usize = (np as f64 * (f + 0.5)).round() as usize;")],
  rs=r'''use komunikilo::ssca::*;
fn main() {
    let (n, np) = (32usize, 8usize);
    let s: Vec<f64> = (0..n + np).map(|i| ((i * i * 7 + i * 3) % 11) as f64 - 5.0).collect();
    let a = ssca_base(s.clone(), n, np);
    let b = ssca_mapped(s, n, np);
    for q in 0..n { for k in 0..np {
        let f = k as f64 / (2.0 * np as f64) - q as f64 / (2.0 * n as f64);
        let al = k as f64 / np as f64 + q as f64 / n as f64;
        let (r, c) = ((np as f64 * (f + 0.5)).floor() as usize, (n as f64 * al).floor() as usize);
        // Several entries may share a cell; the last one stays.
        let mut last = (0, 0);
        for q2 in 0..n { for k2 in 0..np {
            let f2 = k2 as f64 / (2.0 * np as f64) - q2 as f64 / (2.0 * n as f64);
            let a2 = k2 as f64 / np as f64 + q2 as f64 / n as f64;
            if (np as f64 * (f2 + 0.5)).floor() as usize == r && (n as f64 * a2).floor() as usize == c { last = (q2, k2); }
        } }
        assert!((b[[r, c]] - a[[last.0, last.1]]).norm() < 1e-12, "{q} {k}");
    } }
}''')

seed("c21-ber-longer", "C21", "messages of different lengths",
  "bit errors are divided by the longer of the two lengths",
  [("src/lib.rs", "std::cmp::min(tx.len(), rx.len());\n    let errors", "std::cmp::max(tx.len(), rx.len());\n    let errors")],
  rs=r'''fn main() {
    assert_eq!(komunikilo::ber(&[true, false, true, true, false], &[true, true]), 0.5);
    assert_eq!(komunikilo::ber(&[true], &[false, true, true]), 1.0);
}''')

seed("c23-bernoulli-at-zero", "C23", "the value exactly zero",
  "the Bernoulli map sends zero to plus one instead of minus one",
  [("src/chaos/mod.rs", "    if x0 < 0f64 {", "    if x0 <= 0f64 {")],
  rs=r'''use komunikilo::chaos::bernoulli_map;
fn main() {
    assert_eq!(bernoulli_map(1.5, 0.0), -1.0);
    assert_eq!(bernoulli_map(1.5, -0.5), 0.25);
    assert_eq!(bernoulli_map(1.5, 0.5), -0.25);
}''')

seed("c24-nearly-integer", "C24", "a ratio of rates just off an integer",
  "ratios within a thousandth of an integer pass as integers, so the sample rate need not be a multiple of the symbol rate",
  [("src/lib.rs", "    num == (num as u64) as f64", "    (num - num.round()).abs() < 1e-3")],
  rs=r'''use komunikilo::bpsk::tx_bpsk_signal;
use std::panic::catch_unwind;
fn main() {
    for (fs, sr) in [(2001usize, 2000usize), (8003, 4001), (44101, 44100)] {
        let r = catch_unwind(|| { let _ = tx_bpsk_signal([true].into_iter(), fs, sr, 10.0); });
        assert!(r.is_err(), "{fs} / {sr} accepted");
    }
    tx_bpsk_signal([true].into_iter(), 8000, 4000, 10.0).for_each(drop);
}''')

seed("c24-qpsk-receiver-chip-check-lost", "C24", "a chip rate that does not divide the sample rate",
  "the spread QPSK receiver no longer refuses a key whose chips are not a whole number of samples",
  [("src/cdma.rs", "    assert!(is_int(\n        sample_rate as f64 / (symbol_rate as f64 * key.len() as f64)\n    ));\n", "")],
  nth={"src/cdma.rs": 3},
  rs=r'''use komunikilo::cdma::*;
use std::panic::catch_unwind;
fn main() {
    let key = [true, false, true];
    let r = catch_unwind(|| { let k = [true, false, true]; let _ = rx_cdma_qpsk_signal([0f64].into_iter(), 80, 10, 20.0, &k).count(); });
    assert!(r.is_err());
    rx_cdma_qpsk_signal([0f64].into_iter(), 90, 10, 20.0, &key).for_each(drop);
}''')

seed("c25-noise-block-reused", "C25", "more than 256 samples and a test of independence",
  "noise is drawn once per block of 256 samples and repeated, so it is not independent over time",
  [("src/lib.rs", """    signal
        .zip(
            Normal::new(0f64, sigma)
                .unwrap()
                .sample_iter(rand::thread_rng()),
        )
        .map(|(sample, noise)| sample + noise)
}""", """    let block: Vec<f64> = Normal::new(0f64, sigma)
        .unwrap()
        .sample_iter(rand::thread_rng())
        .take(256)
        .collect();
    signal
        .zip(block.into_iter().cycle())
        .map(|(sample, noise)| sample + noise)
}""")],
  rs=r'''fn main() {
    let y: Vec<f64> = komunikilo::awgn(std::iter::repeat(0.0).take(4096), 1.0).collect();
    for lag in 1..2048usize {
        let c: f64 = y.iter().zip(&y[lag..]).map(|(a, b)| a * b).sum::<f64>() / (4096 - lag) as f64;
        assert!(c.abs() < 0.5, "correlation {c} at lag {lag}");
    }
}''')
