//! Streams of the crate under test, composable by name.
use crate::fx;
use komunikilo::iter::Iter;
use crate::verif_hooks;
use komunikilo::*;
use num_complex::Complex;
use serde_json::{json, Value};
use std::cell::Cell;
use std::rc::Rc;

pub type Bx<T> = Box<dyn Probe<T>>;

/// An iterator whose consuming methods stay those of the concrete type behind the box.
pub trait Probe<T>: Iterator<Item = T> {
    fn fold_rest(self: Box<Self>, f: &mut dyn FnMut(T));
    fn count_rest(self: Box<Self>) -> usize;
    fn last_rest(self: Box<Self>) -> Option<T>;
    fn collect_rest(self: Box<Self>) -> Vec<T>;
}
impl<T, I: Iterator<Item = T>> Probe<T> for I {
    fn fold_rest(self: Box<Self>, f: &mut dyn FnMut(T)) {
        (*self).for_each(f)
    }
    fn count_rest(self: Box<Self>) -> usize {
        (*self).count()
    }
    fn last_rest(self: Box<Self>) -> Option<T> {
        (*self).last()
    }
    fn collect_rest(self: Box<Self>) -> Vec<T> {
        (*self).collect()
    }
}
pub type C = Complex<f64>;

pub enum S {
    B(Bx<bool>),
    U(Bx<u8>),
    I(Bx<i64>),
    F(Bx<f64>),
    C(Bx<C>),
    N(Bx<[i64; 3]>),
    VI(Bx<Vec<i64>>),
    VB(Bx<Vec<bool>>),
}

fn ci(v: i64) -> i64 {
    v.clamp(-2_000_000_000, 2_000_000_000)
}

fn jc(c: C, sc: f64) -> Value {
    json!([fx(c.re, sc), fx(c.im, sc)])
}

macro_rules! each {
    ($s:expr, $it:ident => $e:expr, $sc:expr) => {
        match $s {
            S::B($it) => $e.map(|v| json!(v as u8)),
            S::U($it) => $e.map(|v| json!(v)),
            S::I($it) => $e.map(|v| json!(ci(v))),
            S::F($it) => $e.map(|v| json!(fx(v, $sc))),
            S::C($it) => $e.map(|v| jc(v, $sc)),
            S::N($it) => $e.map(|v| json!(v.map(ci))),
            S::VI($it) => $e.map(|v| json!(v.into_iter().map(ci).collect::<Vec<_>>())),
            S::VB($it) => $e.map(|v| json!(v.into_iter().map(|b| b as u8).collect::<Vec<_>>())),
        }
    };
}

impl S {
    pub fn next_json(&mut self, sc: f64) -> Option<Value> {
        each!(self, it => it.next(), sc)
    }
    pub fn nth_json(&mut self, k: usize, sc: f64) -> Option<Value> {
        each!(self, it => it.nth(k), sc)
    }
    /// "f": everything through fold; "v": through collect; "l": only the last
    pub fn rest_json(self, how: &str, sc: f64) -> Vec<Value> {
        macro_rules! rest {
            ($it:ident, $v:ident => $e:expr) => {{
                let mut out: Vec<Value> = vec![];
                match how {
                    "f" => $it.fold_rest(&mut |$v| out.push($e)),
                    "v" => out = $it.collect_rest().into_iter().map(|$v| $e).collect(),
                    _ => out = $it.last_rest().into_iter().map(|$v| $e).collect(),
                }
                out
            }};
        }
        match self {
            S::B(i) => rest!(i, v => json!(v as u8)),
            S::U(i) => rest!(i, v => json!(v)),
            S::I(i) => rest!(i, v => json!(ci(v))),
            S::F(i) => rest!(i, v => json!(fx(v, sc))),
            S::C(i) => rest!(i, v => jc(v, sc)),
            S::N(i) => rest!(i, v => json!(v.map(ci))),
            S::VI(i) => rest!(i, v => json!(v.into_iter().map(ci).collect::<Vec<_>>())),
            S::VB(i) => rest!(i, v => json!(v.into_iter().map(|b| b as u8).collect::<Vec<_>>())),
        }
    }
    pub fn count_rest(self) -> usize {
        match self {
            S::B(i) => i.count_rest(),
            S::U(i) => i.count_rest(),
            S::I(i) => i.count_rest(),
            S::F(i) => i.count_rest(),
            S::C(i) => i.count_rest(),
            S::N(i) => i.count_rest(),
            S::VI(i) => i.count_rest(),
            S::VB(i) => i.count_rest(),
        }
    }
    pub fn hint(&self) -> (usize, Option<usize>) {
        match self {
            S::B(i) => i.size_hint(),
            S::U(i) => i.size_hint(),
            S::I(i) => i.size_hint(),
            S::F(i) => i.size_hint(),
            S::C(i) => i.size_hint(),
            S::N(i) => i.size_hint(),
            S::VI(i) => i.size_hint(),
            S::VB(i) => i.size_hint(),
        }
    }
    pub fn next_discard(&mut self) -> bool {
        match self {
            S::B(i) => i.next().is_some(),
            S::U(i) => i.next().is_some(),
            S::I(i) => i.next().is_some(),
            S::F(i) => i.next().is_some(),
            S::C(i) => i.next().is_some(),
            S::N(i) => i.next().is_some(),
            S::VI(i) => i.next().is_some(),
            S::VB(i) => i.next().is_some(),
        }
    }
    pub fn collect_json(&mut self, sc: f64, cap: usize) -> Vec<Value> {
        match self {
            S::B(i) => i.by_ref().take(cap).map(|v| json!(v as u8)).collect(),
            S::U(i) => i.by_ref().take(cap).map(|v| json!(v)).collect(),
            S::I(i) => i.by_ref().take(cap).map(|v| json!(ci(v))).collect(),
            S::F(i) => i.by_ref().take(cap).map(|v| json!(fx(v, sc))).collect(),
            S::C(i) => i.by_ref().take(cap).map(|v| jc(v, sc)).collect(),
            S::N(i) => i.by_ref().take(cap).map(|v| json!(v.map(ci))).collect(),
            S::VI(i) => i.by_ref().take(cap).map(|v| json!(v.into_iter().map(ci).collect::<Vec<_>>())).collect(),
            S::VB(i) => i
                .by_ref()
                .take(cap)
                .map(|v| json!(v.into_iter().map(|b| b as u8).collect::<Vec<_>>()))
                .collect(),
        }
    }
    pub fn collect_bits(&mut self, cap: usize) -> Vec<bool> {
        match self {
            S::B(i) => i.by_ref().take(cap).collect(),
            _ => panic!("driver: not a bit stream"),
        }
    }
    fn b(self) -> Bx<bool> {
        match self {
            S::B(i) => i,
            _ => panic!("driver: bits expected"),
        }
    }
    fn u(self) -> Bx<u8> {
        match self {
            S::U(i) => i,
            _ => panic!("driver: bytes expected"),
        }
    }
    fn i(self) -> Bx<i64> {
        match self {
            S::I(i) => i,
            _ => panic!("driver: ints expected"),
        }
    }
    fn f(self) -> Bx<f64> {
        match self {
            S::F(i) => i,
            _ => panic!("driver: reals expected"),
        }
    }
    fn c(self) -> Bx<C> {
        match self {
            S::C(i) => i,
            _ => panic!("driver: complexes expected"),
        }
    }
    fn n(self) -> Bx<[i64; 3]> {
        match self {
            S::N(i) => i,
            _ => panic!("driver: triples expected"),
        }
    }
}

struct Counted<T> {
    v: Vec<T>,
    pos: usize,
    cyc: bool,
    cap: usize,
    n: Rc<Cell<usize>>,
}
impl<T: Clone> Iterator for Counted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.pos >= self.v.len() && (!self.cyc || self.v.is_empty()) {
            return None;
        }
        if self.pos > self.cap {
            panic!("runaway consumption of an endless source");
        }
        let x = self.v[self.pos % self.v.len()].clone();
        self.pos += 1;
        self.n.set(self.n.get() + 1);
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.cyc && !self.v.is_empty() {
            (usize::MAX, None)
        } else {
            let left = self.v.len() - self.pos.min(self.v.len());
            (left, Some(left))
        }
    }
}

pub fn us(v: &Value, k: &str) -> usize {
    v.get(k).and_then(Value::as_u64).unwrap_or_else(|| panic!("driver: no {k} in {v}")) as usize
}
/// Rational parameter: an integer, or [num, den].
pub fn rat(v: &Value, k: &str) -> f64 {
    let x = &v[k];
    if let Some(a) = x.as_array() {
        a[0].as_f64().unwrap() / a[1].as_f64().unwrap()
    } else {
        x.as_f64().unwrap_or_else(|| panic!("driver: no {k} in {v}"))
    }
}
pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
pub fn bools(v: &Value) -> Vec<bool> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() != 0).collect()
}
fn scale_of(v: &Value) -> f64 {
    v.get("sc").and_then(Value::as_f64).unwrap_or(1.0)
}
pub fn reals(v: &Value, sc: f64) -> Vec<f64> {
    ints(v).into_iter().map(|x| x as f64 / sc).collect()
}
pub fn complexes(v: &Value, sc: f64) -> Vec<C> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|p| C::new(p[0].as_f64().unwrap() / sc, p[1].as_f64().unwrap() / sc))
        .collect()
}
pub fn unpack(n: usize, w: &[i64]) -> Vec<bool> {
    (0..n).map(|i| (w[i / 24] >> (i % 24)) & 1 == 1).collect()
}
fn leak(v: Vec<bool>) -> &'static [bool] {
    Box::leak(v.into_boxed_slice())
}
fn key(p: &Value) -> &'static [bool] {
    if let Some(w) = p.get("walsh") {
        // [order, index]: take the key from the crate's own code family.
        let h = hadamard::HadamardMatrix::new(w[0].as_u64().unwrap() as usize);
        leak(h.key(w[1].as_u64().unwrap() as usize).clone())
    } else {
        leak(bools(&p["key"]))
    }
}

pub fn source(v: &Value, n: Rc<Cell<usize>>) -> S {
    let cap = v.get("cap").and_then(Value::as_u64).unwrap_or(20_000_000) as usize;
    let cyc = v.get("cyc").and_then(Value::as_bool).unwrap_or(false);
    macro_rules! src {
        ($var:ident, $data:expr) => {
            S::$var(Box::new(Counted { v: $data, pos: 0, cyc, cap, n }))
        };
    }
    let sc = scale_of(v);
    match v["k"].as_str().unwrap() {
        "bits" => src!(B, bools(&v["v"])),
        "pb" => src!(B, unpack(us(v, "n"), &ints(&v["w"]))),
        "u8" => src!(U, ints(&v["v"]).into_iter().map(|x| x as u8).collect()),
        "i" => src!(I, ints(&v["v"])),
        "f" => src!(F, reals(&v["v"], sc)),
        "c" => src!(C, complexes(&v["v"], sc)),
        "n" => src!(
            N,
            v["v"]
                .as_array()
                .unwrap()
                .iter()
                .map(|t| {
                    let t = ints(t);
                    [t[0], t[1], t[2]]
                })
                .collect()
        ),
        "mix" => {
            let mut parts: Vec<(f64, Bx<f64>)> = v["of"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| {
                    let g = p.get("g").and_then(Value::as_f64).unwrap_or(1.0);
                    (g, build(source(&p["src"], n.clone()), &p["st"]).f())
                })
                .collect();
            S::F(Box::new(std::iter::from_fn(move || {
                let mut any = false;
                let mut sum = 0f64;
                for (g, p) in parts.iter_mut() {
                    if let Some(x) = p.next() {
                        any = true;
                        sum += *g * x;
                    }
                }
                any.then_some(sum)
            })))
        }
        "none" => S::B(Box::new(std::iter::empty())),
        k => panic!("driver: unknown source {k}"),
    }
}

pub fn build(s: S, st: &Value) -> S {
    let mut s = s;
    for p in st.as_array().unwrap() {
        s = apply(p, s);
    }
    s
}

fn apply(p: &Value, s: S) -> S {
    let op = p["op"].as_str().unwrap();
    let fs = || us(p, "fs");
    let sr = || us(p, "sr");
    let fc = || rat(p, "fc");
    macro_rules! B { ($e:expr) => { S::B(Box::new($e)) }; }
    macro_rules! F { ($e:expr) => { S::F(Box::new($e)) }; }
    macro_rules! CC { ($e:expr) => { S::C(Box::new($e)) }; }
    match op {
        // ---- PSK
        "tx_bb_bpsk" => CC!(bpsk::tx_baseband_bpsk_signal(s.b())),
        "rx_bb_bpsk" => B!(bpsk::rx_baseband_bpsk_signal(s.c())),
        "tx_bpsk" => F!(bpsk::tx_bpsk_signal(s.b(), fs(), sr(), fc())),
        "rx_bpsk" => B!(bpsk::rx_bpsk_signal(s.f(), fs(), sr(), fc())),
        "tx_bb_qpsk" => CC!(qpsk::tx_baseband_qpsk_signal(s.b())),
        "rx_bb_qpsk" => B!(qpsk::rx_baseband_qpsk_signal(s.c())),
        "tx_qpsk" => F!(qpsk::tx_qpsk_signal(s.b(), fs(), sr(), fc())),
        "rx_qpsk" => B!(qpsk::rx_qpsk_signal(s.f(), fs(), sr(), fc())),
        // ---- CDMA
        "tx_bb_cdma" => B!(cdma::tx_baseband_cdma(s.b(), key(p))),
        "rx_bb_cdma" => B!(cdma::rx_baseband_cdma(s.b(), key(p))),
        "tx_cdma_bpsk" => F!(cdma::tx_cdma_bpsk_signal(s.b(), fs(), sr(), fc(), key(p))),
        "rx_cdma_bpsk" => B!(cdma::rx_cdma_bpsk_signal(s.f(), fs(), sr(), fc(), key(p))),
        "tx_cdma_qpsk" => F!(cdma::tx_cdma_qpsk_signal(s.b(), fs(), sr(), fc(), key(p))),
        "rx_cdma_qpsk" => B!(cdma::rx_cdma_qpsk_signal(s.f(), fs(), sr(), fc(), key(p))),
        "tx_coded_cdma" => F!(cdma::tx_coded_cdma_bpsk_signal(s.b(), fs(), sr(), fc(), key(p))),
        "rx_coded_cdma" => B!(cdma::rx_coded_cdma_bpsk_signal(s.f(), fs(), sr(), fc(), key(p))),
        // ---- coding
        "bch_enc" => B!(verif_hooks::bch_stream_encode(s.b())),
        "bch_dec" => B!(verif_hooks::bch_stream_decode(s.b())),
        "bits2bytes" => S::U(Box::new(verif_hooks::bools_to_u8s(s.b()))),
        "bytes2bits" => B!(verif_hooks::u8s_to_bools(s.u())),
        // ---- hopping
        "tx_fh_bpsk" => F!(fh::tx_fh_bpsk_signal(s.b(), rat(p, "lo"), rat(p, "hi"), us(p, "nf"), fs(), sr())),
        "rx_fh_bpsk" => B!(fh::rx_fh_bpsk_signal(s.f(), rat(p, "lo"), rat(p, "hi"), us(p, "nf"), fs(), sr())),
        "tx_fh_bpsk_old" => F!(fh::tx_fh_bpsk_signal_old(
            s.b(), rat(p, "lo"), rat(p, "hi"), us(p, "nf"), fs(), sr(), fc())),
        "hop_table" => F!(verif_hooks::hop_table(rat(p, "lo"), rat(p, "hi"), us(p, "nf"), us(p, "seed") as u64)),
        "tx_fh_css" => F!(fh_css::tx_fh_css_signal(s.b(), fs(), sr(), rat(p, "lo"), rat(p, "hi"), us(p, "nf"))),
        "chirp" => F!(fh_css::linear_chirp(rat(p, "rate"), fs(), rat(p, "f0"), rat(p, "f1"))),
        "upchirp" => F!(fh_css::linear_upchirp_centered(rat(p, "rate"), fc(), rat(p, "bw"), fs())),
        "downchirp" => F!(fh_css::linear_downchirp_centered(rat(p, "rate"), fc(), rat(p, "bw"), fs())),
        // ---- OFDM
        "tx_bb_ofdm" => CC!(ofdm::tx_baseband_ofdm_signal(s.c(), us(p, "sub"), us(p, "pil"))),
        "rx_bb_ofdm" => CC!(ofdm::rx_baseband_ofdm_signal(s.c(), us(p, "sub"), us(p, "pil"))),
        "tx_ofdm" => F!(ofdm::tx_ofdm_qpsk_signal(s.b(), us(p, "sub"), us(p, "pil"), fs(), sr(), fc())),
        "rx_ofdm" => B!(ofdm::rx_ofdm_qpsk_signal(s.f(), us(p, "sub"), us(p, "pil"), fs(), sr(), fc())),
        // ---- chaos
        "tx_csk" => F!(csk::tx_baseband_csk(s.b())),
        "rx_csk" => B!(verif_hooks::rx_baseband_csk(s.f())),
        "tx_dcsk" => F!(dcsk::tx_baseband_dcsk(s.b())),
        "rx_dcsk" => B!(dcsk::rx_baseband_dcsk(s.f())),
        "logistic" => F!(chaos::LogisticMap::new(rat(p, "mu"), rat(p, "x0"))),
        "chebyshev" => F!(chaos::Chebyshev::new(rat(p, "x0"))),
        "tx_bb_fod" => CC!(fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal(s.b())),
        "rx_bb_fod" => B!(fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal(s.c())),
        "tx_fod" => F!(fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal(
            s.b(), rat(p, "lo"), rat(p, "hi"), us(p, "nf"), fs(), sr())),
        "tx_fod2" => F!(fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2(s.b(), fs(), sr(), fc())),
        // ---- FSK / FM
        "tx_bfsk" => F!(fsk::tx_bfsk_signal(s.b(), fs(), sr(), rat(p, "lo"), rat(p, "hi"))),
        "tx_mfsk" => F!(fsk::tx_mfsk_signal(s.b(), fs(), sr(), rat(p, "lo"), rat(p, "hi"), us(p, "nf"))),
        "tx_fsk" => {
            let fr = [rat(p, "hi"), rat(p, "lo")];
            F!(tx_fsk_owned(s.b(), fs(), sr(), fr))
        }
        "tx_fmfsk" => F!(fm::tx_fsk(s.b(), fs(), sr(), fc())),
        "rx_fmfsk" => B!(fm::rx_fsk(s.f(), fs(), sr(), fc())),
        "tx_fm" => F!(fm::tx_fm(s.f(), fs(), sr(), fc())),
        // ---- filters
        "bandpass" => F!(bpf::bandpass(rat(p, "lo"), rat(p, "hi"), s.f(), fs(), us(p, "len"))),
        "butterpass" => F!(bpf::butterpass(rat(p, "lo"), rat(p, "hi"), s.f(), fs())),
        "awgn" => F!(awgn(s.f(), rat(p, "sigma"))),
        "awgn_c" => CC!(awgn_complex(s.c(), rat(p, "sigma"))),
        // ---- adaptors
        "chunks" => match s {
            S::B(i) => S::VB(Box::new(i.chunks(us(p, "n")))),
            _ => S::VI(Box::new(s.i().chunks(us(p, "n")))),
        },
        "wchunks" => match s {
            S::B(i) => S::VB(Box::new(i.wchunks(us(p, "n")))),
            _ => S::VI(Box::new(s.i().wchunks(us(p, "n")))),
        },
        "inflate" => match s {
            S::B(i) => B!(i.inflate(us(p, "n"))),
            S::F(i) => F!(i.inflate(us(p, "n"))),
            S::C(i) => CC!(i.inflate(us(p, "n"))),
            _ => S::I(Box::new(s.i().inflate(us(p, "n")))),
        },
        // an inflated stream forked by cloning after k outputs: the first goes on to its end, then the clone
        "inflate_fork" => {
            let n = us(p, "n");
            let k = us(p, "k");
            let all: Vec<i64> = s.i().collect();
            let mut a = all.into_iter().inflate(n);
            let head: Vec<i64> = a.by_ref().take(k).collect();
            let b = a.clone();
            S::I(Box::new(head.into_iter().chain(a).chain(b)))
        }
        "inflate_cycle" => {
            let all: Vec<i64> = s.i().collect();
            S::I(Box::new(all.into_iter().inflate(us(p, "n")).cycle()))
        }
        "take_every" => match s {
            S::B(i) => B!(i.take_every(us(p, "n"))),
            S::F(i) => F!(i.take_every(us(p, "n"))),
            _ => S::I(Box::new(s.i().take_every(us(p, "n")))),
        },
        "scale" => match s {
            S::F(i) => F!(i.scale(rat(p, "g"))),
            _ => CC!(s.c().scale(rat(p, "g"))),
        },
        "integrate" => match s {
            S::F(i) => F!(i.integrate()),
            S::C(i) => CC!(i.integrate()),
            _ => S::I(Box::new(s.i().integrate())),
        },
        "nintegrate" => S::N(Box::new(s.n().nintegrate())),
        "intdump" => match s {
            S::F(i) => F!(i.integrate_and_dump(us(p, "n"))),
            S::C(i) => CC!(i.integrate_and_dump(us(p, "n"))),
            _ => S::I(Box::new(s.i().integrate_and_dump(us(p, "n")))),
        },
        "nintdump" => S::N(Box::new(s.n().nintegrate_and_dump(us(p, "n")))),
        "convolve" => match s {
            S::F(i) => F!(i.convolve(reals(&p["h"], scale_of(p)))),
            _ => S::I(Box::new(s.i().convolve(ints(&p["h"])))),
        },
        "nonvolve" => S::N(Box::new(s.n().nonvolve(ints(&p["h"])))),
        "linspace" => F!(linspace(rat(p, "lo"), rat(p, "hi"), us(p, "n"))),
        // ---- channel stages (driver side, not code under test)
        "ch_flip" => {
            let at: std::collections::HashSet<i64> = ints(&p["at"]).into_iter().collect();
            B!(s.b().enumerate().map(move |(i, b)| b ^ at.contains(&(i as i64))))
        }
        "ch_trunc" => {
            let n = us(p, "n");
            match s {
                S::B(i) => B!(i.take(n)),
                S::F(i) => F!(i.take(n)),
                S::C(i) => CC!(i.take(n)),
                _ => S::I(Box::new(s.i().take(n))),
            }
        }
        "ch_gain" => {
            let g = rat(p, "g");
            match s {
                S::C(i) => CC!(i.map(move |x| x * g)),
                _ => F!(s.f().map(move |x| x * g)),
            }
        }
        "ch_bgain" => {
            // block k (of n samples) multiplied by 2^e[k]: decisions within a block must not change
            let n = us(p, "n");
            let g: Vec<f64> = ints(&p["e"]).into_iter().map(|e| 2f64.powi(e as i32)).collect();
            match s {
                S::C(i) => CC!(i.enumerate().map(move |(k, x)| x * g[k / n % g.len()])),
                _ => F!(s.f().enumerate().map(move |(k, x)| x * g[k / n % g.len()])),
            }
        }
        "ch_add" => {
            let v = reals(&p["v"], scale_of(p));
            match s {
                S::C(i) => CC!(i.enumerate().map(move |(k, x)| x + C::new(v[(2 * k) % v.len()], v[(2 * k + 1) % v.len()]))),
                _ => F!(s.f().enumerate().map(move |(i, x)| x + v[i % v.len()])),
            }
        }
        "ch_frames" => {
            // eight spectrum lines (re, im, power of two) at a time, from the lowest frequency, as ten samples
            let v: Vec<[i64; 3]> = s.n().collect();
            let out: Vec<C> = v
                .chunks(8)
                .flat_map(|l| {
                    (0..10).map(move |t| {
                        (0..8)
                            .map(|i| {
                                let w = C::from_polar(0.125, std::f64::consts::PI * (((i + 4) % 8 * ((t + 6) % 8)) % 8) as f64 / 4.0);
                                C::new(l[i][0] as f64, l[i][1] as f64) * 2f64.powi(l[i][2] as i32) * w
                            })
                            .sum::<C>()
                    })
                })
                .collect();
            CC!(out.into_iter())
        }
        "ch_neg" => {
            // invert the samples whose index is listed
            let at: std::collections::HashSet<i64> = ints(&p["at"]).into_iter().collect();
            F!(s.f().enumerate().map(move |(i, x)| if at.contains(&(i as i64)) { -x } else { x }))
        }
        "ch_c2f" => F!(s.c().map(|c| c.re)),
        _ => panic!("driver: unknown op {op}"),
    }
}

fn tx_fsk_owned(m: Bx<bool>, fs: usize, sr: usize, fr: [f64; 2]) -> impl Iterator<Item = f64> {
    let fr: &'static [f64] = Box::leak(fr.to_vec().into_boxed_slice());
    fsk::tx_fsk_signal(m, fs, sr, fr)
}
