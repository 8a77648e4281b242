//! Conformance driver: executes scenarios against the real komunikilo crate and
//! logs what happened as JSON, one record per scenario.  No judgement is made
//! here: every verdict comes from TLC, which reads this log.
mod blocks;
#[cfg(komunikilo_verif)]
use komunikilo::verif_hooks;
#[cfg(not(komunikilo_verif))]
mod verif_hooks; // stand-ins, for a tree whose hooks do not compile
mod funcs;

use blocks::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub const NONFINITE: i64 = 2_000_000_001;
const CAP: usize = 4_000_000;

pub fn fx(x: f64, sc: f64) -> i64 {
    let y = (x * sc).round();
    if !y.is_finite() {
        NONFINITE
    } else if y > 2.0e9 {
        2_000_000_000
    } else if y < -2.0e9 {
        -2_000_000_000
    } else {
        y as i64
    }
}

pub fn pack(bits: &[bool]) -> Value {
    let words: Vec<u32> = bits
        .chunks(24)
        .map(|c| c.iter().enumerate().fold(0u32, |a, (i, &b)| a | ((b as u32) << i)))
        .collect();
    json!(words)
}

fn ev(t: &str, k: usize, n: usize, o: Value, c: usize, end: bool) -> Value {
    json!({"t": t, "k": k, "n": n, "o": o, "c": c, "end": end})
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// One chain being driven: its log grows with every schedule item.
struct Runner {
    osc: f64,
    count: Rc<Cell<usize>>,
    evs: Vec<Value>,
    text: String,
    chain: Option<S>,
}

impl Runner {
    fn new(req: &Value) -> Runner {
        let mut r = Runner {
            osc: req.get("osc").and_then(Value::as_f64).unwrap_or(1e6),
            count: Rc::new(Cell::new(0)),
            evs: vec![],
            text: String::new(),
            chain: None,
        };
        let c2 = r.count.clone();
        match catch_unwind(AssertUnwindSafe(|| build(source(&req["src"], c2), &req["st"]))) {
            Err(e) => r.panicked(0, e),
            Ok(s) => {
                r.evs.push(ev("new", 0, 0, json!([]), r.count.get(), false));
                r.chain = Some(s);
            }
        }
        r
    }
    fn panicked(&mut self, k: usize, e: Box<dyn std::any::Any + Send>) {
        self.text = panic_text(e);
        self.evs.push(ev("panic", k, 0, json!([]), self.count.get(), false));
        self.drop_chain();
    }
    fn item(&mut self, item: &Value) {
        let t = item[0].as_str().unwrap();
        let k = item.get(1).and_then(Value::as_u64).unwrap_or(0) as usize;
        let (osc, count) = (self.osc, self.count.clone());
        if matches!(t, "f" | "v" | "l" | "c") {
            let Some(s) = self.chain.take() else { return };
            match catch_unwind(AssertUnwindSafe(move || rest(s, t, osc, &count))) {
                Ok(v) => self.evs.push(v),
                Err(e) => self.panicked(k, e),
            }
            return;
        }
        let Some(s) = self.chain.as_mut() else { return };
        match catch_unwind(AssertUnwindSafe(|| step(s, t, k, osc, &count))) {
            Ok(v) => self.evs.push(v),
            Err(e) => self.panicked(k, e),
        }
    }
    fn drop_chain(&mut self) {
        // A destructor of the code under test must not take the driver down.
        let c = self.chain.take();
        let _ = catch_unwind(AssertUnwindSafe(move || drop(c)));
    }
    fn finish(mut self) -> Value {
        self.drop_chain();
        json!({"ev": self.evs, "text": self.text})
    }
}

fn run_stream(req: &Value) -> Value {
    let mut r = Runner::new(req);
    for item in req["sched"].as_array().unwrap_or(&vec![]) {
        r.item(item);
    }
    r.finish()
}

/// Several chains alive in one thread: "il" lists which one executes its next schedule item
/// (its first turn constructs it); afterwards every chain finishes its schedule in order.
fn run_together(req: &Value) -> Value {
    let reqs = req["together"].as_array().unwrap();
    let mut live: Vec<Option<Runner>> = reqs.iter().map(|_| None).collect();
    let mut at = vec![0usize; reqs.len()];
    fn turn(q: &Value, r: &mut Option<Runner>, at: &mut usize) -> bool {
        let sched = q["sched"].as_array().unwrap();
        match r {
            None => *r = Some(Runner::new(q)),
            Some(run) if *at < sched.len() => {
                run.item(&sched[*at]);
                *at += 1;
            }
            _ => return false,
        }
        true
    }
    for j in req["il"].as_array().unwrap() {
        let j = j.as_u64().unwrap() as usize;
        turn(&reqs[j], &mut live[j], &mut at[j]);
    }
    for j in 0..reqs.len() {
        while turn(&reqs[j], &mut live[j], &mut at[j]) {}
    }
    let v: Vec<Value> = live.into_iter().map(|r| r.unwrap().finish()).collect();
    json!({"all": v, "text": "", "ev": []})
}

/// Items that use the chain up through the methods of its concrete type.
fn rest(s: S, t: &str, osc: f64, count: &Rc<Cell<usize>>) -> Value {
    if t == "c" {
        let n = s.count_rest();
        return ev("c", 0, n, json!([]), count.get(), true);
    }
    let out = s.rest_json(t, osc);
    let n = if t == "l" { 0 } else { out.len() };
    ev(t, 0, n, json!(out), count.get(), true)
}

fn step(s: &mut S, t: &str, k: usize, osc: f64, count: &Rc<Cell<usize>>) -> Value {
    let mut out: Vec<Value> = vec![];
    let mut n = 0;
    let mut end = false;
    match t {
        // pull k outputs and log them
        "p" => {
            while n < k {
                match s.next_json(osc) {
                    Some(v) => {
                        out.push(v);
                        n += 1;
                    }
                    None => {
                        end = true;
                        break;
                    }
                }
            }
            ev("p", k, n, json!(out), count.get(), end)
        }
        // what the chain says about the number of outputs left (-1: no upper bound)
        "h" => {
            let (lo, hi) = s.hint();
            let cut = |x: usize| x.min(1_000_000_000) as i64;
            ev("h", 0, 0, json!([cut(lo), hi.map(cut).unwrap_or(-1)]), count.get(), false)
        }
        // the same, but through Iterator::nth(k): skips k outputs and logs one
        "n" => {
            match s.nth_json(k, osc) {
                Some(v) => {
                    out.push(v);
                    n = k + 1;
                }
                None => end = true,
            }
            ev("n", k, n, json!(out), count.get(), end)
        }
        // pull k outputs, log only how many came
        "s" => {
            while n < k {
                if s.next_discard() {
                    n += 1;
                } else {
                    end = true;
                    break;
                }
            }
            ev("s", k, n, json!([]), count.get(), end)
        }
        // pull everything (through collect, i.e. with size_hint), log it
        "a" => {
            let all = s.collect_json(osc, CAP);
            n = all.len();
            ev("a", 0, n, json!(all), count.get(), n < CAP)
        }
        // pull everything, log only the number
        "z" => {
            while n < CAP && s.next_discard() {
                n += 1;
            }
            ev("z", 0, n, json!([]), count.get(), n < CAP)
        }
        // pull all the bits, log them packed 24 to a word
        "b" => {
            let bits = s.collect_bits(CAP);
            n = bits.len();
            ev("b", 0, n, pack(&bits), count.get(), n < CAP)
        }
        // poll k more times after the end
        "x" => {
            for _ in 0..k {
                if s.next_discard() {
                    n += 1;
                }
            }
            ev("x", k, n, json!([]), count.get(), true)
        }
        _ => panic!("driver: unknown schedule item {t}"),
    }
}

fn handle(line: &str) -> Value {
    let req: Value = serde_json::from_str(line).expect("driver: bad request");
    let mut res = if req.get("fn").is_some() {
        match catch_unwind(AssertUnwindSafe(|| funcs::call(&req))) {
            Ok(v) => json!({"res": v, "panic": false, "text": ""}),
            Err(e) => json!({"res": [], "panic": true, "text": panic_text(e)}),
        }
    } else if req.get("together").is_some() {
        run_together(&req)
    } else {
        run_stream(&req)
    };
    res["id"] = req["id"].clone();
    res
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::File::open(&args[1]).expect("open input");
    let lines: Vec<String> = std::io::BufReader::new(input).lines().map(|l| l.unwrap()).collect();
    let limit: u64 = args.get(3).and_then(|t| t.parse().ok()).unwrap_or(20);
    let lines = std::sync::Arc::new(lines);
    let results: std::sync::Arc<Mutex<Vec<(usize, String)>>> = Default::default();
    // what each worker is doing since when (a scenario that never returns is reported as hung,
    // the ones behind it as not run)
    let busy: std::sync::Arc<Mutex<Vec<Option<(usize, std::time::Instant)>>>> =
        std::sync::Arc::new(Mutex::new(vec![None; 8]));
    let next = std::sync::Arc::new(AtomicUsize::new(0));
    let done = std::sync::Arc::new(AtomicUsize::new(0));
    for w in 0..8 {
        let (lines, results, busy, next, done) = (lines.clone(), results.clone(), busy.clone(), next.clone(), done.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= lines.len() {
                        break;
                    }
                    busy.lock().unwrap()[w] = Some((i, std::time::Instant::now()));
                    let v = handle(&lines[i]).to_string();
                    results.lock().unwrap().push((i, v));
                    busy.lock().unwrap()[w] = None;
                }
                done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    let mut hung = vec![];
    while done.load(Ordering::SeqCst) < 8 {
        std::thread::sleep(std::time::Duration::from_millis(5));
        let late = |b: &Option<(usize, std::time::Instant)>| b.filter(|(_, t)| t.elapsed().as_secs() >= limit).map(|(i, _)| i);
        if busy.lock().unwrap().iter().any(|b| late(b).is_some()) {
            next.store(lines.len(), Ordering::SeqCst);
            std::thread::sleep(std::time::Duration::from_secs(limit.min(5)));
            hung = busy.lock().unwrap().iter().filter_map(late).collect();
            break;
        }
    }
    let mut r = std::mem::take(&mut *results.lock().unwrap());
    for i in hung {
        let id = serde_json::from_str::<Value>(&lines[i]).unwrap()["id"].clone();
        r.push((i, json!({"id": id, "hang": true}).to_string()));
    }
    r.sort();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("create output"));
    for (_, v) in r {
        writeln!(out, "{v}").unwrap();
    }
    out.flush().unwrap();
    drop(out);
    std::process::exit(0);
}
