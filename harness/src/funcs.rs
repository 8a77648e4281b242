//! Plain functions of the crate under test.
use crate::blocks::*;
use crate::fx;
use crate::verif_hooks;
use komunikilo::*;
use serde_json::{json, Value};

pub fn call(req: &Value) -> Value {
    let a = &req["a"];
    let osc = req.get("osc").and_then(Value::as_f64).unwrap_or(1e6);
    let sc = a.get("sc").and_then(Value::as_f64).unwrap_or(1.0);
    // The same signal 2^e times as strong; the function is quadratic in it.
    let e = 2f64.powf(req.get("e").and_then(Value::as_f64).unwrap_or(0.0));
    let (sc, osc) = (sc / e, osc / (e * e));
    match req["fn"].as_str().unwrap() {
        "hadamard" => {
            let n = us(a, "n");
            let h = hadamard::HadamardMatrix::new(n);
            let keys: Vec<Vec<u8>> = ints(&a["idx"])
                .into_iter()
                .map(|i| h.key(i as usize).iter().map(|&b| b as u8).collect())
                .collect();
            json!(keys)
        }
        "hadamard_display" => {
            let h = hadamard::HadamardMatrix::new(us(a, "n"));
            let rows: Vec<Vec<u8>> = format!("{h}")
                .lines()
                .map(|l| l.split_whitespace().map(|t| if t == "T" { 1 } else { 0 }).collect())
                .collect();
            json!(rows)
        }
        "bool_to_u8" => json!(verif_hooks::bool_to_u8(&bools(&a["v"]))),
        "u8_to_bools" => json!(verif_hooks::u8_to_bools(us(a, "v") as u8).iter().map(|&b| b as u8).collect::<Vec<_>>()),
        "fftshift" => json!(verif_hooks::fftshift(&ints(&a["v"]))),
        "fftshift_mut" => {
            let mut v = ints(&a["v"]);
            verif_hooks::fftshift_mut(&mut v);
            json!(v)
        }
        "ber" => json!(fx(ber(&bools(&a["x"]), &bools(&a["y"])), osc)),
        "ber_runs" => {
            let (mut tx, mut rx) = (vec![], vec![]);
            for s in a["s"].as_array().unwrap() {
                let s = ints(s);
                tx.extend(std::iter::repeat(s[0] != 0).take(s[2] as usize));
                rx.extend(std::iter::repeat(s[1] != 0).take(s[2] as usize));
            }
            json!(fx(ber(&tx, &rx), osc))
        }
        "energy" => json!(fx(energy(reals(&a["x"], sc).into_iter(), rat(a, "fs")), osc)),
        "power" => json!(fx(power(reals(&a["x"], sc).into_iter(), rat(a, "fs")), osc)),
        "avg_energy" => json!(fx(avg_energy(&reals(&a["x"], sc)), osc)),
        "bit_to_nrz" => json!(fx(bit_to_nrz(us(a, "b") != 0), osc)),
        "erf" | "erfc" => {
            let f = if req["fn"] == "erf" { erf } else { erfc };
            json!(ints(&a["n"]).iter().map(|&n| fx(f(n as f64 / 65536.0), osc)).collect::<Vec<_>>())
        }
        "erf_far" => json!(a["v"]
            .as_array()
            .unwrap()
            .iter()
            .map(|t| {
                let t = ints(t);
                let x = t[0] as f64 * 2f64.powi(t[1] as i32);
                [fx(erf(x), osc), fx(erfc(x), osc)]
            })
            .collect::<Vec<_>>()),
        "db" => json!(fx(db(rat(a, "x")), osc)),
        "undb" => json!(fx(undb(rat(a, "x")), osc)),
        "db_ten" => {
            let e = a["e"].as_i64().unwrap() as i32;
            json!([fx(db(10f64.powi(e)), osc), fx(undb(10.0 * e as f64), osc)])
        }
        "db_rt" => {
            let (x, y) = (a["x"].as_f64().unwrap() / 1e6, a["y"].as_f64().unwrap() / 1e6);
            json!([fx(undb(db(x)), osc), fx(db(undb(y)), osc), fx(db(x) + db(1.0 / x), osc)])
        }
        "linspace" => json!(linspace(rat(a, "lo"), rat(a, "hi"), us(a, "n")).map(|x| fx(x, osc)).collect::<Vec<_>>()),
        "hamming" => json!(hamming_window(us(a, "n")).into_iter().map(|x| fx(x, osc)).collect::<Vec<_>>()),
        "hamming_c" => json!(hamming_window_complex(us(a, "n"))
            .into_iter()
            .map(|x| vec![fx(x.re, osc), fx(x.im, osc)])
            .collect::<Vec<_>>()),
        "ssca_base" | "ssca_mapped" => {
            let x = reals(&a["x"], sc);
            let m = if req["fn"] == "ssca_base" {
                ssca::ssca_base(x, us(a, "n"), us(a, "np"))
            } else {
                ssca::ssca_mapped(x, us(a, "n"), us(a, "np"))
            };
            let rows: Vec<Vec<[i64; 2]>> =
                m.rows().into_iter().map(|r| r.iter().map(|c| [fx(c.re, osc), fx(c.im, osc)]).collect()).collect();
            json!(rows)
        }
        "ssca_at" => {
            let m = ssca::ssca_base(reals(&a["x"], sc), us(a, "n"), us(a, "np"));
            let at = a["at"].as_array().unwrap();
            json!(at
                .iter()
                .map(|p| {
                    let c = m[[p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize]];
                    [fx(c.re, osc), fx(c.im, osc)]
                })
                .collect::<Vec<_>>())
        }
        // equality of the mapped entries with the base ones, bit for bit: both tables as
        // indices into the list of distinct values of the base table
        "ssca_pair" => {
            let x = reals(&a["x"], sc);
            let (n, np) = (us(a, "n"), us(a, "np"));
            let base = ssca::ssca_base(x.clone(), n, np);
            let mapped = ssca::ssca_mapped(x, n, np);
            let close = |p: C, q: C| (p - q).norm() <= 1e-9 * (1.0 + q.norm());
            // for each nonzero mapped cell list [row, col, q', k'] of the base cell it equals
            let mut cells = vec![];
            for ((k, q), &v) in mapped.indexed_iter() {
                if v.norm() > 1e-12 {
                    let hits: Vec<[usize; 2]> =
                        base.indexed_iter().filter(|(_, &b)| close(b, v)).map(|((qp, kp), _)| [qp, kp]).collect();
                    cells.push(json!([k, q, hits]));
                }
            }
            let small: Vec<[usize; 2]> =
                base.indexed_iter().filter(|(_, &b)| b.norm() <= 1e-12).map(|((qp, kp), _)| [qp, kp]).collect();
            json!({"shape": [mapped.nrows(), mapped.ncols()], "bshape": [base.nrows(), base.ncols()],
                   "cells": cells, "small": small})
        }
        "tent" => json!(fx(chaos::tent_map(rat(a, "mu"), rat(a, "x")), osc)),
        "bernoulli" => json!(fx(chaos::bernoulli_map(rat(a, "mu"), rat(a, "x")), osc)),
        "logistic" => json!(fx(chaos::logistic_map(rat(a, "mu"), rat(a, "x")), osc)),
        "chebyshev" => json!(fx(chaos::chebyshev(rat(a, "x")), osc)),
        // extremes of the first n values of an orbit, and how many were not finite
        "orbit_ext" => {
            let n = us(a, "n");
            let it: Bx<f64> = match a["map"].as_str().unwrap() {
                "logistic" => Box::new(chaos::LogisticMap::new(rat(a, "mu"), rat(a, "x0"))),
                _ => Box::new(chaos::Chebyshev::new(rat(a, "x0"))),
            };
            let (mut lo, mut hi, mut bad, mut len) = (f64::INFINITY, f64::NEG_INFINITY, 0, 0);
            for v in it.take(n) {
                len += 1;
                if v.is_finite() {
                    lo = lo.min(v);
                    hi = hi.max(v);
                } else {
                    bad += 1;
                }
            }
            json!([fx(lo, osc), fx(hi, osc), bad + n - len])
        }
        "no_nans" => {
            let v: Vec<f64> = a["v"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| match x.as_str() {
                    Some("nan") => f64::NAN,
                    Some("inf") => f64::INFINITY,
                    Some("ninf") => f64::NEG_INFINITY,
                    _ => x.as_f64().unwrap(),
                })
                .collect();
            json!(verif_hooks::no_nans(&v) as u8)
        }
        "is_int" => json!(verif_hooks::is_int(rat(a, "x")) as u8),
        f => panic!("driver: unknown function {f}"),
    }
}
