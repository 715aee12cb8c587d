//! Histories of handles, tapes, contexts, gradients and steps on the real library (G02, G03, G04, T08).
use crate::replay::{drive, guarded};
use crate::val::read;
use hodu_core::tensor::{tensor_count, GradientContext, Tensor};
use hodu_core::types::DType;
use hodu_nn::prelude::*;
use serde_json::{json, Value};
use std::sync::mpsc;

struct World {
    loose: bool,
    d: DType,
    h: Vec<Option<Tensor>>,
    stk: Vec<GradientContext>,
}

fn make(v: &Value, d: DType) -> Tensor {
    let v: Vec<f64> = v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect();
    match d {
        DType::F64 => Tensor::new(v).unwrap(),
        _ => Tensor::new(v.iter().map(|x| *x as f32).collect::<Vec<f32>>()).unwrap(),
    }
}

fn op(f: &str, x: &Tensor, y: Option<&Tensor>) -> hodu_core::error::HoduResult<Tensor> {
    let k = |v: f64| crate::ops::scalar_same(v, x.dtype());
    match f {
        "neg" => x.neg(),
        "mul3" => x.mul_scalar(k(3.0)),
        "rev" => x.flip(&[0]),
        "swap" => {
            let parts = x.split(&[1usize, 1], 0)?;
            Tensor::concat(&[&parts[1], &parts[0]], 0)
        },
        "same" => x.reshape(&[2]),
        "half2" => x.mul_scalar(k(2.0))?.mul_scalar(k(0.5)),
        "pick" => x.slice(0, 0, Some(1), 1)?.broadcast(&[2]),
        "cube" => x.mul(x)?.mul(x),
        "sign" => x.sign(),
        "bad" => {
            let all = Tensor::new(vec![true, true])?;
            x.div_scalar(k(0.0))?.masked_fill(&all, k(5.0))
        },
        "add" => x.add(y.unwrap()),
        "sub" => x.sub(y.unwrap()),
        "mul" => x.mul(y.unwrap()),
        "fma" => x.mul(y.unwrap())?.add(x),
        o => panic!("harness: life op {o}"),
    }
}

impl World {
    fn new(n: usize, d: DType, loose: bool) -> Self {
        World { loose, d, h: (0..n).map(|_| None).collect(), stk: vec![] }
    }

    /// Performs one event; None when it has nothing to act on (a repeated body only)
    fn act(&mut self, e: &Value) -> Option<bool> {
        let n = |k: &str| e[k].as_u64().unwrap() as usize;
        let (i, j, k) = (n("i"), n("j"), n("k"));
        let at = |s: usize| -> Option<Tensor> { self.h[s - 1].clone() };
        let mut put = None;
        let ok = match e["a"].as_str().unwrap() {
            "leaf" => {
                let t = make(&e["v"], self.d);
                if k == 1 {
                    t.requires_grad().unwrap();
                }
                put = Some(t);
                true
            },
            "op" => {
                let x = at(j)?;
                let y = if k == 0 { None } else { Some(at(k)?) };
                match op(e["f"].as_str().unwrap(), &x, y.as_ref()) {
                    Ok(t) => {
                        put = Some(t);
                        true
                    },
                    Err(err) => panic!("operation refused: {err}"),
                }
            },
            "clone" => {
                put = Some(at(j)?);
                true
            },
            "drop" => {
                self.h[i - 1] = None;
                true
            },
            "rg" => at(i)?.set_requires_grad(k == 1).is_ok(),
            "back" => at(i)?.backward().is_ok(),
            "zero" => at(i)?.zero_grad().is_ok(),
            "grad" => match at(j)?.grad() {
                Ok(g) => {
                    put = Some(g);
                    true
                },
                Err(_) => false,
            },
            "set" => at(i)?.set_(&at(j)?).is_ok(),
            a @ ("step" | "ozero") => {
                let mut ps = vec![at(i)?];
                if j != 0 {
                    ps.push(at(j)?);
                }
                let ps: Vec<&Tensor> = ps.iter().collect();
                let mut o = SGD::new(1.0f32);
                if a == "step" {
                    Optimizer::step(&mut o, &ps).is_ok()
                } else {
                    Optimizer::zero_grad(&o, &ps).is_ok()
                }
            },
            "enter" => {
                self.stk.push(GradientContext::new());
                true
            },
            "leave" => {
                drop(self.stk.remove(i - 1));
                true
            },
            a => panic!("harness: event {a}"),
        };
        if let Some(t) = put {
            self.h[i - 1] = Some(t);
        }
        Some(ok)
    }

    /// Every handle shows what the specification says
    fn check(&self, l: &Value) -> Option<(String, Value, Value)> {
        for (i, w) in l["o"].as_array().unwrap().iter().enumerate() {
            let Some(t) = &self.h[i] else {
                if !w.as_array().unwrap().is_empty() {
                    return Some(("empty handle".into(), w.clone(), json!(i)));
                }
                continue;
            };
            let num = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect::<Vec<f64>>();
            match guarded(|| read(t)) {
                Ok(Ok(v)) if v == num(&w[0]) && t.dtype() == self.d && t.shape().dims() == [2] => {},
                r => return Some((format!("value of handle {}", i + 1), w[0].clone(), json!(format!("{r:?} {:?} {:?}", t.dtype(), t.shape().dims())))),
            }
            if self.loose {
                continue;
            }
            match guarded(|| t.grad().map(|g| read(&g))) {
                Ok(Ok(Ok(v))) if v == num(&w[1]) => {},
                Ok(Err(_)) if w[1].as_array().unwrap().is_empty() => {},
                r => return Some((format!("gradient of handle {}", i + 1), w[1].clone(), json!(format!("{r:?}")))),
            }
            if t.is_requires_grad() != (w[2] == 1) {
                return Some((format!("requires_grad of handle {}", i + 1), w[2].clone(), json!(t.is_requires_grad())));
            }
        }
        None
    }

    fn event(&mut self, l: &Value) -> Option<(String, Value, Value)> {
        let e = &l["e"];
        match guarded(|| self.act(e)) {
            Ok(Some(ok)) if self.loose || l["ok"] == ok => self.check(l),
            r => Some((format!("{} answered", e["a"]), l["ok"].clone(), json!(format!("{r:?}")))),
        }
    }

    fn clear(&mut self, from: usize, back: bool) {
        let n = self.h.len();
        for k in from..n {
            let i = if back { n - 1 - (k - from) } else { k };
            self.h[i] = None;
        }
        while !self.stk.is_empty() {
            self.stk.remove(if back { 0 } else { self.stk.len() - 1 });
        }
    }
}

fn one(case: &Value, idx: usize, mode: &str) -> Vec<Value> {
    let evs = case["ev"].as_array().unwrap();
    let n = case["n"].as_u64().unwrap() as usize;
    let slots = evs[0]["o"].as_array().unwrap().len();
    let d = if idx % 2 == 0 { DType::F32 } else { DType::F64 };
    let fail = |at: usize, what: String, exp: Value, got: Value| {
        vec![json!({"op": evs.get(at).map(|l| l["e"]["a"].clone()).unwrap_or(json!("end")), "kind": what, "exp": exp, "got": got, "step": at, "dt": format!("{d:?}")})]
    };
    let base = tensor_count();
    if n == 1 {
        let mut w = World::new(slots, d, mode == "keep");
        for (at, l) in evs.iter().enumerate() {
            if let Some((what, exp, got)) = w.event(l) {
                return fail(at, what, exp, got);
            }
            if let (Some(c), "count") = (l["c"].as_u64(), mode) {
                if tensor_count() > base + c as usize {
                    return fail(at, "records with nothing pending".into(), json!(c), json!(tensor_count() - base));
                }
            }
        }
        if case["mode"] == "round" && mode == "count" {
            let p = case["p"].as_u64().unwrap() as usize;
            let mut counts = vec![];
            for round in 0..5 {
                if round > 0 {
                    for l in &evs[p..] {
                        if let Err(e) = guarded(|| w.act(&l["e"])) {
                            return fail(evs.len(), "repeated body".into(), json!("no panic"), json!(e));
                        }
                    }
                }
                w.clear(p, idx % 3 == 0);
                counts.push(tensor_count() - base.min(tensor_count()));
            }
            if counts[2] > counts[1] || counts[4] > counts[1] {
                return fail(evs.len(), "records after each round".into(), json!("bounded"), json!(counts));
            }
        }
        w.clear(0, idx % 3 == 0);
        if mode == "count" && tensor_count() != base {
            let got = tensor_count();
            return fail(evs.len(), "records after everything is released".into(), json!(0), json!(got as i64 - base as i64));
        }
        return vec![];
    }
    // several threads: under the schedule of the history, or free running
    let scheduled = idx % 2 == 0;
    let rounds = if scheduled { 1 } else { 6 };
    for _ in 0..rounds {
        let mut out = vec![];
        let gate = &std::sync::Barrier::new(n);
        std::thread::scope(|s| {
            let mut chans = vec![];
            let (tx, rx) = mpsc::channel();
            let mut hs = vec![];
            for t in 0..n {
                let (go, turn) = mpsc::channel::<usize>();
                chans.push(Some(go));
                let tx = tx.clone();
                hs.push(s.spawn(move || {
                    let mut w = World::new(slots, d, mode == "keep");
                    if scheduled {
                        for at in turn {
                            let r = w.event(&evs[at]);
                            tx.send(r).unwrap();
                        }
                        None
                    } else {
                        gate.wait();
                        for (at, l) in evs.iter().enumerate() {
                            if l["t"].as_u64().unwrap() as usize == t + 1 {
                                if let Some(r) = w.event(l) {
                                    return Some((at, r));
                                }
                            }
                        }
                        None
                    }
                }));
            }
            if scheduled {
                for (at, l) in evs.iter().enumerate() {
                    chans[l["t"].as_u64().unwrap() as usize - 1].as_ref().unwrap().send(at).unwrap();
                    if let Some((what, exp, got)) = rx.recv().unwrap() {
                        out = fail(at, what, exp, got);
                        break;
                    }
                }
            }
            chans.clear();
            for h in hs {
                if let Some((at, (what, exp, got))) = h.join().unwrap() {
                    out = fail(at, what, exp, got);
                }
            }
        });
        if !out.is_empty() {
            return out;
        }
        if mode == "count" && tensor_count() != base {
            let got = tensor_count();
            return fail(evs.len(), "records after all threads have ended".into(), json!(0), json!(got as i64 - base as i64));
        }
    }
    vec![]
}

pub fn main(a: &[String]) {
    let mode = a.get(3).cloned().unwrap_or_default();
    drive(a, |case, idx| one(case, idx, &mode));
}
