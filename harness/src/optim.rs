//! replays optimizer histories of the specification on the real optimizers (N01)
use crate::replay::guarded;
use crate::val::*;
use hodu_core::scalar::Scalar;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;
use serde_json::{json, Value};

enum Opt {
    Sgd(hodu_nn::prelude::SGD),
    Adam(hodu_nn::prelude::Adam),
    AdamW(hodu_nn::prelude::AdamW),
    Rms(hodu_nn::prelude::RMSprop),
    Ada(hodu_nn::prelude::Adagrad),
}
use hodu_nn::prelude::Optimizer;
impl Opt {
    fn new(o: &Value, lr: f64) -> Opt {
        let h = |k: &str| Scalar::F64(term(&o[k], &[]));
        let lr = Scalar::F64(lr);
        match o["kind"].as_str().unwrap() {
            "sgd" => Opt::Sgd(hodu_nn::prelude::SGD::new(lr)),
            "adam" => Opt::Adam(hodu_nn::prelude::Adam::new(lr, h("b1"), h("b2"), h("eps"))),
            "adamw" => Opt::AdamW(hodu_nn::prelude::AdamW::new(lr, h("b1"), h("b2"), h("eps"), h("wd"))),
            "rmsprop" => Opt::Rms(hodu_nn::prelude::RMSprop::new(lr, h("b1"), h("eps"), h("mom"), h("wd"), o["centered"].as_bool().unwrap())),
            _ => Opt::Ada(hodu_nn::prelude::Adagrad::new(lr, h("mom"), h("eps"), h("wd"), h("b1"))),
        }
    }
    fn get(&mut self) -> &mut dyn Optimizer {
        match self {
            Opt::Sgd(x) => x,
            Opt::Adam(x) => x,
            Opt::AdamW(x) => x,
            Opt::Rms(x) => x,
            Opt::Ada(x) => x,
        }
    }
    fn lr(&mut self, v: f64) {
        let v = Scalar::F64(v);
        match self {
            Opt::Sgd(x) => x.set_learning_rate(v),
            Opt::Adam(x) => x.set_learning_rate(v),
            Opt::AdamW(x) => x.set_learning_rate(v),
            Opt::Rms(x) => x.set_learning_rate(v),
            Opt::Ada(x) => x.set_learning_rate(v),
        }
    }
}
const SHAPES: [&[usize]; 3] = [&[3], &[2, 2], &[1]];

pub fn run(case: &Value, idx: usize) -> Result<(), (String, Value, Value, usize)> {
    let d = [DType::F32, DType::F64][idx % 2];
    let ev = case["ev"].as_array().unwrap();
    let n = ev[0]["n"].as_u64().unwrap() as usize;
    let init: Vec<f64> = ev[0]["init"].as_array().unwrap().iter().map(|x| term(x, &[])).collect();
    let mut opt = Opt::new(&ev[0]["o"], term(&ev[0]["lr"], &[]));
    let mut params = vec![];
    let mut regs: Vec<Vec<[f64; 8]>> = vec![];
    let mut has = vec![false; n];
    for i in 0..n {
        let sh = SHAPES[(i + idx) % 3];
        let c: usize = sh.iter().product();
        let vals: Vec<f64> = (0..c).map(|k| ((i * 5 + k * 3 + idx) % 11) as f64 - 5.0).collect();
        let t = make(sh, &vals, d).unwrap();
        t.requires_grad().unwrap();
        params.push(t);
        regs.push(vals.iter().map(|v| [*v, 0.0, init[0], init[1], init[2], 0.0, 0.0, 0.0]).collect());
    }
    // bystanders: another tensor with a gradient of its own, views of the parameters (which share storage), clones of the handles
    let by = make(&[2], &[3.0, -2.0], d).unwrap();
    by.requires_grad().unwrap();
    let l = by.mul(&by).unwrap().sum_all().unwrap();
    l.backward().unwrap();
    drop(l);
    let views: Vec<(Tensor, Vec<f64>)> = params.iter().map(|p| (p.flatten().unwrap(), read(p).unwrap())).collect();
    let clones: Vec<Tensor> = params.clone();
    // the centred second moment is a difference of nearly equal numbers
    let centred = ev[0]["o"]["centered"] == true;
    let tol = if d != DType::F32 { 1e-7 } else if centred { 1e-3 } else { 2e-5 };
    for (k, e) in ev.iter().enumerate().skip(1) {
        let fail = |kind: &str, w: Value, g: Value| Err((format!("{}:{}", ev[0]["o"]["kind"].as_str().unwrap(), kind), w, g, k));
        let on: Vec<bool> = e["on"].as_array().map(|a| a.iter().map(|x| x.as_bool().unwrap()).collect()).unwrap_or(vec![true; n]);
        match e["do"].as_str().unwrap() {
            "back" => {
                let kk = e["k"].as_u64().unwrap() as usize;
                let quad = e["quad"] == true;
                let mut loss: Option<Tensor> = None;
                for i in 0..n {
                    if !on[i] {
                        continue;
                    }
                    let w: Vec<f64> = (0..regs[i].len()).map(|j| ((kk * 7 + i * 3 + j * 5) % 9) as f64 - 4.0).collect();
                    let wt = make(params[i].shape().dims(), &w, d).unwrap();
                    let part = || -> hodu_core::error::HoduResult<Tensor> {
                        let x = params[i].mul(&wt)?;
                        let x = if quad { x.mul(&params[i])?.mul_scalar(crate::ops::scalar_same(0.5, d))? } else { x };
                        x.sum_all()
                    };
                    let part = match guarded(part) {
                        Ok(Ok(x)) => x,
                        r => return fail("forward", json!("value"), json!(format!("{:?}", r.map(|x| x.map(|_| ()).map_err(|e| e.to_string()))))),
                    };
                    loss = Some(match loss {
                        None => part,
                        Some(l) => l.add(&part).unwrap(),
                    });
                    for (j, r) in regs[i].iter_mut().enumerate() {
                        r[6] = w[j];
                        r[1] = term(&e["g"], r);
                    }
                    has[i] = true;
                }
                match guarded(|| loss.unwrap().backward()) {
                    Ok(Ok(())) => {},
                    r => return fail("backward", json!("ok"), json!(format!("{r:?}"))),
                }
            },
            "zero" => {
                let sel: Vec<&Tensor> = (0..n).filter(|i| on[*i]).map(|i| &params[i]).collect();
                match guarded(|| opt.get().zero_grad(&sel)) {
                    Ok(Ok(())) => {},
                    r => return fail("zero_grad", json!("ok"), json!(format!("{r:?}"))),
                }
                for i in 0..n {
                    if on[i] {
                        regs[i].iter_mut().for_each(|r| r[1] = 0.0);
                    }
                }
            },
            "lr" => opt.lr(term(&e["lr"], &[])),
            "step" | "refused" => {
                let refused = e["do"] == "refused";
                let all: Vec<&Tensor> = params.iter().collect();
                match (guarded(|| opt.get().step(&all)), refused) {
                    (Ok(Ok(())), false) | (Ok(Err(_)), true) => {},
                    (r, _) => return fail("step", json!(e["do"]), json!(format!("{r:?}"))),
                }
                if !refused {
                    for r in regs.iter_mut().flatten() {
                        for a in e["rule"].as_array().unwrap() {
                            r[a[0].as_u64().unwrap() as usize] = term(&a[1], r);
                        }
                    }
                }
            },
            x => panic!("harness: event {x}"),
        }
        // observe everything
        let close = |g: &[f64], w: &[f64]| g.len() == w.len() && g.iter().zip(w).all(|(g, w)| (g - w).abs() <= tol * (1.0 + w.abs()));
        for i in 0..n {
            let w: Vec<f64> = regs[i].iter().map(|r| r[0]).collect();
            let wg: Vec<f64> = regs[i].iter().map(|r| r[1]).collect();
            for (name, t) in [("param", &params[i]), ("clone", &clones[i])] {
                match guarded(|| read(t)) {
                    Ok(Ok(v)) if close(&v, &w) => {
                        // follow the real value: rounding of one step is not charged to the next ones
                        if name == "param" {
                            regs[i].iter_mut().zip(&v).for_each(|(r, v)| r[0] = *v);
                        }
                    },
                    r => return fail(name, json!(w), json!(format!("{r:?}"))),
                }
            }
            if params[i].dtype() != d || !params[i].is_requires_grad() || params[i].shape().dims() != SHAPES[(i + idx) % 3] {
                return fail("identity", json!("unchanged"), json!(format!("{:?} {:?}", params[i].dtype(), params[i].shape().dims())));
            }
            match guarded(|| params[i].grad().map(|g| read(&g).unwrap())) {
                Ok(Ok(v)) if has[i] && close(&v, &wg) => {},
                Ok(Err(_)) if !has[i] => {},
                r => return fail("grad", json!(if has[i] { json!(wg) } else { json!("none") }), json!(format!("{r:?}"))),
            }
            match guarded(|| read(&views[i].0)) {
                Ok(Ok(v)) if v == views[i].1 => {},
                r => return fail("view", json!(views[i].1), json!(format!("{r:?}"))),
            }
        }
        if read(&by).unwrap() != [3.0, -2.0] || read(&by.grad().unwrap()).unwrap() != [6.0, -4.0] {
            return fail("bystander", json!([[3, -2], [6, -4]]), json!([read(&by).unwrap(), read(&by.grad().unwrap()).unwrap()]));
        }
    }
    Ok(())
}
