//! Gradients (G01): runs a specification program on the real library, backpropagates the weighted sum of its results
//! and compares every leaf's gradient with the derivative of what the specification says the program computes.
use crate::{ops::apply, replay::*, val::*};
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;
use serde_json::{json, Value};

fn terms(v: &Value) -> &Vec<Value> {
    v["d"].as_array().unwrap_or_else(|| panic!("harness: no data {v}"))
}
/// values of every element of the program (leaves, then outputs in order) for given leaf elements
fn chain(case: &Value, leaf: &[f64]) -> (Vec<f64>, Vec<usize>) {
    let mut vars = leaf.to_vec();
    let mut at = vec![];
    let mut n = 0;
    for l in case["leaves"].as_array().unwrap() {
        at.push(n);
        n += terms(l).len();
    }
    at.truncate(case["leaves"].as_array().unwrap().len());
    for st in case["steps"].as_array().unwrap() {
        let mut new = vec![];
        for o in st["outs"].as_array().unwrap() {
            at.push(vars.len() + new.len());
            new.extend(terms(o).iter().map(|t| term(t, &vars)));
        }
        vars.extend(new);
    }
    (vars, at)
}
fn loss(case: &Value, leaf: &[f64]) -> f64 {
    let (vars, at) = chain(case, leaf);
    let mut l = 0.0;
    for x in case["loss"].as_array().unwrap() {
        let b = at[x["at"].as_u64().unwrap() as usize];
        for (k, w) in x["w"].as_array().unwrap().iter().enumerate() {
            l += w.as_f64().unwrap() * vars[b + k];
        }
    }
    l
}
/// every result that enters the loss
fn outs(case: &Value, leaf: &[f64]) -> Vec<f64> {
    let (vars, at) = chain(case, leaf);
    let parts = case["loss"].as_array().unwrap().iter();
    parts.flat_map(|x| {
        let b = at[x["at"].as_u64().unwrap() as usize];
        vars[b..b + x["w"].as_array().unwrap().len()].to_vec()
    }).collect()
}
/// derivative in variable k, None at a kink or where the program is not finite
pub fn diff(case: &Value, x: &[f64], k: usize) -> Option<f64> {
    let f = |e: f64| {
        let mut y = x.to_vec();
        y[k] += e;
        loss(case, &y)
    };
    let h = 2e-3;
    let d = |h: f64| (f(h) - f(-h)) / (2.0 * h);
    let (a, b, c) = (d(h), d(h / 2.0), d(h / 4.0));
    let (r1, r2) = ((4.0 * b - a) / 3.0, (4.0 * c - b) / 3.0);
    let r = (16.0 * r2 - r1) / 15.0;
    // a kink shows in some result, though it may cancel in their sum
    let e = 1e-5;
    let at = |e: f64| {
        let mut y = x.to_vec();
        y[k] += e;
        outs(case, &y)
    };
    let (p, m, z) = (at(e), at(-e), at(0.0));
    let side = |u: &[f64], i: usize| (u[i] - z[i]) / e;
    let kink = (0..z.len()).any(|i| (side(&p, i) + side(&m, i)).abs() > 1e-3 * (1.0 + side(&p, i).abs()));
    if kink || !r.is_finite() {
        return None;
    }
    // a kink nearby spoils the wide steps only
    let near = d(e);
    if (near - r).abs() > 1e-2 * (1.0 + r.abs()) {
        return None;
    }
    if (near - r).abs() > 1e-6 * (1.0 + r.abs()) {
        return Some(near);
    }
    Some(r)
}

/// gradients the specification gives: per leaf, None = must not receive one
pub fn expected(case: &Value) -> Vec<Option<Vec<Option<f64>>>> {
    let leaves = case["leaves"].as_array().unwrap();
    let ask = |i: usize| case["ask"][i].as_bool().unwrap();
    if !case["grads"].is_null() {
        return (0..leaves.len())
            .map(|i| ask(i).then(|| case["grads"][i].as_array().unwrap().iter().map(|t| Some(term(t, &[]))).collect()))
            .collect();
    }
    let x: Vec<f64> = case["vals"].as_array().unwrap().iter().map(|t| term(t, &[])).collect();
    let mut b = 0;
    (0..leaves.len())
        .map(|i| {
            let n = terms(&leaves[i]).len();
            b += n;
            ask(i).then(|| (b - n..b).map(|k| diff(case, &x, k)).collect())
        })
        .collect()
}

/// the results themselves against the formulas
fn forward(case: &Value, d: DType, env: &[Tensor], x: &[f64]) -> Result<(), (String, Value, Value)> {
    let (vars, at) = chain(case, x);
    let (rel, scale) = if d == DType::F64 { (1e-9, 1e-10) } else { (1e-4, 1e-5) };
    let mut n = case["leaves"].as_array().unwrap().len();
    for (k, st) in case["steps"].as_array().unwrap().iter().enumerate() {
        for o in st["outs"].as_array().unwrap() {
            let (b, t) = (at[n], &env[n]);
            n += 1;
            if st["op"] == "def" {
                continue;
            }
            let w = &vars[b..b + terms(o).len()];
            let sh = usz(&o["s"]);
            let want = tag_dtype(&o["t"], d);
            if t.shape().dims() != sh || t.dtype() != want {
                return Err(("shape or type".into(), json!([k, sh, dname(want)]), json!([t.shape().dims(), dname(t.dtype())])));
            }
            let v = match guarded(|| read(t)) {
                Ok(Ok(v)) => v,
                r => return Err(("unreadable".into(), json!(k), json!(format!("{r:?}")))),
            };
            let top = w.iter().filter(|a| a.is_finite()).fold(1.0f64, |a, b| a.max(b.abs()));
            let ok = |g: f64, e: f64| if e.is_nan() { g.is_nan() } else if e.is_infinite() { g == e } else { (g - e).abs() <= rel * e.abs() + scale * top };
            if v.len() != w.len() || !v.iter().zip(w).all(|(g, e)| ok(*g, *e)) {
                return Err(("value".into(), json!([k, w]), json!(v)));
            }
        }
    }
    Ok(())
}

pub fn run(case: &Value, d: DType) -> Result<(), (String, Value, Value)> {
    run_with(case, d, &mut |op, ins, p| apply(op, ins, p))
}
pub type Apply<'a> = &'a mut dyn FnMut(&str, &[&Tensor], &Value) -> hodu_core::error::HoduResult<Vec<Tensor>>;
/// the same with any operations; a step "def" only names values the later formulas refer to
pub fn run_with(case: &Value, d: DType, apply: Apply) -> Result<(), (String, Value, Value)> {
    let bad = |k: &str, w: Value, g: Value| Err((k.to_string(), w, g));
    let leaves = case["leaves"].as_array().unwrap();
    let x: Vec<f64> = case["vals"].as_array().map(|a| a.iter().map(|t| term(t, &[])).collect()).unwrap_or_default();
    let mut env: Vec<Tensor> = vec![];
    for (i, l) in leaves.iter().enumerate() {
        let t = make(&usz(&l["s"]), &terms(l).iter().map(|t| term(t, &x)).collect::<Vec<_>>(), tag_dtype(&l["t"], d)).expect("harness: leaf");
        if case["ask"][i] == true {
            t.requires_grad().expect("harness: requires_grad");
        }
        env.push(t);
    }
    for st in case["steps"].as_array().unwrap() {
        if st["op"] == "def" {
            for _ in st["outs"].as_array().unwrap() {
                env.push(env[0].clone());
            }
            continue;
        }
        let ins: Vec<&Tensor> = st["in"].as_array().unwrap().iter().map(|x| &env[x.as_u64().unwrap() as usize]).collect();
        match guarded(|| apply(st["op"].as_str().unwrap(), &ins, &st["p"])) {
            Err(m) => return bad("forward panic", json!("value"), json!(m)),
            Ok(Err(e)) => return bad("forward error", json!("value"), json!(e.to_string())),
            // the parameters of a module take the place of the leaves they were given
            Ok(Ok(v)) if st["op"] == "build" => {
                for (x, t) in st["in"].as_array().unwrap().iter().zip(v) {
                    env[x.as_u64().unwrap() as usize] = t;
                }
            },
            Ok(Ok(v)) => env.extend(v),
        }
    }
    if case["fwd"] == true {
        forward(case, d, &env, &x)?;
    }
    if case["loss"].as_array().is_some_and(|l| l.is_empty()) {
        return Ok(());
    }
    let r = guarded(|| -> hodu_core::error::HoduResult<Tensor> {
        let mut total: Option<Tensor> = None;
        let parts = case["loss"].as_array().unwrap();
        for p in parts {
            let o = &env[p["at"].as_u64().unwrap() as usize];
            let w: Vec<f64> = p["w"].as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect();
            let mut t = if w.iter().all(|v| *v == 1.0) { o.clone() } else { o.mul(&make(o.shape().dims(), &w, d)?)? };
            if parts.len() > 1 {
                t = t.sum_all()?;
            }
            total = Some(match total {
                None => t,
                Some(s) => s.add(&t)?,
            });
        }
        let total = total.unwrap();
        total.backward()?;
        Ok(total)
    });
    match r {
        Err(m) => return bad("backward panic", json!("gradients"), json!(m)),
        Ok(Err(e)) => return bad("backward error", json!("gradients"), json!(e.to_string())),
        Ok(Ok(_)) => {},
    }
    let (rel, scale) = if d == DType::F64 { (2e-6, 5e-7) } else { (2e-4, 3e-5) };
    for (i, e) in expected(case).into_iter().enumerate() {
        let sh = usz(&leaves[i]["s"]);
        let g = guarded(|| env[i].grad());
        let g = match (g, &e) {
            (Err(m), _) => return bad("grad panic", json!(i), json!(m)),
            (Ok(Err(_)), None) => continue,
            (Ok(Err(err)), Some(w)) => {
                if w.iter().all(|x| *x == Some(0.0) || x.is_none()) {
                    continue;
                }
                return bad("no gradient", json!([i, w]), json!(err.to_string()));
            },
            (Ok(Ok(_)), None) => return bad("unasked gradient", json!(i), json!("gradient")),
            (Ok(Ok(g)), Some(_)) => g,
        };
        let e = e.unwrap();
        if g.shape().dims() != sh || g.dtype() != d {
            return bad("gradient shape", json!([i, sh]), json!([g.shape().dims(), dname(g.dtype())]));
        }
        let v = match guarded(|| read(&g)) {
            Ok(Ok(v)) => v,
            r => return bad("gradient unreadable", json!(i), json!(format!("{r:?}"))),
        };
        let top = e.iter().flatten().fold(1.0f64, |a, b| a.max(b.abs()));
        if !v.iter().zip(&e).all(|(g, e)| e.is_none_or(|e| (g - e).abs() <= rel * e.abs() + scale * top)) {
            return bad("gradient", json!([i, e]), json!(v));
        }
    }
    Ok(())
}
pub fn main(a: &[String]) {
    drive(a, |case, idx| {
        let op = case["steps"].as_array().unwrap().last().unwrap()["op"].clone();
        let d = [DType::F32, DType::F64][idx % 2];
        match run(case, d) {
            Ok(()) => vec![],
            Err((k, w, g)) => vec![json!({"op": op, "dt": dname(d), "kind": k, "exp": w, "got": g})],
        }
    })
}
