//! Replays specification behaviours (one JSON program per line) on the real tensor library.
use crate::{ops::apply, val::*};
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;
use crate::sched;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Report {
    out: std::fs::File,
    pub count: usize,
}
impl Report {
    pub fn new(path: &str) -> Self {
        Report { out: std::fs::OpenOptions::new().create(true).append(true).open(path).expect("harness: report"), count: 0 }
    }
    pub fn line(&mut self, v: Value) {
        use std::io::Write;
        self.count += 1;
        writeln!(self.out, "{v}").expect("harness: report write");
    }
}

/// parse a line that is JSON, or JSON inside a quoted string
pub fn parse(line: &str) -> Value {
    let v: Value = serde_json::from_str(line).unwrap_or_else(|e| panic!("harness: bad case {e}: {line}"));
    match v {
        Value::String(s) => serde_json::from_str(&s).unwrap_or_else(|e| panic!("harness: bad case {e}: {s}")),
        v => v,
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    if m.starts_with("harness:") {
        eprintln!("{m}");
        std::process::exit(2);
    }
    m
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

fn token(k: f64, d: DType) -> f64 {
    match d {
        DType::BOOL => ((k as i64 * 5 / 3) % 2) as f64,
        DType::F8E4M3 => float8::F8E4M3::from_bits((k as u8) % 120).to_f64(),
        DType::F8E5M2 => float8::F8E5M2::from_bits((k as u8) % 120).to_f64(),
        _ => k,
    }
}

pub fn class(name: &str) -> Vec<DType> {
    use DType::*;
    match name {
        "tok" => ALL.to_vec(),
        "all" => ALL.to_vec(),
        "num" => ALL.iter().copied().filter(|d| *d != BOOL).collect(),
        "sumd" => ALL.iter().copied().filter(|d| !matches!(*d, BOOL | F8E4M3 | F8E5M2)).collect(),
        "signed" => vec![F32, F64, I32, I64, I16, I8, F16, BF16, F8E4M3, F8E5M2],
        "float" => vec![F32, F64, F16, BF16, F8E4M3, F8E5M2],
        "float2" => vec![F32, F64, F16, BF16],
        "float3" => vec![F32, F64],
        "int" => vec![I32, I64, I16, I8, U8, U16, U32, U64],
        "bits" => vec![I32, I64, I16, I8, U8, U16, U32, U64],
        "bool" => vec![BOOL],
        n => n.split(',').map(dtype).collect(),
    }
}
pub fn tag_dtype(tag: &Value, d: DType) -> DType {
    match tag.as_str().unwrap_or("n") {
        "n" => d,
        "i" => DType::I32,
        "b" => DType::BOOL,
        t => dtype(t),
    }
}

pub struct Spec {
    pub s: Vec<usize>,
    pub d: Vec<f64>,
    pub t: DType,
    pub n: bool,
}
fn spec(v: &Value, d: DType, tok: bool, vars: &[f64]) -> Spec {
    let tag = &v["t"];
    let n = tag.as_str().unwrap_or("n") == "n";
    let t = tag_dtype(tag, d);
    let dd = v["d"].as_array().unwrap_or_else(|| panic!("harness: no data {v}")).iter().map(|x| {
        let k = term(x, vars);
        if tok && n { token(k, t) } else { k }
    });
    let (ts, td): (Vec<usize>, Vec<f64>) = (usz(&v["s"]), dd.collect());
    if v["big"].is_null() {
        return Spec { s: ts, d: td, t, n };
    }
    let (s, ax, drift) = (usz(&v["big"]), v["ax"].as_u64().unwrap() as usize, v["dd"].as_array().unwrap().iter().map(|x| term(x, vars)).collect::<Vec<f64>>());
    let d = expand(&ts, &td, &s, ax, &drift);
    Spec { s, d, t, n }
}
/// a tile repeated to shape s; along axis ax (1-based) every repetition adds the drift
fn expand(ts: &[usize], td: &[f64], s: &[usize], ax: usize, drift: &[f64]) -> Vec<f64> {
    let mut ix = vec![0usize; s.len()];
    (0..s.iter().product::<usize>())
        .map(|_| {
            let at = ix.iter().zip(ts).fold(0, |a, (i, n)| a * n + i % n);
            let v = td[at] + if ax > 0 { (ix[ax - 1] / ts[ax - 1]) as f64 * drift[at] } else { 0.0 };
            for (i, n) in ix.iter_mut().zip(s).rev() {
                *i += 1;
                if *i < *n {
                    break;
                }
                *i = 0;
            }
            v
        })
        .collect()
}

pub fn same(got: f64, exp: f64, d: DType, tol: f64) -> bool {
    if got == exp || (got.is_nan() && exp.is_nan()) {
        return true;
    }
    if tol == 0.0 || !d.is_float() {
        return false;
    }
    let e = round_to(d, exp);
    if got == e || (got.is_nan() && e.is_nan()) {
        return true;
    }
    if !got.is_finite() || !e.is_finite() {
        return false;
    }
    let small = match d {
        DType::F8E4M3 => 0.002,
        DType::F8E5M2 => 0.00002,
        DType::F16 => 6e-8,
        DType::F64 => 1e-300,
        _ => 1e-37,
    };
    (got - exp).abs() <= tol * ulp(d) * exp.abs() + small
}
pub fn all_same(g: &[f64], e: &[f64], d: DType, tol: f64, abs: f64) -> bool {
    // no elements given: the specification leaves the values open
    if e.is_empty() {
        return true;
    }
    g.len() == e.len() && g.iter().zip(e).all(|(g, e)| same(*g, *e, d, tol) || (g - e).abs() <= abs)
}

/// expected and found values, from the first difference on when there are many
pub fn differ(e: &[f64], g: &[f64]) -> (Value, Value) {
    if e.len() <= 64 {
        return (short(e), short(g));
    }
    let at = e.iter().zip(g).position(|(a, b)| a != b && !(a.is_nan() && b.is_nan())).unwrap_or(e.len().min(g.len()));
    let cut = |v: &[f64]| json!({"from": at, "of": v.len(), "d": short(&v[at.min(v.len())..v.len().min(at + 12)])});
    (cut(e), cut(g))
}
pub fn short(v: &[f64]) -> Value {
    json!(v.iter().take(64).map(|x| if x.is_finite() { json!(x) } else { json!(format!("{x}")) }).collect::<Vec<_>>())
}

/// a case on one dtype: leaves, expected outputs, relative and absolute tolerance; Err(()) when the dtype cannot represent it
#[allow(clippy::type_complexity)]
pub fn prepare(case: &Value, d: DType, tol: f64) -> Result<(Vec<Spec>, Vec<Vec<Spec>>, f64, f64), ()> {
    let cls = case["dts"].as_str().unwrap_or("num");
    let tok = cls == "tok";
    // "mag": absolute error scale (conditioning), in units of the dtype's rounding unit
    let low = ulp(d) > 1e-4; // half precision and below: "lowtol", "lowmag"
    let pickf = |l: &str, n: &str| if low { case[l].as_f64().or(case[n].as_f64()) } else { case[n].as_f64() }.unwrap_or(0.0);
    let mag = pickf("lowmag", "mag");
    let tol = if tol > 0.0 { pickf("lowtol", "tol") } else { 0.0 };
    // "sp": the operation works in single precision even on f64
    let sp = if d == DType::F64 && case["sp"] == true { ulp(DType::F32) / ulp(DType::F64) } else { 1.0 };
    let (tol, abs) = (tol * sp, mag * ulp(d) * sp);
    let exact = tol == 0.0;
    let lo_hi = exact_range(d);
    let fits = |s: &Spec| tok || !s.n || s.d.iter().all(|x| {
        if x.is_infinite() && d == DType::F8E4M3 { false }
        else if d.is_float() && !exact { x.is_nan() || x.is_infinite() || x.abs() <= lo_hi.1.max(if d == DType::F16 { 60000.0 } else { lo_hi.1 }) }
        else { *x >= lo_hi.0 && *x <= lo_hi.1 && x.fract() == 0.0 || (d.is_float() && (!x.is_finite() || round_to(d, *x) == *x)) }
    });
    let leaves: Vec<Spec> = case["leaves"].as_array().unwrap().iter().map(|v| spec(v, d, tok, &[])).collect();
    if !leaves.iter().all(|s| fits(s) && (tok || s.d.iter().all(|x| x.is_nan() || round_to(s.t, *x) == *x))) {
        return Err(());
    }
    let steps = case["steps"].as_array().unwrap();
    let outs: Vec<Vec<Spec>> = steps
        .iter()
        .map(|st| st["outs"].as_array().map(|a| a.iter().map(|v| spec(v, d, tok, &[])).collect()).unwrap_or_default())
        .collect();
    if !outs.iter().flatten().all(|s| fits(s)) {
        return Err(());
    }
    // scalar parameters have to exist in the dtype as well
    let unit = |x: f64| Spec { s: vec![], d: vec![x], t: d, n: true };
    for st in steps {
        for k in ["c", "lo", "hi"] {
            if !st["p"][k].is_null() && !fits(&unit(term(&st["p"][k], &[]))) {
                return Err(());
            }
        }
    }
    Ok((leaves, outs, tol, abs))
}

/// one case on one dtype; Some(failure) or None; Err(()) when the dtype cannot represent the case
pub fn run_case(case: &Value, d: DType, tol: f64, deep: bool) -> Result<Option<Value>, ()> {
    let (leaves, outs, tol, abs) = prepare(case, d, tol)?;
    let steps = case["steps"].as_array().unwrap();
    let fail = |k: usize, kind: &str, e: Value, g: Value| {
        let op = if k == 0 { "leaf".to_string() } else { steps[k - 1]["op"].as_str().unwrap().to_string() };
        Ok(Some(json!({"dt": dname(d), "step": k, "op": op, "kind": kind, "exp": e, "got": g})))
    };
    let mut env: Vec<Tensor> = vec![];
    let mut want: Vec<&Spec> = vec![];
    for s in &leaves {
        match guarded(|| make(&s.s, &s.d, s.t)) {
            Ok(Ok(t)) => env.push(t),
            Ok(Err(e)) => return fail(0, "error", json!("leaf"), json!(e.to_string())),
            Err(m) => return fail(0, "panic", json!("leaf"), json!(m)),
        }
        want.push(s);
    }
    for (k, st) in steps.iter().enumerate() {
        let op = st["op"].as_str().unwrap();
        let ins: Vec<&Tensor> = match st["in"].as_array() {
            Some(a) => a.iter().map(|x| &env[x.as_u64().unwrap() as usize]).collect(),
            None => vec![env.last().unwrap()],
        };
        let r = guarded(|| apply(op, &ins, &st["p"]));
        let want_err = st["err"].as_bool().unwrap_or(false);
        let got = match r {
            Err(m) => return fail(k + 1, "panic", json!(if want_err { "error" } else { "value" }), json!(m)),
            Ok(Err(e)) => {
                if want_err {
                    continue;
                }
                return fail(k + 1, "error", json!("value"), json!(e.to_string()));
            },
            Ok(Ok(v)) => v,
        };
        if want_err {
            let g = guarded(|| got.iter().map(|t| json!([t.shape().dims(), read(t).map(|v| short(&v)).unwrap_or(json!("unreadable"))])).collect::<Vec<_>>());
            return fail(k + 1, "accepted", json!("error"), json!(g.unwrap_or_default()));
        }
        if got.len() != outs[k].len() {
            return fail(k + 1, "count", json!(outs[k].len()), json!(got.len()));
        }
        for (j, t) in got.into_iter().enumerate() {
            let w = &outs[k][j];
            let sh = t.shape().dims().to_vec();
            if sh != w.s {
                return fail(k + 1, "shape", json!(w.s), json!(sh));
            }
            if t.dtype() != w.t {
                return fail(k + 1, "dtype", json!(dname(w.t)), json!(dname(t.dtype())));
            }
            match guarded(|| read(&t)) {
                Err(m) => return fail(k + 1, "panic", json!("read"), json!(m)),
                Ok(Err(e)) => return fail(k + 1, "error", json!("read"), json!(e.to_string())),
                Ok(Ok(v)) => {
                    let tl = if w.t == d { tol } else { 0.0 };
                    if !all_same(&v, &w.d, w.t, tl, abs) {
                        let (e, g) = differ(&w.d, &v);
                        return fail(k + 1, "value", e, g);
                    }
                },
            }
            env.push(t);
            want.push(w);
        }
    }
    // every handle still reads the same, through every observer
    for (n, (t, w)) in env.iter().zip(&want).enumerate() {
        let k = if n < leaves.len() { 0 } else { steps.len().min(n + 1 - leaves.len()) };
        let tl = if w.t == d { tol } else { 0.0 };
        let r = guarded(|| -> Option<(&str, Vec<f64>)> {
            let mut obs: Vec<(&str, hodu_core::error::HoduResult<Vec<f64>>)> = vec![("reread", read(t))];
            if deep || n + 1 == env.len() {
                obs.push(("to_bytes", t.to_bytes().map(|b| read_bytes(&b, w.t))));
                let f = matches!(w.t, DType::F32 | DType::F64 | DType::I32 | DType::BF16 | DType::U8 | DType::BOOL | DType::I64);
                if f {
                    obs.push(("cast", t.to_dtype(DType::F32).and_then(|c| read(&c))));
                    obs.push(("read_as", read_as(t, DType::F32)));
                }
                if w.t == DType::F32 {
                    obs.push(("nested", read_nested(t)));
                }
                obs.push(("contiguous", t.contiguous().and_then(|c| read(&c))));
                obs.push(("flatten", t.flatten().and_then(|c| read(&c))));
            }
            for (name, v) in obs {
                match v {
                    Err(e) => {
                        eprintln!("{name}: {e}");
                        return Some((name, vec![]));
                    },
                    Ok(v) => {
                        if !all_same(&v, &w.d, if (name == "cast" || name == "read_as") && ulp(w.t) < ulp(DType::F32) { DType::F32 } else { w.t }, tl, abs) {
                            return Some((name, v));
                        }
                    },
                }
            }
            None
        });
        match r {
            Err(m) => return fail(k, "panic", json!("observe"), json!(m)),
            Ok(Some((name, v))) => {
                let (e, g) = differ(&w.d, &v);
                return fail(k, name, e, g);
            },
            Ok(None) => {},
        }
    }
    Ok(None)
}
/// a case under a schedule of workers: in the order given, then all at once
pub fn run_order(case: &Value, d: DType, tol: f64, order: &[usize]) -> Result<Option<Value>, ()> {
    let w = order.len();
    if let Some(f) = sched::with(w, Some(order), || run_case(case, d, tol, true))? {
        return Ok(Some(f));
    }
    Ok(sched::with(w, None, || run_case(case, d, tol, false))?.map(|mut f| {
        f["kind"] = json!(format!("{} (concurrent)", f["kind"].as_str().unwrap()));
        f
    }))
}

/// replay FILE OUT PROGRESS MODE [START] [LIMIT]
pub fn main(a: &[String]) {
    let (file, out, prog, mode) = (&a[0], &a[1], &a[2], a[3].as_str());
    let start: usize = a.get(4).map(|x| x.parse().unwrap()).unwrap_or(0);
    let text = std::fs::read_to_string(file).expect("harness: cases");
    let mut rep = Report::new(out);
    use std::os::unix::fs::FileExt;
    let pf = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(prog).unwrap();
    let (mut runs, mut skipped, mut done) = (0usize, 0usize, 0usize);
    let mut per: std::collections::BTreeMap<String, usize> = Default::default();
    for (idx, line) in text.lines().enumerate().skip(start) {
        let case = parse(line);
        pf.write_at(format!("{idx:<12}").as_bytes(), 0).unwrap();
        let cls = class(case["dts"].as_str().unwrap_or("num"));
        let pick: Vec<DType> = match mode {
            "all" => cls.clone(),
            "one" => vec![cls[0]],
            "capture" | "reload" | "damage" => vec![if idx % 3 > 0 || cls.len() == 1 { cls[0] } else { cls[1 + idx / 3 % (cls.len() - 1)] }],
            _ => {
                if cls.len() == 1 { cls.clone() } else { vec![cls[0], cls[1 + idx % (cls.len() - 1)]] }
            },
        };
        let tol = case["tol"].as_f64().unwrap_or(0.0);
        for d in pick {
            let r = match mode {
                "capture" | "reload" | "damage" => crate::capture::run_case(&case, d, tol, idx, mode),
                _ if case["order"].is_array() => run_order(&case, d, tol, &crate::val::usz(&case["order"])),
                _ => run_case(&case, d, tol, mode == "all" || idx % 4 == 0),
            };
            match r {
                Err(()) => skipped += 1,
                Ok(None) => {
                    runs += 1;
                    *per.entry(dname(d)).or_default() += 1;
                },
                Ok(Some(mut f)) => {
                    runs += 1;
                    f["case"] = json!(idx);
                    rep.line(f);
                },
            }
        }
        done += 1;
        if rep.count > 300 {
            break;
        }
    }
    println!("{}", json!({"cases": done, "runs": runs, "skipped": skipped, "failures": rep.count, "per_dtype": per, "workers": sched::ran()}));
}

/// same command line as `replay`, one call of `f` per case; f returns the failures
pub fn drive(a: &[String], mut f: impl FnMut(&Value, usize) -> Vec<Value>) {
    let (file, out, prog) = (&a[0], &a[1], &a[2]);
    let start: usize = a.get(4).map(|x| x.parse().unwrap()).unwrap_or(0);
    let text = std::fs::read_to_string(file).expect("harness: cases");
    let mut rep = Report::new(out);
    use std::os::unix::fs::FileExt;
    let pf = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(prog).unwrap();
    let (mut done, mut slow) = (0usize, 0usize);
    for (idx, line) in text.lines().enumerate().skip(start) {
        let case = parse(line);
        pf.write_at(format!("{idx:<12}").as_bytes(), 0).unwrap();
        for mut v in f(&case, idx) {
            v["case"] = json!(idx);
            slow += ["hang", "blocked", "slow", "timeout"].iter().any(|k| v["kind"] == *k) as usize;
            rep.line(v);
        }
        done += 1;
        if rep.count > 300 || slow > 2 {
            break;
        }
    }
    println!("{}", json!({"cases": done, "runs": done, "failures": rep.count}));
}
