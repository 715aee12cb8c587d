//! drives the real data loaders, samplers and data sets; records what they answer
use crate::replay::guarded;
use crate::val::usz;
use hodu_core::error::{HoduError, HoduResult};
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;
use hodu_datasets::data::batch::{Batch, DataItem};
use hodu_datasets::data::dataloader::DataLoader;
use hodu_datasets::data::dataset::{random_split, ConcatDataset, Dataset, Subset, TensorDataset};
use hodu_datasets::data::sampler::*;
use serde_json::{json, Value};
use std::rc::Rc;

#[derive(Clone)]
pub struct Dyn(Rc<dyn Dataset>);
impl Dataset for Dyn {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn get(&self, i: usize) -> HoduResult<DataItem> {
        self.0.get(i)
    }
}
fn sample(id: usize) -> Tensor {
    Tensor::new(vec![id as i32, 3 * id as i32 + 1]).unwrap()
}
fn label(id: usize) -> Tensor {
    Tensor::new(vec![id as i32 + 1000]).unwrap()
}
struct Raw {
    n: usize,
    kind: String,
    fail: Vec<usize>,
}
impl Dataset for Raw {
    fn len(&self) -> usize {
        self.n
    }
    fn get(&self, i: usize) -> HoduResult<DataItem> {
        if i >= self.n || self.fail.contains(&i) {
            return Err(HoduError::InternalError("no sample".into()));
        }
        Ok(match self.kind.as_str() {
            "pair" => DataItem::Pair(sample(i), label(i)),
            "multi" => DataItem::Multiple(vec![label(i), sample(i), label(i)]),
            _ => DataItem::Single(sample(i)),
        })
    }
}
/// data set of samples base, base+1, ...; "view": the tensors are transposed, offset views
fn tensor_ds(base: usize, n: usize, view: bool, labels: bool) -> TensorDataset {
    let ids: Vec<i32> = (base..base + n).map(|x| x as i32).collect();
    let (d, l) = if view {
        let mut v: Vec<i32> = vec![-1; n + 1];
        v[1..].copy_from_slice(&ids);
        let w: Vec<i32> = v.iter().map(|x| 3 * x + 1).collect();
        let d = Tensor::new(vec![v, w]).unwrap().transpose(0, 1).unwrap().slice(0, 1, None, 1).unwrap();
        let l = Tensor::new(ids.iter().flat_map(|x| [x + 1000, -7]).map(|x| vec![x]).collect::<Vec<_>>()).unwrap().slice(0, 0, None, 2).unwrap();
        (d, l)
    } else {
        (Tensor::new(ids.iter().map(|x| vec![*x, 3 * x + 1]).collect::<Vec<_>>()).unwrap(), Tensor::new(ids.iter().map(|x| vec![x + 1000]).collect::<Vec<_>>()).unwrap())
    };
    if labels { TensorDataset::from_tensors(d, l) } else { TensorDataset::from_tensor(d) }
}
fn ints(t: &Tensor) -> Result<(Vec<usize>, Vec<i64>), String> {
    if t.dtype() != DType::I32 {
        return Err(format!("dtype {:?}", t.dtype()));
    }
    Ok((t.shape().dims().to_vec(), t.to_flatten_vec::<i32>().map_err(|e| e.to_string())?.iter().map(|x| *x as i64).collect()))
}
fn ids_of(t: &Tensor, lab: bool) -> Result<Vec<i64>, String> {
    let (s, v) = ints(t)?;
    if lab {
        if s.len() != 2 || s[1] != 1 {
            return Err(format!("label shape {s:?}"));
        }
        return Ok(v.iter().map(|x| x - 1000).collect());
    }
    if s.len() != 2 || s[1] != 2 {
        return Err(format!("shape {s:?}"));
    }
    v.chunks(2).map(|c| if c[1] == 3 * c[0] + 1 { Ok(c[0]) } else { Err(format!("torn sample {c:?}")) }).collect()
}
fn batch_ids(b: &Batch, kind: &str) -> Result<Vec<i64>, String> {
    let (a, rest): (Vec<i64>, Vec<Vec<i64>>) = match (b, kind) {
        (Batch::Single(t), "single" | "tensor") => (ids_of(t, false)?, vec![]),
        (Batch::Pair(t, l), "pair" | "view") => (ids_of(t, false)?, vec![ids_of(l, true)?]),
        (Batch::Multiple(v), "multi") if v.len() == 3 => (ids_of(&v[1], false)?, vec![ids_of(&v[0], true)?, ids_of(&v[2], true)?]),
        _ => return Err("wrong batch variant".into()),
    };
    if rest.iter().any(|r| *r != a) {
        return Err("data and labels of different samples".into());
    }
    Ok(a)
}
pub fn item_id(i: &DataItem) -> Result<i64, String> {
    let one = |t: &Tensor, lab: bool| -> Result<i64, String> {
        let (s, v) = ints(t)?;
        if lab {
            return if s == [1] { Ok(v[0] - 1000) } else { Err(format!("label shape {s:?}")) };
        }
        if s != [2] { return Err(format!("shape {s:?}")); }
        if v[1] == 3 * v[0] + 1 { Ok(v[0]) } else { Err(format!("torn sample {v:?}")) }
    };
    match i {
        DataItem::Single(t) => one(t, false),
        DataItem::Pair(t, l) => {
            let a = one(t, false)?;
            if one(l, true)? == a { Ok(a) } else { Err("label of another sample".into()) }
        },
        DataItem::Multiple(v) => one(&v[0], false),
    }
}

fn loader(c: &Value, seed: Option<u64>) -> DataLoader<Dyn> {
    let kind = c["kind"].as_str().unwrap();
    let n = c["n"].as_u64().unwrap() as usize;
    let ds: Dyn = match kind {
        "tensor" => Dyn(Rc::new(tensor_ds(0, n, false, false))),
        "view" => Dyn(Rc::new(tensor_ds(0, n, true, true))),
        k => Dyn(Rc::new(Raw { n, kind: k.into(), fail: usz(&c["fail"]) })),
    };
    let mut b = DataLoader::builder(ds).batch_size(c["bs"].as_u64().unwrap() as usize).shuffle(c["shuf"].as_bool().unwrap()).drop_last(c["drop"].as_bool().unwrap());
    if let Some(s) = seed {
        b = b.seed(s);
    }
    b.build()
}
fn ev(l: usize, kind: &str, r: HoduResult<Option<Batch>>) -> Value {
    match r {
        Ok(None) => json!({"l": l, "r": "end"}),
        Err(e) => json!({"l": l, "r": "err", "m": e.to_string()}),
        Ok(Some(b)) => match batch_ids(&b, kind) {
            Ok(ids) => json!({"l": l, "r": "batch", "ids": ids}),
            Err(m) => json!({"l": l, "r": "bad", "m": m}),
        },
    }
}
/// runs one history, returns the recorded events
pub fn history(case: &Value, seed: Option<u64>) -> Value {
    let cfgs = case["cfgs"].as_array().unwrap();
    let mut ls: Vec<_> = cfgs.iter().map(|c| loader(c, seed)).collect();
    let mut out = vec![];
    for s in case["h"].as_array().unwrap() {
        let l = s["l"].as_u64().unwrap() as usize;
        let (d, kind) = (&mut ls[l - 1], cfgs[l - 1]["kind"].as_str().unwrap());
        let steps: Vec<Value> = match guarded(|| {
            let mut o = vec![];
            match s["op"].as_str().unwrap() {
                "reset" => {
                    d.reset();
                    o.push(json!({"l": l, "r": "reset"}));
                },
                "take1" => {
                    let x = d.iter_batches().next();
                    o.push(ev(l, kind, x.transpose()));
                },
                "drain" => {
                    let mut errs = 0;
                    let mut it = d.iter_batches();
                    loop {
                        let x = it.next();
                        let last = x.is_none();
                        errs += matches!(x, Some(Err(_))) as usize;
                        o.push(ev(l, kind, x.transpose()));
                        if last || errs > 2 || o.len() > 100 {
                            break;
                        }
                    }
                },
                op => {
                    let k = match op { "next2" => 2, "next3" => 3, _ => 1 };
                    for _ in 0..k {
                        o.push(ev(l, kind, d.next_batch()));
                    }
                },
            }
            o.push(json!({"l": l, "r": "state", "has": d.has_next(), "num": d.num_batches(), "bs": d.batch_size()}));
            o
        }) {
            Ok(o) => o,
            Err(m) => vec![json!({"l": l, "r": "panic", "m": m})],
        };
        out.extend(steps);
    }
    json!(out)
}
fn sampler_runs(s: &dyn Sampler) -> Value {
    let a: Vec<usize> = s.iter().collect();
    let b: Vec<usize> = s.iter().collect();
    json!({"a": a, "b": b, "len": s.len(), "empty": s.is_empty()})
}
pub fn sampler(case: &Value) -> Value {
    let idx = usz(&case["idx"]);
    let n = idx.len();
    let seed = case["seed"].as_u64();
    let (bs, drop) = (case["bs"].as_u64().unwrap() as usize, case["drop"].as_bool().unwrap());
    let r = guarded(|| match case["k"].as_str().unwrap() {
        "seq" => (sampler_runs(&SequentialSampler::new(n)), json!(BatchSampler::new(SequentialSampler::new(n), bs, drop).batches()), sampler_runs(&SequentialSampler::new(n))),
        "rand" => (sampler_runs(&RandomSampler::new(n, seed)), json!(BatchSampler::new(RandomSampler::new(n, seed), bs, drop).batches()), sampler_runs(&RandomSampler::new(n, seed))),
        "randidx" => (sampler_runs(&RandomSampler::with_indices(idx.clone(), seed)), json!(BatchSampler::new(RandomSampler::with_indices(idx.clone(), seed), bs, drop).batches()), sampler_runs(&RandomSampler::with_indices(idx.clone(), seed))),
        _ => (sampler_runs(&SubsetSampler::new(idx.clone())), json!(BatchSampler::new(SubsetSampler::new(idx.clone()), bs, drop).batches()), sampler_runs(&SubsetSampler::new(idx.clone()))),
    });
    match r {
        Ok((s, b, t)) => json!({"k": case["k"], "idx": idx, "bs": bs, "drop": drop, "s": s, "b": b, "t": t, "ok": true}),
        Err(m) => json!({"k": case["k"], "idx": idx, "bs": bs, "drop": drop, "ok": false, "m": m}),
    }
}
/// expression of data sets -> data set; random splits draw with the given seed
fn build(e: &Value) -> Dyn {
    match e["op"].as_str().unwrap() {
        "leaf" => Dyn(Rc::new(tensor_ds(e["base"].as_u64().unwrap() as usize, e["n"].as_u64().unwrap() as usize, e["view"].as_bool().unwrap(), e["lab"].as_bool().unwrap()))),
        "sub" => Dyn(Rc::new(Subset::new(build(&e["of"]), usz(&e["idx"])))),
        "cat" => Dyn(Rc::new(ConcatDataset::new(e["of"].as_array().unwrap().iter().map(build).collect()))),
        _ => panic!("harness: data set"),
    }
}
fn read_all(d: &dyn Dataset, upto: usize) -> Value {
    let items: Vec<Value> = (0..upto)
        .map(|i| match guarded(|| d.get(i)) {
            Err(m) => json!({"r": "panic", "m": m}),
            Ok(Err(_)) => json!(-1),
            Ok(Ok(x)) => item_id(&x).map(|x| json!(x)).unwrap_or_else(|m| json!({"r": "bad", "m": m})),
        })
        .collect();
    json!({"len": d.len(), "empty": d.is_empty(), "items": items})
}
pub fn dataset(case: &Value) -> Result<(), (String, Value, Value)> {
    let d = build(&case["e"]);
    let upto = case["want"].as_array().unwrap().len();
    let got = guarded(|| read_all(&d, upto)).unwrap_or_else(|m| json!({"panic": m}));
    let n = case["len"].as_u64().unwrap();
    let want = json!({"len": n, "empty": n == 0, "items": case["want"]});
    if got != want {
        return Err(("items".into(), want, got));
    }
    if let Some(fr) = case["num"].as_f64().map(|n| n / case["den"].as_f64().unwrap()) {
        let mk = |seed| random_split(d.clone(), fr as f32, seed);
        for seed in [None, Some(0), Some(7)] {
            let r = guarded(|| {
                let ((a, b), (c, e)) = (mk(seed), mk(seed));
                (read_all(&a, a.len() + 1), read_all(&b, b.len() + 1), read_all(&c, c.len() + 1), read_all(&e, e.len() + 1))
            });
            let (a, b, c, e) = match r {
                Ok(x) => x,
                Err(m) => return Err(("split panic".into(), json!(null), json!(m))),
            };
            if a != c || b != e {
                return Err(("split not reproducible".into(), json!([a, b]), json!([c, e])));
            }
            // a partition: together every sample as often as the data set names it; beyond the end refused
            let list = |x: &Value| -> Vec<Value> { let v = x["items"].as_array().unwrap(); v[..v.len() - 1].to_vec() };
            let mut all: Vec<String> = list(&a).into_iter().chain(list(&b)).map(|x| x.to_string()).collect();
            all.sort();
            let mut wantall: Vec<String> = case["want"].as_array().unwrap()[..n as usize].iter().map(|x| x.to_string()).collect();
            wantall.sort();
            let sizes = json!([a["len"], b["len"]]);
            let wants = json!([case["split"], n - case["split"].as_u64().unwrap()]);
            if sizes != wants {
                return Err(("split sizes".into(), wants, sizes));
            }
            if all != wantall || a["items"].as_array().unwrap().last() != Some(&json!(-1)) || b["items"].as_array().unwrap().last() != Some(&json!(-1)) {
                return Err(("split partition".into(), json!(wantall), json!([a, b])));
            }
        }
    }
    Ok(())
}
/// data FILE OUT [SEED]: records every history / sampler case of FILE
pub fn main(a: &[String]) {
    let text = std::fs::read_to_string(&a[0]).expect("harness: cases");
    let seeds: Vec<Option<u64>> = vec![None, Some(1), Some(42), Some(u64::MAX), Some(u64::MAX - 1)];
    let mut out = String::new();
    for (i, line) in text.lines().enumerate() {
        let case = crate::replay::parse(line);
        if case.get("k").is_some() {
            out += &sampler(&case).to_string();
        } else {
            let seed = seeds[i % seeds.len()];
            let mut c = case.clone();
            c["ev"] = history(&case, seed);
            c["seed"] = json!(format!("{seed:?}"));
            out += &c.to_string();
        }
        out.push('\n');
    }
    std::fs::write(&a[1], out).unwrap();
    println!("{}", json!({"cases": text.lines().count()}));
}
