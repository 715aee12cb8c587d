//! F01, F02, F03: files written and read by the library against the specification of the formats
use crate::ops::apply;
use crate::replay::guarded;
use crate::val::usz;
use hodu_core::{
    format::{hdss, hdt, json},
    snapshot::Snapshot,
    tensor::Tensor,
    types::{DType, Device},
};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// remembers the largest single request of each thread
pub struct Counting;
thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LARGEST.try_with(|m| m.set(m.get().max(l.size())));
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LARGEST.try_with(|m| m.set(m.get().max(n)));
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = LARGEST.try_with(|m| m.set(m.get().max(l.size())));
        unsafe { System.alloc_zeroed(l) }
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

pub const TYPES: [DType; 15] = [
    DType::BOOL, DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64, DType::U8, DType::U16, DType::U32, DType::U64,
    DType::I8, DType::I16, DType::I32, DType::I64,
];
type R = Result<(), (&'static str, Value, Value)>;

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn dtype(v: &Value) -> DType {
    TYPES[v.as_u64().unwrap() as usize]
}
fn floating(d: DType) -> bool {
    matches!(d, DType::F8E4M3 | DType::F8E5M2 | DType::BF16 | DType::F16 | DType::F32 | DType::F64)
}
/// the elements, every NaN the same
pub fn plain(d: DType, b: &[u8]) -> Vec<u8> {
    let w = d.size_in_bytes();
    if !floating(d) {
        return b.to_vec();
    }
    b.chunks(w).zip(crate::val::read_bytes(b, d)).flat_map(|(c, v)| if v.is_nan() { vec![0xaa; w] } else { c.to_vec() }).collect()
}
fn is(t: &Tensor, d: DType, sh: &[usize], b: &[u8], exact: bool, what: &'static str) -> R {
    if t.dtype() != d || t.shape().dims() != sh {
        return Err((what, json!([format!("{d}"), sh]), json!([format!("{}", t.dtype()), t.shape().dims()])));
    }
    let g = t.to_bytes().map_err(|e| (what, json!("bytes"), json!(e.to_string())))?;
    let same = if exact { g == b } else { plain(d, &g) == plain(d, b) };
    if same { Ok(()) } else { Err((what, json!(b), json!(g))) }
}
/// whatever was accepted holds together
fn sound(t: &Tensor) -> R {
    let n = t.shape().dims().iter().try_fold(1usize, |a, d| a.checked_mul(*d));
    let g = t.to_bytes().map_err(|e| ("accepted but unreadable", json!("bytes"), json!(e.to_string())))?;
    match n.and_then(|n| n.checked_mul(t.dtype().size_in_bytes())) {
        Some(k) if k == g.len() => Ok(()),
        _ => Err(("accepted but inconsistent", json!(t.shape().dims()), json!(g.len()))),
    }
}
/// runs a reader: no panic, no allocation far beyond the input
fn read<T, E: std::fmt::Display>(len: usize, f: impl FnOnce() -> Result<T, E>) -> Result<Result<T, String>, (&'static str, Value, Value)> {
    // the library's tables are made with the first tensor
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| drop(Tensor::from_bytes(&[0], [1], DType::U8, Device::CPU)));
    LARGEST.with(|m| m.set(0));
    let r = guarded(f);
    let big = LARGEST.with(|m| m.get());
    if big > 65536 + 256 * len {
        return Err(("allocation", json!(len), json!(big)));
    }
    match r {
        Err(m) => Err(("panic", json!("error"), json!(m))),
        Ok(r) => Ok(r.map_err(|e| e.to_string())),
    }
}
fn file(ext: &str) -> std::path::PathBuf {
    let base = format!("hv-format-{}", std::process::id());
    std::env::temp_dir().join(if ext.is_empty() { base } else { format!("{base}.{ext}") })
}
fn expect<T>(how: &str, r: Result<T, String>, same: impl FnOnce(&T) -> R, any: impl FnOnce(&T) -> R) -> R {
    match (how, r) {
        ("err", Err(_)) | ("any", Err(_)) => Ok(()),
        ("err", Ok(v)) => {
            any(&v)?;
            Err(("accepted", json!("refused"), json!("accepted")))
        },
        ("ok", Err(e)) => Err(("refused", json!("accepted"), json!(e))),
        ("ok", Ok(v)) => same(&v),
        (_, Ok(v)) => any(&v),
        (h, Err(_)) => panic!("harness: verdict {h}"),
    }
}

fn view(case: &Value, idx: usize) -> R {
    let d = dtype(&case["dt"]);
    let (from, b, sh) = (bytes(&case["from"]), bytes(&case["b"]), usz(&case["sh"]));
    let err = |e: hodu_core::error::HoduError| ("error", json!("a file"), json!(e.to_string()));
    let mut t = Tensor::from_bytes(&from, usz(&case["base"]), d, Device::CPU).map_err(err)?;
    is(&t, d, &usz(&case["base"]), &from, true, "from_bytes")?;
    for o in case["ops"].as_array().unwrap() {
        t = apply(o["op"].as_str().unwrap(), &[&t], &o["p"]).map_err(err)?.pop().unwrap();
    }
    // values computed by an operation (flip, repeat, contiguous) may lose the payload of a NaN
    is(&t, d, &sh, &b, false, "to_bytes")?;
    let b = t.to_bytes().map_err(err)?;
    let f = hdt::serialize(&t).map_err(err)?;
    is(&hdt::deserialize(&f).map_err(err)?, d, &sh, &b, true, "hdt")?;
    if plain(d, &b) == b && f != bytes(&case["file"]) {
        return Err(("file form", case["file"].clone(), json!(f)));
    }
    is(&hdt::deserialize(&bytes(&case["file"])).map_err(err)?, d, &sh, &bytes(&case["b"]), true, "hdt of the specification")?;
    let j = json::serialize(&t).map_err(err)?;
    is(&json::deserialize(&j).map_err(err)?, d, &sh, &b, false, "json")?;
    if idx % 4 == 0 {
        let e = ["hdt", "json", "JSON", "HDT", "", "bin"][idx / 4 % 6];
        let p = file(e);
        t.save(&p).map_err(err)?;
        let u = Tensor::load(&p).map_err(err);
        let text = std::fs::read(&p).unwrap();
        let _ = std::fs::remove_file(&p);
        is(&u?, d, &sh, &b, !e.eq_ignore_ascii_case("json"), "file")?;
        if e.eq_ignore_ascii_case("json") != (text.first() == Some(&b'{') && text.last() == Some(&b'}')) {
            return Err(("extension", json!(e), json!(text)));
        }
        let mut m = std::collections::HashMap::new();
        m.insert("one".to_string(), t.clone());
        m.insert(String::new(), t.clone());
        let p = file("many");
        hdt::save_many(&m, &p).map_err(err)?;
        let u = hdt::load_many(&p).map_err(err);
        json::save_many(&m, &p).map_err(err)?;
        let v = json::load_many(&p).map_err(err);
        let _ = std::fs::remove_file(&p);
        for (m, exact) in [(u?, true), (v?, false)] {
            if m.len() != 2 {
                return Err(("collection", json!(2), json!(m.len())));
            }
            for k in ["one", ""] {
                is(m.get(k).ok_or(("collection", json!(k), json!("missing")))?, d, &sh, &b, exact, "collection")?;
            }
        }
    }
    Ok(())
}

fn tensor(case: &Value, idx: usize) -> R {
    let f = bytes(&case["b"]);
    let how = case["how"].as_str().unwrap();
    let check = |r: Result<Tensor, String>| {
        expect(how, r, |t| is(t, dtype(&case["v"]["dt"]), &usz(&case["v"]["sh"]), &bytes(&case["v"]["b"]), dtype(&case["v"]["dt"]) != DType::BOOL, "value").or_else(|e| if dtype(&case["v"]["dt"]) == DType::BOOL { sound(t) } else { Err(e) }), sound)
    };
    check(read(f.len(), || hdt::deserialize(&f))?)?;
    if idx % 16 == 0 {
        let p = file("hdt");
        std::fs::write(&p, &f).unwrap();
        let r = read(f.len(), || Tensor::load(&p));
        let _ = std::fs::remove_file(&p);
        check(r?)?;
    }
    Ok(())
}
fn text_of(v: &Value) -> Option<String> {
    String::from_utf8(bytes(v)).ok()
}
fn many(case: &Value, idx: usize) -> R {
    let f = bytes(&case["b"]);
    let check = |r: Result<std::collections::HashMap<String, Tensor>, String>| {
        expect(
            case["how"].as_str().unwrap(),
            r,
            |m| {
                let w = case["v"].as_array().unwrap();
                if m.len() != w.len() {
                    return Err(("names", case["v"].clone(), json!(m.keys().collect::<Vec<_>>())));
                }
                for e in w {
                    let t = m.get(&text_of(&e["name"]).unwrap()).ok_or(("names", e["name"].clone(), json!("missing")))?;
                    let d = dtype(&e["t"]["dt"]);
                    if d == DType::BOOL {
                        sound(t)?;
                    } else {
                        is(t, d, &usz(&e["t"]["sh"]), &bytes(&e["t"]["b"]), true, "value")?;
                    }
                }
                // and through the text form
                let j = json::serialize_many(m).map_err(|e| ("json", json!("text"), json!(e.to_string())))?;
                let back = json::deserialize_many(&j).map_err(|e| ("json", json!(j.clone()), json!(e.to_string())))?;
                for (k, t) in m {
                    let b = t.to_bytes().unwrap();
                    is(back.get(k).ok_or(("json names", json!(k), json!("missing")))?, t.dtype(), t.shape().dims(), &b, false, "json")?;
                }
                if back.len() == m.len() { Ok(()) } else { Err(("json names", json!(m.len()), json!(back.len()))) }
            },
            |m| m.values().try_for_each(sound),
        )
    };
    check(read(f.len(), || hdt::deserialize_many(&f))?)?;
    if idx % 16 == 0 {
        let p = file("many");
        std::fs::write(&p, &f).unwrap();
        let r = read(f.len(), || hdt::load_many(&p));
        let _ = std::fs::remove_file(&p);
        check(r?)?;
    }
    Ok(())
}
/// what a reader may never return
pub fn snap_sound(s: &Snapshot) -> R {
    for c in &s.constants {
        let n = c.shape.dims().iter().try_fold(c.dtype.size_in_bytes(), |a, d| a.checked_mul(*d));
        if n != Some(c.data.len()) {
            return Err(("accepted but inconsistent", json!(format!("{:?} {:?}", c.shape, c.dtype)), json!(c.data.len())));
        }
    }
    for n in &s.nodes {
        for l in n.input_layouts.iter().chain([&n.output_layout]) {
            if l.strides().len() != l.shape().ndim() {
                return Err(("accepted but inconsistent", json!("layout"), json!(l.strides())));
            }
        }
    }
    Ok(())
}
fn snap(case: &Value, idx: usize) -> R {
    let f = bytes(&case["b"]);
    let check = |r: Result<Snapshot, String>| {
        expect(
            case["how"].as_str().unwrap(),
            r,
            |s| {
                let w = &case["v"];
                let opt = |v: &Value| v.as_array().unwrap().first().map(|x| text_of(x).unwrap());
                let arr = |k: &str| w[k].as_array().unwrap().clone();
                let bad = |what: &'static str| Err((what, w.clone(), json!(format!("{s:?}"))));
                let id = |v: &Value| v.as_u64().unwrap() as usize;
                if s.name != opt(&w["name"]) || !s.nodes.is_empty() {
                    return bad("name");
                }
                let ins = arr("ins");
                if s.inputs.len() != ins.len() || s.inputs.iter().zip(&ins).any(|(i, e)| i.name != text_of(&e["name"]).unwrap() || i.id.0 != id(&e["id"]) || i.shape.dims() != usz(&e["sh"]) || i.dtype != dtype(&e["dt"])) {
                    return bad("inputs");
                }
                let cs = arr("cs");
                if s.constants.len() != cs.len()
                    || s.constants.iter().zip(&cs).any(|(i, e)| i.name != opt(&e["name"]) || i.id.0 != id(&e["id"]) || i.shape.dims() != usz(&e["t"]["sh"]) || i.dtype != dtype(&e["t"]["dt"]) || i.data != bytes(&e["t"]["b"]))
                {
                    return bad("constants");
                }
                let tg = arr("tg");
                if s.targets.len() != tg.len() || s.targets.iter().zip(&tg).any(|(i, e)| i.name != text_of(&e["name"]).unwrap() || i.id.0 != id(&e["id"])) {
                    return bad("targets");
                }
                if s.to_bytes().map_err(|e| ("write", json!("bytes"), json!(e.to_string())))? != f {
                    return bad("file form");
                }
                Ok(())
            },
            snap_sound,
        )
    };
    check(read(f.len(), || hdss::from_bytes(&f))?)?;
    if idx % 16 == 0 {
        let p = file("hdss");
        std::fs::write(&p, &f).unwrap();
        let r = read(f.len(), || hdss::load(&p));
        let _ = std::fs::remove_file(&p);
        check(r?)?;
    }
    Ok(())
}

fn text(case: &Value, idx: usize) -> R {
    let doc = &case["doc"];
    let list = |k: &str| doc[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>();
    let (shape, data, dt, form) = (list("shape"), list("data"), doc["dtype"].as_str().unwrap(), doc["form"].as_str().unwrap());
    let fs = format!("\"shape\": [{}]", shape.join(", "));
    let fd = format!("\"dtype\": \"{dt}\"");
    let fv = format!("\"data\": [{}]", data.join(","));
    let t = match form {
        "noshape" => format!("{{{fd},{fv}}}"),
        "nodtype" => format!("{{{fs},{fv}}}"),
        "nodata" => format!("{{{fs},{fd}}}"),
        "array" => format!("[{{{fs},{fd},{fv}}}]"),
        "scalar" => "1".to_string(),
        "objdata" => format!("{{{fs},{fd},\"data\":{{}}}}"),
        "cut" => format!("{{{fs},{fd},{fv}"),
        "tail" => format!("{{{fs},{fd},{fv}}} 1"),
        "shapestr" => format!("{{\"shape\":\"{}\",{fd},{fv}}}", shape.join(",")),
        _ if idx % 2 == 0 => format!("{{{fs},{fd},{fv}}}"),
        _ => format!("{{ {fv} ,\n {fd}, {fs} }}"),
    };
    let how = case["how"].as_str().unwrap();
    let same = |u: &Tensor| {
        let d = crate::val::dtype(dt);
        let sh: Vec<usize> = shape.iter().map(|x| x.parse().unwrap()).collect();
        let b: Vec<u8> = data
            .iter()
            .flat_map(|x| match x.as_str() {
                "true" => vec![1],
                "false" => vec![0],
                x if floating(d) => crate::val::make(&[1], &[x.parse().unwrap()], d).unwrap().to_bytes().unwrap(),
                x => x.parse::<i128>().unwrap().to_le_bytes()[..d.size_in_bytes()].to_vec(),
            })
            .collect();
        is(u, d, &sh, &b, true, "value")
    };
    expect(how, read(t.len(), || json::deserialize(&t))?, same, sound)?;
    let m = format!("{{\"k\": {t}}}");
    expect(how, read(m.len(), || json::deserialize_many(&m))?, |m| if m.len() == 1 { same(&m["k"]) } else { Err(("names", json!("k"), json!(m.len()))) }, |m| m.values().try_for_each(sound))?;
    if idx % 8 == 0 {
        let p = file("json");
        std::fs::write(&p, &t).unwrap();
        let r = read(t.len(), || Tensor::load(&p));
        // a file cut anywhere
        for k in 0..t.len() {
            std::fs::write(&p, &t[..k]).unwrap();
            if k % 4 != 0 {
                continue;
            }
            if form == "whole" {
                expect("err", read(k, || Tensor::load(&p))?, |_| Ok(()), |_| Ok(()))?;
            }
        }
        let _ = std::fs::remove_file(&p);
        expect(how, r?, same, sound)?;
    }
    if form == "whole" && how == "ok" {
        for k in 0..t.len() {
            expect("err", read(k, || json::deserialize(&t[..k]))?, |_| Ok(()), |_| Ok(()))?;
        }
    }
    Ok(())
}

pub fn case(case: &Value, idx: usize) -> Vec<Value> {
    let k = case["k"].as_str().unwrap();
    let r = guarded(|| match k {
        "view" => view(case, idx),
        "tensor" => tensor(case, idx),
        "many" => many(case, idx),
        "snap" => snap(case, idx),
        _ => text(case, idx),
    })
    .unwrap_or_else(|m| Err(("panic", json!("no panic"), json!(m))));
    match r {
        Ok(()) => vec![],
        Err((kind, e, g)) => vec![json!({"op": k, "kind": kind, "dt": case["dt"], "step": 0, "exp": e, "got": g})],
    }
}

/// F03 on a real snapshot: cut at every byte, every byte changed
pub fn damage(s: &Snapshot) -> Result<(), String> {
    let b = s.to_bytes().map_err(|e| e.to_string())?;
    let text = |(k, e, g): (&str, Value, Value)| format!("{k}: {e} {g}");
    for k in 0..b.len() {
        if read(k, || Snapshot::from_bytes(&b[..k])).map_err(text)?.is_ok() {
            return Err(format!("cut after {k} of {} bytes: accepted", b.len()));
        }
        for v in [0, 1, 127, 128, 255, b[k].wrapping_add(1), b[k].wrapping_sub(1)] {
            let mut c = b.clone();
            c[k] = v;
            if let Ok(s) = read(c.len(), || Snapshot::from_bytes(&c)).map_err(text)? {
                snap_sound(&s).map_err(|e| format!("byte {k} set to {v}: {}", text(e)))?;
            }
        }
    }
    let mut c = b.clone();
    c.push(0);
    if Snapshot::from_bytes(&c).is_ok() {
        return Err("data after the end: accepted".into());
    }
    // a constant that does not hold what it declares
    for i in 0..s.constants.len() {
        for how in 0..3 {
            let mut t = s.clone();
            match how {
                0 => t.constants[i].data.push(0),
                1 => {
                    if t.constants[i].data.pop().is_none() {
                        continue;
                    }
                },
                _ => t.constants[i].shape = [1usize << 33, 1usize << 33].into(),
            }
            let b = t.to_bytes().map_err(|e| e.to_string())?;
            if read(b.len(), || Snapshot::from_bytes(&b)).map_err(text)?.is_ok() {
                return Err(format!("constant {i} (variant {how}): accepted"));
            }
        }
    }
    Ok(())
}
