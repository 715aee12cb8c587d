//! The commands that run, convert and clean: the real program in a home directory of its own, with
//! plugins that record what they were given.
use crate::admin::{entry, fail, hodu, scratch, tree, Ran};
use crate::format::{bytes, plain, TYPES};
use crate::val::usz;
use hodu_core::{
    format::{hdt, json as text},
    snapshot::{Snapshot, SnapshotConstant, SnapshotInput, SnapshotTarget, SnapshotTensorId},
    tensor::Tensor,
    types::{DType, Device, Shape},
};
use hodu_plugin_runtime::PluginRegistry;
use hodu_plugin_sdk::rpc::{Request, Response, RpcError};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::time::{Duration, Instant};

fn hash(b: &[u8]) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::hash::DefaultHasher::new();
    b.hash(&mut h);
    format!("{:x}", h.finish())
}
fn tensor(v: &Value) -> Tensor {
    Tensor::from_bytes(&bytes(&v["b"]), usz(&v["sh"]), TYPES[v["dt"].as_u64().unwrap() as usize], Device::CPU).expect("harness: tensor")
}
/// the same dtype, shape and elements
fn holds(t: &Tensor, v: &Value) -> bool {
    let d = TYPES[v["dt"].as_u64().unwrap() as usize];
    t.dtype() == d && t.shape().dims() == usz(&v["sh"]) && t.to_bytes().is_ok_and(|g| plain(d, &g) == plain(d, &bytes(&v["b"])))
}
/// a plugin: its name, the home directory
pub fn plugin(a: &[String]) {
    let home = Path::new(&a[1]);
    let mut out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let Ok(r) = serde_json::from_str::<Request>(&l.unwrap_or_default()) else { continue };
        let mut mode = std::env::var("HV_MODE").unwrap_or_default();
        let p = r.params.clone().unwrap_or_default();
        if let Ok(log) = std::env::var("HV_CALLS") {
            let mut f = std::fs::File::options().create(true).append(true).open(log).expect("harness: log");
            writeln!(f, "{}", json!({"who": a[0], "method": r.method, "params": p})).unwrap();
            let kind = if r.method.starts_with("backend.") { "HV_BACK" } else { "HV_READ" };
            mode = std::env::var(kind).unwrap_or_default();
            if mode == "crash" && r.method.contains('.') {
                std::process::exit(5);
            }
        }
        let s = |k: &str| p[k].as_str().unwrap_or("").to_string();
        let ans: Result<Value, String> = match r.method.as_str() {
            "initialize" => Ok(json!({"name": "n", "version": "1", "protocol_version": "1.0.0", "plugin_version": hodu_plugin::PLUGIN_VERSION, "capabilities": []})),
            "shutdown" => return,
            "format.load_model" => match mode.as_str() {
                "ok" => Ok(json!({"snapshot_path": std::env::var("HV_SNAP").unwrap()})),
                "bad" => Ok(json!({"snapshot_path": s("path")})),
                "missing" => Ok(json!({"snapshot_path": home.join("tmp/none.hdss")})),
                _ => Err("no".into()),
            },
            "backend.supported_targets" if mode == "ok" => Ok(json!({"targets": ["t1"], "formatted": "the targets of it"})),
            "format.load_tensor" => match mode.as_str() {
                "failload" => Err("no".into()),
                _ => (|| {
                    let f = std::fs::read(s("path")).map_err(|e| e.to_string())?;
                    let f = f.strip_prefix(b"FK").ok_or("not mine")?;
                    let at = home.join("tmp").join(format!("loaded{}.hdt", std::process::id()));
                    std::fs::write(&at, if mode == "badload" { &f[..f.len() / 2] } else { f }).map_err(|e| e.to_string())?;
                    Ok(json!({"tensor_path": at}))
                })(),
            },
            "format.save_tensor" => (|| {
                let f = [b"FK", &std::fs::read(s("tensor_path")).map_err(|e| e.to_string())?[..]].concat();
                broken(&mode, &s("output_path"), &f)
            })(),
            "backend.build" => (|| {
                if mode == "swap" {
                    let (model, other) = std::env::var("HV_SWAP").unwrap().split_once('|').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
                    std::fs::copy(other, model).map_err(|e| e.to_string())?;
                }
                let v = std::fs::read_to_string(home.join(format!("ver_{}", a[0]))).unwrap_or_default();
                let snap = std::fs::read(s("snapshot_path")).map_err(|e| e.to_string())?;
                let art = json!({"snap": hash(&snap), "d": s("device"), "t": s("target"), "f": s("format"), "k": a[0], "v": v}).to_string() + "END";
                if mode == "slow" && !home.join("half").exists() {
                    std::fs::write(s("output_path"), &art[..art.len() / 2]).map_err(|e| e.to_string())?;
                    let _ = std::fs::write(home.join("half"), "");
                    let t = Instant::now();
                    while !home.join("go").exists() && t.elapsed() < Duration::from_secs(20) {
                        std::thread::sleep(Duration::from_millis(2));
                    }
                }
                broken(&mode, &s("output_path"), art.as_bytes())
            })(),
            "backend.run" if mode == "runerr" => Err("no".into()),
            "backend.run" if mode == "runcrash" => std::process::exit(4),
            "backend.run" => (|| {
                let log = std::path::PathBuf::from(std::env::var("HV_LAST").map_err(|e| e.to_string())?);
                std::fs::create_dir_all(&log).map_err(|e| e.to_string())?;
                let lib = std::fs::read_to_string(s("library_path")).map_err(|e| e.to_string())?;
                let mut ins: Vec<(String, String)> = p["inputs"].as_array().unwrap().iter().map(|i| (i["name"].as_str().unwrap().to_string(), i["path"].as_str().unwrap().to_string())).collect();
                ins.sort();
                let art = json!({"lib": lib.strip_suffix("END").unwrap_or("incomplete"), "d": s("device"), "k": a[0], "snap": std::fs::read(s("snapshot_path")).map(|b| hash(&b)).unwrap_or_default(), "names": ins.iter().map(|i| i.0.clone()).collect::<Vec<_>>()}).to_string();
                let _ = std::fs::write(log.join("art"), &art);
                let at = log.join("o_art.hdt");
                hdt::save(&Tensor::from_bytes(art.as_bytes(), [art.len()], DType::U8, Device::CPU).unwrap(), &at).map_err(|e| e.to_string())?;
                let mut outs = vec![json!({"name": "art", "path": at})];
                for (i, (_, path)) in ins.iter().enumerate() {
                    let at = log.join(format!("o_{i}.hdt"));
                    std::fs::copy(path, &at).map_err(|e| e.to_string())?;
                    outs.push(json!({"name": format!("echo{i}"), "path": at}));
                }
                Ok(json!({"outputs": outs}))
            })(),
            m => Err(format!("unknown {m}")),
        };
        let r = match ans {
            Ok(v) => Response::success(r.id, v),
            Err(m) => Response::error(r.id, RpcError::internal_error(m)),
        };
        let _ = writeln!(out, "{}", serde_json::to_string(&r).unwrap()).and_then(|_| out.flush());
    }
}
/// writes a result, or breaks on the way
fn broken(mode: &str, path: &str, b: &[u8]) -> Result<Value, String> {
    match mode {
        "err" => return Err("no".into()),
        "partial" | "crash" => {
            std::fs::write(path, &b[..b.len() / 2]).map_err(|e| e.to_string())?;
            if mode == "crash" {
                std::process::exit(5);
            }
            return Err("broke".into());
        },
        "nothing" => {},
        _ => std::fs::write(path, b).map_err(|e| e.to_string())?,
    }
    Ok(json!({}))
}
fn home(dir: &Path) -> std::path::PathBuf {
    let h = dir.join("home");
    std::fs::create_dir_all(h.join(".hodu/plugins")).unwrap();
    std::fs::create_dir_all(h.join("tmp")).unwrap();
    std::fs::write(h.join(".hodu/plugins/.setup_shown"), "").unwrap();
    h
}
fn install(h: &Path, plugins: &[(String, Value, u64)]) {
    let mut r = PluginRegistry::new();
    let me = std::env::current_exe().unwrap();
    for (n, q, v) in plugins {
        let get = |k: &str| q.get(k).cloned().unwrap_or(json!([]));
        let mut e = entry(&json!({"name": n, "kind": q["kind"], "devices": get("devices"), "mext": [], "text": get("text"), "enabled": true, "deps": [], "v": v}));
        e.capabilities.load_tensor = Some(true);
        e.capabilities.save_tensor = Some(true);
        e.capabilities.runner = Some(true);
        e.capabilities.builder = Some(true);
        r.plugins.push(e);
        std::fs::write(h.join(format!("ver_{n}")), format!("{v}")).unwrap();
        let d = h.join(".hodu/plugins").join(n);
        std::fs::create_dir_all(&d).unwrap();
        let f = d.join("bin");
        if !f.exists() {
            std::fs::write(&f, format!("#!/bin/sh\nunset HV_CLI\nexec '{}' plugin-cli {n} '{}'\n", me.display(), h.display())).unwrap();
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
    }
    r.save(&h.join(".hodu/plugins.json")).expect("harness: registry");
}
fn told(r: &Ran) -> Value {
    json!({"code": r.code, "err": r.err.chars().take(300).collect::<String>()})
}

// ---- C02
fn unit(h: &Path, u: &str) -> Vec<(std::path::PathBuf, bool)> {
    let c = h.join(".hodu/cache");
    match u {
        "home" => vec![(h.join("precious"), false)],
        "out" => vec![(h.join("out/a/hash.so"), false), (h.join("out/f"), false)],
        "reg" => vec![(h.join(".hodu/plugins.json"), false)],
        "conf" => vec![(h.join(".hodu/config"), false)],
        "plug" => vec![(h.join(".hodu/plugins/x/bin"), false)],
        "P" => vec![(c.join("hodu-backend-A-plugin/hash.so"), false)],
        "D" => vec![(c.join("..D/hash.so"), false), (c.join("..D/deep/er/x"), false)],
        "L" => vec![(c.join("L"), true)],
        "S" => vec![(c.join("A B/hash.so"), false)],
        n => vec![(c.join(n).join("hash.so"), false), (c.join(n).join("other.dylib"), false)],
    }
}
pub fn clean(case: &Value, idx: usize) -> Vec<Value> {
    let dir = scratch("clean", idx);
    // deeper than any argument can climb
    let h = dir.join("1/2/3/4/5/6/home");
    let set = |v: &Value| -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
    let mut out = vec![];
    for (n, s) in case["hist"].as_array().unwrap().iter().enumerate() {
        let before = set(&s["before"]);
        let _ = std::fs::remove_dir_all(&h);
        std::fs::create_dir_all(h.join(".hodu/plugins")).unwrap();
        std::fs::create_dir_all(h.join("tmp")).unwrap();
        std::fs::write(h.join(".hodu/plugins/.setup_shown"), "").unwrap();
        for (f, link) in before.iter().flat_map(|u| unit(&h, u)) {
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            if link {
                std::os::unix::fs::symlink(h.join("out"), f).unwrap();
            } else {
                std::fs::write(f, "12345").unwrap();
            }
        }
        let a = &s["a"];
        let segs = a["b"]["segs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join("/");
        let b = if a["b"]["abs"] == true { format!("{}/{segs}", h.display()) } else { segs };
        let mut args = vec!["clean"];
        if a["dry"] == true {
            args.push("--dry-run");
        }
        if a["all"] == true {
            args.push("--all");
        }
        let opt = format!("--backend={b}");
        if a["b"]["given"] == true {
            args.push(&opt);
        }
        let cwd = dir.join("cwd");
        std::fs::create_dir_all(&cwd).unwrap();
        std::fs::write(cwd.join("mine"), "keep").unwrap();
        let r = hodu(&h, &cwd, &args, false, &[]);
        let step = json!({"step": n, "args": args, "before": before, "told": told(&r)});
        if r.code.is_none() {
            out.push(fail("clean", "hang", json!("ends"), step));
            break;
        }
        if !cwd.join("mine").exists() {
            out.push(fail("clean", "foreign", json!("untouched"), step.clone()));
        }
        for u in &before {
            let left: Vec<bool> = unit(&h, u).iter().map(|(f, link)| if *link { f.is_symlink() } else { std::fs::read(f).is_ok_and(|b| b == b"12345") }).collect();
            if left.iter().any(|x| !x) && !set(&s["may"]).contains(u) {
                out.push(fail("clean", "removed", json!({"kept": u}), step.clone()));
            }
            if left.iter().any(|x| *x) && set(&s["must"]).contains(u) {
                out.push(fail("clean", "kept", json!({"removed": u}), step.clone()));
            }
        }
        if !out.is_empty() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    out
}

// ---- C04
fn form(p: &str) -> &str {
    match p.rsplit_once('.').map(|x| x.1.to_lowercase()).as_deref() {
        Some("hdt") => "hdt",
        Some("json") => "json",
        Some("fk") => "fk",
        _ => "hdss",
    }
}
fn encode(f: &str, v: &Value, k: u64) -> Vec<u8> {
    let t = tensor(v);
    match f {
        "hdt" => hdt::serialize(&t).unwrap(),
        "json" => text::serialize(&t).unwrap().into_bytes(),
        "fk" => [b"FK", &hdt::serialize(&t).unwrap()[..]].concat(),
        _ => format!("model {k}").into_bytes(),
    }
}
fn decode(f: &str, b: &[u8]) -> Result<Tensor, String> {
    match f {
        "hdt" => hdt::deserialize(b).map_err(|e| e.to_string()),
        "json" => text::deserialize(&String::from_utf8_lossy(b)).map_err(|e| e.to_string()),
        _ => hdt::deserialize(b.strip_prefix(b"FK").ok_or("no fk file")?).map_err(|e| e.to_string()),
    }
}
pub fn convert(case: &Value, idx: usize) -> Vec<Value> {
    let dir = scratch("conv", idx);
    let h = home(&dir);
    install(&h, &[("tf".into(), json!({"kind": "tensor_format", "text": ["fk"]}), 1)]);
    let cwd = dir.join("cwd");
    std::fs::create_dir_all(cwd.join("sub")).unwrap();
    for d in ["dir.hdt", "dir.fk"] {
        std::fs::create_dir_all(cwd.join(d)).unwrap();
        std::fs::write(cwd.join(d).join("inside"), "keep").unwrap();
    }
    for d in ["x.bin", "noext"] {
        std::fs::write(cwd.join(d), "keep").unwrap();
    }
    std::os::unix::fs::symlink("a.hdt", cwd.join("l.hdt")).unwrap();
    let pool = case["pool"].as_array().unwrap();
    let put = |p: &str, v: u64| {
        let f = cwd.join(p);
        let _ = std::fs::remove_file(&f);
        if v == 99 {
            let mut b = encode(form(p), &pool[0], 1);
            b.pop();
            std::fs::write(f, b).unwrap();
        } else if v != 0 {
            std::fs::write(f, encode(form(p), &pool[v as usize - 1], v)).unwrap();
        }
    };
    let mut out = vec![];
    for (n, s) in case["hist"].as_array().unwrap().iter().enumerate() {
        let files = s["files"].as_object().unwrap();
        let (src, dst) = (s["src"].as_str().unwrap(), s["dst"].as_str().unwrap());
        match s["op"].as_str().unwrap() {
            "start" => files.iter().for_each(|(p, v)| put(p, v.as_u64().unwrap())),
            "change" => put(src, files[src].as_u64().unwrap()),
            _ => {
                let fault = s["fault"].as_str().unwrap();
                let before = tree(&cwd);
                let (a, b) = match (idx + n) % 4 {
                    0 => (format!("./{src}"), dst.to_string()),
                    1 => (src.to_string(), cwd.join(dst).to_string_lossy().into_owned()),
                    2 => (cwd.join(src).to_string_lossy().into_owned(), format!("sub/../{dst}")),
                    _ => (src.to_string(), dst.to_string()),
                };
                let r = hodu(&h, &cwd, &["convert", &a, "-o", &b], fault == "full", &[("HV_MODE", fault)]);
                let step = json!({"step": n, "src": src, "dst": dst, "fault": fault, "told": told(&r)});
                let ok = s["ok"] == true;
                if r.code.is_none() {
                    out.push(fail("convert", "hang", json!("ends"), step));
                    break;
                }
                if (r.code == Some(0)) != ok {
                    out.push(fail("convert", if ok { "refused" } else { "accepted" }, json!(ok), step));
                    break;
                }
                let after = tree(&cwd);
                let into = format!("/{}", if dst == "l.hdt" { "a.hdt" } else { dst });
                for (p, b) in &before {
                    let through = p == "/l.hdt" && into == "/a.hdt";
                    if (*p != into || !ok) && !through && after.get(p) != Some(b) {
                        out.push(fail("convert", "touched", json!(p), step.clone()));
                    }
                }
                if !ok && !before.contains_key(&into) && after.contains_key(&into) {
                    out.push(fail("convert", "left over", json!(into), step.clone()));
                }
                if ok && out.is_empty() {
                    let v = files[&into[1..]].as_u64().unwrap();
                    let want = &pool[v as usize - 1];
                    let b = after.get(&into).cloned().unwrap_or_default();
                    let same = if form(dst) == "hdss" { b == encode("hdss", want, v) } else { decode(form(dst), &b).is_ok_and(|t| holds(&t, want)) };
                    if !same {
                        out.push(fail("convert", "contents", want.clone(), json!({"step": step, "bytes": b})));
                    }
                }
            },
        }
        if !out.is_empty() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    out
}

// ---- C01
fn model(m: &Value, k: u64) -> Vec<u8> {
    let mut s = Snapshot::new();
    for (i, (n, w)) in m.as_object().into_iter().flatten().enumerate() {
        s.inputs.push(SnapshotInput { name: n.clone(), id: SnapshotTensorId(i + 1), shape: Shape::new(&usz(&w["sh"])), dtype: TYPES[w["dt"].as_u64().unwrap() as usize] });
    }
    s.constants.push(SnapshotConstant { id: SnapshotTensorId(77), name: None, shape: Shape::new(&[1]), dtype: DType::U8, data: vec![k as u8] });
    s.targets.push(SnapshotTarget { name: "y".into(), id: SnapshotTensorId(77) });
    s.to_bytes().expect("harness: model")
}
/// writes an input and gives its path
fn input(dir: &Path, i: usize, how: &str, v: &Value) -> String {
    let f = |e: &str| dir.join(format!("in{i}.{e}"));
    let (mut sh, mut d) = (usz(&v["sh"]), TYPES[v["dt"].as_u64().unwrap() as usize]);
    match how {
        "shape" => sh.push(1),
        "dtype" => {
            let w = d.size_in_bytes();
            d = *TYPES.iter().find(|t| **t != d && t.size_in_bytes() == w && **t != DType::BOOL).unwrap()
        },
        _ => {},
    }
    let t = Tensor::from_bytes(&bytes(&v["b"]), sh, d, Device::CPU).expect("harness: input");
    let p = match how {
        "json" | "latejson" => {
            text::save(&t, f("json")).unwrap();
            f("json")
        },
        "nofile" => {
            let _ = std::fs::remove_file(f("gone.hdt"));
            f("gone.hdt")
        },
        "broken" => {
            let mut b = hdt::serialize(&t).unwrap();
            b.pop();
            std::fs::write(f("bad.hdt"), b).unwrap();
            f("bad.hdt")
        },
        "ext" => {
            hdt::save(&t, f("bin")).unwrap();
            f("bin")
        },
        _ => {
            hdt::save(&t, f("hdt")).unwrap();
            f("hdt")
        },
    };
    p.to_string_lossy().into_owned()
}
pub fn run(case: &Value, idx: usize) -> Vec<Value> {
    let dir = scratch("run", idx);
    let h = home(&dir);
    let mut vers = [1u64; 3];
    let backends = |v: &[u64; 3]| {
        install(
            &h,
            &[
                ("b1".into(), json!({"kind": "backend", "devices": ["cpu", "cuda::0"]}), v[0]),
                ("hodu-backend-b2".into(), json!({"kind": "backend", "devices": ["CPU", "metal", "cuda::1", "odd"]}), v[1]),
                ("b3".into(), json!({"kind": "backend", "devices": ["rocm::0", "metal"]}), v[2]),
            ],
        )
    };
    backends(&vers);
    let models: Vec<Vec<u8>> = case["models"].as_array().unwrap().iter().enumerate().map(|(i, m)| model(m, i as u64 + 1)).collect();
    let mut out = vec![];
    for (n, s) in case["hist"].as_array().unwrap().iter().enumerate() {
        let k = s["k"].as_u64().unwrap() as usize;
        let at = dir.join(s["p"].as_str().unwrap());
        match s["op"].as_str().unwrap() {
            "change" => std::fs::write(&at, &models[s["m"].as_u64().unwrap() as usize - 1]).unwrap(),
            "upgrade" => {
                vers[k - 1] = s["v"].as_u64().unwrap();
                backends(&vers);
            },
            op => {
                let cwd = dir.join("cwd");
                let cwd2 = dir.join("cwd2");
                let none = serde_json::Map::new();
                let how: BTreeMap<&str, &str> = s["how"].as_object().unwrap_or(&none).iter().map(|(n, w)| (n.as_str(), w.as_str().unwrap())).collect();
                let _ = std::fs::remove_dir_all(&cwd);
                let _ = std::fs::remove_dir_all(&cwd2);
                std::fs::create_dir_all(&cwd).unwrap();
                std::fs::create_dir_all(&cwd2).unwrap();
                let (mut args, mut late) = (vec!["run".to_string(), at.to_string_lossy().into_owned()], vec![]);
                for (i, (name, w)) in how.iter().enumerate() {
                    if *w == "missing" {
                        continue;
                    }
                    let a = format!("{name}={}", input(&cwd, i, w, &s["ins"][*name]));
                    if *w == "extra" {
                        args.extend(["-i".into(), format!("not{a}")]);
                    }
                    if w.starts_with("late") {
                        late.push(a);
                    } else {
                        args.extend(["-i".into(), a]);
                    }
                }
                if !late.is_empty() {
                    args.extend(["--inputs".into(), late.join(",")]);
                }
                args.extend(["--device".into(), s["w"].as_str().unwrap().into()]);
                if s["b"] != "" {
                    args.extend(["--backend".into(), s["b"].as_str().unwrap().into()]);
                }
                let form = s["form"].as_str().unwrap();
                match form {
                    "hdt" | "json" => args.extend(["--save".into(), "saved".into(), "--save-format".into(), form.into()]),
                    "show" => args.extend(["-f".into(), "json".into()]),
                    _ => args.push("-q".into()),
                }
                let args: Vec<&str> = args.iter().map(|a| a.as_str()).collect();
                let mode = s["mode"].as_str().unwrap();
                let other = dir.join("other");
                std::fs::write(&other, &models[s["other"].as_u64().unwrap() as usize - 1]).unwrap();
                let swap = format!("{}|{}", at.display(), other.display());
                let (l1, l2) = (cwd.join("last"), cwd2.join("last"));
                let env = |l: &Path| [("HV_MODE", mode.to_string()), ("HV_SWAP", swap.clone()), ("HV_LAST", l.to_string_lossy().into_owned())];
                let go = |cwd: &Path, l: &Path| {
                    let e = env(l);
                    hodu(&h, cwd, &args, false, &e.iter().map(|(a, b)| (*a, b.as_str())).collect::<Vec<_>>())
                };
                let _ = std::fs::remove_file(h.join("half"));
                let _ = std::fs::remove_file(h.join("go"));
                let ran = if op == "both" {
                    std::thread::scope(|sc| {
                        let first = sc.spawn(|| go(&cwd, &l1));
                        while !first.is_finished() && !h.join("half").exists() {
                            std::thread::sleep(Duration::from_millis(2));
                        }
                        let second = go(&cwd2, &l2);
                        let _ = std::fs::write(h.join("go"), "");
                        vec![(first.join().unwrap(), cwd.clone()), (second, cwd2.clone())]
                    })
                } else {
                    vec![(go(&cwd, &l1), cwd.clone())]
                };
                if mode == "swap" {
                    std::fs::write(&at, &models[s["m"].as_u64().unwrap() as usize - 1]).unwrap();
                }
                for (r, cwd) in ran {
                    let step = json!({"step": n, "args": args, "mode": mode, "m": s["m"], "v": s["v"], "told": told(&r)});
                    let verdict = s["verdict"].as_str().unwrap();
                    match (verdict, r.code) {
                        (_, None) => out.push(fail(op, "hang", json!("ends"), step)),
                        ("open", _) => {},
                        ("ok", Some(0)) | ("may", Some(0)) => out.extend(ran_well(s, &h, &cwd, &models, &how, &r, step)),
                        ("ok", _) => out.push(fail(op, "refused", json!("runs"), step)),
                        ("err", Some(0)) => out.push(fail(op, "accepted", json!("refused"), step)),
                        _ => {},
                    }
                }
            },
        }
        if !out.is_empty() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    out
}
fn ran_well(s: &Value, _h: &Path, cwd: &Path, models: &[Vec<u8>], how: &BTreeMap<&str, &str>, r: &Ran, step: Value) -> Vec<Value> {
    let m = &models[s["m"].as_u64().unwrap() as usize - 1];
    let k = ["b1", "hodu-backend-b2", "b3"][s["k"].as_u64().unwrap() as usize - 1];
    let at = |what: &str, w: Value, g: Value| vec![fail("run", what, w, json!({"got": g, "step": step}))];
    let Ok(log) = std::fs::read_to_string(cwd.join("last/art")) else { return at("no run", json!("run"), json!(null)) };
    let l: Value = serde_json::from_str(&log).unwrap();
    let lib: Value = serde_json::from_str(l["lib"].as_str().unwrap()).unwrap_or(json!("incomplete"));
    let target = lib["t"].clone();
    let want = json!({"snap": hash(m), "d": s["d"], "t": target, "f": "sharedlib", "k": k, "v": s["v"].to_string()});
    if lib != want || target.as_str().is_none_or(|t| !t.starts_with(std::env::consts::ARCH)) {
        return at("artifact", want, lib);
    }
    let names: Vec<&str> = how.keys().copied().collect();
    if l["d"] != s["d"] || l["k"] != k || l["snap"] != hash(m) || l["names"] != json!(names) {
        return at("execution", json!({"d": s["d"], "k": k, "names": names}), l);
    }
    let mut want: BTreeMap<String, Value> = names.iter().enumerate().map(|(i, n)| (format!("echo{i}"), s["ins"][*n].clone())).collect();
    want.insert("art".into(), json!({"dt": 7, "sh": [log.len()], "b": log.as_bytes()}));
    for i in 0..names.len() {
        if !hdt::load(cwd.join(format!("last/o_{i}.hdt"))).is_ok_and(|t| holds(&t, &want[&format!("echo{i}")])) {
            return at("inputs", json!(names[i]), json!("other values"));
        }
    }
    match s["form"].as_str().unwrap() {
        "show" => {
            let g: Value = serde_json::from_str(r.out.trim()).unwrap_or(json!(r.out));
            let w: serde_json::Map<String, Value> = want.iter().map(|(n, v)| (n.clone(), json!({"shape": v["sh"], "dtype": crate::val::dname(TYPES[v["dt"].as_u64().unwrap() as usize])}))).collect();
            if g != json!(w) {
                return at("report", json!(w), g);
            }
        },
        e @ ("hdt" | "json") => {
            let saved = tree(&cwd.join("saved"));
            let names: Vec<String> = want.keys().map(|n| format!("/{n}.{e}")).collect();
            if saved.keys().ne(names.iter()) {
                return at("saved", json!(names), json!(saved.keys().collect::<Vec<_>>()));
            }
            for (n, v) in &want {
                if !decode(e, &saved[&format!("/{n}.{e}")]).is_ok_and(|t| holds(&t, v)) {
                    return at("outputs", json!({n: v}), json!("other values"));
                }
            }
        },
        _ => {},
    }
    vec![]
}

// ---- C06
pub fn build(case: &Value, idx: usize) -> Vec<Value> {
    let d = scratch("build", idx);
    let r = build_in(case, &d);
    let _ = std::fs::remove_dir_all(&d);
    r
}
fn build_in(case: &Value, d: &Path) -> Vec<Value> {
    let h = home(d);
    let cwd = d.join("cwd");
    std::fs::create_dir_all(&cwd).unwrap();
    let mut r = PluginRegistry::new();
    let me = std::env::current_exe().unwrap();
    let text = |v: &Value| v.as_str().unwrap().to_string();
    for q in case["reg"].as_array().unwrap() {
        let n = text(&q["name"]);
        let (m, t) = if q["kind"] == "model_format" { (q["exts"].clone(), json!([])) } else { (json!([]), q["exts"].clone()) };
        let mut e = entry(&json!({"name": n, "kind": q["kind"], "devices": q["devices"], "mext": m, "text": t, "enabled": q["on"], "deps": [], "v": 4}));
        e.capabilities.load_model = (q["kind"] == "model_format").then_some(true);
        e.capabilities.load_tensor = (q["kind"] == "tensor_format").then_some(true);
        e.capabilities.builder = match q["builder"].as_str().unwrap() {
            "yes" => Some(true),
            "no" => Some(false),
            _ => None,
        };
        r.plugins.push(e);
        let p = h.join(".hodu/plugins").join(&n);
        std::fs::create_dir_all(&p).unwrap();
        let f = p.join("bin");
        std::fs::write(&f, format!("#!/bin/sh\nunset HV_CLI\nexec '{}' plugin-cli {n} '{}'\n", me.display(), h.display())).unwrap();
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    r.save(&h.join(".hodu/plugins.json")).expect("harness: registry");
    let good = model(&json!({}), 5);
    let snap = d.join("home/snap.hdss");
    std::fs::write(&snap, &good).unwrap();
    let keep: BTreeMap<String, Vec<u8>> = tree(&h).into_iter().filter(|(k, _)| !k.starts_with("/tmp")).collect();
    for (i, c) in case["hist"].as_array().unwrap().iter().enumerate() {
        let at = |what: &str, exp: Value, got: Value| vec![fail(c["op"].as_str().unwrap(), what, json!({"step": i, "command": c, "reg": case["reg"], "exp": exp}), got)];
        let (file, out) = (text(&c["file"]), text(&c["o"]));
        let _ = std::fs::remove_dir_all(&cwd);
        std::fs::create_dir_all(&cwd).unwrap();
        if !file.is_empty() && !file.starts_with("gone") {
            let hdss = file.to_lowercase().ends_with(".hdss");
            std::fs::write(cwd.join(&file), if hdss && c["content"] == "good" { &good[..] } else { &b"not a model"[..] }).unwrap();
        }
        if !out.is_empty() {
            std::fs::write(cwd.join(&out), "older").unwrap();
        }
        let log = h.join("tmp/calls");
        let _ = std::fs::remove_file(&log);
        let (b, w, t, f) = (text(&c["b"]), text(&c["w"]), text(&c["t"]), text(&c["f"]));
        let mut args = vec!["build"];
        if c["op"] == "targets" {
            args.push("--list-targets");
        } else {
            args.extend([file.as_str(), "-o", out.as_str()]);
        }
        for (k, v) in [("-b", &b), ("-t", &t), ("-f", &f)] {
            if !v.is_empty() {
                args.extend([k, v.as_str()]);
            }
        }
        if w != "cpu" || i % 2 == 0 {
            args.extend(["-d", w.as_str()]);
        }
        let (calls, rd, bd) = (log.display().to_string(), text(&c["rd"]), text(&c["bd"]));
        let shown = snap.display().to_string();
        let ran = hodu(&h, &cwd, &args, false, &[("HV_CALLS", &calls), ("HV_READ", &rd), ("HV_BACK", &bd), ("HV_SNAP", &shown)]);
        let ok = c["ok"] == true;
        let heard: Vec<Value> = std::fs::read_to_string(&log).unwrap_or_default().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
        let asked: Vec<&Value> = heard.iter().filter(|q| q["method"].as_str().unwrap().contains('.')).collect();
        // what the plugins must have been asked
        let triple = if t.is_empty() { hodu_plugin::current_host_triple().to_string() } else { t.clone() };
        let model = if file.to_lowercase().ends_with(".hdss") { file.clone() } else { shown.clone() };
        let exp: Vec<Value> = c["calls"].as_array().unwrap().iter().map(|q| match q["what"].as_str().unwrap() {
            "load" => json!({"who": q["who"], "method": "format.load_model", "params": {"path": file}}),
            "targets" => json!({"who": q["who"], "method": "backend.supported_targets", "params": {}}),
            _ => json!({"who": q["who"], "method": "backend.build", "params": {"snapshot_path": model, "target": triple, "device": c["d"], "format": c["form"], "output_path": out}}),
        }).collect();
        if asked.len() != exp.len() || asked.iter().zip(&exp).any(|(a, e)| **a != *e) {
            return at("requests", json!(exp), json!({"asked": asked, "told": told(&ran)}));
        }
        if let Some(q) = heard.iter().find(|q| !exp.iter().any(|e| e["who"] == q["who"])) {
            return at("started", json!(exp), q.clone());
        }
        if ran.code != Some(if ok { 0 } else { 1 }) {
            return at("result", json!(ok), told(&ran));
        }
        if c["op"] == "targets" && ok != ran.out.contains("the targets of it") {
            return at("listed", json!(ok), told(&ran));
        }
        if !out.is_empty() {
            let got = std::fs::read(cwd.join(&out)).unwrap_or_default();
            if ok != got.ends_with(b"END") || !ok && got != b"older" {
                return at("output", json!(ok), json!(String::from_utf8_lossy(&got)));
            }
        }
        let now: BTreeMap<String, Vec<u8>> = tree(&h).into_iter().filter(|(k, _)| !k.starts_with("/tmp")).collect();
        if now != keep {
            return at("elsewhere", json!("unchanged"), json!(keep.keys().chain(now.keys()).find(|k| keep.get(*k) != now.get(*k))));
        }
        let mut names: Vec<String> = std::fs::read_dir(&cwd).unwrap().flatten().map(|e| e.file_name().into_string().unwrap()).filter(|n| !n.starts_with('.') && *n != file && *n != out).collect();
        if let Some(n) = names.pop() {
            return at("elsewhere", json!("nothing new"), json!(n));
        }
    }
    vec![]
}
