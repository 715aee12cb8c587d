//! The plugin registry (in process) and the administration commands (the real program, in a home
//! directory of its own).
use hodu_plugin_runtime::{PluginCapabilities, PluginEntry, PluginRegistry, PluginSource, PluginType};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;

pub fn fail(op: &str, kind: &str, exp: Value, got: Value) -> Value {
    json!({"op": op, "kind": kind, "exp": exp, "got": got})
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}
fn set(v: &Value) -> BTreeSet<String> {
    strs(v).into_iter().collect()
}
pub fn entry(e: &Value) -> PluginEntry {
    let v = e["v"].as_u64().unwrap();
    let opt = |k: u64| (v % k != 0).then(|| format!("text {v} \u{e9}\""));
    PluginEntry {
        name: e["name"].as_str().unwrap().to_string(),
        version: format!("{v}.0.1"),
        description: opt(2),
        license: opt(3),
        plugin_type: match e["kind"].as_str().unwrap() {
            "backend" => PluginType::Backend,
            "model_format" => PluginType::ModelFormat,
            _ => PluginType::TensorFormat,
        },
        capabilities: PluginCapabilities {
            runner: (v % 2 == 0).then_some(v % 4 == 0),
            builder: None,
            devices: strs(&e["devices"]),
            targets: if v % 5 == 0 { vec!["x86_64-unknown-linux-gnu".into()] } else { vec![] },
            load_model: Some(v % 3 == 0),
            save_model: None,
            load_tensor: (v % 7 == 0).then_some(true),
            save_tensor: None,
            model_extensions: strs(&e["mext"]),
            tensor_extensions: strs(&e["text"]),
        },
        binary: "bin".into(),
        source: match v % 3 {
            0 => PluginSource::CratesIo,
            1 => PluginSource::Git { url: format!("https://x/{v}"), tag: opt(2), subdir: opt(5) },
            _ => PluginSource::Local { path: format!("/p/{v}") },
        },
        installed_at: format!("2025-01-01T00:00:{v:02}Z"),
        plugin_version: "0.1.0".into(),
        enabled: e["enabled"].as_bool().unwrap(),
        dependencies: strs(&e["deps"]),
    }
}
fn registry(v: &Value) -> PluginRegistry {
    let mut r = PluginRegistry::new();
    for e in v.as_array().into_iter().flatten() {
        r.plugins.push(entry(e));
    }
    r
}
/// name -> everything stored about it; None when a name occurs twice
fn contents(r: &PluginRegistry) -> Option<BTreeMap<String, Value>> {
    let m: BTreeMap<_, _> = r.plugins.iter().map(|e| (e.name.clone(), serde_json::to_value(e).unwrap())).collect();
    (m.len() == r.plugins.len()).then_some(m)
}
pub fn scratch(tag: &str, idx: usize) -> PathBuf {
    let d = std::env::temp_dir().join(format!("hv_{tag}_{}_{idx}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("harness: scratch");
    d
}
pub fn case(case: &Value, idx: usize) -> Vec<Value> {
    let d = scratch("admin", idx);
    let r = if case["k"] == "api" { api(case, &d) } else { cli(case, &d) };
    let _ = std::fs::remove_dir_all(&d);
    r
}
fn api(case: &Value, dir: &Path) -> Vec<Value> {
    let path = dir.join("deep/er/plugins.json");
    let mut r = PluginRegistry::new();
    let names = strs(&case["names"]);
    for (i, h) in case["hist"].as_array().unwrap().iter().enumerate() {
        let (op, n) = (h["op"].as_str().unwrap(), h["n"].as_str().unwrap());
        let ok = match op {
            "upsert" => {
                r.upsert(entry(&h["e"]));
                true
            },
            "remove" => r.remove(n).is_some_and(|e| e.name == n),
            "enable" => r.enable(n),
            "disable" => r.disable(n),
            _ => match r.save(&path).and_then(|_| PluginRegistry::load(&path)) {
                Ok(x) => {
                    r = x;
                    true
                },
                Err(e) => return vec![fail("reload", "error", json!("reads back"), json!(e.to_string()))],
            },
        };
        let at = |what: &str, exp: Value, got: Value| vec![fail(op, what, json!({"step": i, "name": n, "exp": exp}), got)];
        if ok != h["ok"].as_bool().unwrap() {
            return at("result", h["ok"].clone(), json!(ok));
        }
        let want = contents(&registry(&h["reg"])).unwrap();
        match contents(&r) {
            None => return at("twice", json!("one entry per name"), json!(r.plugins.iter().map(|e| &e.name).collect::<Vec<_>>())),
            Some(m) if m != want => return at("contents", json!(want), json!(m)),
            _ => {},
        }
        let look = &h["look"];
        for (kind, t) in [("backend", 0), ("model_format", 1), ("tensor_format", 2)] {
            for (q, may) in look["find"][kind].as_object().unwrap() {
                let got = match t {
                    0 => r.find_backend_by_device(q),
                    1 => r.find_model_format_by_extension(q),
                    _ => r.find_tensor_format_by_extension(q),
                };
                let may = set(may);
                if got.map_or(!may.is_empty(), |e| !may.contains(&e.name) || serde_json::to_value(e).unwrap() != want[&e.name]) {
                    return at("lookup", json!({"kind": kind, "query": q, "one of": may}), json!(got.map(|e| &e.name)));
                }
            }
            let lists: [Vec<&PluginEntry>; 2] = match t {
                0 => [r.backends().collect(), r.all_backends().collect()],
                1 => [r.model_formats().collect(), r.all_model_formats().collect()],
                _ => [r.tensor_formats().collect(), r.all_tensor_formats().collect()],
            };
            for (l, key) in lists.iter().zip(["on", "all"]) {
                let got: BTreeSet<String> = l.iter().map(|e| e.name.clone()).collect();
                if got.len() != l.len() || got != set(&look[key][kind]) {
                    return at("list", json!({"kind": kind, key: look[key][kind]}), json!(got));
                }
            }
        }
        for n in &names {
            let got: BTreeSet<String> = r.check_dependencies(n).err().unwrap_or_default().into_iter().collect();
            let ok = r.check_dependencies(n).is_ok();
            let exp = set(&look["missing"][n]);
            if got != exp || ok != exp.is_empty() {
                return at("dependencies", json!({"of": n, "missing": exp}), json!(got));
            }
            if r.find(n).map(|e| serde_json::to_value(e).unwrap()) != want.get(n).cloned() || r.find_mut(n).is_some() != want.contains_key(n) {
                return at("find", json!(want.get(n)), json!(r.find(n)));
            }
        }
    }
    vec![]
}

/// every file below a directory, with its bytes; directories count as files without bytes
pub fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(d: &Path, at: String, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = format!("{at}/{}", e.file_name().to_string_lossy());
            if e.path().is_dir() && !e.path().is_symlink() {
                m.insert(n.clone() + "/", vec![]);
                walk(&e.path(), n, m);
            } else {
                m.insert(n, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(d, String::new(), &mut m);
    m
}
pub struct Ran {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}
/// the user commands run as: what they delete or overwrite by mistake is not theirs to delete
const NOBODY: u32 = 65534;
pub fn privileged() -> bool {
    unprivileged()
}
fn unprivileged() -> bool {
    static CAN: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *CAN.get_or_init(|| {
        use std::os::unix::process::CommandExt;
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("--version").env("HV_CLI", "1").env("HOME", "/nonexistent").current_dir("/").uid(NOBODY).gid(NOBODY);
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok_and(|s| s.success())
    })
}
fn give(p: &Path) {
    let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
    if p.is_dir() && !p.is_symlink() {
        std::fs::read_dir(p).into_iter().flatten().flatten().for_each(|e| give(&e.path()));
    }
}
/// runs the program in a home directory; "full": nothing can be written to files
pub fn hodu(home: &Path, cwd: &Path, args: &[&str], full: bool, env: &[(&str, &str)]) -> Ran {
    let me = std::env::current_exe().unwrap();
    let mut c = if full {
        let mut c = Command::new("sh");
        c.arg("-c").arg("trap '' XFSZ; ulimit -f 0; exec \"$0\" \"$@\"").arg(&me);
        c
    } else {
        Command::new(&me)
    };
    let o = cwd.join(".out");
    let e = cwd.join(".err");
    c.args(args).env("HV_CLI", "1").env("HOME", home).env("TMPDIR", home.join("tmp")).envs(env.iter().copied()).env("NO_COLOR", "1").current_dir(cwd).stdin(Stdio::null());
    if unprivileged() {
        use std::os::unix::process::CommandExt;
        give(home);
        give(cwd);
        c.uid(NOBODY).gid(NOBODY);
    }
    let piped = full;
    if piped {
        c.stdout(Stdio::piped()).stderr(Stdio::piped());
    } else {
        c.stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
    }
    let mut child = c.spawn().expect("harness: spawn");
    let s = crate::rpc::ends(&mut child, Duration::from_secs(120));
    let (out, err) = if piped {
        use std::io::Read;
        let (mut a, mut b) = (String::new(), String::new());
        let _ = child.stdout.take().unwrap().read_to_string(&mut a);
        let _ = child.stderr.take().unwrap().read_to_string(&mut b);
        (a, b)
    } else {
        let r = (String::from_utf8_lossy(&std::fs::read(&o).unwrap_or_default()).into_owned(), String::from_utf8_lossy(&std::fs::read(&e).unwrap_or_default()).into_owned());
        let _ = std::fs::remove_file(&o);
        let _ = std::fs::remove_file(&e);
        r
    };
    Ran { code: s.map(|s| s.code().unwrap_or(-1)), out, err }
}
fn words(s: &str) -> BTreeSet<String> {
    s.split(|c: char| c.is_whitespace() || ":;,()".contains(c)).map(|w| w.to_string()).collect()
}
fn cli(case: &Value, dir: &Path) -> Vec<Value> {
    let home = dir.join("home");
    let plugins = home.join(".hodu/plugins");
    let path = home.join(".hodu/plugins.json");
    std::fs::create_dir_all(&plugins).unwrap();
    std::fs::create_dir_all(home.join("tmp")).unwrap();
    std::fs::write(home.join("precious"), "keep").unwrap();
    std::fs::write(home.join(".hodu/config"), "keep").unwrap();
    std::fs::create_dir_all(home.join(".hodu/cache/x")).unwrap();
    // the program shows its first-run setup on an empty registry, once
    std::fs::write(plugins.join(".setup_shown"), "").unwrap();
    for n in strs(&case["start"]["files"]) {
        let d = plugins.join(&n);
        std::fs::create_dir_all(d.join("sub")).unwrap();
        std::fs::write(d.join("bin"), format!("binary of {n}")).unwrap();
        std::fs::write(d.join("sub/data"), &n).unwrap();
    }
    registry(&case["start"]["reg"]).save(&path).expect("harness: registry");
    let had = set(&case["start"]["files"]);
    let mut have = tree(&home);
    for (i, h) in case["hist"].as_array().unwrap().iter().enumerate() {
        let (op, n) = (h["op"].as_str().unwrap(), h["n"].as_str().unwrap());
        let full = op.ends_with('!');
        let cmd = op.trim_end_matches('!');
        let mut args = vec!["plugin", cmd];
        if !["list", "verify"].contains(&cmd) {
            args.push(n);
        }
        let ran = hodu(&home, dir, &args, full, &[]);
        let at = |what: &str, exp: Value, got: Value| vec![fail(op, what, json!({"step": i, "name": n, "exp": exp}), got)];
        if ran.code != Some(if h["ok"] == true { 0 } else { 1 }) {
            return at("result", h["ok"].clone(), json!(format!("{:?} {}", ran.code, ran.err)));
        }
        let want = contents(&registry(&h["reg"])).unwrap();
        let got = PluginRegistry::load(&path).map(|r| contents(&r));
        if got.as_ref().ok() != Some(&Some(want.clone())) {
            return at("registry", json!(want), json!(got.map_err(|e| e.to_string())));
        }
        let now = tree(&home);
        // what may go: the files of the plugins that are not installed any more
        let kept = set(&h["files"]);
        let registry_file = |k: &str| k == "/.hodu/plugins.json";
        let plugin_of = |k: &str| k.strip_prefix("/.hodu/plugins/").map(|x| x.split('/').next().unwrap().to_string()).filter(|x| had.contains(x));
        for (k, b) in &have {
            let gone = plugin_of(k).is_some_and(|p| !kept.contains(&p));
            if !gone && !registry_file(k) && now.get(k) != Some(b) {
                return at("files", json!(format!("{k} stays as it was")), json!(if now.contains_key(k) { "changed" } else { "gone" }));
            }
            if gone && now.contains_key(k) && h["ok"] == true {
                return at("left over", json!(format!("{k} is removed")), json!("still there"));
            }
        }
        if let Some(k) = now.keys().find(|k| !have.contains_key(*k)) {
            return at("new file", json!("none"), json!(k));
        }
        if registry_unchanged(cmd, h) && have.get("/.hodu/plugins.json") != now.get("/.hodu/plugins.json") {
            return at("rewritten", json!("the registry file stays as it was"), json!("changed"));
        }
        have = now;
        if cmd == "verify" {
            let bad = set(&h["bad"]);
            let w = words(&ran.out);
            for e in want.keys() {
                // names that are words of the text itself prove nothing
                if e.len() > 3 && w.contains(e) != (bad.contains(e) || want.values().any(|x| bad.contains(x["name"].as_str().unwrap()) && x["dependencies"].as_array().is_some_and(|d| d.contains(&json!(e))) && w.contains(e))) {
                    return at("verify", json!({"faulty": bad}), json!(ran.out));
                }
            }
        }
        if cmd == "list" {
            let w = words(&ran.out);
            if let Some(e) = want.keys().find(|e| e.len() > 3 && !w.contains(*e)) {
                return at("list", json!({"names": want.keys().collect::<Vec<_>>()}), json!({"lacks": e}));
            }
        }
    }
    vec![]
}
fn registry_unchanged(cmd: &str, h: &Value) -> bool {
    ["list", "verify"].contains(&cmd) || h["ok"] != true
}
