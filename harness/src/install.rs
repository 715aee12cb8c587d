//! Installing, updating and removing plugins with the real program; `cargo` is a stand-in that builds
//! what the package says it builds.
use crate::admin::{fail, hodu, privileged, scratch, tree};
use hodu_plugin_runtime::{PluginEntry, PluginRegistry, PluginSource, PluginType};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::Command;

const CARGO: &str = r#"#!/bin/bash
prof=debug; pkg=; last=
for a; do [ "$a" = --release ] && prof=release; [ "$last" = -p ] && pkg=$a; last=$a; done
rm -rf target
[ "$pkg" = "$(cat pkg)" ] || { echo "no package $pkg" >&2; exit 101; }
case "$(cat build)" in fail) echo "does not compile" >&2; exit 101;; nothing) exit 0;; esac
mkdir -p target/$prof && cp exe.$prof "target/$prof/$pkg"
"#;
fn text(v: &Value) -> &str {
    v.as_str().unwrap()
}
fn exe(p: &Value, debug: bool) -> String {
    format!("#!/bin/false\nrevision {} of {} {}\n", p["v"], text(&p["pkg"]), if debug { "debug" } else { "release" })
}
fn manifest(p: &Value, home: &Path) -> String {
    let caps = match text(&p["kind"]) {
        "backend" => vec!["backend.run"],
        "model_format" => vec!["format.load_model"],
        _ => vec!["format.load_tensor"],
    };
    let proto = match text(&p["proto"]) {
        "same" => hodu_plugin::PLUGIN_VERSION.to_string(),
        "patch" => format!("{}9", hodu_plugin::PLUGIN_VERSION),
        o => {
            let mut v: Vec<u32> = hodu_plugin::PLUGIN_VERSION.split('.').map(|x| x.parse().unwrap()).collect();
            match o {
                "older" => v[1] = v[1].saturating_sub(1),
                "newer" => v[1] += 1,
                _ => v[0] += 1,
            }
            v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
        },
    };
    json!({"name": text(&p["name"]).replace('@', home.to_str().unwrap()), "version": format!("{}.0.1", p["v"]), "plugin_version": proto, "capabilities": caps,
           "description": format!("r{}", p["v"]), "dependencies": p["deps"], "devices": ["cpu"], "extensions": ["x"]})
    .to_string()
}
/// writes a package below d
fn package(d: &Path, p: &Value, home: &Path) {
    std::fs::create_dir_all(d).unwrap();
    let pkg = text(&p["pkg"]);
    let toml = match text(&p["style"]) {
        "comment" => format!("[package]\nname = \"{pkg}\" # as published\nversion = \"0.1.0\"\n"),
        "later" => format!("[workspace]\n\n[package]\nversion = \"0.1.0\"\nname = \"{pkg}\"\n\n[dependencies]\nname = \"1\"\n"),
        "spaces" => format!("[ package ]\n  name=\"{pkg}\"\nversion = \"0.1.0\"\n"),
        "single" => format!("[package]\nname = '{pkg}'\nversion = '0.1.0'\n"),
        _ => format!("[package]\nname = \"{pkg}\"\nversion = \"0.1.0\"\n"),
    };
    let build = text(&p["build"]);
    for (f, c) in [("Cargo.toml", toml), ("pkg", pkg.to_string()), ("build", build.to_string()), ("exe.debug", exe(p, true)), ("exe.release", exe(p, false))] {
        std::fs::write(d.join(f), c).unwrap();
    }
    match build {
        "nomanifest" => {},
        "badmanifest" => std::fs::write(d.join("manifest.json"), "{\"name\": \"a\", ").unwrap(),
        _ => std::fs::write(d.join("manifest.json"), manifest(p, home)).unwrap(),
    }
}
fn git(d: &Path, args: &[&str]) {
    let s = Command::new("git").args(["-c", "user.name=h", "-c", "user.email=h@x", "-c", "init.defaultBranch=main"]).args(args).current_dir(d).output().expect("harness: git");
    assert!(s.status.success(), "harness: git {args:?}: {}", String::from_utf8_lossy(&s.stderr));
}
/// puts a source into the state p (null or {"name": "-"} : gone)
fn put(dir: &Path, s: &str, p: &Value, home: &Path) {
    let d = dir.join("src").join(s);
    let gone = text(&p["name"]) == "-";
    let _ = std::fs::remove_dir_all(&d);
    if gone {
        return;
    }
    let commit = |d: &Path| {
        git(d, &["add", "-A"]);
        git(d, &["commit", "-q", "-m", "r"]);
    };
    match s {
        "s3" => {
            package(&d, p, home);
            git(&d, &["init", "-q"]);
            commit(&d);
        },
        // the package is below a directory of the branch rel; what else is there is another package
        "s4" => {
            let mut other = p.clone();
            other["v"] = json!(77);
            package(&d, &other, home);
            package(&d.join("plugins/it"), &other, home);
            git(&d, &["init", "-q"]);
            commit(&d);
            git(&d, &["checkout", "-q", "-b", "rel"]);
            package(&d.join("plugins/it"), p, home);
            commit(&d);
            git(&d, &["checkout", "-q", "main"]);
        },
        _ => package(&d, p, home),
    }
}
/// everything an installation of e says in the registry
fn said(e: &PluginEntry) -> Value {
    let mut deps = e.dependencies.clone();
    deps.sort();
    json!({"version": e.version, "kind": match e.plugin_type { PluginType::Backend => "backend", PluginType::ModelFormat => "model_format", PluginType::TensorFormat => "tensor_format" },
           "binary": e.binary, "source": match &e.source { PluginSource::Local { path } => path.clone(), PluginSource::Git { url, tag, subdir } => format!("git {url} {tag:?} {subdir:?}"), _ => "?".into() },
           "enabled": e.enabled, "deps": deps, "description": e.description})
}
fn owed(e: &Value, dir: &Path) -> Value {
    let s = text(&e["src"]);
    let p = &e["p"];
    let at = dir.join("src").join(s);
    let mut deps: Vec<&str> = p["deps"].as_array().unwrap().iter().map(text).collect();
    deps.sort();
    json!({"version": format!("{}.0.1", p["v"]), "kind": p["kind"], "binary": p["pkg"], "source": if s == "s3" { format!("git {} None None", at.display()) } else if s == "s4" { format!("git {} {:?} {:?}", at.display(), Some("rel"), Some("plugins/it")) } else { at.display().to_string() },
           "enabled": e["enabled"], "deps": deps, "description": format!("r{}", p["v"])})
}
pub fn case(case: &Value, idx: usize) -> Vec<Value> {
    let d = scratch("install", idx);
    let d = d.canonicalize().unwrap();
    let r = run(case, &d);
    let _ = std::fs::remove_dir_all(&d);
    r
}
fn run(case: &Value, dir: &Path) -> Vec<Value> {
    let home = dir.join("home");
    let hd = home.join(".hodu");
    let plugins = hd.join("plugins");
    let file = hd.join("plugins.json");
    for d in [plugins.clone(), home.join("tmp"), dir.join("bin"), dir.join("src")] {
        std::fs::create_dir_all(d).unwrap();
    }
    std::fs::write(home.join("precious"), "keep").unwrap();
    std::fs::write(hd.join("config"), "keep").unwrap();
    std::fs::write(plugins.join(".setup_shown"), "").unwrap();
    let cargo = dir.join("bin/cargo");
    std::fs::write(&cargo, CARGO).unwrap();
    std::fs::set_permissions(&cargo, std::fs::Permissions::from_mode(0o755)).unwrap();
    let path = format!("{}:{}", dir.join("bin").display(), std::env::var("PATH").unwrap_or_default());
    let env = [("PATH", path.as_str()), ("https_proxy", "http://127.0.0.1:9"), ("HTTPS_PROXY", "http://127.0.0.1:9"), ("ALL_PROXY", "http://127.0.0.1:9")];
    for (s, p) in case["base"].as_object().unwrap() {
        put(dir, s, p, &home);
    }
    let names: Vec<&str> = case["names"].as_array().unwrap().iter().map(text).collect();
    // files that no command may touch
    let outside = |home: &Path| -> BTreeMap<String, Vec<u8>> { tree(home).into_iter().filter(|(k, _)| !k.starts_with("/.hodu/plugins") && !k.starts_with("/tmp")).collect() };
    let rest = outside(&home);
    for (i, h) in case["hist"].as_array().unwrap().iter().enumerate() {
        let c = &h["c"];
        let (op, x, fault) = (text(&c["op"]), text(&c["x"]), text(&c["fault"]));
        if op == "edit" {
            put(dir, x, &h["src"][x], &home);
            continue;
        }
        let at = |what: &str, exp: Value, got: Value| vec![fail(op, what, json!({"step": i, "command": c, "exp": exp}), got)];
        let from = if x == "s2" { "src/s2".to_string() } else { dir.join("src").join(x).display().to_string() };
        let mut args = vec!["plugin", op];
        match op {
            "install" => {
                args.extend([if x == "s3" || x == "s4" { "--git" } else { "--path" }, from.as_str()]);
                if x == "s4" {
                    args.extend(["--subdir", "plugins/it", "--tag", "rel"]);
                }
                if c["force"] == true {
                    args.push("--force");
                }
                if c["dbg"] == true {
                    args.push("--debug");
                }
            },
            "update" if x == "*" => {},
            _ => args.push(x),
        }
        if fault == "registry" && !privileged() {
            return vec![];
        }
        let mode = |m: u32| std::fs::set_permissions(&hd, std::fs::Permissions::from_mode(m)).unwrap();
        if fault == "registry" {
            mode(0o555);
        }
        let ran = hodu(&home, dir, &args, fault == "full", &env);
        mode(0o755);
        if ran.code != Some(if h["ok"] == true { 0 } else { 1 }) {
            return at("result", h["ok"].clone(), json!(format!("{:?} {}", ran.code, ran.err)));
        }
        let got = match if file.exists() { PluginRegistry::load(&file) } else { Ok(PluginRegistry::new()) } {
            Ok(r) => r,
            Err(e) => return at("registry", json!("can be read"), json!(e.to_string())),
        };
        let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::from([("/.setup_shown".to_string(), vec![])]);
        for n in &names {
            let here: Vec<_> = got.plugins.iter().filter(|e| e.name == *n).collect();
            let may: Vec<&Value> = h["may"][n].as_array().unwrap().iter().collect();
            let told: Vec<&Value> = may
                .iter()
                .filter(|m| {
                    let es = m.as_array().unwrap();
                    es.len() == here.len() && es.iter().zip(&here).all(|(e, g)| owed(e, dir) == said(g))
                })
                .copied()
                .collect();
            // a debug and a release build look alike in the registry
            let built = |e: &Value| std::fs::read(plugins.join(n).join(text(&e["p"]["pkg"]))).is_ok_and(|b| b == exe(&e["p"], e["dbg"] == true).into_bytes());
            let Some(one) = told.iter().find(|m| m.as_array().unwrap().iter().all(built)).or(told.first()) else {
                let exp: Vec<Value> = may.iter().map(|m| m.as_array().unwrap().iter().map(|e| owed(e, dir)).collect()).collect();
                return at("registry", json!({"name": n, "one of": exp}), json!(here.iter().map(|e| said(e)).collect::<Vec<_>>()));
            };
            for e in one.as_array().unwrap() {
                let p = &e["p"];
                files.insert(format!("/{n}/"), vec![]);
                files.insert(format!("/{n}/{}", text(&p["pkg"])), exe(p, e["dbg"] == true).into_bytes());
                files.insert(format!("/{n}/manifest.json"), manifest(p, &home).into_bytes());
                let m = std::fs::metadata(plugins.join(n).join(text(&p["pkg"]))).map(|m| m.permissions().mode()).unwrap_or(0);
                if m & 0o100 == 0 {
                    return at("executable", json!(n), json!(format!("{m:o}")));
                }
            }
        }
        if let Some(e) = got.plugins.iter().find(|e| !names.contains(&e.name.as_str())) {
            return at("registry", json!("no such name"), json!(e.name));
        }
        let now = tree(&plugins);
        if let Some(k) = files.keys().chain(now.keys()).find(|k| files.get(*k) != now.get(*k)) {
            let show = |m: &BTreeMap<String, Vec<u8>>| json!({"file": k, "is": m.get(k).map(|b| String::from_utf8_lossy(b).into_owned())});
            return at("files", show(&files), show(&now));
        }
        if outside(&home) != rest {
            let now = outside(&home);
            return at("elsewhere", json!("unchanged"), json!(rest.keys().chain(now.keys()).find(|k| rest.get(*k) != now.get(*k))));
        }
        if let Some(k) = tree(&home.join("tmp")).keys().next() {
            return at("left over", json!("no temporary files"), json!(k));
        }
        let tops: Vec<PathBuf> = std::fs::read_dir(dir).unwrap().flatten().map(|e| e.path()).filter(|p| !["home", "bin", "src"].iter().any(|n| dir.join(n) == *p)).collect();
        if !tops.is_empty() {
            return at("elsewhere", json!("nothing new"), json!(tops));
        }
    }
    vec![]
}
