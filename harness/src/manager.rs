//! The plugin managers with real plugin processes, in a home directory of their own.
use crate::admin::{entry, fail, scratch};
use hodu_plugin_runtime::{backend, format, ClientError, PluginClient, PluginRegistry};
use hodu_plugin_sdk::rpc::{Request, Response, RpcError};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// a plugin: behaviour, log of process ids
pub fn plugin(a: &[String]) {
    let b = a[0].as_str();
    let mut log = std::fs::OpenOptions::new().create(true).append(true).open(&a[1]).unwrap();
    let _ = writeln!(log, "{}", std::process::id());
    drop(log);
    if b == "exitAtStart" {
        return;
    }
    let mut out = std::io::stdout();
    let mut say = |r: Response| {
        let _ = writeln!(out, "{}", serde_json::to_string(&r).unwrap()).and_then(|_| out.flush());
    };
    for l in std::io::stdin().lock().lines() {
        let Ok(r) = serde_json::from_str::<Request>(&l.unwrap_or_default()) else { continue };
        match r.method.as_str() {
            "initialize" => match b {
                "failInit" => say(Response::error(r.id, RpcError::internal_error("no"))),
                "hangInit" => {},
                _ => say(Response::success(
                    r.id,
                    json!({"name": "n", "version": "1", "protocol_version": if b == "badVersion" { "7.0.0" } else { "1.0.0" }, "plugin_version": hodu_plugin::PLUGIN_VERSION, "capabilities": []}),
                )),
            },
            "shutdown" if b != "stubborn" => return,
            "shutdown" => {},
            _ => match r.params.as_ref().and_then(|p| p["path"].as_str()).unwrap_or("") {
                "crash" => std::process::exit(3),
                "close" => drop(unsafe { <std::os::fd::OwnedFd as std::os::fd::FromRawFd>::from_raw_fd(1) }),
                p => say(Response::success(r.id, json!({"snapshot_path": format!("{}:{p}", std::process::id())}))),
            },
        }
    }
    while b == "stubborn" {
        std::thread::sleep(Duration::from_secs(1));
    }
}
enum Mgr {
    Cli(hodu_cli::plugins::PluginManager),
    Backend(backend::PluginManager),
    Format(format::PluginManager),
}
impl Mgr {
    fn timeout(&mut self, s: u64) {
        match self {
            Mgr::Cli(m) => m.set_timeout(s),
            Mgr::Backend(m) => m.set_timeout(s),
            Mgr::Format(m) => m.set_timeout(s),
        }
    }
    fn get(&mut self, n: &str, by: bool) -> Result<&mut PluginClient, String> {
        let q = format!("claim-{n}");
        let even = n.ends_with(['0', '2', '4']);
        let r = match (self, by, even) {
            (Mgr::Cli(m), true, true) => return m.get_format_for_extension(&q).map_err(|e| e.to_string()),
            (Mgr::Cli(m), true, _) => m.get_backend_for_device(&q),
            (Mgr::Cli(m), ..) => m.get_plugin(n),
            (Mgr::Backend(m), true, _) => return m.get_for_device(&q).map_err(|e| e.to_string()),
            (Mgr::Backend(m), ..) => return m.get_plugin(n).map_err(|e| e.to_string()),
            (Mgr::Format(m), true, true) => return m.get_for_tensor_extension(&q).map_err(|e| e.to_string()),
            (Mgr::Format(m), true, _) => return m.get_for_model_extension(&q).map_err(|e| e.to_string()),
            (Mgr::Format(m), ..) => return m.get_plugin(n).map_err(|e| e.to_string()),
        };
        r.map_err(|e| e.to_string())
    }
    fn shutdown(&mut self, n: &str) {
        match self {
            Mgr::Cli(m) => drop(m.shutdown_plugin(n)),
            Mgr::Backend(m) => drop(m.shutdown_plugin(n)),
            Mgr::Format(m) => drop(m.shutdown_plugin(n)),
        }
    }
    fn all(&mut self) {
        match self {
            Mgr::Cli(m) => m.shutdown_all(),
            Mgr::Backend(m) => m.shutdown_all(),
            Mgr::Format(m) => m.shutdown_all(),
        }
    }
    fn informed(&self, n: &str) -> bool {
        match self {
            Mgr::Cli(m) => m.get_info(n).is_some(),
            Mgr::Backend(m) => m.get_info(n).is_some(),
            Mgr::Format(m) => m.get_info(n).is_some(),
        }
    }
}
pub fn setup(home: &Path, case: &Value) {
    let plugins = home.join(".hodu/plugins");
    std::fs::create_dir_all(&plugins).unwrap();
    let mut r = PluginRegistry::new();
    let me = std::env::current_exe().unwrap();
    for (i, b) in case["b"].as_array().unwrap().iter().enumerate() {
        let (n, b) = (format!("pl{i}"), b.as_str().unwrap());
        let even = i % 2 == 0;
        let kind = match case["kind"].as_str().unwrap() {
            "backend" => "backend",
            _ if case["kind"] == "cli" && !even => "backend",
            _ if even => "tensor_format",
            _ => "model_format",
        };
        let q = format!("claim-{n}");
        let claims = |k: &str| if kind == k { json!([q]) } else { json!([]) };
        let e = json!({"name": n, "kind": kind, "devices": claims("backend"), "mext": claims("model_format"), "text": claims("tensor_format"), "enabled": b != "disabled", "deps": [], "v": 1});
        if b != "absent" {
            r.plugins.push(entry(&e));
        }
        let d = plugins.join(&n);
        std::fs::create_dir_all(&d).unwrap();
        if b != "missing" {
            let f = d.join("bin");
            std::fs::write(&f, format!("#!/bin/sh\nunset HV_CLI HV_MANAGER\nexec '{}' plugin-run {b} '{}'\n", me.display(), home.join(format!("{n}.log")).display())).unwrap();
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(if b == "notExec" { 0o644 } else { 0o755 })).unwrap();
        }
    }
    r.save(&home.join(".hodu/plugins.json")).expect("harness: registry");
}
pub fn case(case: &Value, idx: usize) -> Vec<Value> {
    let home = scratch("mgr", idx);
    setup(&home, case);
    std::fs::write(home.join("case.json"), case.to_string()).unwrap();
    let o = home.join("out");
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("manager-run")
        .arg(home.join("case.json"))
        .env("HOME", &home)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&o).unwrap())
        .stderr(Stdio::null())
        .spawn()
        .expect("harness: spawn");
    let s = crate::rpc::ends(&mut child, Duration::from_secs(60));
    let mut r: Vec<Value> = std::fs::read_to_string(&o).unwrap_or_default().lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    if s.is_none() {
        r.push(fail("manager", "hang", json!("ends"), json!("still running")));
    } else if !s.unwrap().success() {
        r.push(fail("manager", "crash", json!("ends"), json!(format!("{s:?}"))));
    }
    // whatever is left must not disturb the next case
    for i in 0..case["b"].as_array().unwrap().len() {
        for pid in pids(&home, i) {
            if let Some(st) = stat(pid) {
                if st.1 == 1 || st.1 == std::process::id() {
                    let _ = Command::new("kill").args(["-9", &pid.to_string()]).stderr(Stdio::null()).status();
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&home);
    r
}
fn pids(home: &Path, i: usize) -> Vec<u32> {
    std::fs::read_to_string(home.join(format!("pl{i}.log"))).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect()
}
/// (state, parent) of a process
fn stat(pid: u32) -> Option<(char, u32)> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let mut w = s[s.rfind(')')? + 2..].split(' ');
    Some((w.next()?.chars().next()?, w.next()?.parse().ok()?))
}
pub fn run(a: &[String]) {
    let case: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let home = Path::new(&a[0]).parent().unwrap().to_path_buf();
    for f in history(&case, &home) {
        println!("{f}");
    }
}
fn history(case: &Value, home: &Path) -> Vec<Value> {
    let b: Vec<&str> = case["b"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let kind = case["kind"].as_str().unwrap();
    let mut m = match kind {
        "cli" => Mgr::Cli(hodu_cli::plugins::PluginManager::with_timeout(60).unwrap()),
        "backend" => Mgr::Backend(backend::PluginManager::with_timeout(60).unwrap()),
        _ => Mgr::Format(format::PluginManager::with_timeout(60).unwrap()),
    };
    let me = std::process::id();
    // children of this process among the processes plugin i was started as: (living, dead but not reaped)
    let children = |i: usize| -> (Vec<u32>, Vec<u32>) {
        let mut r = (vec![], vec![]);
        for pid in pids(home, i) {
            match stat(pid) {
                Some((s, p)) if p == me => if s == 'Z' { r.1.push(pid) } else { r.0.push(pid) },
                _ => {},
            }
        }
        r
    };
    let mut last: Vec<Option<u32>> = vec![None; b.len()];
    for (n, h) in case["hist"].as_array().unwrap().iter().enumerate() {
        let (op, p) = (h["op"].as_str().unwrap(), h["p"].as_u64().unwrap() as usize - 1);
        let name = format!("pl{p}");
        let t = Instant::now();
        m.timeout(if b[p] == "hangInit" { 1 } else { 60 });
        let mut told = String::new();
        let ok = match op {
            "get" | "by" => match m.get(&name, op == "by") {
                Ok(_) => true,
                Err(e) => {
                    told = e;
                    false
                },
            },
            "call" | "crash" | "close" => match m.get(&name, false) {
                Ok(c) => match c.load_model(op) {
                    Ok(r) => {
                        told = r.snapshot_path.clone();
                        r.snapshot_path.ends_with(":call")
                    },
                    Err(ClientError::Timeout(_)) => return vec![fail(op, "timeout", json!(h), json!("timeout"))],
                    Err(e) => {
                        told = e.to_string();
                        false
                    },
                },
                Err(e) => {
                    told = e;
                    false
                },
            },
            "kill" => {
                for pid in children(p).0 {
                    let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
                    let t = Instant::now();
                    while stat(pid).is_some_and(|s| s.0 != 'Z') && t.elapsed() < Duration::from_secs(10) {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
                true
            },
            "shutdown" => {
                m.shutdown(&name);
                true
            },
            _ => {
                m.all();
                true
            },
        };
        let took = t.elapsed();
        let at = |what: &str, exp: Value, got: Value| vec![fail(op, what, json!({"step": n, "plugin": b[p], "manager": kind, "exp": exp}), got)];
        if ok != h["ok"].as_bool().unwrap() {
            return at("result", h["ok"].clone(), json!(told));
        }
        if took > Duration::from_secs(25) {
            return at("slow", json!("a bounded time"), json!(format!("{took:?}")));
        }
        if op == "crash" {
            // a plugin that exits in a call: its output closes a moment before it is gone
            let t = Instant::now();
            while !children(p).0.is_empty() && t.elapsed() < Duration::from_secs(10) {
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        for i in 0..b.len() {
            let (live, dead) = children(i);
            let started = pids(home, i).len() as u64;
            if started != h["started"][i].as_u64().unwrap() {
                return at("started", json!({"plugin": i, "times": h["started"][i]}), json!(started));
            }
            let want = h["alive"][i] == true;
            if live.len() != want as usize {
                return at("live processes", json!({"plugin": i, "alive": want}), json!(live));
            }
            if want && !m.informed(&format!("pl{i}")) {
                return at("info", json!({"plugin": i, "info": true}), json!(false));
            }
            // a failed start leaves nothing behind, nor does a shutdown
            if !dead.is_empty() && ((i == p && ["get", "by", "shutdown"].contains(&op)) || op == "all") {
                return at("not reaped", json!({"plugin": i}), json!(dead));
            }
            if want && op == "call" && i == p && !told.starts_with(&format!("{}:", live[0])) {
                return at("answered by", json!(live), json!(told));
            }
            // the same process goes on, unless a new one was started
            let before = n > 0 && case["hist"][n - 1]["started"][i] == h["started"][i] && case["hist"][n - 1]["alive"][i] == true;
            if want && before && last[i] != live.first().copied() {
                return at("reused", json!({"plugin": i, "process": last[i]}), json!(live));
            }
            last[i] = live.first().copied();
        }
    }
    let t = Instant::now();
    drop(m);
    let took = t.elapsed();
    for i in 0..b.len() {
        let (live, dead) = children(i);
        if !live.is_empty() || !dead.is_empty() {
            return vec![fail("drop", "left behind", json!({"plugin": b[i], "manager": kind, "children": []}), json!({"live": live, "dead": dead}))];
        }
    }
    if took > Duration::from_secs(10 + 10 * b.len() as u64) {
        return vec![fail("drop", "slow", json!("a bounded time"), json!(format!("{took:?}")))];
    }
    vec![]
}
