//! Processes that save and load one registry file, stepped through their file operations.
use crate::admin::{entry, scratch};
use hodu_plugin_runtime::PluginRegistry;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

/// the registry a save of version v stores
fn version(v: i64) -> PluginRegistry {
    let mut r = PluginRegistry::new();
    for i in 0..(10 + 9 * v) {
        r.plugins.push(entry(&json!({"name": format!("p{v}-{i}"), "kind": "backend", "devices": ["cpu"], "mext": [], "text": [], "enabled": true, "deps": [], "v": v + i * 7})));
    }
    r
}
fn load(path: &Path) -> i64 {
    match PluginRegistry::load(path) {
        Err(_) => -2,
        Ok(r) if r.plugins.is_empty() => -1,
        Ok(r) => {
            let got = serde_json::to_value(&r).unwrap();
            (0..10).find(|v| serde_json::to_value(version(*v)).unwrap() == got).unwrap_or(-2)
        },
    }
}
/// one process: save V PATH, or load 0 PATH. The result goes to stderr.
pub fn process(a: &[String]) {
    let (v, path) = (a[1].parse::<i64>().unwrap(), Path::new(&a[2]));
    let r = match a[0].as_str() {
        "save" => if version(v).save(path).is_ok() { 0 } else { -3 },
        _ => load(path),
    };
    eprintln!("result {r}");
}
struct Proc {
    child: Child,
    says: Receiver<bool>,
    stopped: bool,
}
enum State {
    New,
    Live(Proc),
    Over,
}
fn spawn(shim: &str, dir: &Path, op: &str, v: i64) -> Proc {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["store-proc", op, &v.to_string()])
        .arg(dir.join("plugins.json"))
        .env("LD_PRELOAD", shim)
        .env("STEP_IN", "0")
        .env("STEP_OUT", "1")
        .env("STEP_DIR", dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("harness: spawn");
    let mut o = child.stdout.take().unwrap();
    let (tx, says) = channel();
    std::thread::spawn(move || {
        let mut b = [0u8; 1];
        while let Ok(1) = o.read(&mut b) {
            if tx.send(true).is_err() {
                break;
            }
        }
    });
    Proc { child, says, stopped: false }
}
/// waits for the next stop or the end; None when the process is busy or blocked
fn wait(p: &mut Proc, ms: u64) -> Option<bool> {
    match p.says.recv_timeout(Duration::from_millis(ms)) {
        Ok(_) => {
            p.stopped = true;
            Some(true)
        },
        Err(RecvTimeoutError::Timeout) => None,
        Err(RecvTimeoutError::Disconnected) => Some(false),
    }
}
fn over(p: &mut Proc) -> Option<i64> {
    let _ = p.child.wait();
    let mut s = String::new();
    let _ = p.child.stderr.take().unwrap().read_to_string(&mut s);
    s.lines().find_map(|l| l.strip_prefix("result ")).and_then(|x| x.parse().ok())
}
pub fn run(a: &[String]) {
    let shim = &a[2];
    let text = std::fs::read_to_string(&a[0]).expect("harness: cases");
    let mut rec = std::fs::File::create(&a[1]).unwrap();
    for (idx, line) in text.lines().enumerate() {
        let case = crate::replay::parse(line);
        let dir = scratch("store", idx);
        let r = history(&case, &dir, shim);
        let _ = std::fs::remove_dir_all(&dir);
        writeln!(rec, "{}", json!({"init": case["init"], "ops": case["ops"], "sched": case["sched"], "ev": r})).unwrap();
    }
}
fn history(case: &Value, dir: &Path, shim: &str) -> Vec<Value> {
    let path = dir.join("plugins.json");
    if case["init"] == 0 {
        version(0).save(&path).expect("harness: first save");
    }
    let ops: Vec<&str> = case["ops"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let mut procs: Vec<State> = ops.iter().map(|_| State::New).collect();
    let mut ev = vec![];
    fn turn(i: usize, how: &str, op: &str, procs: &mut [State], ev: &mut Vec<Value>, shim: &str, dir: &Path) {
        let n = i as i64 + 1;
        if matches!(procs[i], State::New) {
            ev.push(json!({"e": "call", "p": n, "op": op, "v": if op == "save" { n } else { 0 }}));
            procs[i] = State::Live(spawn(shim, dir, op, n));
            let State::Live(p) = &mut procs[i] else { return };
            // the start is a turn of its own
            if wait(p, 20_000) == Some(false) {
                let r = over(p);
                ev.push(json!({"e": "ret", "p": n, "op": op, "v": r.unwrap_or(-4)}));
                procs[i] = State::Over;
                return;
            }
            if how == "go" {
                return;
            }
        }
        let State::Live(p) = &mut procs[i] else { return };
        let mut after = None;
        if p.stopped || wait(p, 0) == Some(true) {
            p.stopped = false;
            let _ = p.child.stdin.as_mut().unwrap().write_all(match how { "kill" => b"k", "half" => b"h", _ => b"g" });
            let _ = p.child.stdin.as_mut().unwrap().flush();
            // a process that waits for another one (a lock) does not answer
            after = wait(p, if how == "go" { 400 } else { 20_000 });
        } else if how != "go" {
            let _ = p.child.kill();
            after = Some(false);
        } else if matches!(wait(p, 0), Some(false)) {
            after = Some(false);
        }
        if after == Some(false) {
            ev.push(match over(p) {
                Some(r) => json!({"e": "ret", "p": n, "op": op, "v": r}),
                None => json!({"e": "die", "p": n, "op": op, "v": 0}),
            });
            procs[i] = State::Over;
        }
    }
    for s in case["sched"].as_array().unwrap() {
        let i = s["p"].as_u64().unwrap() as usize - 1;
        turn(i, s["how"].as_str().unwrap(), ops[i], &mut procs, &mut ev, shim, dir);
    }
    let t = Instant::now();
    while procs.iter().any(|p| !matches!(p, State::Over)) {
        for i in 0..ops.len() {
            while !matches!(procs[i], State::Over) {
                turn(i, "go", ops[i], &mut procs, &mut ev, shim, dir);
                if matches!(&procs[i], State::Live(p) if !p.stopped) {
                    break; // blocked by another one
                }
            }
        }
        if t.elapsed() > Duration::from_secs(60) {
            for p in &mut procs {
                if let State::Live(p) = p {
                    let _ = p.child.kill();
                    let _ = p.child.wait();
                }
            }
            ev.push(json!({"e": "ret", "p": 0, "op": "hang", "v": -5}));
            return ev;
        }
    }
    let n = ops.len() + 1;
    ev.push(json!({"e": "call", "p": n, "op": "load", "v": 0}));
    ev.push(json!({"e": "ret", "p": n, "op": "load", "v": load(&path)}));
    // and the next save works
    ev.push(json!({"e": "call", "p": n + 1, "op": "save", "v": 9}));
    ev.push(json!({"e": "ret", "p": n + 1, "op": "save", "v": if version(9).save(&path).is_ok() { 0 } else { -3 }}));
    ev.push(json!({"e": "call", "p": n + 2, "op": "load", "v": 0}));
    ev.push(json!({"e": "ret", "p": n + 2, "op": "load", "v": load(&path)}));
    ev
}
