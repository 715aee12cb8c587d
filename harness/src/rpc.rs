//! The plugin protocol over real processes: the SDK's server answering scripted messages, and the
//! runtime's client calling a plugin whose output is scripted.
use hodu_plugin::rpc::{ListTargetsResult, TensorInput};
use hodu_plugin_runtime::{ClientError, PluginClient};
use hodu_plugin_sdk::rpc::RpcError;
use hodu_plugin_sdk::{log_info, notify_progress, server::PluginServer};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn fail(op: &str, kind: &str, exp: Value, got: Value) -> Value {
    json!({"op": op, "kind": kind, "exp": exp, "got": got})
}
fn me() -> Command {
    Command::new(std::env::current_exe().unwrap())
}
/// waits at most `limit` for a child to end; kills it otherwise
pub fn ends(child: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

// ------------------------------------------------------------------ server
type P = hodu_plugin::rpc::LoadModelParams;
pub fn server() {
    PluginServer::new("hv", "1.2.3")
        .model_extensions(vec!["m1", "m2"])
        .devices(vec!["cpu"])
        .method("format.load_model", |p: P| Ok(json!({"snapshot_path": p.path})))
        .method("backend.run", |p: P| -> Result<Value, RpcError> {
            notify_progress(Some(50), &p.path);
            log_info(&p.path);
            Ok(json!({"outputs": [p.path]}))
        })
        .method("custom.fail", |p: P| -> Result<Value, RpcError> { Err(RpcError::with_data(-32003, p.path, json!({"d": 1}))) })
        .method_no_params("backend.supported_targets", || Ok(json!({"targets": ["x"], "formatted": "x"})))
        .method_no_params("custom.unit", || Ok(()))
        .method_no_params("custom.unser", || Ok(std::collections::HashMap::from([(vec![1u8], 1)])))
        .run()
        .unwrap();
}
fn method(m: &str) -> &str {
    match m {
        "initialize" | "shutdown" => m,
        "echo" => "format.load_model",
        "noisy" => "backend.run",
        "fail" => "custom.fail",
        "fixed" => "backend.supported_targets",
        "unit" => "custom.unit",
        "unser" => "custom.unser",
        "cancel" => "$/cancel",
        "empty" => "",
        "almost" => "format.load_modeL",
        _ => "no.such.method",
    }
}
fn id(style: i64, i: usize) -> Value {
    match style {
        0 => json!(i),
        1 => json!(format!("a{i}")),
        2 => [json!(-5), json!(i64::MAX), json!(0), json!(""), json!(i64::MIN)][i % 5].clone(),
        3 => json!(7),
        4 => json!(format!("\u{e9}\"\\{i}\n")),
        _ => if i % 2 == 0 { json!(1) } else { json!("1") },
    }
}
fn path(i: usize) -> String {
    format!("p{i}/\u{fc} \"x\"\t{}", "y".repeat(if i % 7 == 3 { 100_000 } else { i }))
}
fn message(x: &Value, i: usize, style: &Value) -> Vec<u8> {
    let (k, m) = (x["k"].as_str().unwrap(), x["m"].as_str().unwrap());
    let idv = id(style["ids"].as_i64().unwrap(), i);
    let good = json!({"jsonrpc": "2.0", "method": "format.load_model", "params": {"path": "q"}, "id": 99}).to_string();
    let v = match (k, m) {
        ("bad", "notjson") => return b"hello, plugin".to_vec(),
        ("bad", "number") => return b"42".to_vec(),
        ("bad", "batch") => return format!("[{good}]").into_bytes(),
        ("bad", "noMethod") => json!({"jsonrpc": "2.0", "id": 99, "params": {}}),
        ("bad", "floatid") => json!({"jsonrpc": "2.0", "method": "custom.unit", "id": 1.5}),
        ("bad", "nullid") => json!({"jsonrpc": "2.0", "method": "custom.unit", "id": null}),
        ("bad", "utf8") => return b"{\"jsonrpc\":\"2.0\",\xff\xfe\"method\":\"custom.unit\",\"id\":3}".to_vec(),
        ("bad", "methodnum") => json!({"jsonrpc": "2.0", "method": 5, "id": 99}),
        ("bad", "cut") => return good.as_bytes()[..good.len() - 5].to_vec(),
        ("bad", "deep") => return "[".repeat(200_000).into_bytes(),
        ("bad", "long") => return "z".repeat(300_000).into_bytes(),
        ("bad", _) => return format!("{good}{good}").into_bytes(),
        ("open", "empty") => return vec![],
        ("open", "blank") => return b"  \t ".to_vec(),
        ("open", "noIdNoMethod") => json!({"jsonrpc": "2.0"}),
        ("open", _) => json!({"jsonrpc": "2.0", "result": 1, "id": 99}),
        _ => {
            let mut v = json!({"jsonrpc": "2.0", "method": method(m)});
            let p = x["p"].as_str().unwrap();
            if p == "ok" {
                v["params"] = if m == "initialize" { json!({"plugin_version": "0.1.0", "protocol_version": "1.0.0"}) } else { json!({"path": path(i), "id": 5}) };
            } else if p == "wrong" {
                v["params"] = [json!({"path": 5, "plugin_version": 1}), json!([]), json!("p"), json!({})][i % 4].clone();
            }
            if k == "req" {
                v["id"] = idv;
            }
            v
        },
    };
    let mut v = v;
    if style["extra"].as_bool().unwrap() {
        v["zz"] = json!({"id": 1, "method": "x"});
        v["a"] = json!([1, null]);
    }
    v.to_string().into_bytes()
}
pub fn server_case(case: &Value, _: usize) -> Vec<Value> {
    let style = &case["style"];
    let msgs = case["msgs"].as_array().unwrap();
    let mut input = vec![];
    for (i, x) in msgs.iter().enumerate() {
        input.extend(message(x, i + 1, style));
        if i + 1 < msgs.len() || style["nl"].as_bool().unwrap() {
            input.extend(if style["crlf"].as_bool().unwrap() { &b"\r\n"[..] } else { &b"\n"[..] });
        }
    }
    let mut child = me().arg("plugin-server").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("harness: spawn");
    let (mut stdin, mut stdout) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
    let chunk = style["chunk"].as_u64().unwrap() as usize;
    let w = std::thread::spawn(move || {
        let n = if chunk == 0 || input.len() > 5000 { 60_000 } else { chunk };
        for c in input.chunks(n) {
            if stdin.write_all(c).is_err() {
                break;
            }
        }
    });
    let r = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = stdout.read_to_end(&mut b);
        b
    });
    let status = ends(&mut child, Duration::from_secs(60));
    let _ = w.join();
    let out = r.join().unwrap();
    let mut bad = vec![];
    let Some(status) = status else {
        return vec![fail("server", "stop", json!("the server ends at shutdown or at the end of its input"), json!("still running"))];
    };
    if !status.success() {
        bad.push(fail("server", "exit", json!("exit status 0"), json!(format!("{status}"))));
    }
    let mut lines = vec![];
    for l in String::from_utf8_lossy(&out).lines() {
        match serde_json::from_str::<Value>(l) {
            Ok(v) => lines.push(v),
            Err(_) => return vec![fail("server", "output", json!("JSON lines"), json!(l.chars().take(200).collect::<String>()))],
        }
    }
    let owed = case["owed"].as_array().unwrap();
    // each answer with the notifications its handler sends before it
    let mut exp: Vec<(bool, Value, usize)> = vec![];
    for o in owed {
        let i = o["to"].as_u64().unwrap() as usize;
        if o["k"] == "ok" && msgs[i - 1]["m"] == "noisy" {
            exp.push((true, json!({"k": "note", "m": "$/progress"}), i));
            exp.push((true, json!({"k": "note", "m": "$/log"}), i));
        }
        exp.push((o["k"] != "open", o.clone(), i));
    }
    let fits = |v: &Value, e: &Value, i: usize| -> bool {
        let k = e["k"].as_str().unwrap();
        if v["jsonrpc"] != "2.0" {
            return false;
        }
        if k == "note" {
            return v.get("id").is_none() && v["method"] == e["m"] && v["params"]["message"] == json!(path(i));
        }
        let (res, err) = (v.get("result"), v.get("error"));
        if res.is_some() == err.is_some() || v.get("id").is_none() {
            return false;
        }
        if k == "bad" || k == "open" {
            return err.is_some();
        }
        if v["id"] != id(style["ids"].as_i64().unwrap(), i) {
            return false;
        }
        match k {
            "any" => true,
            "err" => err.is_some_and(|e2| e2["code"] == e["code"] && e2["message"].is_string() && (e["code"] != -32003 || (e2["data"] == json!({"d": 1}) && e2["message"] == json!(path(i))))),
            _ => {
                let want = match msgs[i - 1]["m"].as_str().unwrap() {
                    "initialize" => json!({"name": "hv", "version": "1.2.3", "protocol_version": hodu_plugin::rpc::PROTOCOL_VERSION, "plugin_version": hodu_plugin::PLUGIN_VERSION,
                        "capabilities": ["format.load_model", "backend.run", "backend.supported_targets"], "model_extensions": ["m1", "m2"], "devices": ["cpu"]}),
                    "echo" => json!({"snapshot_path": path(i)}),
                    "noisy" => json!({"outputs": [path(i)]}),
                    "fixed" => json!({"targets": ["x"], "formatted": "x"}),
                    _ => Value::Null,
                };
                res == Some(&want)
            },
        }
    };
    // optional answers: which prefixes of the expectation explain the first lines
    let mut at: Vec<bool> = vec![false; exp.len() + 1];
    at[0] = true;
    let skip = |at: &mut Vec<bool>| {
        for j in 0..exp.len() {
            if at[j] && !exp[j].0 {
                at[j + 1] = true;
            }
        }
    };
    skip(&mut at);
    for (n, v) in lines.iter().enumerate() {
        let mut nx = vec![false; exp.len() + 1];
        for j in 0..exp.len() {
            nx[j + 1] |= at[j] && fits(v, &exp[j].1, exp[j].2);
        }
        skip(&mut nx);
        if !nx.iter().any(|x| *x) {
            let want: Vec<_> = (0..exp.len()).filter(|j| at[*j]).map(|j| json!({"answer": exp[j].1, "message": msgs[exp[j].2 - 1]})).collect();
            let mut got = v.to_string();
            got.truncate(got.char_indices().take(300).last().map_or(0, |x| x.0));
            bad.push(fail("server", "answer", json!({"line": n, "one of": want}), json!(got)));
            return bad;
        }
        at = nx;
    }
    if !at[exp.len()] {
        bad.push(fail("server", "missing", json!(owed), json!(format!("{} lines", lines.len()))));
    }
    bad
}

// ------------------------------------------------------------------ client
/// a plugin that says what the script says. Logs the lines it reads.
pub fn peer(a: &[String]) {
    let case: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let mut log = std::fs::OpenOptions::new().create(true).append(true).open(&a[1]).unwrap();
    let mut input = BufReader::new(std::io::stdin());
    let mut next = |log: &mut std::fs::File| -> Option<Value> {
        let mut l = String::new();
        if input.read_line(&mut l).unwrap_or(0) == 0 {
            return None;
        }
        let mut v: Value = serde_json::from_str(&l).unwrap_or(json!({"unreadable": l}));
        if l.len() > 100_000 {
            v["params"] = json!("long");
        }
        let _ = writeln!(log, "{v}");
        Some(v)
    };
    let mut out = std::io::stdout();
    let mut say = |b: &[u8]| {
        if out.write_all(b).and_then(|_| out.write_all(b"\n")).and_then(|_| out.flush()).is_err() {
            std::process::exit(0);
        }
    };
    let mut ids: Vec<Value> = vec![];
    let mut held: Option<Value> = None;
    for (i, call) in case["calls"].as_array().unwrap().iter().enumerate() {
        if call["end"] == "deaf" {
            std::thread::sleep(Duration::from_secs(12));
            return;
        }
        if call["end"] == "gone" {
            break;
        }
        // the next request (a stray cancel in between is logged, and answered)
        let req = loop {
            match held.take().or_else(|| next(&mut log)) {
                None => return,
                Some(v) if v["method"] == "$/cancel" => {
                    let _ = writeln!(log, "{}", json!({"stray": true}));
                },
                Some(v) => break v,
            }
        };
        ids.push(req["id"].clone());
        for (li, l) in call["lines"].as_array().unwrap().iter().enumerate() {
            let of = &ids[(l["of"].as_u64().unwrap() as usize - 1).min(i)];
            let tag = format!("r{}", l["of"]);
            let result = match call["op"].as_str().unwrap() {
                _ if l["k"] == "stale" => json!({"tensor_path": tag, "snapshot_path": tag, "outputs": [{"name": tag, "path": tag}], "targets": [tag], "formatted": tag, "name": tag, "version": "1", "protocol_version": "1.0.0", "plugin_version": "0.1.0", "capabilities": []}),
                "load_tensor" => json!({"tensor_path": tag}),
                "load_model" => json!({"snapshot_path": tag}),
                "run" => json!({"outputs": [{"name": tag, "path": tag}]}),
                "list_targets" => json!({"targets": [tag], "formatted": tag}),
                op if op.starts_with("init") => {
                    let v = match op {
                        "init_minor" => "1.7.3",
                        "init_major" => "2.0.0",
                        "init_zero" => "0.9.0",
                        _ => "1.0.0",
                    };
                    json!({"name": tag, "version": "1", "protocol_version": v, "plugin_version": hodu_plugin::PLUGIN_VERSION, "capabilities": ["x"], "unknown": 1})
                },
                _ => json!({}),
            };
            let ok = |id: &Value, r: Value| json!({"jsonrpc": "2.0", "result": r, "id": id}).to_string().into_bytes();
            let err = |id: &Value, c: i64| json!({"jsonrpc": "2.0", "error": {"code": c, "message": tag}, "id": id}).to_string().into_bytes();
            match l["k"].as_str().unwrap() {
                "own" | "stale" => say(&ok(of, result)),
                "ownErr" | "staleErr" => say(&err(of, -32007)),
                "ownNull" => say(&ok(of, Value::Null)),
                "ownEmpty" => say(json!({"jsonrpc": "2.0", "id": of}).to_string().as_bytes()),
                "ownWrong" => say(&ok(of, json!(42))),
                "note" => say(json!({"jsonrpc": "2.0", "method": "$/progress", "params": {"percent": 5, "message": format!("n{i}.{li}")}}).to_string().as_bytes()),
                "log" => say(json!({"jsonrpc": "2.0", "method": "$/log", "params": {"level": "info", "message": format!("n{i}.{li}")}}).to_string().as_bytes()),
                k @ ("cancel" | "cancelQuiet") => {
                    say(json!({"jsonrpc": "2.0", "method": "$/progress", "params": {"message": format!("cancel n{i}.{li}")}}).to_string().as_bytes());
                    match next(&mut log) {
                        None => return,
                        Some(v) if v["method"] == "$/cancel" => {
                            let _ = writeln!(log, "{}", json!({"asked": i}));
                            if k == "cancel" {
                                say(&err(&v["id"], -32601));
                            }
                        },
                        Some(v) => held = Some(v),
                    }
                },
                "garbage" => say(b"loading weights..."),
                "utf8" => say(b"\xff\xfe{\"jsonrpc\":\"2.0\"}"),
                "blank" => say(b""),
                "notobj" => say(b"42"),
                "nullid" => say(b"{\"jsonrpc\":\"2.0\",\"error\":{\"code\":-32700,\"message\":\"x\"},\"id\":null}"),
                "foreign" => say(&ok(&json!(987654), json!({"tensor_path": "foreign", "snapshot_path": "foreign", "outputs": [], "targets": [], "formatted": "foreign"}))),
                _ => say(&ok(&json!(of.to_string()), json!({"tensor_path": "foreign", "snapshot_path": "foreign", "outputs": [], "targets": [], "formatted": "foreign"}))),
            }
        }
        match call["end"].as_str().unwrap() {
            "exit" => return,
            "close" => {
                drop(unsafe { <std::os::fd::OwnedFd as std::os::fd::FromRawFd>::from_raw_fd(1) });
                break;
            },
            "cutline" => {
                let mut o = std::io::stdout();
                let _ = o.write_all(b"{\"jsonrpc\":\"2.0\",\"resu").and_then(|_| o.flush());
                return;
            },
            "drip" => {
                for j in 0..400 {
                    say(json!({"jsonrpc": "2.0", "method": "$/progress", "params": {"message": format!("drip {j}")}}).to_string().as_bytes());
                    std::thread::sleep(Duration::from_millis(30));
                }
                return;
            },
            _ => {},
        }
    }
    while next(&mut log).is_some() {}
}
/// (outcome, tag of the result)
fn call(c: &mut PluginClient, op: &str, i: usize, big: bool) -> Result<Option<String>, ClientError> {
    let p = if big { "b".repeat(4_000_000) } else { format!("in{i}") };
    Ok(match op {
        "load_tensor" => Some(c.load_tensor(&p)?.tensor_path),
        "load_model" => Some(c.load_model(&p)?.snapshot_path),
        "save_model" => c.save_model(&p, "out").map(|_| None)?,
        "save_tensor" => c.save_tensor(&p, "out").map(|_| None)?,
        "run" => Some(c.run("lib", &p, "cpu", vec![TensorInput { name: "x".into(), path: p.clone() }])?.outputs.iter().map(|o| format!("{}", o.name)).collect()),
        "build" => c.build(&p, "t", "cpu", "f", "o").map(|_| None)?,
        "list_targets" if !big => {
            let ListTargetsResult { targets, formatted } = c.list_targets()?;
            (targets == [formatted.clone()]).then_some(formatted)
        },
        "list_targets" => Some(c.load_tensor(&p)?.tensor_path),
        _ if big => Some(c.load_tensor(&p)?.tensor_path),
        _ => Some(c.initialize()?.name),
    })
}
pub fn client_case(case: &Value, idx: usize) -> Vec<Value> {
    let dir = std::env::temp_dir().join(format!("hv_rpc_{}_{idx}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let r = client_in(case, idx, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn client_in(case: &Value, idx: usize, dir: &std::path::Path) -> Vec<Value> {
    let calls = case["calls"].as_array().unwrap();
    let (script, log) = (dir.join("script.json"), dir.join("log"));
    std::fs::write(&script, case.to_string()).unwrap();
    std::fs::write(&log, "").unwrap();
    let mut child = me().arg("plugin-peer").arg(&script).arg(&log).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("harness: spawn");
    let mut c = match PluginClient::new(&mut child) {
        Ok(c) => c,
        Err(e) => return vec![fail("client", "new", json!("a client"), json!(e.to_string()))],
    };
    let handle = c.cancellation_handle();
    let seen: Arc<Mutex<Vec<String>>> = Default::default();
    let asked = Arc::new(Mutex::new(0));
    {
        let (seen, h, asked) = (seen.clone(), handle.clone(), asked.clone());
        c.set_notification_handler(Box::new(move |_, p| {
            let m = p.and_then(|p| p["message"].as_str()).unwrap_or("?").to_string();
            if m.starts_with("cancel") {
                let _ = h.cancel();
                *asked.lock().unwrap() += 1;
            }
            if !m.starts_with("drip") {
                seen.lock().unwrap().push(m.trim_start_matches("cancel ").to_string());
            }
        }));
    }
    let mut bad = vec![];
    let mut must_see = 0usize;
    let mut notes: Vec<String> = vec![];
    for (i, x) in calls.iter().enumerate() {
        let (op, own) = (x["op"].as_str().unwrap(), x["own"].as_bool().unwrap());
        let limit = if own { Duration::from_secs(60) } else { Duration::from_millis(50) };
        c.set_timeout(limit);
        let t = Instant::now();
        let r = call(&mut c, op, i + 1, x["end"] == "deaf");
        let took = t.elapsed();
        let (got, tag) = match &r {
            Ok(t) => ("ok", t.clone()),
            Err(ClientError::Rpc(e)) => ("rpc", Some(e.message.clone())),
            Err(_) => ("err", None),
        };
        let shown = match &r {
            Ok(t) => json!({"ok": t}),
            Err(e) => json!({"err": e.to_string()}),
        };
        let at = json!({"call": i + 1, "op": op, "lines": x["lines"], "end": x["end"]});
        if !x["may"].as_array().unwrap().iter().any(|m| m == got) {
            bad.push(fail("client", "outcome", json!({"may": x["may"], "at": at}), shown.clone()));
        }
        if let Some(tag) = tag {
            if tag != format!("r{}", i + 1) {
                bad.push(fail("client", "foreign result", json!({"result of call": i + 1, "at": at}), shown));
            }
        }
        if took > limit + Duration::from_secs(5) {
            bad.push(fail("client", "blocked", json!({"at most": format!("{limit:?}"), "at": at}), json!(format!("{took:?}"))));
        }
        let mut before = true;
        for (li, l) in x["lines"].as_array().unwrap().iter().enumerate() {
            let k = l["k"].as_str().unwrap();
            if ["note", "log", "cancel", "cancelQuiet"].contains(&k) {
                notes.push(format!("n{i}.{li}"));
                if before && own && got != "err" {
                    must_see = notes.len();
                }
            }
            before &= !(k.starts_with("own") && l["of"] == json!(i + 1));
        }
        if (idx + i) % 2 == 0 {
            let _ = handle.cancel();
        }
        if !bad.is_empty() {
            break;
        }
    }
    if bad.is_empty() && idx % 3 == 0 && calls.iter().all(|x| x["end"] == "wait") {
        c.set_timeout(Duration::from_secs(60));
        if let Err(e) = c.shutdown() {
            bad.push(fail("client", "shutdown", json!("sent"), json!(e.to_string())));
        }
    }
    drop((c, handle));
    let slow = calls.iter().any(|x| x["end"] == "deaf" || x["end"] == "drip");
    if slow {
        let _ = child.kill();
    }
    // a client that is gone closes the plugin's input (the handler's handle goes with it)
    if ends(&mut child, Duration::from_secs(30)).is_none() && bad.is_empty() && !slow {
        bad.push(fail("client", "hangup", json!("a dropped client closes the plugin's input"), json!("the plugin still waits")));
    }
    let seen = seen.lock().unwrap().clone();
    if bad.is_empty() && (seen.len() > notes.len() || notes[..seen.len()] != seen[..] || seen.len() < must_see) {
        bad.push(fail("client", "notifications", json!({"sent": notes, "at least": must_see}), json!(seen)));
    }
    let said: Vec<Value> = std::fs::read_to_string(&log).unwrap_or_default().lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    let strict = calls.iter().all(|x| x["own"] == true && x["lines"].as_array().unwrap().iter().all(|l| !["garbage", "utf8", "blank", "notobj", "nullid", "foreign", "strid"].contains(&l["k"].as_str().unwrap())));
    let (mut reqs, mut cancels, mut cur) = (vec![], 0, Value::Null);
    let mut ids = std::collections::HashSet::new();
    for v in &said {
        if v["method"] == "$/cancel" {
            cancels += 1;
            if strict && v["params"]["id"] != cur {
                bad.push(fail("client", "cancel", json!({"cancels": cur}), v.clone()));
            }
        } else if v["method"].is_string() {
            if v["method"] != "shutdown" {
                reqs.push(v["method"].as_str().unwrap().to_string());
            }
            cur = v["id"].clone();
        }
        if v.get("id").is_some() && !ids.insert(v["id"].to_string()) {
            bad.push(fail("client", "request id", json!("not used before"), v.clone()));
        }
    }
    let want: Vec<String> = calls.iter().map(|x| match x["op"].as_str().unwrap() {
        o @ ("run" | "build") => format!("backend.{o}"),
        "list_targets" => "backend.supported_targets".into(),
        o if o.starts_with("init") => "initialize".into(),
        o => format!("format.{o}"),
    }).collect();
    let alive = calls.iter().take_while(|x| x["end"] == "wait").count();
    if bad.is_empty() && !slow && (reqs.len() > want.len() || reqs[..] != want[..reqs.len()] || (reqs.len() < alive)) {
        bad.push(fail("client", "requests", json!({"calls": want, "at least": alive}), json!(reqs)));
    }
    if bad.is_empty() && cancels > *asked.lock().unwrap() {
        bad.push(fail("client", "stray cancel", json!(*asked.lock().unwrap()), json!(cancels)));
    }
    bad
}
