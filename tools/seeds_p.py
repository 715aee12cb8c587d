import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import mk
C="crates/hodu_core/src/"; K="crates/hodu_cpu_kernels/kernels/"; N="crates/hodu_nn/src/"; R="crates/hodu_plugin_runtime/src/"; L="hodu-cli/src/"
W=set(sys.argv[1:])
def s(id,*a,**k):
    if not W or id in W:
        try: mk(id,id[:3],*a,**k)
        except AssertionError as e: print(id,str(e)[:300])
T="use hodu_core::tensor::*; use hodu_core::types::*; use hodu_core::scalar::Scalar;\n"
# ---- T09
s("T09a",[(K+"ops_matrix.c",('#define DOT_OP(','                size_t rows_per_thread = M / num_threads;                                          \\\n'),
           '                size_t rows_per_thread = (M / num_threads) & ~(size_t)1;                           \\\n')],
 '''let a: Vec<i32> = (0..1054 * 3).map(|i| (i % 5) as i32 - 2).collect(); let b: Vec<i32> = (0..6).map(|i| i as i32 % 4 - 1).collect();
 let (x, y) = (Tensor::from_slice(a.clone(), [1054, 3]).unwrap(), Tensor::from_slice(b.clone(), [3, 2]).unwrap());
 let g = x.matmul(&y).unwrap().to_flatten_vec::<i32>().unwrap();
 for i in 0..1054 { for j in 0..2 { let e: i32 = (0..3).map(|k| a[i * 3 + k] * b[k * 2 + j]).sum(); assert_eq!(g[i * 2 + j], e, "{i} {j}"); } }''',
 "a matrix product of enough rows for several workers, an odd number each","the last rows of the product are never computed",pre=T)
s("T09b",[(K+"ops_binary.c",'                    args[t].rhs_offset = rhs_offset;                                               \\\n',
           '                    args[t].rhs_offset = lhs_offset;                                               \\\n')],
 '''let n = 250000; let v: Vec<i32> = (0..n as i32 + 3).map(|i| i % 7).collect(); let x = Tensor::from_slice(v.clone(), [n + 3]).unwrap();
 let y = x.slice(0, 3, None, 1).unwrap(); let z = Tensor::from_slice(v[..n].to_vec(), [n]).unwrap(); let g = z.sub(&y).unwrap().to_flatten_vec::<i32>().unwrap();
 for i in 0..n { assert_eq!(g[i], v[i] - v[i + 3]); }''',
 "two operands of 200000 elements or more, at least one of them a slice with its own offset","the right operand is read from the wrong place, only when several threads share the work",pre=T)
# ---- elementwise, indexing
s("T02a",[(K+"ops_binary.c",('#define IMPL_BINARY_TO_BOOL(','''                        : (rhs_offset + get_strided_index(i, num_dims, rhs_shape, rhs_strides));   \\
'''),'''                        : (lhs_offset + get_strided_index(i, num_dims, rhs_shape, rhs_strides));   \\
''')],
 '''let x = Tensor::from_slice((0..12).map(|i| i as f32).collect::<Vec<_>>(), [3, 4]).unwrap(); let b = x.slice(0, 2, Some(3), 1).unwrap();
 assert_eq!(x.lt(&b).unwrap().to_flatten_vec::<bool>().unwrap(), (0..12).map(|i| i < 8).collect::<Vec<_>>());''',
 "a comparison whose right operand is not contiguous and starts at another offset","the right operand is read from the left one's start",pre=T)
s("T05b",[(K+"ops_padding.c",('#define IMPL_PAD_REPLICATE_OP(','''                for (size_t k = d + 1; k < num_dims; k++) {                                        \\
                    in_stride *= input_shape[k];                                                   \\
'''),'''                for (size_t k = d + 1; k < num_dims; k++) {                                        \\
                    in_stride *= d > 0 ? input_shape[k] : output_shape[k] - pad_before[k];         \\
''')],
 '''let x = Tensor::from_slice((0..6).map(|i| i as f32).collect::<Vec<_>>(), [2, 3]).unwrap(); let g = x.pad_replicate(&[(0, 0), (0, 1)]).unwrap();
 assert_eq!(g.to_flatten_vec::<f32>().unwrap(), vec![0.0, 1.0, 2.0, 2.0, 3.0, 4.0, 5.0, 5.0]);''',
 "replicate padding with elements added after the end of an inner dimension","rows after the first are taken from the wrong place",pre=T)
# ---- losses, modules
NN="use hodu_core::tensor::*; use hodu_core::types::*; use hodu_nn::{prelude::*, *};\n"
s("N02a",[(N+"losses/cross_entropy.rs","let gather_dim = if self.dim < 0 { rank + self.dim } else { self.dim };","let gather_dim = if self.dim < 0 { rank - 1 } else { self.dim };")],
 '''let x = Tensor::from_slice(vec![1.0f32, 2.0, 0.5, -1.0, 0.0, 3.0, 2.0, 1.0], [2, 2, 2]).unwrap(); let t = Tensor::from_slice(vec![1i32, 1, 0, 0], [2, 2]).unwrap();
 let a = CrossEntropyLoss::with_dim(1).forward((&x, &t)).unwrap().to_flatten_vec::<f32>().unwrap(); let b = CrossEntropyLoss::with_dim(-2).forward((&x, &t)).unwrap().to_flatten_vec::<f32>().unwrap(); assert_eq!(a, b);''',
 "a class dimension counted from the end that is not the last one","the loss reads the probabilities of other classes",pre=NN)
s("N03a",[(N+"modules/rnn.rs",('impl RNN {','let indices = Tensor::from_slice(&[i as i32], [1])?;'),'let indices = Tensor::from_slice(&[(i % 2) as i32], [1])?;')],
 '''let m = RNN::new(2, 2, 3, true, false, Nonlinearity::Tanh, DType::F32).unwrap(); let x = Tensor::from_slice(vec![0.1f32, 0.2], [1, 1, 2]).unwrap();
 let go = |h: Vec<f32>| m.forward_with_state(&x, Some(&Tensor::from_slice(h, [3, 1, 2]).unwrap())).unwrap().0.to_flatten_vec::<f32>().unwrap();
 assert_ne!(go(vec![0.0, 0.0, 0.0, 0.0, 0.0, 0.0]), go(vec![0.0, 0.0, 0.0, 0.0, 3.0, -3.0]));''',
 "a recurrent network of three layers or more with a given initial state","the third layer starts from the first layer's state",pre=NN)
s("N03b",[(N+"modules/norm.rs",('impl BatchNorm2D {','.add(&var_squeezed.mul_scalar(one_minus_momentum)?)?;'),'.add(&new_mean.mul(&new_mean)?.mul_scalar(Scalar::from_f32(0.0, rm.dtype()))?.add(&var_squeezed.mul_scalar(momentum_typed)?)?)?;')],
 '''let m = BatchNorm2D::new(1, 0.0f32, 0.75f32, false, DType::F32).unwrap(); let x = Tensor::from_slice(vec![3.0f32, 7.0], [2, 1, 1, 1]).unwrap();
 train!(); m.forward(&x).unwrap(); eval!(); let g = m.forward(&Tensor::from_slice(vec![1.25f32], [1, 1, 1, 1]).unwrap()).unwrap().to_flatten_vec::<f32>().unwrap()[0];
 let h = m.forward(&Tensor::from_slice(vec![1.25f32 + 1.75f32.sqrt()], [1, 1, 1, 1]).unwrap()).unwrap().to_flatten_vec::<f32>().unwrap()[0]; assert!((h - g - 1.0).abs() < 1e-4, "{g} {h}");''',
 "a two-dimensional batch normalisation with momentum other than one half, trained and then evaluated","the running variance mixes in the new variance with the wrong weight",pre=NN)
# ---- plugins
SRV='''use std::io::{Write, BufRead}; use std::process::*; use hodu_plugin_sdk::{server::PluginServer, rpc::RpcError}; use serde_json::{json, Value};
fn main() {
 if std::env::args().nth(1).is_some() {
   PluginServer::new("p", "1").method("backend.run", |p: Value| -> Result<Value, RpcError> { Ok(p) }).method_no_params("backend.supported_targets", || -> Result<Value, RpcError> { Ok(json!(7)) }).run().unwrap(); return;
 }
 let mut c = Command::new(std::env::current_exe().unwrap()).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
 let mut w = c.stdin.take().unwrap(); for l in [LINES] { writeln!(w, "{}", l).unwrap(); } drop(w);
 let out: Vec<Value> = std::io::BufReader::new(c.stdout.take().unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect(); c.wait().unwrap();
 CHECK
}
'''
def srv(lines, check): return SRV.replace("LINES", lines).replace("CHECK", check)
s("P01a",[("hodu-plugin-sdk/src/server.rs",'''        let _params: InitializeParams = match params {''','''        self.initialized = true;
        let _params: InitializeParams = match params {''')],
 srv('''json!({"jsonrpc":"2.0","id":1,"method":"initialize","params":{"plugin_version":3}}), json!({"jsonrpc":"2.0","id":2,"method":"backend.run","params":{}})''',
 'assert!(out.len() == 2 && out[0]["error"].is_object() && out[1]["error"].is_object(), "{out:?}");'),
 "an initialise request with bad parameters, then an operation","the operation runs although initialisation failed; a later correct initialise is refused")
s("P01b",[("hodu-plugin-sdk/src/server.rs",'''            methods::SHUTDOWN => {
                // Graceful shutdown
                std::process::exit(0);
            },''','''            methods::SHUTDOWN => {
                // Graceful shutdown
                if self.initialized {
                    std::process::exit(0);
                }
                Err(RpcError::new(error_codes::INVALID_REQUEST, "Server not initialized"))
            },''')],
 srv('''json!({"jsonrpc":"2.0","id":1,"method":"shutdown"}), json!({"jsonrpc":"2.0","id":2,"method":"backend.run","params":{}})''',
 'assert!(out.is_empty(), "{out:?}");'),
 "a shutdown before any initialise","the server refuses to stop")
CL='''use std::process::*; use hodu_plugin_runtime::*; use std::time::*;
const SH: &str = r#"#!/bin/bash
reply() { echo "{\\"jsonrpc\\":\\"2.0\\",\\"id\\":$1,$2}"; }
while read -r l; do
  id=${l##*\\"id\\":}; id=${id%%[!0-9]*}
  case "$l" in
    *initialize*) reply $id '"result":{"name":"p","version":"1","protocol_version":"1.0.0","plugin_version":"x","capabilities":[]}';;
    BODY
    *shutdown*) exit 0;;
  esac
done
"#;
'''
s("P02a",[(R+"client.rs",('impl CancellationHandle','RequestId::Number(self.next_id.fetch_add(1, Ordering::SeqCst)),'),'RequestId::Number(self.next_id.load(Ordering::SeqCst)),')],
 CL.replace("BODY",'''*supported_targets*) n=$((n + 1)); if [ "$n" = 1 ]; then read -r c; cid=${c##*\\"id\\":}; cid=$(echo "$c" | grep -o '"id":[0-9]*' | tail -1 | cut -d: -f2); cid2=$(echo "$c" | grep -o '"id":[0-9]*' | sort -t: -k2 -n | tail -1 | cut -d: -f2); reply $id '"result":{"targets":["first"],"formatted":"first"}'; reply $cid2 '"error":{"code":-32601,"message":"no such method"}'; else reply $id '"result":{"targets":["second"],"formatted":"second"}'; fi;;''')+
 '''fn main() { std::fs::write("p.sh", SH).unwrap(); let mut c = Command::new("bash").arg("p.sh").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
 let mut p = PluginClient::new(&mut c).unwrap(); p.set_timeout(Duration::from_secs(10)); p.initialize().unwrap(); let h = p.cancellation_handle();
 let t = std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(400)); h.cancel().unwrap(); });
 let a = p.list_targets(); t.join().unwrap(); assert_eq!(a.unwrap().formatted, "first"); let b = p.list_targets(); let _ = c.kill(); let _ = c.wait(); assert_eq!(b.unwrap().formatted, "second"); }''',
 "a cancellation that the plugin answers after the cancelled call, followed by another call","the next call takes the answer to the cancellation for its own")
s("P02b",[(R+"client.rs",'''                if let Ok(notification) = serde_json::from_value::<Notification>(value) {
                    self.handle_notification(&notification);
                }
                continue; // Keep reading for the actual response''','''                let notification = serde_json::from_value::<Notification>(value)
                    .map_err(|e| ClientError::Parse(e.to_string()))?;
                self.handle_notification(&notification);
                continue; // Keep reading for the actual response''')],
 CL.replace("BODY",'''*supported_targets*) echo '{"jsonrpc":"2.0","status":"warming up"}'; reply $id '"result":{"targets":[],"formatted":"mine"}';;''')+
 '''fn main() { std::fs::write("p.sh", SH).unwrap(); let mut c = Command::new("bash").arg("p.sh").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
 let mut p = PluginClient::new(&mut c).unwrap(); p.set_timeout(Duration::from_secs(10)); p.initialize().unwrap(); let a = p.list_targets(); let _ = c.kill(); let _ = c.wait(); assert_eq!(a.unwrap().formatted, "mine"); }''',
 "a plugin message that is neither a response nor a well-formed notification","the call in progress fails although its answer follows")
RG='''use hodu_plugin_runtime::*; use std::path::*;
fn entry(name: &str, dev: &str, ext: &str, deps: &[&str]) -> PluginEntry {
 let kind = if ext.is_empty() { PluginType::Backend } else { PluginType::ModelFormat };
 let capabilities = if ext.is_empty() { PluginCapabilities::backend(true, true, vec![dev.into()], vec![]) } else { PluginCapabilities::model_format(true, true, vec![ext.into()]) };
 PluginEntry { name: name.into(), version: "1".into(), description: None, license: None, plugin_type: kind, capabilities, binary: "run".into(), source: PluginSource::CratesIo, installed_at: "".into(), plugin_version: "1".into(), enabled: true, dependencies: deps.iter().map(|d| d.to_string()).collect() }
}
'''
s("P03a",[(R+"registry.rs","            *existing = entry;","            let enabled = existing.enabled;\n            *existing = PluginEntry { enabled, ..entry };")],
 RG+'fn main() { let mut r = PluginRegistry::new(); let mut e = entry("a", "cpu", "", &[]); e.enabled = false; r.upsert(e); r.upsert(entry("a", "cpu", "", &[])); assert!(r.find("a").unwrap().enabled); }',
 "an update of a disabled plugin","the entry does not hold the latest data")
s("P03b",[(R+"registry.rs",'''        self.backends()
            .find(|p| p.capabilities.devices.iter().any(|d| d.to_lowercase() == device_lower))''','''        self.all_backends()
            .find(|p| p.capabilities.devices.iter().any(|d| d.to_lowercase() == device_lower))
            .filter(|p| p.enabled)''')],
 RG+'fn main() { let mut r = PluginRegistry::new(); let mut e = entry("a", "cpu", "", &[]); e.enabled = false; r.upsert(e); r.upsert(entry("b", "CPU", "", &[])); assert_eq!(r.find_backend_by_device("cpu").unwrap().name, "b"); }',
 "two backends for one device, the first of them disabled","the enabled one is not found")
s("P03c",[(R+"registry.rs",('pub fn find_model_format_by_extension',".any(|e| e.trim_start_matches('.').to_lowercase() == ext_normalized)"),".any(|e| e.eq_ignore_ascii_case(ext) || *e == ext_normalized)")],
 RG+'fn main() { let mut r = PluginRegistry::new(); r.upsert(entry("a", "", ".Onnx", &[])); assert!(r.find_model_format_by_extension("onnx").is_some()); }',
 "a plugin that declares its extension with a leading dot","its files are not recognised")
s("P04a",[(R+"registry.rs",'''        if let Some(parent) = path.parent() {
            std::fs::create_dir_all(parent).map_err(|e| RegistryError::Io(e.to_string()))?;
        }''','''        match path.parent() {
            Some(parent) if !parent.exists() => {
                std::fs::create_dir_all(parent).map_err(|e| RegistryError::Io(e.to_string()))?;
            },
            // The name has to be free for the new file
            _ => {
                let _ = std::fs::remove_file(path);
            },
        }''')],
 RG+'''fn main() { let p = std::env::current_dir().unwrap().join("r/plugins.json"); let mut r = PluginRegistry::new(); r.upsert(entry("a", "cpu", "", &[])); r.save(&p).unwrap();
 let q = p.clone(); let h = std::thread::spawn(move || for _ in 0..1500 { r.save(&q).unwrap(); }); let mut lost = 0; while !h.is_finished() { if PluginRegistry::load(&p).map(|r| r.plugins.len() != 1).unwrap_or(true) { lost += 1; } } h.join().unwrap(); assert_eq!(lost, 0); }''',
 "a reader, or a crash, between the two steps of a save","the registry is gone: the reader sees no plugin installed")
HM='''fn home() -> std::path::PathBuf { let h = std::env::current_dir().unwrap().join("home"); std::fs::create_dir_all(&h).unwrap(); std::env::set_var("HOME", &h); assert_eq!(PluginRegistry::default_path().unwrap(), h.join(".hodu/plugins.json")); h }
fn put(h: &std::path::Path, name: &str, script: &str) { use std::os::unix::fs::PermissionsExt; let d = h.join(".hodu/plugins").join(name); std::fs::create_dir_all(&d).unwrap(); let f = d.join("run"); std::fs::write(&f, script).unwrap(); std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap(); }
'''
PS=r'''const SH: &str = r#"#!/bin/bash
echo start >> "$HOME/log"
while read -r l; do case "$l" in *initialize*) echo '{"jsonrpc":"2.0","id":1,"result":{"name":"NAME","version":"1","protocol_version":"1.0.0","plugin_version":"x","capabilities":[]}}';; *shutdown*) exit 0;; esac; done
"#;
'''
s("P05a",[(L+"plugins/process.rs",'''        self.processes.insert(name.to_string(), managed);

        Ok(&mut self.processes.get_mut(name).expect("key exists after insert").client)''','''        let key = managed.info.name.clone();
        self.processes.insert(key.clone(), managed);

        Ok(&mut self.processes.get_mut(&key).expect("key exists after insert").client)''')],
 RG+HM+PS.replace("NAME","other")+'''fn main() { let h = home(); let mut r = PluginRegistry::new(); r.upsert(entry("a", "cpu", "", &[])); r.save(&PluginRegistry::default_path().unwrap()).unwrap(); put(&h, "a", SH);
 let mut m = hodu_cli::plugins::PluginManager::new().unwrap(); m.get_plugin("a").unwrap(); m.get_plugin("a").unwrap(); drop(m); assert_eq!(std::fs::read_to_string(h.join("log")).unwrap().lines().count(), 1); }''',
 "a plugin that calls itself something else than it was registered as, asked for twice","a second process is started and the first is never reaped")
s("P05b",[(R+"format.rs",'''        client.set_timeout(self.timeout);

        // Initialize
''','''
        // Initialize
'''),(R+"format.rs",'''        self.processes.insert(name.to_string(), managed);
''','''        self.processes.insert(name.to_string(), managed);
        let timeout = self.timeout;
        if let Some(managed) = self.processes.get_mut(name) {
            managed.client.set_timeout(timeout);
        }
''')],
 RG+HM+'''fn main() { let h = home(); let mut r = PluginRegistry::new(); r.upsert(entry("a", "", "onnx", &[])); r.save(&PluginRegistry::default_path().unwrap()).unwrap(); put(&h, "a", "#!/bin/bash\\nexec sleep 30\\n");
 let t = std::time::Instant::now(); let mut m = format::PluginManager::with_timeout(1).unwrap(); assert!(m.get_plugin("a").is_err()); assert!(t.elapsed().as_secs() < 10); }''',
 "a plugin that never answers the initialise request, under a manager with a timeout of its own","the manager waits for the default five minutes")
# ---- commands
s("C02a",[(L+"commands/clean.rs",('// Try with prefix','clean_directory(&backend_cache, &format!("{} cache", backend), args.dry_run)?;'),'clean_directory(&backend_cache, &prefixed, false)?;')],
 RG+HM+'''fn main() { let h = home(); let d = h.join(".hodu/cache/hodu-backend-x-plugin"); std::fs::create_dir_all(&d).unwrap(); std::fs::write(d.join("f"), "1").unwrap();
 hodu_cli::commands::clean::execute(hodu_cli::commands::clean::CleanArgs { dry_run: true, backend: Some("x".into()), all: false }).unwrap(); assert!(d.join("f").exists()); }''',
 "a dry run for a backend given by its short name","the cache is deleted")
s("C02b",[(L+"commands/clean.rs",'        std::fs::remove_dir_all(path)?;','''        let real = path.canonicalize()?;
        std::fs::remove_dir_all(&real)?;''')],
 RG+HM+'''fn main() { let h = home(); let o = std::env::current_dir().unwrap().join("outside"); std::fs::create_dir_all(&o).unwrap(); std::fs::write(o.join("f"), "1").unwrap(); std::fs::create_dir_all(h.join(".hodu/cache")).unwrap(); std::os::unix::fs::symlink(&o, h.join(".hodu/cache/x")).unwrap();
 let _ = hodu_cli::commands::clean::execute(hodu_cli::commands::clean::CleanArgs { dry_run: false, backend: Some("x".into()), all: false }); assert!(o.join("f").exists()); }''',
 "a backend cache that is a symbolic link to somewhere else","files outside the hodu directory are deleted")
s("C03a",[(L+"commands/plugin.rs",'''    if registry.find(name).is_some() {
        return Ok(name.to_string());
    }

    let backend_name = format!("hodu-backend-{}", name);
    if registry.find(&backend_name).is_some() {
        return Ok(backend_name);
    }
''','''    let backend_name = format!("hodu-backend-{}", name);
    if registry.find(&backend_name).is_some() {
        return Ok(backend_name);
    }

    if registry.find(name).is_some() {
        return Ok(name.to_string());
    }
''')],
 RG+HM+'''fn main() { let h = home(); let f = PluginRegistry::default_path().unwrap(); let mut r = PluginRegistry::new(); r.upsert(entry("x", "cpu", "", &[])); r.upsert(entry("hodu-backend-x", "cpu", "", &[])); r.save(&f).unwrap();
 use hodu_cli::commands::plugin::*; execute(PluginArgs { command: PluginCommands::Disable(DisableArgs { name: "x".into() }) }).unwrap(); let r = PluginRegistry::load(&f).unwrap(); assert!(!r.find("x").unwrap().enabled && r.find("hodu-backend-x").unwrap().enabled); }''',
 "a plugin whose full name is another plugin's short name","the other plugin is disabled")
s("C03b",[(L+"commands/plugin.rs",'.filter(|dep| registry.find(dep).map(|p| !p.enabled).unwrap_or(true))','.filter(|dep| registry.find(dep).is_some_and(|p| !p.enabled))')],
 '',"verify with an enabled plugin whose dependency was removed","the missing dependency is not reported",
 files={"demo.rs":RG+HM+'''fn main() { if std::env::args().nth(1).is_some() { use hodu_cli::commands::plugin::*; execute(PluginArgs { command: PluginCommands::Verify }).unwrap(); return; }
 let h = home(); let f = PluginRegistry::default_path().unwrap(); let mut r = PluginRegistry::new(); r.upsert(entry("a", "cpu", "", &["gone"])); r.save(&f).unwrap(); put(&h, "a", "#!/bin/bash\\n");
 let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("v").output().unwrap(); assert!(String::from_utf8_lossy(&o.stdout).contains("gone")); }'''})
s("C04a",[(L+"commands/convert.rs",'''    let shape: Vec<usize> = tensor.shape().dims().to_vec();
    let dtype''','''    let shape: Vec<usize> = if tensor.ndim() == 0 { vec![1] } else { tensor.shape().dims().to_vec() };
    let dtype''')],
 '''use hodu_core::{tensor::*, types::*, format::*};
fn main() { std::env::set_var("HOME", std::env::current_dir().unwrap()); let t = Tensor::from_slice(vec![3.0f32], Vec::<usize>::new()).unwrap(); hdt::save(&t, "a.hdt").unwrap();
 hodu_cli::commands::convert::execute(hodu_cli::commands::convert::ConvertArgs { input: "a.hdt".into(), output: "b.json".into(), verbose: false }).unwrap(); assert_eq!(json::load("b.json").unwrap().shape().dims().len(), 0); }''',
 "a tensor without dimensions, converted from the binary format","it comes out with one dimension")
RUN=r'''const SH: &str = r#"#!/bin/bash
while read -r l; do id=$(echo "$l" | grep -o '"id":[0-9]*' | tail -1 | cut -d: -f2); r='{}'
case "$l" in
 *initialize*) r='{"name":"p","version":"1","protocol_version":"1.0.0","plugin_version":"x","capabilities":["backend.run","backend.build"],"devices":["cpu"]}';;
 *backend.build*) f=${l##*\"output_path\":\"}; f=${f%%\"*}; basename "$(dirname "$0")" > "$f";;
 *backend.run*) f=${l##*\"library_path\":\"}; f=${f%%\"*}; echo "$(basename "$(dirname "$0")") $(cat "$f")" >> "$HOME/log"; r='{"outputs":[]}';;
 *shutdown*) exit 0;;
esac; echo "{\"jsonrpc\":\"2.0\",\"id\":$id,\"result\":$r}"; done
"#;
fn run(b: &str, x: &str) -> bool { use hodu_cli::commands::run::*; execute(RunArgs { model: "m.hdss".into(), input: vec![format!("x={x}")], inputs: vec![], device: "cpu".into(), backend: Some(b.into()), format: "json".into(), save: None, save_format: "hdt".into(), dry_run: false, quiet: true, timeout: Some(20) }).is_ok() }
fn model() { use hodu_core::{snapshot::*, tensor::*, types::*, format::*}; let b = CaptureBoard::new(); b.open(); let x = Tensor::input("x", [2, 1], DType::F32).unwrap(); b.with_target("y", x.neg().unwrap()); b.close(); b.capture().save("m.hdss").unwrap();
 hdt::save(&Tensor::from_slice(vec![1.0f32, 2.0], [2, 1]).unwrap(), "a.hdt").unwrap(); hdt::save(&Tensor::from_slice(vec![1.0f32, 2.0], [1, 2]).unwrap(), "b.hdt").unwrap(); }
'''
s("C01a",[(L+"commands/run.rs",'''        .join("cache")
        .join(&backend_plugin.name);''','''        .join("cache");''')],
 RG+HM+RUN+'''fn main() { let h = home(); let f = PluginRegistry::default_path().unwrap(); let mut r = PluginRegistry::new(); r.upsert(entry("p", "cpu", "", &[])); r.upsert(entry("q", "cpu", "", &[])); r.save(&f).unwrap(); put(&h, "p", SH); put(&h, "q", SH); model();
 assert!(run("p", "a.hdt") && run("q", "a.hdt")); assert_eq!(std::fs::read_to_string(h.join("log")).unwrap(), "p p\\nq q\\n"); }''',
 "one model run with one backend and then with another of the same version","the second backend is given the first one's artifact")
s("C01b",[(L+"tensor/loader.rs",('fn load_tensor_hdt(','    if shape != expected_shape {'),'    if shape.iter().product::<usize>() != expected_shape.iter().product::<usize>() {')],
 RG+HM+RUN+'''fn main() { let h = home(); let f = PluginRegistry::default_path().unwrap(); let mut r = PluginRegistry::new(); r.upsert(entry("p", "cpu", "", &[])); r.save(&f).unwrap(); put(&h, "p", SH); model();
 assert!(run("p", "a.hdt")); assert!(!run("p", "b.hdt")); }''',
 "an input file with the right number of elements in another shape","the model is run on a tensor it does not take")
IN=RG+HM+r'''use hodu_cli::commands::plugin::*; use std::process::Command;
// a package whose "cargo" only copies a file
fn package(d: &Path, v: &str, deps: &str) { std::fs::create_dir_all(d).unwrap(); std::fs::write(d.join("Cargo.toml"), "[package]\nname = \"pk\"\nversion = \"0.1.0\"\n").unwrap(); std::fs::write(d.join("exe"), v).unwrap();
 std::fs::write(d.join("manifest.json"), format!("{{\"name\":\"a\",\"version\":\"{v}\",\"capabilities\":[\"backend.run\"],\"dependencies\":[{deps}]}}")).unwrap(); }
fn tools() { use std::os::unix::fs::PermissionsExt; let b = std::env::current_dir().unwrap().join("bin"); std::fs::create_dir_all(&b).unwrap(); let c = b.join("cargo");
 std::fs::write(&c, "#!/bin/bash\nmkdir -p target/release target/debug; cp exe target/release/pk; cp exe target/debug/pk\n").unwrap(); std::fs::set_permissions(&c, std::fs::Permissions::from_mode(0o755)).unwrap();
 let t = std::env::current_dir().unwrap().join("tmp"); std::fs::create_dir_all(&t).unwrap(); std::env::set_var("TMPDIR", &t);
 for p in ["http_proxy", "https_proxy", "HTTPS_PROXY", "ALL_PROXY"] { std::env::set_var(p, "http://127.0.0.1:9"); }
 std::env::set_var("PATH", format!("{}:{}", b.display(), std::env::var("PATH").unwrap())); }
fn src(d: &Path) -> PluginSource { PluginSource::Local { path: d.canonicalize().unwrap().to_str().unwrap().into() } }
fn reg() -> PluginRegistry { PluginRegistry::load(&PluginRegistry::default_path().unwrap()).unwrap() }
fn git(d: &Path, a: &[&str]) { assert!(Command::new("git").args(["-c", "user.name=x", "-c", "user.email=x@x", "-c", "init.defaultBranch=main"]).args(a).current_dir(d).status().unwrap().success()); }
'''
s("C05a",[(L+"commands/plugin/install.rs",'''    if let Some(existing) = registry.find(&name) {
        if !force {''','''    if let Some(existing) = registry.find(&name) {
        if !force && existing.version == version {''')],
 IN+'''fn main() { let h = home(); tools(); let d = h.join("s"); package(&d, "1", ""); install_from_path(&d, false, false, src(&d)).unwrap(); package(&d, "2", "");
 assert!(install_from_path(&d, false, false, src(&d)).is_err()); assert_eq!(reg().find("a").unwrap().version, "1"); assert_eq!(std::fs::read(h.join(".hodu/plugins/a/pk")).unwrap(), b"1"); }''',
 "an install without --force over another version of the plugin","the installed plugin is replaced by a command that should fail")
s("C05b",[(L+"commands/plugin/update.rs","install_from_git(url, subdir.as_deref(), tag.as_deref(), false, true)?;","install_from_git(url, subdir.as_deref(), None, false, true)?;")],
 IN+'''fn main() { let h = home(); tools(); let d = h.join("s"); package(&d, "1", ""); git(&d, &["init", "-q"]); git(&d, &["add", "-A"]); git(&d, &["commit", "-q", "-m", "r"]); git(&d, &["tag", "v1"]);
 package(&d, "2", ""); git(&d, &["add", "-A"]); git(&d, &["commit", "-q", "-m", "r"]);
 install_from_git(d.to_str().unwrap(), None, Some("v1"), false, false).unwrap(); assert_eq!(reg().find("a").unwrap().version, "1");
 update_plugins(Some("a")).unwrap(); assert_eq!(reg().find("a").unwrap().version, "1"); assert!(matches!(&reg().find("a").unwrap().source, PluginSource::Git { tag: Some(t), .. } if t == "v1")); }''',
 "an update of a plugin installed from a tag of a git repository whose main branch has moved on","the plugin is replaced by what the main branch holds")
s("C05c",[(L+"commands/plugin/install.rs","        enabled: true,","        enabled: registry.find(&name).is_none_or(|p| p.enabled),")],
 IN+'''fn main() { let h = home(); tools(); let d = h.join("s"); package(&d, "1", ""); install_from_path(&d, false, false, src(&d)).unwrap();
 let f = PluginRegistry::default_path().unwrap(); let mut r = reg(); r.disable("a"); r.save(&f).unwrap(); package(&d, "2", ""); install_from_path(&d, false, true, src(&d)).unwrap(); assert!(reg().find("a").unwrap().enabled); }''',
 "a forced install of a plugin that was disabled","the plugin stays disabled after a successful install")
s("C05d",[(L+"commands/plugin/update.rs",'''                let path_buf = PathBuf::from(path);
                if path_buf.exists() {''','''                let path_buf = PathBuf::from(path);
                if path_buf.exists() && registry.find(&plugin.name).is_some_and(|p| p.version == plugin.version && p.enabled) {''')],
 IN+'''fn main() { let h = home(); tools(); let d = h.join("s"); package(&d, "1", ""); install_from_path(&d, false, false, src(&d)).unwrap();
 let f = PluginRegistry::default_path().unwrap(); let mut r = reg(); r.disable("a"); r.save(&f).unwrap(); package(&d, "2", ""); update_plugins(None).unwrap(); assert_eq!(reg().find("a").unwrap().version, "2"); }''',
 "an update of a plugin that is disabled","the plugin is not updated")

BL=RG+HM+r'''use hodu_core::snapshot::*; use hodu_cli::commands::build::*;
fn builder(n: &str, dev: &str) -> PluginEntry { let mut e = entry(n, dev, "", &[]); e.capabilities.builder = Some(true); e }
fn args(out: &str, b: Option<&str>) -> BuildArgs { BuildArgs { model: Some("m.hdss".into()), output: Some(out.into()), target: None, device: "cpu".into(), backend: b.map(|s| s.into()), format: None, opt_level: 2, standalone: false, verbose: false, list_targets: false, timeout: None } }
fn model() { std::fs::write("m.hdss", Snapshot::new().to_bytes().unwrap()).unwrap(); }
const BS: &str = r#"#!/bin/bash
while read -r l; do id=${l##*'"id":'}; id=${id%%[,\}]*}; echo "$l" >> "$HOME/log"; case "$l" in *initialize*) r='{"name":"n","version":"1","protocol_version":"1.0.0","plugin_version":"x","capabilities":[]}';; *shutdown*) exit 0;; *) r='{}';; esac; echo '{"jsonrpc":"2.0","id":'"$id"',"result":'"$r"'}'; done
"#;
'''
s("C06a",[(L+"commands/build.rs",'''    for plugin in registry.backends() {
        if plugin.capabilities.builder == Some(true)''','''    for plugin in registry.all_backends() {
        if plugin.capabilities.builder == Some(true)''')],
 BL+'''fn main() { let h = home(); model(); let mut r = PluginRegistry::new(); let mut a = builder("a", "cpu"); a.enabled = false; r.upsert(a); r.upsert(builder("b", "cpu")); r.save(&PluginRegistry::default_path().unwrap()).unwrap();
 put(&h, "a", BS); put(&h, "b", BS); execute(args("o.so", None)).unwrap(); assert!(std::fs::read_to_string(h.join("log")).unwrap().contains("backend.build")); }''',
 "a disabled builder for the device ahead of an enabled one","the build fails because the disabled plugin is chosen")
s("C06b",[(L+"commands/build.rs",'''    let ext = output.extension().and_then(|e| e.to_str()).unwrap_or("");

    match ext {''','''    let name = output.file_name().and_then(|e| e.to_str()).unwrap_or("");

    match name.split_once('.').map_or("", |(_, ext)| ext) {''')],
 BL+'''fn main() { let h = home(); model(); let mut r = PluginRegistry::new(); r.upsert(builder("b", "cpu")); r.save(&PluginRegistry::default_path().unwrap()).unwrap();
 put(&h, "b", BS); execute(args("o.v1.a", None)).unwrap(); assert!(std::fs::read_to_string(h.join("log")).unwrap().contains("staticlib")); }''',
 "an output name with more than one dot","another kind of artifact is built")
s("C06c",[(L+"commands/build.rs",'''    // Try exact match first
    if let Some(plugin) = registry.find(name) {
        if plugin.capabilities.builder == Some(true) {
            return Ok(plugin);
        }
    }

    // Try with "aot-" prefix
    let prefixed = format!("aot-{}", name);
    if let Some(plugin) = registry.find(&prefixed) {
        if plugin.capabilities.builder == Some(true) {
            return Ok(plugin);
        }
    }
''','''    // Try exact match first, then with "aot-" prefix
    let prefixed = format!("aot-{}", name);
    if let Some(plugin) = registry.find(name).or_else(|| registry.find(&prefixed)) {
        if plugin.capabilities.builder == Some(true) {
            return Ok(plugin);
        }
    }
''')],
 BL+'''fn main() { let h = home(); model(); let mut r = PluginRegistry::new(); let mut x = builder("x", "cpu"); x.capabilities.builder = Some(false); r.upsert(x); r.upsert(builder("aot-x", "cpu")); r.save(&PluginRegistry::default_path().unwrap()).unwrap();
 put(&h, "x", BS); put(&h, "aot-x", BS); execute(args("o.so", Some("x"))).unwrap(); }''',
 "a plugin of the name that cannot build beside an aot- plugin that can","the build is refused")
