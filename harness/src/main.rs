mod admin;
mod capture;
mod cli {
    // the program itself
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/hodu-cli/src/main.rs"));
    pub fn run() {
        main()
    }
}
mod data;
mod cmds;
mod format;
mod grad;
mod install;
mod manager;
mod nn;
mod ops;
mod life;
mod optim;
mod replay;
mod rpc;
mod sched;
mod store;
mod val;

fn main() {
    if std::env::var("HV_CLI").is_ok() {
        return cli::run();
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if m.starts_with("harness:") || std::env::var("HV_PANICS").is_ok() {
            eprintln!("{i}");
        }
        if m.starts_with("harness:") {
            std::process::exit(2);
        }
    }));
    match a[0].as_str() {
        "replay" => replay::main(&a[1..]),
        "data" => data::main(&a[1..]),
        "nn" => nn::main(&a[1..]),
        "grad" => grad::main(&a[1..]),
        "life" => life::main(&a[1..]),
        "format" => replay::drive(&a[1..], format::case),
        "plugin-server" => rpc::server(),
        "plugin-peer" => rpc::peer(&a[1..]),
        "store" => store::run(&a[1..]),
        "store-proc" => store::process(&a[1..]),
        "manager" => replay::drive(&a[1..], manager::case),
        "manager-run" => manager::run(&a[1..]),
        "plugin-run" => manager::plugin(&a[1..]),
        "plugin-cli" => cmds::plugin(&a[1..]),
        "build" => replay::drive(&a[1..], cmds::build),
        "install" => replay::drive(&a[1..], install::case),
        "clean" => replay::drive(&a[1..], cmds::clean),
        "convert" => replay::drive(&a[1..], cmds::convert),
        "run" => replay::drive(&a[1..], cmds::run),
        "admin" => replay::drive(&a[1..], admin::case),
        "server" => replay::drive(&a[1..], rpc::server_case),
        "client" => replay::drive(&a[1..], rpc::client_case),
        "capture" => capture::sessions(&a[1..]),
        "dataset" => replay::drive(&a[1..], |case, _| match data::dataset(case) {
            Ok(()) => vec![],
            Err((k, w, g)) => vec![serde_json::json!({"op": "dataset", "kind": k, "exp": w, "got": g})],
        }),
        "optim" => replay::drive(&a[1..], |case, idx| match optim::run(case, idx) {
            Ok(()) => vec![],
            Err((k, w, g, at)) => vec![serde_json::json!({"op": k, "kind": k, "step": at, "exp": w, "got": g})],
        }),
        c => {
            eprintln!("unknown command {c}");
            std::process::exit(2);
        },
    }
}
