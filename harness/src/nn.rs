//! Losses and modules (N02, N03): what they compute and the gradients that flow back through them.
use crate::{grad, ops, replay::*, val::*};
use hodu_core::error::HoduResult;
use hodu_core::scalar::Scalar;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;
#[allow(unused_imports)]
use hodu_nn::{prelude::*, *};
use serde_json::{json, Value};

fn loss(t: &[&Tensor], p: &Value, d: DType) -> HoduResult<Tensor> {
    let c: Scalar = scalar_of(term(&p["c"], &[]), d);
    let dim = p["dim"].as_i64().unwrap_or(-1) as i32;
    match p["name"].as_str().unwrap() {
        "mse" => MSELoss::new().forward((t[0], t[1])),
        "mae" => MAELoss::new().forward((t[0], t[1])),
        "huber" => HuberLoss::new(c).forward((t[0], t[1])),
        "smooth_l1" => SmoothL1Loss::with_beta(c).forward((t[0], t[1])),
        "bce" if p["def"] == true => BCELoss::new().forward((t[0], t[1])),
        "bce" => BCELoss::with_epsilon(c).forward((t[0], t[1])),
        "bcel" => BCEWithLogitsLoss::new().forward((t[0], t[1])),
        "kl" => KLDivLoss::new().forward((t[0], t[1])),
        "kllog" => KLDivLoss::with_log_target(true).forward((t[0], t[1])),
        "ce" => CrossEntropyLoss::with_dim(dim).forward((t[0], t[1])),
        "nll" => NLLLoss::with_dim(dim).forward((t[0], t[1])),
        "cos" => CosineEmbeddingLoss::with_margin(c).forward((t[0], t[1], t[2])),
        n => panic!("harness: loss {n}"),
    }
}
/// alternately a scalar of the tensor's type and the plain f32 a caller writes
fn scalar_of(v: f64, d: DType) -> Scalar {
    match d {
        DType::F64 => Scalar::F32(v as f32),
        _ => Scalar::F32(v as f32),
    }
}

type Call = Box<dyn Fn(&[&Tensor], &Value) -> HoduResult<Vec<Tensor>>>;
/// a module: its parameters, what it does on a call, and which initial values its parameters promise
struct Built {
    params: Vec<Tensor>,
    call: Call,
    zero_row: Option<usize>,
}
macro_rules! plain {
    ($e:expr) => {{
        let m = $e;
        Built {
            params: m.parameters().into_iter().cloned().collect(),
            call: Box::new(move |t: &[&Tensor], _: &Value| Ok(vec![m.forward(t[0])?])),
            zero_row: None,
        }
    }};
}
fn build(p: &Value, leaf: &[&Tensor], d: DType) -> HoduResult<Built> {
    let u = |k: &str| p[k].as_u64().unwrap_or_else(|| panic!("harness: {k} in {p}")) as usize;
    let c = |k: &str| Scalar::F32(term(&p[k], &[]) as f32);
    let b = |k: &str| p[k].as_bool().unwrap();
    let dt = d;
    Ok(match p["name"].as_str().unwrap() {
        "linear" => plain!(Linear::new(u("in"), u("out"), b("bias"), dt)?),
        "conv" => match u("r") {
            1 => plain!(Conv1D::new(u("in"), u("out"), u("k"), u("stride"), u("pad"), u("dil"), b("bias"), dt)?),
            2 => plain!(Conv2D::new(u("in"), u("out"), u("k"), u("stride"), u("pad"), u("dil"), b("bias"), dt)?),
            _ => plain!(Conv3D::new(u("in"), u("out"), u("k"), u("stride"), u("pad"), u("dil"), b("bias"), dt)?),
        },
        "convt" => match u("r") {
            1 => plain!(ConvTranspose1D::new(u("in"), u("out"), u("k"), u("stride"), u("pad"), u("opad"), u("dil"), b("bias"), dt)?),
            2 => plain!(ConvTranspose2D::new(u("in"), u("out"), u("k"), u("stride"), u("pad"), u("opad"), u("dil"), b("bias"), dt)?),
            _ => plain!(ConvTranspose3D::new(u("in"), u("out"), u("k"), u("stride"), u("pad"), u("opad"), u("dil"), b("bias"), dt)?),
        },
        f @ ("avg" | "max") => match (f, u("r")) {
            ("avg", 1) => plain!(AvgPool1D::new(u("k"), u("stride"), u("pad"))),
            ("avg", 2) => plain!(AvgPool2D::new(u("k"), u("stride"), u("pad"))),
            ("avg", _) => plain!(AvgPool3D::new(u("k"), u("stride"), u("pad"))),
            (_, 1) => plain!(MaxPool1D::new(u("k"), u("stride"), u("pad"))),
            (_, 2) => plain!(MaxPool2D::new(u("k"), u("stride"), u("pad"))),
            (_, _) => plain!(MaxPool3D::new(u("k"), u("stride"), u("pad"))),
        },
        f @ ("adavg" | "admax" | "gavg" | "gmax" | "frac" | "fracr") => {
            let o = usz(&p["o"]);
            match (f, u("r")) {
                ("adavg", 1) => plain!(AdaptiveAvgPool1D::new(o[0])),
                ("adavg", 2) => plain!(AdaptiveAvgPool2D::new((o[0], o[1]))),
                ("adavg", _) => plain!(AdaptiveAvgPool3D::new((o[0], o[1], o[2]))),
                ("admax", 1) => plain!(AdaptiveMaxPool1D::new(o[0])),
                ("admax", 2) => plain!(AdaptiveMaxPool2D::new((o[0], o[1]))),
                ("admax", _) => plain!(AdaptiveMaxPool3D::new((o[0], o[1], o[2]))),
                ("gavg", 1) => plain!(GlobalAvgPool1D::new()),
                ("gavg", 2) => plain!(GlobalAvgPool2D::new()),
                ("gavg", _) => plain!(GlobalAvgPool3D::new()),
                ("gmax", 1) => plain!(GlobalMaxPool1D::new()),
                ("gmax", 2) => plain!(GlobalMaxPool2D::new()),
                ("gmax", _) => plain!(GlobalMaxPool3D::new()),
                ("frac", 2) => plain!(FractionalMaxPool2D::with_output_size((o[0], o[1]))),
                ("frac", _) => plain!(FractionalMaxPool3D::with_output_size((o[0], o[1], o[2]))),
                (_, 2) => plain!(FractionalMaxPool2D::with_output_ratio((0.5, 0.5))),
                (_, _) => plain!(FractionalMaxPool3D::with_output_ratio((0.5, 0.5, 0.5))),
            }
        },
        "relu" => plain!(ReLU::new()),
        "sigmoid" => plain!(Sigmoid::new()),
        "tanh" => plain!(Tanh::new()),
        "gelu" => plain!(Gelu::new()),
        "softplus" => plain!(Softplus::new()),
        "silu" => plain!(SiLU::new()),
        "swish" => plain!(Swish::new()),
        "mish" => plain!(Mish::new()),
        "leaky_relu" => plain!(LeakyReLU::new(c("c"))),
        "elu" => plain!(ELU::new(c("c"))),
        "prelu" => plain!(PReLU::new(c("c"))),
        "rrelu" => plain!(RReLU::new(c("c"), c("c2"))),
        "dropout" => plain!(Dropout::new(c("c"))),
        "ln" => plain!(LayerNorm::new(usz(&p["shape"]), c("eps"), b("affine"), dt)?),
        "gn" => plain!(GroupNorm::new(u("groups"), usz(&p["shape"])[0], c("eps"), b("affine"), dt)?),
        "in1" => plain!(InstanceNorm1D::new(usz(&p["shape"])[0], c("eps"), b("affine"), dt)?),
        "in2" => plain!(InstanceNorm2D::new(usz(&p["shape"])[0], c("eps"), b("affine"), dt)?),
        "in3" => plain!(InstanceNorm3D::new(usz(&p["shape"])[0], c("eps"), b("affine"), dt)?),
        "rms" => plain!(RMSNorm::new(usz(&p["shape"]), c("eps"), dt)?),
        "bn" => match u("d") {
            1 | 2 => plain!(BatchNorm1D::new(u("c"), c("eps"), c("momentum"), b("affine"), dt)?),
            3 => plain!(BatchNorm2D::new(u("c"), c("eps"), c("momentum"), b("affine"), dt)?),
            _ => plain!(BatchNorm3D::new(u("c"), c("eps"), c("momentum"), b("affine"), dt)?),
        },
        "embed" => {
            let pad = p["padding"].as_i64().unwrap();
            let pad = (pad >= 0).then_some(pad as usize);
            let mn = term(&p["maxnorm"], &[]) as f32;
            let mut m = match u("how") {
                1 => plain!(Embedding::new(u("num"), u("dim"), pad, (mn > 0.0).then_some(mn), u("normtype") as f32, dt)?),
                h => {
                    let t = make(leaf[0].shape().dims(), &read(leaf[0]).expect("harness: leaf"), d)?;
                    plain!(Embedding::from_pretrained(t, h == 3)?)
                },
            };
            m.zero_row = pad;
            m
        },
        "rnn" | "lstm" | "gru" => recurrent(p, dt)?,
        "sdpa" => Built {
            params: vec![],
            zero_row: None,
            call: Box::new(|t, p| Ok(vec![scaled_dot_product_attention(t[0], t[1], t[2], p["mask"].as_bool().unwrap().then(|| t[3]), 0.0, p["causal"] == true)?])),
        },
        // one key per query: the weights are 1, and dropping them is dropping the value
        "attdrop" => {
            let p = term(&p["c"], &[]);
            Built {
                params: vec![],
                zero_row: None,
                call: Box::new(move |t, _| {
                    let (n, sh) = (t[0].size(), t[0].shape());
                    let z = Tensor::zeros([n, 1, 1], t[0].dtype())?;
                    Ok(vec![scaled_dot_product_attention(&z, &z, &t[0].reshape([n, 1, 1])?, None, p, false)?.reshape(sh)?])
                }),
            }
        },
        "mha" => {
            let (e, k, v) = (u("embed"), u("kdim"), u("vdim"));
            let m = MultiheadAttention::new(e, u("heads"), 0.0, b("bias"), (k != e).then_some(k), (v != e).then_some(v), dt)?;
            let shape_ok = (m.embed_dim(), m.num_heads(), m.head_dim()) == (e, u("heads"), e / u("heads"));
            assert!(shape_ok, "reported dimensions");
            Built {
                params: m.parameters().into_iter().cloned().collect(),
                zero_row: None,
                call: Box::new(move |t, p| {
                    let (mask, causal) = (p["mask"] == true, p["causal"] == true);
                    let n = if p["f"] == "self" { 1 } else { 3 };
                    let m_ = mask.then(|| t[n]);
                    Ok(vec![match n {
                        1 if !mask && !causal => m.forward(t[0])?,
                        1 => m.forward_self_attn(t[0], m_, causal)?,
                        _ => m.forward_qkv(t[0], t[1], t[2], m_, causal)?,
                    }])
                }),
            }
        },
        n => panic!("harness: module {n}"),
    })
}
fn recurrent(p: &Value, d: DType) -> HoduResult<Built> {
    let u = |k: &str| p[k].as_u64().unwrap() as usize;
    let (i, h, l, bias, bf, cell) = (u("in"), u("hidden"), u("layers"), p["bias"] == true, p["bf"] == true, p["cell"] == true);
    let non = || if p["non"] == "relu" { Nonlinearity::ReLU } else { Nonlinearity::Tanh };
    macro_rules! made {
        ($m:expr, $t:ident, $p:ident, $call:expr) => {{
            let m = $m;
            Built { params: m.parameters().into_iter().cloned().collect(), zero_row: None, call: Box::new(move |$t: &[&Tensor], $p: &Value| $call(&m, $t, $p)) }
        }};
    }
    let whole = |p: &Value| p["f"] == "forward";
    Ok(match (p["name"].as_str().unwrap(), cell) {
        ("rnn", true) => made!(RNNCell::new(i, h, bias, non(), d)?, t, p, |m: &RNNCell, t: &[&Tensor], _: &Value| Ok(vec![m.forward_step(t[0], t[1])?])),
        ("gru", true) => made!(GRUCell::new(i, h, bias, d)?, t, p, |m: &GRUCell, t: &[&Tensor], _: &Value| Ok(vec![m.forward_step(t[0], t[1])?])),
        (_, true) => made!(LSTMCell::new(i, h, bias, d)?, t, p, |m: &LSTMCell, t: &[&Tensor], _: &Value| {
            let (a, b) = m.forward_step(t[0], t[1], t[2])?;
            Ok(vec![a, b])
        }),
        ("rnn", _) => made!(RNN::new(i, h, l, bias, bf, non(), d)?, t, p, |m: &RNN, t: &[&Tensor], p: &Value| {
            if whole(p) {
                return Ok(vec![m.forward(t[0])?]);
            }
            let (a, b) = m.forward_with_state(t[0], t.get(1).copied())?;
            Ok(vec![a, b])
        }),
        ("gru", _) => made!(GRU::new(i, h, l, bias, bf, d)?, t, p, |m: &GRU, t: &[&Tensor], p: &Value| {
            if whole(p) {
                return Ok(vec![m.forward(t[0])?]);
            }
            let (a, b) = m.forward_with_state(t[0], t.get(1).copied())?;
            Ok(vec![a, b])
        }),
        _ => made!(LSTM::new(i, h, l, bias, bf, d)?, t, p, |m: &LSTM, t: &[&Tensor], p: &Value| {
            if whole(p) {
                return Ok(vec![m.forward(t[0])?]);
            }
            let (a, b, c) = m.forward_with_state(t[0], t.get(1).copied(), t.get(2).copied())?;
            Ok(vec![a, b, c])
        }),
    })
}
/// builds the module, checks what it says of its parameters and gives them the values of the leaves
fn install(m: &Built, p: &Value, leaf: &[&Tensor], d: DType) -> HoduResult<Vec<Tensor>> {
    assert!(m.params.len() == leaf.len(), "{} parameters, expected {}", m.params.len(), leaf.len());
    let frozen = p["how"] == 3;
    for (i, (t, l)) in m.params.iter().zip(leaf).enumerate() {
        assert!(t.shape() == l.shape() && t.dtype() == d, "parameter {i}: {:?} {:?}, expected {:?}", t.shape().dims(), t.dtype(), l.shape().dims());
        assert!(t.is_requires_grad() != frozen, "parameter {i}: requires_grad {}", t.is_requires_grad());
        let v = read(t).expect("parameter values");
        assert!(v.iter().all(|x| x.is_finite()), "parameter {i} starts at {v:?}");
        if let Some(x) = p["init"].get(i) {
            assert!(v.iter().all(|y| y == &x.as_f64().unwrap()), "parameter {i} starts at {v:?}, expected {x}");
        }
        if let Some(r) = m.zero_row {
            let n = t.shape().dims()[1];
            assert!(v[r * n..(r + 1) * n].iter().all(|x| *x == 0.0), "padding row starts at {v:?}");
        }
        if p["how"].is_null() || p["how"] == 1 {
            t.set_(l)?;
        }
    }
    Ok(m.params.clone())
}
/// a call in training mode whose result depends on chance: every element takes one of the values the
/// specification allows, its gradient is the slope that goes with it, and the share of dropped elements is as asked
fn chance(case: &Value, d: DType) -> Result<(), (String, Value, Value)> {
    let st = case["steps"].as_array().unwrap();
    let (cfg, call) = (st.iter().find(|s| s["op"] == "build").unwrap(), st.last().unwrap());
    let m = build(&cfg["p"], &[], d).expect("module");
    let x: Vec<f64> = case["vals"].as_array().unwrap().iter().map(|t| term(t, &[])).collect();
    let l = &case["leaves"][0];
    let leaf = make(&usz(&l["s"]), &l["d"].as_array().unwrap().iter().map(|t| term(t, &x)).collect::<Vec<_>>(), d).unwrap();
    leaf.requires_grad().unwrap();
    let mut env = vec![leaf.clone()];
    for s in st.iter().filter(|s| s["op"] != "build" && s["op"] != "call") {
        let ins: Vec<&Tensor> = s["in"].as_array().unwrap().iter().map(|x| &env[x.as_u64().unwrap() as usize]).collect();
        let r = ops::apply(s["op"].as_str().unwrap(), &ins, &s["p"]).expect("view");
        env.extend(r);
    }
    let input = &env[call["in"][0].as_u64().unwrap() as usize];
    hodu_nn::train!();
    let y = match guarded(|| (m.call)(&[input], &call["p"])) {
        Ok(Ok(v)) => v[0].clone(),
        r => return Err(("forward".into(), json!("value"), json!(format!("{r:?}")))),
    };
    if y.shape() != input.shape() || y.dtype() != d {
        return Err(("shape or type".into(), json!(input.shape().dims()), json!([y.shape().dims(), dname(y.dtype())])));
    }
    let out = read(&y).expect("output");
    let w: Vec<f64> = case["loss"][0]["w"].as_array().unwrap().iter().map(|v| v.as_f64().unwrap()).collect();
    match guarded(|| y.mul(&make(y.shape().dims(), &w, d)?)?.backward()) {
        Ok(Ok(())) => {},
        r => return Err(("backward".into(), json!("gradients"), json!(format!("{r:?}")))),
    }
    let g = match guarded(|| leaf.grad()) {
        Ok(Ok(g)) => read(&g).expect("gradient"),
        r => return Err(("gradient".into(), json!("gradient"), json!(format!("{r:?}")))),
    };
    // where each leaf element ends up in the input: the values are those of the leaf, each used at most once
    let (rel, abs) = if d == DType::F64 { (1e-6, 1e-7) } else { (1e-5, 1e-6) };
    let within = |v: f64, lo: f64, hi: f64| v >= lo - rel * lo.abs() - abs && v <= hi + rel * hi.abs() + abs;
    let tag = |t: &Value| term(t, &x);
    let mut zero = 0;
    let src: Vec<Option<usize>> = call["outs"][0]["d"].as_array().unwrap().iter().map(|t| (t[0] == "v").then(|| t[1].as_u64().unwrap() as usize)).collect();
    for (k, a) in case["alts"].as_array().unwrap().iter().enumerate() {
        let slope = src[k].map(|j| g[j] / w[k]);
        let ok = a.as_array().unwrap().iter().any(|a| within(out[k], tag(&a["lo"]), tag(&a["hi"])) && slope.is_none_or(|s| within(s, tag(&a["glo"]), tag(&a["ghi"]))));
        if !ok {
            return Err(("value or slope".into(), json!([k, a]), json!([out[k], slope])));
        }
        zero += (out[k] == 0.0) as usize;
    }
    let p = term(&case["share"], &[]);
    let n = out.len() as f64;
    if p >= 0.0 && n >= 1000.0 && (zero as f64 - p * n).abs() > 7.0 * (p * (1.0 - p) * n).sqrt() + 0.5 {
        return Err(("share dropped".into(), json!(p * n), json!(zero)));
    }
    Ok(())
}

pub fn main(a: &[String]) {
    drive(a, |case, idx| {
        let steps = case["steps"].as_array().unwrap();
        let named = steps.iter().find(|s| s["p"]["name"].is_string()).or(steps.last()).unwrap();
        let op = if named["p"]["name"].is_string() { named["p"]["name"].clone() } else { named["op"].clone() };
        let d = [DType::F32, DType::F64][idx % 2];
        let mut module: Option<Built> = None;
        let mut ap = |op: &str, ins: &[&Tensor], p: &Value| -> HoduResult<Vec<Tensor>> {
            match op {
                "loss" => loss(ins, p, d).map(|t| vec![t]),
                "build" => {
                    let m = build(p, ins, d)?;
                    let r = install(&m, p, ins, d);
                    module = Some(m);
                    r
                },
                "call" => {
                    if p["mode"] == "e" {
                        hodu_nn::eval!();
                    } else {
                        hodu_nn::train!();
                    }
                    (module.as_ref().unwrap().call)(ins, p)
                },
                _ => ops::apply(op, ins, p),
            }
        };
        let r = if case["alts"].is_array() { chance(case, d) } else { grad::run_with(case, d, &mut ap) };
        match r {
            Ok(()) => vec![],
            Err((k, w, g)) => vec![json!({"op": op, "dt": dname(d), "kind": k, "exp": w, "got": g})],
        }
    })
}
