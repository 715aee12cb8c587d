//! S01: programs run under capture, and an evaluator of the snapshots they leave.
//! The evaluator knows a snapshot only by its data: a node reads its inputs from the buffers of the
//! tensors it names, through its input layouts; a view gives another layout to the buffer it reads;
//! everything else fills a dense buffer of its own.
use crate::ops::apply;
use crate::replay::*;
use crate::val::*;
use hodu_core::error::HoduResult;
use hodu_core::ops::*;
use hodu_core::snapshot::{capture, CaptureBoard, Snapshot, SnapshotNode};
use hodu_core::tensor::Tensor;
use hodu_core::types::{DType, Layout};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
struct Buf {
    data: Rc<Vec<f64>>,
    layout: Layout,
    dt: DType,
}

fn dense(shape: &[usize]) -> Layout {
    Layout::from_shape(&hodu_core::types::Shape::from(shape.to_vec()))
}
fn gather(data: &[f64], l: &Layout) -> Result<Vec<f64>, String> {
    let dims = l.shape().dims().to_vec();
    let n: usize = dims.iter().product();
    let mut out = Vec::with_capacity(n);
    for k in 0..n {
        let (mut r, mut o) = (k, l.offset());
        for j in (0..dims.len()).rev() {
            o += (r % dims[j]) * l.strides()[j];
            r /= dims[j];
        }
        out.push(*data.get(o).ok_or(format!("layout reaches element {o} of {}", data.len()))?);
    }
    Ok(out)
}

fn op_on(node: &SnapshotNode, t: &[&Tensor]) -> HoduResult<Tensor> {
    use OpParams as P;
    let x = t[0];
    let is = |d: &Vec<hodu_core::scalar::Scalar>| -> Vec<i32> { d.iter().map(|s| s.to_i32()).collect() };
    let us = |d: &Vec<hodu_core::scalar::Scalar>| -> Vec<usize> { d.iter().map(|s| s.to_i64() as usize).collect() };
    let named = |n: String| apply(&n, t, &json!({})).map(|mut v| v.remove(0));
    let par = node.params.as_ref();
    let out = node.output_layout.shape().dims().to_vec();
    match (&node.op, par) {
        (Op::Binary(o), _) => named(o.to_string()),
        (Op::BinaryLogical(o), _) => named(o.to_string()),
        (Op::BitwiseBinary(o), _) => named(o.to_string()),
        (Op::BitwiseUnary(o), _) => named(o.to_string()),
        (Op::Cmp(o), _) => named(o.to_string()),
        (Op::Unary(o), _) => named(o.to_string()),
        (Op::UnaryLogical(o), _) => named(o.to_string()),
        (Op::BitwiseUnaryScalar(o), Some(P::BitwiseUnaryScalar(p))) => match o {
            BitwiseUnaryScalarOp::ShlScalar => x.shl_scalar(p.shift),
            BitwiseUnaryScalarOp::ShrScalar => x.shr_scalar(p.shift),
        },
        (Op::CmpScalar(o), Some(P::CmpScalar(p))) => match o {
            CmpScalarOp::EqScalar => x.eq_scalar(p.scalar),
            CmpScalarOp::NeScalar => x.ne_scalar(p.scalar),
            CmpScalarOp::LtScalar => x.lt_scalar(p.scalar),
            CmpScalarOp::LeScalar => x.le_scalar(p.scalar),
            CmpScalarOp::GtScalar => x.gt_scalar(p.scalar),
            CmpScalarOp::GeScalar => x.ge_scalar(p.scalar),
        },
        (Op::UnaryScalar(o), Some(P::UnaryScalar(p))) => match o {
            UnaryScalarOp::AddScalar => x.add_scalar(p.scalar),
            UnaryScalarOp::SubScalar => x.sub_scalar(p.scalar),
            UnaryScalarOp::MulScalar => x.mul_scalar(p.scalar),
            UnaryScalarOp::DivScalar => x.div_scalar(p.scalar),
            UnaryScalarOp::RemScalar => x.rem_scalar(p.scalar),
            UnaryScalarOp::PowScalar => x.pow_scalar(p.scalar),
            UnaryScalarOp::MaximumScalar => x.maximum_scalar(p.scalar),
            UnaryScalarOp::MinimumScalar => x.minimum_scalar(p.scalar),
            UnaryScalarOp::LeakyRelu => x.leaky_relu(p.scalar),
            UnaryScalarOp::Elu => x.elu(p.scalar),
            UnaryScalarOp::Prelu => x.prelu(p.scalar),
        },
        (Op::Matrix(MatrixOp::Matmul), _) => x.matmul(t[1]),
        (Op::Matrix(MatrixOp::Dot), _) => x.dot(t[1]),
        (Op::Linalg(LinalgOp::Det), _) => x.det(),
        (Op::Linalg(LinalgOp::Inv), _) => x.inv(),
        (Op::Linalg(LinalgOp::Trace), _) => x.trace(),
        (Op::Reduce(o), Some(P::Reduce(p))) => {
            let n = match o {
                ReduceOp::Norm => "l2_norm".to_string(),
                o => o.to_string().replace('_', "").replace("logsumexp", "logsumexp"),
            };
            apply(&n, t, &json!({"dims": is(&p.dims), "keep": p.keep_dim})).map(|mut v| v.remove(0))
        },
        (Op::Concat(_), Some(P::Concat(p))) => Tensor::concat(t, p.dim),
        (Op::Split(_), Some(P::Split(p))) => x.split(&us(&p.sizes), p.dim).map(|mut v| v.remove(p.output_index)),
        (Op::Indexing(IndexingOp::IndexSelect), Some(P::IndexSelect(p))) => x.index_select(p.dim, t[1]),
        (Op::Indexing(IndexingOp::IndexPut), Some(P::IndexPut(p))) => x.index_put(p.dim, t[2], t[1]),
        (Op::Indexing(IndexingOp::Gather), Some(P::Gather(p))) => x.gather(p.dim, t[1]),
        (Op::Indexing(IndexingOp::Scatter), Some(P::Scatter(p))) => x.scatter(p.dim, t[2], t[1]),
        (Op::Indexing(IndexingOp::ScatterAdd), Some(P::ScatterAdd(p))) => x.scatter_add(p.dim, t[2], t[1]),
        (Op::Indexing(IndexingOp::ScatterMax), Some(P::ScatterMax(p))) => x.scatter_max(p.dim, t[2], t[1]),
        (Op::Indexing(IndexingOp::ScatterMin), Some(P::ScatterMin(p))) => x.scatter_min(p.dim, t[2], t[1]),
        (Op::Indexing(IndexingOp::Onehot), Some(P::Onehoto(p))) => x.onehot(p.num_classes, p.axis, p.dtype),
        (Op::Indexing(IndexingOp::Nonzero), _) => x.nonzero(),
        (Op::Indexing(IndexingOp::Unique), Some(P::Unique(p))) => x.unique().map(|(v, i, c)| {
            if node.output_id.0 == p.inverse_id.as_usize() { i } else if node.output_id.0 == p.counts_id.as_usize() { c } else { v }
        }),
        (Op::Indexing(IndexingOp::Compress), Some(P::Compress(p))) => x.compress(t[1], p.axis.map(|a| a.to_i32())),
        (Op::Conv(_), Some(P::Conv1d(p))) => x.conv1d(t[1], p.stride, p.padding, p.dilation),
        (Op::Conv(_), Some(P::Conv2d(p))) => x.conv2d(t[1], p.stride, p.padding, p.dilation),
        (Op::Conv(_), Some(P::Conv3d(p))) => x.conv3d(t[1], p.stride, p.padding, p.dilation),
        (Op::Conv(_), Some(P::ConvTranspose1d(p))) => x.conv_transpose1d(t[1], p.stride, p.padding, p.output_padding, p.dilation),
        (Op::Conv(_), Some(P::ConvTranspose2d(p))) => x.conv_transpose2d(t[1], p.stride, p.padding, p.output_padding, p.dilation),
        (Op::Conv(_), Some(P::ConvTranspose3d(p))) => x.conv_transpose3d(t[1], p.stride, p.padding, p.output_padding, p.dilation),
        (Op::Conv(_), Some(P::Conv1dGradWeight(p))) => x.conv1d_grad_weight(t[1], &out, p.stride, p.padding, p.dilation),
        (Op::Conv(_), Some(P::Conv2dGradWeight(p))) => x.conv2d_grad_weight(t[1], &out, p.stride, p.padding, p.dilation),
        (Op::Conv(_), Some(P::Conv3dGradWeight(p))) => x.conv3d_grad_weight(t[1], &out, p.stride, p.padding, p.dilation),
        (Op::Conv(_), Some(P::ConvTranspose1dGradWeight(p))) => x.conv_transpose1d_grad_weight(t[1], &out, p.stride, p.padding, p.dilation),
        (Op::Conv(_), Some(P::ConvTranspose2dGradWeight(p))) => x.conv_transpose2d_grad_weight(t[1], &out, p.stride, p.padding, p.dilation),
        (Op::Conv(_), Some(P::ConvTranspose3dGradWeight(p))) => x.conv_transpose3d_grad_weight(t[1], &out, p.stride, p.padding, p.dilation),
        (Op::Windowing(o), Some(P::ReduceWindow(p))) => {
            let r = match o {
                WindowingOp::ReduceWindowMax => "max",
                WindowingOp::ReduceWindowMean => "mean",
                WindowingOp::ReduceWindowSum => "sum",
                WindowingOp::ReduceWindowMin => "min",
            };
            x.reduce_window(p.window_shape.clone(), p.strides.clone(), &p.padding, r)
        },
        (Op::Padding(o), Some(P::Padding(p))) => match o {
            PaddingOp::PadConstant => x.pad_constant(&p.padding, p.pad_value),
            PaddingOp::PadReflect => x.pad_reflect(&p.padding),
            PaddingOp::PadReplicate => x.pad_replicate(&p.padding),
            PaddingOp::PadCircular => x.pad_circular(&p.padding),
        },
        (Op::Scan(_), Some(P::Scan(p))) => x.cumsum(p.dim as i32),
        (Op::Sort(_), Some(P::TopK(p))) => {
            x.topk(p.k, p.dim, p.largest, p.sorted).map(|(v, i)| if node.output_id.0 == p.indices_id.as_usize() { i } else { v })
        },
        (Op::Einsum(_), Some(P::Einsum(p))) => Tensor::einsum(&p.equation, t),
        (Op::Resize(_), Some(P::Resize(p))) => {
            let m = match p.mode {
                ResizeMode::Nearest => "nearest",
                ResizeMode::Linear => if x.ndim() == 4 { "bilinear" } else { "trilinear" },
                ResizeMode::Cubic => "bicubic",
            };
            let c = match p.coord_transform {
                ResizeCoordTransform::HalfPixel => "half_pixel",
                ResizeCoordTransform::Asymmetric => "asymmetric",
                ResizeCoordTransform::AlignCorners => "align_corners",
                ResizeCoordTransform::PytorchHalfPixel => "pytorch_half_pixel",
            };
            let n = match p.nearest_mode {
                ResizeNearestMode::Floor => "floor",
                ResizeNearestMode::Ceil => "ceil",
                ResizeNearestMode::RoundPreferFloor => "round_prefer_floor",
                ResizeNearestMode::RoundPreferCeil => "round_prefer_ceil",
            };
            x.resize(&p.output_size, m, c, n)
        },
        (Op::ShapeMemory(_), Some(P::Flip(p))) => x.flip(&p.dims.iter().map(|d| *d as i32).collect::<Vec<_>>()),
        (Op::Cast(_), Some(P::ToDType(p))) => x.to_dtype(p.dtype),
        (Op::Memory(_), _) => Ok(x.clone()),
        (o, p) => Err(hodu_core::error::HoduError::InternalError(format!("node {o:?} with parameters {p:?}"))),
    }
}

fn is_dynamic(op: &Op) -> bool {
    matches!(op, Op::Indexing(IndexingOp::Nonzero | IndexingOp::Unique | IndexingOp::Compress))
}

/// shape and use of ids: what every snapshot has to satisfy
pub fn check_form(s: &Snapshot) -> Result<(), String> {
    let mut known = HashSet::new();
    for i in &s.inputs {
        if !known.insert(i.id.0) {
            return Err(format!("id {} defined twice", i.id.0));
        }
    }
    for c in &s.constants {
        if !known.insert(c.id.0) {
            return Err(format!("id {} defined twice", c.id.0));
        }
        let want = c.shape.size() * c.dtype.size_in_bytes();
        if c.data.len() != want {
            return Err(format!("constant of {} bytes instead of {want}", c.data.len()));
        }
    }
    for n in &s.nodes {
        if n.input_ids.len() != n.input_layouts.len() {
            return Err(format!("{:?}: {} inputs with {} layouts", n.op, n.input_ids.len(), n.input_layouts.len()));
        }
        for i in &n.input_ids {
            if !known.contains(&i.0) {
                return Err(format!("{:?} uses id {} before it is defined", n.op, i.0));
            }
        }
        if !known.insert(n.output_id.0) {
            return Err(format!("id {} defined twice", n.output_id.0));
        }
    }
    for t in &s.targets {
        if !known.contains(&t.id.0) {
            return Err(format!("target {} is not defined", t.name));
        }
    }
    let mut needed: HashSet<usize> = s.targets.iter().map(|t| t.id.0).collect();
    for n in s.nodes.iter().rev() {
        if !needed.contains(&n.output_id.0) {
            return Err(format!("{:?} is needed for no target", n.op));
        }
        needed.extend(n.input_ids.iter().map(|i| i.0));
    }
    if let Some(c) = s.constants.iter().find(|c| !needed.contains(&c.id.0)) {
        return Err(format!("constant {} is needed for no target", c.id.0));
    }
    Ok(())
}

/// values of the targets for the given inputs
pub fn evaluate(s: &Snapshot, inputs: &HashMap<String, Vec<f64>>) -> Result<Vec<(Vec<usize>, DType, Vec<f64>)>, String> {
    let mut env: HashMap<usize, Buf> = HashMap::new();
    for i in &s.inputs {
        env.insert(i.id.0, Buf { data: Rc::new(inputs[&i.name].clone()), layout: dense(i.shape.dims()), dt: i.dtype });
    }
    for c in &s.constants {
        env.insert(c.id.0, Buf { data: Rc::new(read_bytes(&c.data, c.dtype)), layout: dense(c.shape.dims()), dt: c.dtype });
    }
    for n in &s.nodes {
        let view = matches!(n.op, Op::Shape(_) | Op::ShapeScalars(_));
        let buf = if view {
            let src = &env[&n.input_ids[0].0];
            gather(&src.data, &n.output_layout).map_err(|e| format!("{:?}: {e}", n.op))?;
            Buf { data: src.data.clone(), layout: n.output_layout.clone(), dt: src.dt }
        } else {
            let mut ts = vec![];
            for (i, l) in n.input_ids.iter().zip(&n.input_layouts) {
                let b = &env[&i.0];
                let v = gather(&b.data, l).map_err(|e| format!("{:?}: {e}", n.op))?;
                ts.push(make(l.shape().dims(), &v, b.dt).map_err(|e| e.to_string())?);
            }
            let refs: Vec<&Tensor> = ts.iter().collect();
            let t = op_on(n, &refs).map_err(|e| format!("{:?}: {e}", n.op))?;
            let sh = t.shape().dims().to_vec();
            let v = read(&t).map_err(|e| e.to_string())?;
            if is_dynamic(&n.op) {
                let most = n.output_layout.shape().dims().to_vec();
                if most.len() != sh.len() || most.iter().zip(&sh).any(|(m, s)| m < s) {
                    return Err(format!("{:?}: room for {most:?}, result {sh:?}", n.op));
                }
            } else if n.output_layout != dense(&sh) {
                return Err(format!("{:?}: result of shape {sh:?} declared as {:?}", n.op, n.output_layout));
            }
            Buf { data: Rc::new(v), layout: dense(&sh), dt: t.dtype() }
        };
        if buf.dt != n.output_dtype {
            return Err(format!("{:?}: result is {} declared {}", n.op, dname(buf.dt), dname(n.output_dtype)));
        }
        env.insert(n.output_id.0, buf);
    }
    s.targets
        .iter()
        .map(|t| {
            let b = &env[&t.id.0];
            Ok((b.layout.shape().dims().to_vec(), b.dt, gather(&b.data, &b.layout)?))
        })
        .collect()
}

static NAMES: [&str; 8] = ["x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"];

/// one case of the tensor specification, run under capture
pub fn run_case(case: &Value, d: DType, tol: f64, idx: usize, mode: &str) -> Result<Option<Value>, ()> {
    let (leaves, outs, tol, abs) = prepare(case, d, tol)?;
    let steps = case["steps"].as_array().unwrap();
    let mut n = leaves.len();
    let mut dynamic = HashSet::new();
    for (k, st) in steps.iter().enumerate() {
        let last = [json!(n - 1)];
        let ins = st["in"].as_array().map(|a| a.as_slice()).unwrap_or(&last);
        if ins.iter().any(|i| dynamic.contains(&(i.as_u64().unwrap() as usize))) {
            return Err(()); // the eager shape of a data-dependent result is not known under capture
        }
        for _ in &outs[k] {
            if matches!(st["op"].as_str(), Some("nonzero" | "unique" | "compress")) {
                dynamic.insert(n);
            }
            n += 1;
        }
        if st["err"] == true {
            return Err(());
        }
    }
    let h = |k: usize| (idx.wrapping_mul(2654435761) >> (5 + k)) % 2 == 0;
    let fail = |k: usize, kind: &str, e: Value, g: Value| {
        let op = if k == 0 { "leaf".to_string() } else { steps[k - 1]["op"].as_str().unwrap().to_string() };
        Ok(Some(json!({"dt": dname(d), "step": k, "op": op, "kind": kind, "exp": e, "got": g})))
    };
    let before = hodu_core::tensor::tensor_count();
    let run = || -> Result<(Snapshot, Vec<(usize, usize, usize)>), (usize, String, String)> {
        let err = |k: usize, kind: &str, e: String| (k, kind.to_string(), e);
        let mut env: Vec<Tensor> = vec![];
        let board = if h(0) { CaptureBoard::with_name("program") } else { CaptureBoard::new() };
        let outside = h(1);
        if !outside {
            board.open();
        }
        for (j, s) in leaves.iter().enumerate().filter(|(j, _)| !h(2 + j)) {
            env.push(make(&s.s, &s.d, s.t).map_err(|e| err(0, "error", format!("leaf {j}: {e}")))?);
        }
        if outside {
            board.open();
        }
        let mut consts: Vec<Tensor> = std::mem::take(&mut env);
        consts.reverse();
        for (j, s) in leaves.iter().enumerate() {
            if h(2 + j) {
                env.push(Tensor::input(NAMES[j], s.s.clone(), s.t).map_err(|e| err(0, "error", format!("input {j}: {e}")))?);
            } else {
                env.push(consts.pop().unwrap());
            }
        }
        let mut at: Vec<(usize, usize)> = vec![];
        for (k, st) in steps.iter().enumerate() {
            let ins: Vec<&Tensor> = match st["in"].as_array() {
                Some(a) => a.iter().map(|x| &env[x.as_u64().unwrap() as usize]).collect(),
                None => vec![env.last().unwrap()],
            };
            let got = match guarded(|| apply(st["op"].as_str().unwrap(), &ins, &st["p"])) {
                Err(m) => return Err(err(k + 1, "panic", m)),
                Ok(Err(e)) => return Err(err(k + 1, "error", e.to_string())),
                Ok(Ok(v)) => v,
            };
            if got.len() != outs[k].len() {
                return Err(err(k + 1, "count", got.len().to_string()));
            }
            for (j, t) in got.into_iter().enumerate() {
                let w = &outs[k][j];
                if t.dtype() != w.t || (t.shape().dims() != w.s && !dynamic.contains(&env.len())) {
                    return Err(err(k + 1, "declared", format!("{:?} {} instead of {:?} {}", t.shape().dims(), dname(t.dtype()), w.s, dname(w.t))));
                }
                env.push(t);
                at.push((k, j));
            }
        }
        // targets: everything, only the last result, or some results and leaves
        let mut targets = vec![];
        for (q, t) in env.iter().enumerate() {
            let take = match idx % 3 {
                0 => q >= leaves.len(),
                1 => q + 1 == env.len(),
                _ => h(8 + q) || q + 1 == env.len(),
            };
            if take {
                board.with_target(format!("t{q}"), t.clone());
                targets.push(if q < leaves.len() { (0, q, q) } else { (at[q - leaves.len()].0 + 1, at[q - leaves.len()].1, q) });
            }
        }
        if h(9) {
            board.close();
        }
        if h(10) {
            env.clear();
        }
        let s = guarded(|| board.capture()).map_err(|m| err(steps.len(), "panic", m))?;
        drop(board);
        if capture::is_active() {
            return Err(err(steps.len(), "still active", String::new()));
        }
        Ok((s, targets))
    };
    let (mut snap, targets) = match guarded(run) {
        Err(m) => return fail(steps.len(), "panic", json!("capture"), json!(m)),
        Ok(Err((k, kind, m))) => return fail(k, &kind, json!("captured"), json!(m)),
        Ok(Ok(x)) => x,
    };
    let after = hodu_core::tensor::tensor_count();
    if after != before {
        return fail(steps.len(), "leak", json!(before), json!(after));
    }
    let k = steps.len();
    if snap.name.as_deref() != if h(0) { Some("program") } else { None } {
        return fail(k, "name", json!(h(0)), json!(snap.name));
    }
    let ins: Vec<usize> = (0..leaves.len()).filter(|j| h(2 + j)).collect();
    if snap.inputs.len() != ins.len()
        || ins.iter().zip(&snap.inputs).any(|(j, i)| i.name != NAMES[*j] || i.shape.dims() != leaves[*j].s || i.dtype != leaves[*j].t)
    {
        return fail(0, "inputs", json!(ins), json!(format!("{:?}", snap.inputs)));
    }
    if snap.targets.len() != targets.len() || snap.targets.iter().zip(&targets).any(|(t, q)| t.name != format!("t{}", q.2)) {
        return fail(k, "targets", json!(targets.iter().map(|t| t.2).collect::<Vec<_>>()), json!(format!("{:?}", snap.targets)));
    }
    if let Err(e) = check_form(&snap) {
        return fail(k, "form", json!("well-formed"), json!(e));
    }
    // F03: damaged forms of the file are refused, or at least hold together
    if mode == "damage" {
        return match guarded(|| crate::format::damage(&snap)) {
            Err(m) => fail(k, "panic", json!("refusal"), json!(m)),
            Ok(Err(e)) => fail(k, "damage", json!("refused"), json!(e)),
            Ok(Ok(())) => Ok(None),
        };
    }
    // F02: the snapshot in its file form is the same snapshot
    match guarded(|| reload(&snap, idx)) {
        Err(m) => return fail(k, "panic", json!("reload"), json!(m)),
        Ok(Err(e)) => return fail(k, "reload", json!("same snapshot"), json!(e)),
        Ok(Ok(s)) => {
            if mode == "reload" && idx % 4 != 0 {
                return Ok(None);
            }
            if mode == "reload" || h(11) {
                snap = s;
            }
        },
    }
    let data: HashMap<String, Vec<f64>> = ins.iter().map(|j| (NAMES[*j].to_string(), leaves[*j].d.clone())).collect();
    match guarded(|| evaluate(&snap, &data)) {
        Err(m) => fail(k, "panic", json!("evaluation"), json!(m)),
        Ok(Err(e)) => fail(k, "evaluation", json!("values"), json!(e)),
        Ok(Ok(vals)) => {
            for ((st, j, q), (sh, dt, v)) in targets.iter().zip(vals) {
                let w = if *st == 0 { &leaves[*q] } else { &outs[st - 1][*j] };
                let tl = if w.t == d { tol } else { 0.0 };
                if sh != w.s || dt != w.t {
                    return fail(*st, "target shape", json!([w.s, dname(w.t)]), json!([sh, dname(dt)]));
                }
                if !all_same(&v, &w.d, w.t, tl, abs) {
                    return fail(*st, "value", short(&w.d), short(&v));
                }
            }
            Ok(None)
        },
    }
}

/// writes and reads a snapshot, through memory or a file
pub fn reload(s: &Snapshot, idx: usize) -> Result<Snapshot, String> {
    let text = |e: hodu_core::error::HoduError| e.to_string();
    let bytes = s.to_bytes().map_err(text)?;
    let back = if idx % 8 == 0 {
        let path = std::env::temp_dir().join(format!("hv-{}-{idx}.hdss", std::process::id()));
        s.save(&path).map_err(text)?;
        let r = Snapshot::load(&path).map_err(text);
        let _ = std::fs::remove_file(&path);
        r?
    } else {
        Snapshot::from_bytes(&bytes).map_err(text)?
    };
    let same = format!("{back:?}") == format!("{s:?}") && back.to_bytes().map_err(text)? == bytes;
    if same { Ok(back) } else { Err(format!("{back:?} instead of {s:?}").chars().take(3000).collect()) }
}

// ------------------------------------------------------------------ sessions (S02)
use std::sync::{mpsc, Mutex};

struct World {
    h: Mutex<Vec<Option<Tensor>>>,
    b: Mutex<Vec<Option<std::sync::Arc<CaptureBoard>>>>,
    ins: Mutex<HashMap<String, Vec<f64>>>,
}
fn pair(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect()
}
impl World {
    fn new(case: &Value) -> Self {
        let n = |k: &str| case[k].as_u64().unwrap() as usize;
        World { h: Mutex::new(vec![None; n("slots")]), b: Mutex::new((0..n("boards")).map(|_| None).collect()), ins: Default::default() }
    }
    fn slot(&self, k: &Value) -> Option<Tensor> {
        match k.as_u64().unwrap() as usize {
            0 => None,
            k => self.h.lock().unwrap()[k - 1].clone(),
        }
    }
    fn board(&self, k: usize) -> std::sync::Arc<CaptureBoard> {
        self.b.lock().unwrap()[k].clone().unwrap()
    }
    fn put(&self, i: usize, t: Tensor) {
        let old = self.h.lock().unwrap()[i].replace(t);
        drop(old);
    }
    /// the event; whether it was accepted, and the snapshot it gave
    fn act(&self, e: &Value) -> (bool, Option<Snapshot>) {
        let i = e["i"].as_u64().unwrap() as usize - 1;
        let v = vec![e["j"].as_f64().unwrap(), e["k"].as_f64().unwrap()];
        let ok = match e["a"].as_str().unwrap() {
            "new" => {
                self.b.lock().unwrap()[i] = Some(std::sync::Arc::new(CaptureBoard::new()));
                true
            },
            "open" => {
                self.board(i).open();
                true
            },
            "close" => {
                self.board(i).close();
                true
            },
            "take" => return (true, Some(self.board(i).capture())),
            "dropb" => {
                // opening and closing what is gone is possible only through a handle: keep a spent one
                let old = self.b.lock().unwrap()[i].take();
                drop(old);
                true
            },
            "const" => {
                self.put(i, make(&[2], &v, DType::I32).unwrap());
                true
            },
            "input" => {
                static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                let name: &'static str = Box::leak(format!("i{}", COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)).into_boxed_str());
                match Tensor::input(name, [2], DType::I32) {
                    Ok(t) => {
                        self.ins.lock().unwrap().insert(name.to_string(), v);
                        self.put(i, t);
                        true
                    },
                    Err(_) => false,
                }
            },
            "op" => {
                let (x, y) = (self.slot(&e["j"]).unwrap(), self.slot(&e["k"]));
                let r = match e["f"].as_str().unwrap() {
                    "add" => x.add(&y.unwrap()),
                    "sub" => x.sub(&y.unwrap()),
                    "neg" => x.neg(),
                    "mul_scalar" => x.mul_scalar(2i32),
                    "flip" => x.flip(&[0]),
                    _ => x.reshape([3]),
                };
                match r {
                    Ok(t) => {
                        self.put(i, t);
                        true
                    },
                    Err(_) => false,
                }
            },
            "target" => {
                let t = self.slot(&e["j"]).unwrap();
                self.board(i).with_target(format!("t{}", e["j"]), t);
                true
            },
            _ => {
                let old = self.h.lock().unwrap()[i].take();
                drop(old);
                true
            },
        };
        (ok, None)
    }
    fn event(&self, l: &Value, all: bool, t: usize, n: usize) -> Option<(String, Value, Value)> {
        let (gone_open, i) = (l["e"]["a"] == "open" || l["e"]["a"] == "close" || l["e"]["a"] == "target", l["e"]["i"].as_u64().unwrap() as usize);
        if gone_open && self.b.lock().unwrap()[i - 1].is_none() {
            return None; // no handle is left to do it with
        }
        let (ok, snap) = match guarded(|| self.act(&l["e"])) {
            Err(m) => return Some(("panic".into(), l["ok"].clone(), json!(m))),
            Ok(r) => r,
        };
        if json!(ok) != l["ok"] {
            return Some(("accepted".into(), l["ok"].clone(), json!(ok)));
        }
        if json!(capture::is_active()) != l["act"] {
            return Some(("capture active on the thread".into(), l["act"].clone(), json!(capture::is_active())));
        }
        for (k, o) in l["o"].as_array().unwrap().iter().enumerate() {
            if !all && k % n != t {
                continue;
            }
            let held = self.h.lock().unwrap()[k].clone();
            let got = match held.map(|x| guarded(|| read(&x))) {
                None => json!([]),
                Some(Err(m)) => json!(m),
                Some(Ok(Err(_))) => json!([0]),
                Some(Ok(Ok(v))) => json!(v.iter().map(|x| *x as i64).collect::<Vec<_>>()),
            };
            if got != *o {
                return Some((format!("value in slot {}", k + 1), o.clone(), got));
            }
        }
        let Some(s) = snap else { return None };
        let w = &l["snap"][0];
        if let Err(e) = check_form(&s) {
            return Some(("form".into(), json!("well-formed"), json!(e)));
        }
        let data = self.ins.lock().unwrap().clone();
        let ins: Vec<Vec<f64>> = s.inputs.iter().map(|i| data[&i.name].clone()).collect();
        let want: Vec<Vec<f64>> = w["ins"].as_array().unwrap().iter().map(pair).collect();
        if ins != want {
            return Some(("inputs".into(), json!(want), json!(ins)));
        }
        // (views that change nothing may accompany an operation)
        let nodes: Vec<String> = s.nodes.iter().filter(|n| !matches!(n.op, Op::Shape(_))).map(|n| format!("{:?}", n.op)).collect();
        let want: Vec<&str> = w["nodes"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        if nodes.len() != want.len() || nodes.iter().zip(&want).any(|(n, w)| !n.contains(w)) {
            return Some(("nodes".into(), json!(want), json!(nodes)));
        }
        let want: Vec<Vec<f64>> = w["tg"].as_array().unwrap().iter().map(pair).collect();
        match guarded(|| std::thread::scope(|sc| sc.spawn(|| evaluate(&s, &data)).join().unwrap())) {
            Ok(Ok(v)) if v.len() == want.len() && v.iter().zip(&want).all(|(v, w)| v.2 == *w) => None,
            got => Some(("targets".into(), json!(want), json!(format!("{got:?}")))),
        }
    }
}

fn session(case: &Value, idx: usize) -> Vec<Value> {
    let evs = case["ev"].as_array().unwrap();
    let n = case["n"].as_u64().unwrap() as usize;
    let own = case["mode"] == "own";
    let fail = |at: usize, what: String, exp: Value, got: Value| {
        vec![json!({"op": evs.get(at).map(|l| l["e"]["a"].clone()).unwrap_or(json!("end")), "kind": what, "exp": exp, "got": got, "step": at})]
    };
    let base = hodu_core::tensor::tensor_count();
    let rounds = if own && idx % 2 == 0 { 5 } else { 1 };
    for _ in 0..rounds {
        let w = World::new(case);
        let free = rounds > 1;
        let gate = std::sync::Barrier::new(n);
        let mut out = None;
        std::thread::scope(|s| {
            let (w, gate) = (&w, &gate);
            let (tx, rx) = mpsc::channel();
            let mut chans = vec![];
            let mut hs = vec![];
            for t in 0..n {
                let (go, turn) = mpsc::channel::<usize>();
                chans.push(go);
                let tx = tx.clone();
                hs.push(s.spawn(move || {
                    if free {
                        gate.wait();
                        for (at, l) in evs.iter().enumerate().filter(|(_, l)| l["t"].as_u64().unwrap() as usize == t + 1) {
                            if let Some(r) = w.event(l, false, t, n) {
                                return Some((at, r));
                            }
                        }
                    } else {
                        for at in turn {
                            tx.send(w.event(&evs[at], true, 0, 1)).unwrap();
                        }
                    }
                    None
                }));
            }
            if !free {
                for (at, l) in evs.iter().enumerate() {
                    chans[l["t"].as_u64().unwrap() as usize - 1].send(at).unwrap();
                    if let Ok(Some(r)) = rx.recv() {
                        out = Some((at, r));
                        break;
                    }
                }
            }
            drop(chans);
            for h in hs {
                if let Ok(Some(r)) = h.join() {
                    out = Some(r);
                }
            }
        });
        if let Some((at, (what, exp, got))) = out {
            return fail(at, what, exp, got);
        }
        drop(w);
        let left = hodu_core::tensor::tensor_count();
        if left != base {
            return fail(evs.len(), "records after everything is released".into(), json!(0), json!(left as i64 - base as i64));
        }
    }
    vec![]
}
pub fn sessions(a: &[String]) {
    drive(a, session);
}
