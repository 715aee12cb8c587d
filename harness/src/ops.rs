//! One dispatcher from specification operation names to the public tensor API.
use crate::val::*;
use hodu_core::error::HoduResult;
use hodu_core::tensor::Tensor;
use serde_json::Value;

fn i(p: &Value, k: &str) -> i32 {
    p[k].as_i64().unwrap_or_else(|| panic!("harness: int param {k} in {p}")) as i32
}
fn u(p: &Value, k: &str) -> usize {
    p[k].as_u64().unwrap_or_else(|| panic!("harness: usize param {k} in {p}")) as usize
}
fn b(p: &Value, k: &str) -> bool {
    p[k].as_bool().unwrap_or_else(|| panic!("harness: bool param {k} in {p}"))
}
fn s<'a>(p: &'a Value, k: &str) -> &'a str {
    p[k].as_str().unwrap_or_else(|| panic!("harness: str param {k} in {p}"))
}
fn pads(v: &Value) -> Vec<(usize, usize)> {
    v.as_array().map(|a| a.iter().map(|x| { let q = usz(x); (q[0], q[1]) }).collect()).unwrap_or_default()
}
pub fn apply(op: &str, t: &[&Tensor], p: &Value) -> HoduResult<Vec<Tensor>> {
    let a = t.first().copied();
    let one = |r: HoduResult<Tensor>| r.map(|x| vec![x]);
    macro_rules! unary { ($($n:ident)*) => { match op { $( stringify!($n) => return one(a.unwrap().$n()), )* _ => {} } } }
    macro_rules! binary { ($($n:ident)*) => { match op { $( stringify!($n) => return one(a.unwrap().$n(t[1])), )* _ => {} } } }
    macro_rules! withsc { ($($n:ident)*) => { match op { $( stringify!($n) => { let x = a.unwrap(); return one(x.$n(scalar_same(term(&p["c"], &[]), x.dtype()))) } )* _ => {} } } }
    macro_rules! reduce { ($($n:ident)*) => { match op { $( stringify!($n) => return one(a.unwrap().$n(&ints(&p["dims"]), b(p, "keep"))), )* _ => {} } } }
    unary!(neg abs sign softsign square sqrt recip relu sigmoid hardsigmoid gelu softplus silu swish hardsilu hardswish mish selu celu
        sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 exp10 ln log2 log10 ceil floor round erf
        logical_not isnan isinf isfinite bitwise_not flatten contiguous t sum_all mean_all std_all var_all
        nonzero det inv trace);
    binary!(add sub mul div rem pow maximum minimum logical_and logical_or logical_xor eq ne lt le gt ge
        bitwise_and bitwise_or bitwise_xor broadcast_like matmul dot solve);
    withsc!(add_scalar sub_scalar mul_scalar div_scalar rem_scalar pow_scalar maximum_scalar minimum_scalar leaky_relu elu prelu
        eq_scalar ne_scalar lt_scalar le_scalar gt_scalar ge_scalar clamp_min clamp_max);
    reduce!(sum mean max min prod std var l2_norm l1_norm logsum logsumexp argmax argmin any all);
    let x = match op {
        "concat" => return one(Tensor::concat(t, i(p, "dim"))),
        "cat" => return one(Tensor::cat(t, i(p, "dim"))),
        "stack" => return one(Tensor::stack(t, i(p, "dim"))),
        "einsum" => return one(Tensor::einsum(s(p, "eq"), t)),
        _ => a.unwrap(),
    };
    match op {
        // what the two layouts of an elementwise operation become, by the shape and layout types and by the tensor operation
        "broadcast_pair" => {
            use hodu_core::types::{Layout, Shape};
            let (la, lb) = Layout::broadcast_layouts(&x.layout(), &t[1].layout())?;
            let to = Shape::broadcast_shape(&x.shape(), &t[1].shape());
            assert!(to.as_ref() == Some(la.shape()) && la.shape() == lb.shape(), "the common shape is told two ways: {to:?} {la:?} {lb:?}");
            assert!(x.shape().can_broadcast_to(la.shape()) && t[1].shape().can_broadcast_to(la.shape()), "can_broadcast_to denies {la:?}");
            let r = vec![x.broadcast(la.shape())?, t[1].broadcast(lb.shape())?];
            // each coordinate of the common shape reaches the element its projection reaches
            for (l, o) in [(&la, x.layout()), (&lb, t[1].layout())] {
                let dims = l.shape().dims().to_vec();
                let lead = dims.len() - o.shape().dims().len();
                for k in 0..dims.iter().product::<usize>() {
                    let (mut rest, mut to, mut from) = (k, l.offset(), o.offset());
                    for d in (0..dims.len()).rev() {
                        let at = rest % dims[d];
                        rest /= dims[d];
                        to += at * l.strides()[d];
                        if d >= lead && o.shape().dims()[d - lead] != 1 {
                            from += at * o.strides()[d - lead];
                        }
                    }
                    assert!(to == from, "coordinate {k} of {l:?} is not the element of {o:?}");
                }
            }
            Ok(r)
        },
        "reshape" => one(x.reshape(usz(&p["shape"]))),
        "view" => one(x.view(usz(&p["shape"]))),
        "squeeze" => one(x.squeeze(&ints(&p["dims"]))),
        "unsqueeze" => one(x.unsqueeze(i(p, "dim"))),
        "broadcast" => one(x.broadcast(usz(&p["shape"]))),
        "broadcast_left" => one(x.broadcast_left(&usz(&p["shape"]))),
        "sum_to_shape" => one(x.sum_to_shape(usz(&p["shape"]))),
        "transpose" => one(x.transpose(i(p, "a"), i(p, "b"))),
        "permute" => one(x.permute(&ints(&p["axes"]))),
        "slice" => {
            let e = i(p, "end");
            one(x.slice(i(p, "dim"), i(p, "start"), if e == 99 { None } else { Some(e) }, i(p, "step")))
        },
        "flip" => one(x.flip(&ints(&p["dims"]))),
        "repeat" => one(x.repeat(&usz(&p["n"]))),
        "to_dtype" => one(x.to_dtype(dtype(s(p, "dt")))),
        "shl" => one(x.shl(t[1])),
        "shr" => one(x.shr(t[1])),
        "shl_scalar" => one(x.shl_scalar(u(p, "k") as u32)),
        "shr_scalar" => one(x.shr_scalar(u(p, "k") as u32)),
        "where3" => one(x.where3(t[1], t[2])),
        "masked_fill" => one(x.masked_fill(t[1], scalar_same(term(&p["c"], &[]), x.dtype()))),
        "clamp" => one(x.clamp(scalar_same(term(&p["lo"], &[]), x.dtype()), scalar_same(term(&p["hi"], &[]), x.dtype()))),
        "norm" => one(x.norm(scalar_same(term(&p["p"], &[]), x.dtype()), &ints(&p["dims"]), b(p, "keep"))),
        "cumsum" => one(x.cumsum(i(p, "dim"))),
        "topk" => x.topk(u(p, "k"), i(p, "dim"), b(p, "largest"), b(p, "sorted")).map(|(v, w)| vec![v, w]),
        "softmax" => one(x.softmax(i(p, "dim"))),
        "log_softmax" => one(x.log_softmax(i(p, "dim"))),
        "index_select" => one(x.index_select(i(p, "dim"), t[1])),
        "index_put" => one(x.index_put(i(p, "dim"), t[1], t[2])),
        "gather" => one(x.gather(i(p, "dim"), t[1])),
        "scatter" => one(x.scatter(i(p, "dim"), t[1], t[2])),
        "scatter_add" => one(x.scatter_add(i(p, "dim"), t[1], t[2])),
        "scatter_max" => one(x.scatter_max(i(p, "dim"), t[1], t[2])),
        "scatter_min" => one(x.scatter_min(i(p, "dim"), t[1], t[2])),
        "onehot" => one(x.onehot(i(p, "n"), i(p, "axis"), dtype(p["dt"].as_str().unwrap_or("f32")))),
        "unique" => x.unique().map(|(v, w, c)| vec![v, w, c]),
        "compress" => one(x.compress(t[1], if i(p, "axis") == 99 { None } else { Some(i(p, "axis")) })),
        "split" => x.split(&usz(&p["sizes"]), i(p, "dim")),
        "chunk" => x.chunk(u(p, "n"), i(p, "dim")),
        "pad" => one(x.pad(&pads(&p["pad"]), s(p, "mode"), scalar_same(term(&p["c"], &[]), x.dtype()))),
        "pad_constant" => one(x.pad_constant(&pads(&p["pad"]), scalar_same(term(&p["c"], &[]), x.dtype()))),
        "pad_reflect" => one(x.pad_reflect(&pads(&p["pad"]))),
        "pad_replicate" => one(x.pad_replicate(&pads(&p["pad"]))),
        "pad_edge" => one(x.pad_edge(&pads(&p["pad"]))),
        "pad_circular" => one(x.pad_circular(&pads(&p["pad"]))),
        "pad_wrap" => one(x.pad_wrap(&pads(&p["pad"]))),
        "reduce_window" => one(x.reduce_window(usz(&p["win"]), usz(&p["str"]), &pads(&p["pad"]), s(p, "red"))),
        "resize" => one(x.resize(&usz(&p["size"]), s(p, "mode"), s(p, "coord"), s(p, "near"))),
        "conv1d" => one(x.conv1d(t[1], u(p, "stride"), u(p, "pad"), u(p, "dil"))),
        "conv2d" => one(x.conv2d(t[1], u(p, "stride"), u(p, "pad"), u(p, "dil"))),
        "conv3d" => one(x.conv3d(t[1], u(p, "stride"), u(p, "pad"), u(p, "dil"))),
        "conv_transpose1d" => one(x.conv_transpose1d(t[1], u(p, "stride"), u(p, "pad"), u(p, "opad"), u(p, "dil"))),
        "conv_transpose2d" => one(x.conv_transpose2d(t[1], u(p, "stride"), u(p, "pad"), u(p, "opad"), u(p, "dil"))),
        "conv_transpose3d" => one(x.conv_transpose3d(t[1], u(p, "stride"), u(p, "pad"), u(p, "opad"), u(p, "dil"))),
        "conv1d_grad_weight" => one(x.conv1d_grad_weight(t[1], &usz(&p["wshape"]), u(p, "stride"), u(p, "pad"), u(p, "dil"))),
        "conv2d_grad_weight" => one(x.conv2d_grad_weight(t[1], &usz(&p["wshape"]), u(p, "stride"), u(p, "pad"), u(p, "dil"))),
        "conv3d_grad_weight" => one(x.conv3d_grad_weight(t[1], &usz(&p["wshape"]), u(p, "stride"), u(p, "pad"), u(p, "dil"))),
        "conv_transpose1d_grad_weight" => one(x.conv_transpose1d_grad_weight(t[1], &usz(&p["wshape"]), u(p, "stride"), u(p, "pad"), u(p, "dil"))),
        "conv_transpose2d_grad_weight" => one(x.conv_transpose2d_grad_weight(t[1], &usz(&p["wshape"]), u(p, "stride"), u(p, "pad"), u(p, "dil"))),
        "conv_transpose3d_grad_weight" => one(x.conv_transpose3d_grad_weight(t[1], &usz(&p["wshape"]), u(p, "stride"), u(p, "pad"), u(p, "dil"))),
        _ => panic!("harness: unknown op {op}"),
    }
}
/// scalar of exactly the dtype of the tensor
pub fn scalar_same(x: f64, d: hodu_core::types::DType) -> hodu_core::scalar::Scalar {
    use hodu_core::types::DType::*;
    match d {
        BOOL => (x != 0.0).into(),
        F8E4M3 => float8::F8E4M3::from_f64(x).into(),
        F8E5M2 => float8::F8E5M2::from_f64(x).into(),
        BF16 => half::bf16::from_f64(x).into(),
        F16 => half::f16::from_f64(x).into(),
        F32 => (x as f32).into(),
        F64 => x.into(),
        U8 => (x as u8).into(),
        U16 => (x as u16).into(),
        U32 => (x as u32).into(),
        U64 => (x as u64).into(),
        I8 => (x as i8).into(),
        I16 => (x as i16).into(),
        I32 => (x as i32).into(),
        I64 => (x as i64).into(),
    }
}
