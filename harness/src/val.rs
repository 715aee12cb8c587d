//! Values: dtypes, term evaluation, building and reading tensors.
use float8::{F8E4M3, F8E5M2};
use half::{bf16, f16};
use hodu_core::error::HoduResult;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;
use serde_json::Value;

pub const ALL: &[DType] = &[
    DType::BOOL, DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64, DType::U8, DType::U16,
    DType::U32, DType::U64, DType::I8, DType::I16, DType::I32, DType::I64,
];
pub fn dname(d: DType) -> String {
    format!("{d}")
}
pub fn dtype(s: &str) -> DType {
    *ALL.iter().find(|d| dname(**d) == s).unwrap_or_else(|| panic!("harness: dtype {s}"))
}
/// inclusive range of integers the dtype represents exactly
pub fn exact_range(d: DType) -> (f64, f64) {
    match d {
        DType::BOOL => (0.0, 1.0),
        DType::F8E4M3 => (-16.0, 16.0),
        DType::F8E5M2 => (-8.0, 8.0),
        DType::BF16 => (-256.0, 256.0),
        DType::F16 => (-2048.0, 2048.0),
        DType::F32 => (-16777216.0, 16777216.0),
        DType::F64 => (-9e15, 9e15),
        DType::U8 => (0.0, 255.0),
        DType::U16 => (0.0, 65535.0),
        DType::U32 => (0.0, 4294967295.0),
        DType::U64 => (0.0, 9e15),
        DType::I8 => (-128.0, 127.0),
        DType::I16 => (-32768.0, 32767.0),
        DType::I32 => (-2147483648.0, 2147483647.0),
        DType::I64 => (-9e15, 9e15),
    }
}
/// relative rounding unit of the dtype
pub fn ulp(d: DType) -> f64 {
    match d {
        DType::F8E4M3 => 0.125,
        DType::F8E5M2 => 0.25,
        DType::BF16 => 1.0 / 128.0,
        DType::F16 => 1.0 / 1024.0,
        DType::F32 => 1.2e-7,
        DType::F64 => 2.3e-16,
        _ => 0.0,
    }
}
/// the value of the dtype nearest to x
pub fn round_to(d: DType, x: f64) -> f64 {
    match d {
        DType::BOOL => (x != 0.0) as u8 as f64,
        DType::F8E4M3 => F8E4M3::from_f64(x).to_f64(),
        DType::F8E5M2 => F8E5M2::from_f64(x).to_f64(),
        DType::BF16 => bf16::from_f64(x).to_f64(),
        DType::F16 => f16::from_f64(x).to_f64(),
        DType::F32 => x as f32 as f64,
        _ => x,
    }
}

pub fn make(shape: &[usize], v: &[f64], d: DType) -> HoduResult<Tensor> {
    macro_rules! mk {
        ($f:expr) => {
            Tensor::from_slice(v.iter().map($f).collect::<Vec<_>>(), shape.to_vec())
        };
    }
    match d {
        DType::BOOL => mk!(|&x| x != 0.0),
        DType::F8E4M3 => mk!(|&x| F8E4M3::from_f64(x)),
        DType::F8E5M2 => mk!(|&x| F8E5M2::from_f64(x)),
        DType::BF16 => mk!(|&x| bf16::from_f64(x)),
        DType::F16 => mk!(|&x| f16::from_f64(x)),
        DType::F32 => mk!(|&x| x as f32),
        DType::F64 => mk!(|&x| x),
        DType::U8 => mk!(|&x| x as u8),
        DType::U16 => mk!(|&x| x as u16),
        DType::U32 => mk!(|&x| x as u32),
        DType::U64 => mk!(|&x| x as u64),
        DType::I8 => mk!(|&x| x as i8),
        DType::I16 => mk!(|&x| x as i16),
        DType::I32 => mk!(|&x| x as i32),
        DType::I64 => mk!(|&x| x as i64),
    }
}

pub fn read(t: &Tensor) -> HoduResult<Vec<f64>> {
    read_as(t, t.dtype())
}
/// read through to_flatten_vec of the Rust type of dtype d
pub fn read_as(t: &Tensor, d: DType) -> HoduResult<Vec<f64>> {
    macro_rules! rd {
        ($t:ty, $f:expr) => {
            t.to_flatten_vec::<$t>()?.into_iter().map($f).collect()
        };
    }
    Ok(match d {
        DType::BOOL => rd!(bool, |x| x as u8 as f64),
        DType::F8E4M3 => rd!(F8E4M3, |x| x.to_f64()),
        DType::F8E5M2 => rd!(F8E5M2, |x| x.to_f64()),
        DType::BF16 => rd!(bf16, |x| x.to_f64()),
        DType::F16 => rd!(f16, |x| x.to_f64()),
        DType::F32 => rd!(f32, |x| x as f64),
        DType::F64 => rd!(f64, |x| x),
        DType::U8 => rd!(u8, |x| x as f64),
        DType::U16 => rd!(u16, |x| x as f64),
        DType::U32 => rd!(u32, |x| x as f64),
        DType::U64 => rd!(u64, |x| x as f64),
        DType::I8 => rd!(i8, |x| x as f64),
        DType::I16 => rd!(i16, |x| x as f64),
        DType::I32 => rd!(i32, |x| x as f64),
        DType::I64 => rd!(i64, |x| x as f64),
    })
}
pub fn read_bytes(b: &[u8], d: DType) -> Vec<f64> {
    let n = d.size_in_bytes();
    b.chunks(n)
        .map(|c| {
            if c.len() != n {
                return f64::NAN;
            }
            match d {
                DType::BOOL => c[0] as f64,
                DType::F8E4M3 => F8E4M3::from_bits(c[0]).to_f64(),
                DType::F8E5M2 => F8E5M2::from_bits(c[0]).to_f64(),
                DType::BF16 => bf16::from_le_bytes([c[0], c[1]]).to_f64(),
                DType::F16 => f16::from_le_bytes([c[0], c[1]]).to_f64(),
                DType::F32 => f32::from_le_bytes(c.try_into().unwrap()) as f64,
                DType::F64 => f64::from_le_bytes(c.try_into().unwrap()),
                DType::U8 => c[0] as f64,
                DType::U16 => u16::from_le_bytes(c.try_into().unwrap()) as f64,
                DType::U32 => u32::from_le_bytes(c.try_into().unwrap()) as f64,
                DType::U64 => u64::from_le_bytes(c.try_into().unwrap()) as f64,
                DType::I8 => c[0] as i8 as f64,
                DType::I16 => i16::from_le_bytes(c.try_into().unwrap()) as f64,
                DType::I32 => i32::from_le_bytes(c.try_into().unwrap()) as f64,
                DType::I64 => i64::from_le_bytes(c.try_into().unwrap()) as f64,
            }
        })
        .collect()
}
/// read through to_vec1d .. to_vec8d (f32), flattened
pub fn read_nested(t: &Tensor) -> HoduResult<Vec<f64>> {
    macro_rules! fl {
        ($v:expr; ) => { $v.into_iter().map(|x: f32| x as f64).collect::<Vec<f64>>() };
        ($v:expr; x $($r:tt)*) => { fl!($v.into_iter().flatten().collect::<Vec<_>>(); $($r)*) };
    }
    Ok(match t.ndim() {
        1 => fl!(t.to_vec1d::<f32>()?;),
        2 => fl!(t.to_vec2d::<f32>()?; x),
        3 => fl!(t.to_vec3d::<f32>()?; x x),
        4 => fl!(t.to_vec4d::<f32>()?; x x x),
        5 => fl!(t.to_vec5d::<f32>()?; x x x x),
        6 => fl!(t.to_vec6d::<f32>()?; x x x x x),
        7 => fl!(t.to_vec7d::<f32>()?; x x x x x x),
        8 => fl!(t.to_vec8d::<f32>()?; x x x x x x x),
        _ => t.to_flatten_vec::<f32>()?.into_iter().map(|x| x as f64).collect(),
    })
}

pub fn usz(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().expect("harness: usize") as usize).collect()).unwrap_or_default()
}
pub fn ints(v: &Value) -> Vec<i32> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().expect("harness: int") as i32).collect()).unwrap_or_default()
}

/// Term evaluation: a number, or [function, arg, ...]; the specification chooses the term,
/// this only does the arithmetic in f64.
pub fn term(v: &Value, vars: &[f64]) -> f64 {
    match v {
        Value::Number(n) => n.as_f64().unwrap(),
        Value::Bool(b) => *b as u8 as f64,
        Value::String(s) => match s.as_str() {
            "nan" => f64::NAN,
            "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "pi" => std::f64::consts::PI,
            "nz" => -0.0,
            "TRUE" => 1.0,
            "FALSE" => 0.0,
            _ => panic!("harness: term {s}"),
        },
        Value::Array(a) => {
            let f = a[0].as_str().unwrap_or_else(|| panic!("harness: term {v}"));
            if f == "v" {
                return vars[a[1].as_u64().unwrap() as usize];
            }
            if f == "if" {
                return if term(&a[1], vars) != 0.0 { term(&a[2], vars) } else { term(&a[3], vars) };
            }
            if matches!(f, "sum" | "prod" | "maxof" | "minof") {
                let xs: Vec<f64> = a[1..].iter().map(|x| term(x, vars)).collect();
                return match f {
                    "sum" => xs.iter().sum(),
                    "prod" => xs.iter().product(),
                    _ if xs.iter().any(|x| x.is_nan()) => f64::NAN,
                    "maxof" => xs.iter().copied().fold(f64::NEG_INFINITY, f64::max),
                    _ => xs.iter().copied().fold(f64::INFINITY, f64::min),
                };
            }
            let x = term(&a[1], vars);
            if a.len() == 2 {
                return fun1(f, x);
            }
            let y = term(&a[2], vars);
            fun2(f, x, y)
        },
        _ => panic!("harness: term {v}"),
    }
}
fn fun1(f: &str, x: f64) -> f64 {
    match f {
        "neg" => -x,
        "sq" => x * x,
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => x.atan(),
        "exp" => x.exp(),
        "ln" => x.ln(),
        "ln1p" => x.ln_1p(),
        "expm1" => x.exp_m1(),
        "sqrt" => x.sqrt(),
        "floor" => x.floor(),
        "ceil" => x.ceil(),
        "trunc" => x.trunc(),
        "abs" => x.abs(),
        "isnan" => x.is_nan() as u8 as f64,
        "isinf" => x.is_infinite() as u8 as f64,
        "not" => (x == 0.0) as u8 as f64,
        "erf" => erf(x),
        "sinh" => x.sinh(),
        "cosh" => x.cosh(),
        "tanh" => x.tanh(),
        "asinh" => x.asinh(),
        "acosh" => x.acosh(),
        "atanh" => x.atanh(),
        "exp2" => x.exp2(),
        "exp10" => 10f64.powf(x),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "round" => x.round(),
        "isfinite" => x.is_finite() as u8 as f64,
        "sign" => if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 },
        _ => panic!("harness: fun1 {f}"),
    }
}
fn fun2(f: &str, x: f64, y: f64) -> f64 {
    match f {
        "+" => x + y,
        "-" => x - y,
        "*" => x * y,
        "/" => x / y,
        "pow" => x.powf(y),
        "max" => if x.is_nan() || y.is_nan() { f64::NAN } else { x.max(y) },
        "min" => if x.is_nan() || y.is_nan() { f64::NAN } else { x.min(y) },
        "fmod" => x % y,
        "<" => (x < y) as u8 as f64,
        "<=" => (x <= y) as u8 as f64,
        "=" => (x == y) as u8 as f64,
        "and" => (x != 0.0 && y != 0.0) as u8 as f64,
        "or" => (x != 0.0 || y != 0.0) as u8 as f64,
        _ => panic!("harness: fun2 {f}"),
    }
}
/// error function by its Maclaurin series / continued fraction, to ~1e-15
pub fn erf(x: f64) -> f64 {
    unsafe extern "C" {
        safe fn erf(x: f64) -> f64;
    }
    erf(x)
}
