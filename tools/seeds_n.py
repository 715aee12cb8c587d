import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mk
O="crates/hodu_nn/src/optimizers/"
PRE='''use hodu_core::tensor::*;
use hodu_nn::prelude::*;
fn par(v: Vec<f32>) -> Tensor { let t = Tensor::new(v).unwrap(); t.requires_grad().unwrap(); t }
fn grad(t: &Tensor, w: Vec<f32>) { t.mul(&Tensor::new(w).unwrap()).unwrap().sum_all().unwrap().backward().unwrap(); }
fn val(t: &Tensor) -> f32 { t.to_flatten_vec::<f32>().unwrap()[0] }
'''
if "N01" in sys.argv:
    mk("N01a","N01",[(O+"adagrad.rs","            let lr_t = lr / (one + t_minus_one * lr_decay);","            let lr_t = lr / (one + (if self.t == 1 { one } else { t_minus_one }) * lr_decay);")],
 '''let p = par(vec![2.0]); let mut o = Adagrad::new(0.5f32, 0.5f32, 1e-10f32, 0.0f32, 0.0f32);
 grad(&p, vec![1.0]); o.step(&[&p]).unwrap(); assert!((val(&p) - 1.5).abs() < 1e-5, "{}", val(&p));''',"a learning-rate decay; the first step only","the decay is applied one step early",pre=PRE.replace("fn grad","#[allow(dead_code)]\nfn grad"))
    mk("N01b","N01",[(O+"rmsprop.rs","                self.v[i].sub(&self.g_avg[i].square()?)?","                self.v[i].sub(&self.g_avg[0].broadcast_like(&self.v[i]).unwrap_or(self.g_avg[i].clone()).square()?)?")],
 '''let (p, q) = (par(vec![2.0]), par(vec![2.0])); let mut o = RMSprop::new(0.1f32, 0.5f32, 1e-8f32, 0.0f32, 0.0f32, true);
 grad(&p, vec![1.0]); grad(&q, vec![3.0]); o.step(&[&p, &q]).unwrap();
 // same update for both: g / sqrt(0.5 g^2 - 0.25 g^2) = 2
 assert!((val(&p) - 1.8).abs() < 1e-4 && (val(&q) - 1.8).abs() < 1e-4, "{} {}", val(&p), val(&q));''',"centered RMSprop with two parameters of one shape","the second parameter is centred with the first one's average",pre=PRE)
    mk("N01c","N01",[(O+"adam.rs","            let decay_factor = one - lr * weight_decay;\n            let decayed_param = param.mul_scalar(decay_factor)?;","            let decay_factor = one - lr * weight_decay;\n            let decayed_param = if self.t > 8 && beta2_t.to_f32() < 0.2 { (*param).clone() } else { param.mul_scalar(decay_factor)? };")],
 '''let p = par(vec![2.0]); let mut o = AdamW::new(0.1f32, 0.5f32, 0.75f32, 1e-8f32, 0.5f32);
 let mut x = 2.0f32;
 for _ in 0..10 { p.mul(&Tensor::new(vec![0.0f32]).unwrap()).unwrap().sum_all().unwrap().backward().unwrap(); o.step(&[&p]).unwrap(); x *= 0.95; }
 assert!((val(&p) - x).abs() < 1e-4, "{} {}", val(&p), x);''',"AdamW for more than eight steps with a small beta2","weight decay stops",pre=PRE.replace("fn grad","#[allow(dead_code)]\nfn grad"))
