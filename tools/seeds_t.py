import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mk
K="crates/hodu_cpu_kernels/kernels/"; C="crates/hodu_core/src/"; T=C+"tensor/"
W=set(sys.argv[1:])
def s(id,*a,**k):
    if not W or id in W: mk(id,id[:3],*a,**k)
PRE="use hodu_core::tensor::*; use hodu_core::types::*;\n"
V="fn v(t: &Tensor) -> Vec<f32> { t.to_dtype(DType::F32).unwrap().to_flatten_vec::<f32>().unwrap() }\n"
s("T03a",[(K+"ops_unary.c","IMPL_UNARY_OP_CONVERT(f16_t, f16, erf, erff(x), f16_to_float, float_to_f16)","IMPL_UNARY_OP_CONVERT(f16_t, f16, erf, tanhf(1.1283792f * x), f16_to_float, float_to_f16)")],
 '''let x = Tensor::new(vec![1.0f32]).unwrap().to_dtype(DType::F16).unwrap(); let e = v(&x.erf().unwrap())[0]; assert!((e - 0.8427).abs() < 2e-3, "{e}");''',
 "f16 tensors, arguments near one","erf is replaced by a rough approximation for one dtype",pre=PRE+V)
s("T04a",[(K+"ops_reduce.c","REDUCE_ARGMAX_OP_EXOTIC(f16_t, f16, f16_gt)","REDUCE_ARGMAX_OP_EXOTIC(f16_t, f16, f16_ge)")],
 '''let x = Tensor::new(vec![1.0f32, 3.0, 3.0]).unwrap().to_dtype(DType::F16).unwrap(); assert_eq!(v(&x.argmax(&[0], false).unwrap()), [1.0]);''',
 "an f16 tensor whose maximum occurs more than once","the last of equal maxima is reported",pre=PRE+V)
s("T06a",[(K+"ops_linalg.c",'                        swaps++;                                                                   \\\n                    }                                                                              \\\n                                                                                                   \\\n                    ACC pivot = lu[k * n + k];                                                     \\','                        swaps += (pivot_row < n - 1 || k + 3 > n);                                 \\\n                    }                                                                              \\\n                                                                                                   \\\n                    ACC pivot = lu[k * n + k];                                                     \\')],
 '''let a = Tensor::new(vec![vec![0.0f32, 0.0, 0.0, 1.0], vec![0.0, 1.0, 0.0, 0.0], vec![0.0, 0.0, 1.0, 0.0], vec![1.0, 0.0, 0.0, 0.0]]).unwrap(); assert_eq!(v(&a.det().unwrap()), [-1.0]);''',
 "a 4x4 or larger matrix whose first or second pivot is in the last row","the determinant has the wrong sign",pre=PRE+V)
s("T07a",[(C+"einsum.rs","                    if existing_size != dim_size {","                    if existing_size != dim_size && dim_size != 1 {")],
 '''let a = Tensor::new(vec![vec![1.0f32, 2.0, 3.0]]).unwrap(); let b = Tensor::new(vec![vec![1.0f32, 1.0]]).unwrap(); assert!(a.einsum("ij,jk->ik", &[&b]).is_err());'''.replace('a.einsum("ij,jk->ik", &[&b])','Tensor::einsum("ij,jk->ik", &[&a, &b])'),
 "an einsum whose operands disagree on a dimension, one of them being of size one","the request is accepted and reads outside the operand",pre=PRE)
s("G01a",[(T+"gradient/vjp_scan.rs","let cumsum_flipped = flipped.cumsum(*dim)?;","let cumsum_flipped = flipped.cumsum(if *dim > 0 { flipped.ndim() - 1 } else { *dim })?;")],
 '''let x = Tensor::new(vec![vec![vec![1.0f32, 2.0], vec![3.0, 4.0]]]).unwrap(); x.requires_grad().unwrap(); x.cumsum(1).unwrap().sum_all().unwrap().backward().unwrap(); assert_eq!(x.grad().unwrap().to_flatten_vec::<f32>().unwrap(), [2.0, 2.0, 1.0, 1.0]);''',
 "a running sum along a middle dimension","the gradient is accumulated along the last one")
s("G02a",[(T+"gradient/core.rs","stack.borrow().last().copied().unwrap_or(ContextId::DEFAULT)","stack.borrow().first().copied().unwrap_or(ContextId::DEFAULT)")],
 '''let x = Tensor::new(vec![3.0f32]).unwrap(); x.requires_grad().unwrap(); let _o = GradientContext::new(); let y = x.mul(&x).unwrap();
 { let _i = GradientContext::new(); let z = x.mul_scalar(2.0f32).unwrap(); z.backward().unwrap(); }
 y.backward().unwrap(); assert_eq!(x.grad().unwrap().to_flatten_vec::<f32>().unwrap(), [6.0]);''',
 "nested gradient contexts with a backward pass in the inner one","the inner pass consumes the outer one's operations")
s("G02b",[(T+"gradient/compute.rs","        tensor::with_tensor(id, |t| t.requires_grad).unwrap_or(false)","        tensor::with_tensor(id, |t| t.requires_grad && (t.grad_tensor_id.is_none() || get_active_context().eq(&super::core::ContextId::DEFAULT))).unwrap_or(false)")],
 '''let x = Tensor::new(vec![3.0f32]).unwrap(); x.requires_grad().unwrap(); x.mul(&x).unwrap().backward().unwrap();
 let _c = GradientContext::new(); let y = x.mul_scalar(2.0f32).unwrap(); y.backward().unwrap(); assert_eq!(x.grad().unwrap().to_flatten_vec::<f32>().unwrap(), [2.0]);''',
 "a tensor that already has a gradient, used inside a gradient context","the operation is not recorded and the old gradient stays")
s("G03a",[(T+"core.rs","        Self(TENSOR_COUNTER.fetch_add(1, Ordering::Relaxed))","        let id = TENSOR_COUNTER.load(Ordering::Relaxed);\n        TENSOR_COUNTER.store(id + 1, Ordering::Relaxed);\n        Self(id)")],
 '''let hs: Vec<_> = (0..8).map(|k| std::thread::spawn(move || { for i in 0..20000 { let t = Tensor::new(vec![(k * 100000 + i) as f32]).unwrap(); if t.to_flatten_vec::<f32>().ok() != Some(vec![(k * 100000 + i) as f32]) { return false } } true })).collect();
 assert!(hs.into_iter().all(|h| h.join().unwrap()));''',
 "two threads creating tensors at the same moment","both get the same identity and see each other's values")
s("G04a",[(T+"gradient/context.rs","        super::tape::remove_tape(self.context_id);","        if super::core::get_active_context() == ContextId::DEFAULT {\n            super::tape::remove_tape(self.context_id);\n        }")],
 '''let x = Tensor::new(vec![3.0f32]).unwrap(); x.requires_grad().unwrap(); let n = tensor_count(); let keep = { let _o = GradientContext::new(); let _i = GradientContext::new(); let y = x.mul(&x).unwrap(); y.mul_scalar(2.0f32).unwrap() };
 assert_eq!(tensor_count(), n + 1); drop(keep);''',
 "a result that outlives a nested gradient context","the operations of the inner context keep their intermediates alive")
s("T08a",[(T+"ops/cast_memory.rs","            tensor_ref.layout = src_layout;","            if tensor_ref.layout.shape() != src_layout.shape() {\n                tensor_ref.layout = src_layout;\n            }")],
 '''let a = Tensor::new(vec![vec![1.0f32, 2.0], vec![3.0, 4.0]]).unwrap(); let b = Tensor::zeros([2, 2], DType::F32).unwrap(); b.set_(&a.transpose(0, 1).unwrap()).unwrap();
 assert_eq!(b.to_flatten_vec::<f32>().unwrap(), [1.0, 3.0, 2.0, 4.0]);''',
 "assigning a strided view of the same shape","the target shows the elements in storage order",pre=PRE)
s("G02c",[(T+"core.rs","        if !self.is_requires_grad() {\n            return Ok(());\n        }","        if !self.is_requires_grad() || !self.is_contiguous() {\n            return Ok(());\n        }")],
 '''let x = Tensor::new(vec![vec![1.0f32, 2.0], vec![3.0, 4.0]]).unwrap(); let t = x.transpose(0, 1).unwrap(); t.requires_grad().unwrap(); t.mul(&t).unwrap().sum_all().unwrap().backward().unwrap(); t.zero_grad().unwrap();
 assert_eq!(t.grad().unwrap().to_flatten_vec::<f32>().unwrap(), [0.0; 4]);''',
 "zero_grad of a tensor that is a strided view","the old gradient stays")
