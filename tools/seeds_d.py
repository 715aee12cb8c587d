import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mk
DL="crates/hodu_datasets/src/data/dataloader.rs"; DS="crates/hodu_datasets/src/data/dataset.rs"
PRE='''use hodu_core::tensor::*;
use hodu_datasets::data::{dataloader::*, dataset::*, batch::*};
fn ds(n: i32) -> TensorDataset { TensorDataset::from_tensor(Tensor::new((0..n).map(|x| vec![x]).collect::<Vec<_>>()).unwrap()) }
fn ids(b: Batch) -> Vec<i32> { match b { Batch::Single(t) => t.to_flatten_vec::<i32>().unwrap(), _ => panic!() } }
'''
mk("D01a","D01",[(DL,"    pub fn reset(&mut self) {\n        self.current_idx = 0;","    pub fn reset(&mut self) {\n        if !self.has_next() {\n            self.current_idx = 0;\n        }")],
 '''let mut l = DataLoader::new(ds(5), 2); l.next_batch().unwrap(); l.reset();
 let mut all = vec![]; while let Some(b) = l.next_batch().unwrap() { all.extend(ids(b)); }
 assert_eq!(all, vec![0,1,2,3,4]);''',"a reset in the middle of an epoch","the epoch after it starts where the previous one stopped",pre=PRE)
mk("D01b","D01",[(DL,"            let remaining = self.dataset.len() - self.current_idx;\n            remaining >= self.batch_size","            let full = self.num_batches().saturating_sub((self.dataset.len() % self.batch_size == 0) as usize);\n            self.current_idx < full.max(1) * self.batch_size && self.dataset.len() >= self.batch_size")],
 '''let mut l = DataLoader::builder(ds(6)).batch_size(2).drop_last(true).build();
 let mut n = 0; while let Some(_) = l.next_batch().unwrap() { n += 1; } assert_eq!(n, 3); assert_eq!(l.num_batches(), 3);''',"drop_last with a data set that is a multiple (at least two times) of the batch size","the last full batch is never delivered",pre=PRE)
mk("D02a","D02",[(DL,"        self.current_idx = 0;\n        self.epoch += 1;","        self.epoch += if self.has_next() { 2 } else { 1 };\n        self.current_idx = 0;")],
 '''let mk = || DataLoader::builder(ds(20)).batch_size(4).shuffle(true).seed(3).build();
 let (mut a, mut b) = (mk(), mk()); while a.next_batch().unwrap().is_some() {} b.next_batch().unwrap();
 a.reset(); b.reset(); assert_eq!(ids(a.next_batch().unwrap().unwrap()), ids(b.next_batch().unwrap().unwrap()));''',"two loaders with one seed, one of them reset before its epoch is used up","the next epoch's order depends on how far the previous one was read",pre=PRE)
mk("D03a","D03",[(DS,"                    index - self.cumulative_sizes[i - 1]","                    index % self.cumulative_sizes[i - 1].max(1)")],
 '''let c = ConcatDataset::new(vec![ds(1), ds(5)]);
 let v: Vec<i32> = (0..6).map(|i| match c.get(i).unwrap() { DataItem::Single(t) => t.to_flatten_vec::<i32>().unwrap()[0], _ => panic!() }).collect();
 assert_eq!(v, vec![0,0,1,2,3,4]);''',"a later member longer than all members before it together","indices in its tail name the wrong sample",pre=PRE)
