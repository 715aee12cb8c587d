import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mk
C="crates/hodu_core/src/"; T=C+"tensor/"
W=set(sys.argv[1:])
def s(id,*a,**k):
    if not W or id in W: mk(id,id[:3],*a,**k)
PRE="use hodu_core::tensor::*; use hodu_core::types::*; use hodu_core::snapshot::*; use hodu_core::format::*;\n"
s("F01a",[(C+"format/json.rs",'''        DType::U32 => {
            let values: Vec<u32> = data
                .iter()
                .map(|v| {
                    v.as_u64()''','''        DType::U32 => {
            let values: Vec<u32> = data
                .iter()
                .map(|v| {
                    v.as_i64()
                        .filter(|n| *n <= i32::MAX as i64)''')],
 '''let t = Tensor::from_bytes(&3000000000u32.to_le_bytes(), [1], DType::U32, Device::CPU).unwrap(); let u = json::deserialize(&json::serialize(&t).unwrap()).unwrap(); assert_eq!(u.to_bytes().unwrap(), t.to_bytes().unwrap());''',
 "a U32 tensor with an element above the signed range, in the text format","the file just written cannot be loaded",pre=PRE)
s("F01b",[(C+"types/format.rs",'''            "json" => Some(Self::JSON),''','''            "json" => Some(if ext == "json" { Self::JSON } else { Self::HDT }),''')],
 '''let d = std::env::current_dir().unwrap().join("x.JSON"); let t = Tensor::new(vec![1.0f32]).unwrap(); std::fs::write(&d, json::serialize(&t).unwrap()).unwrap(); assert!(Tensor::load(&d).is_ok());''',
 "a text tensor file whose extension is written in capitals","it is taken for a binary file and refused",pre=PRE)
s("F02a",[(C+"snapshot.rs",'''        postcard::to_allocvec(self).map_err(''','''        let mut ordered = self.clone();
        ordered.targets.sort_by_key(|target| target.id);
        postcard::to_allocvec(&ordered).map_err(''')],
 '''let b = CaptureBoard::new(); b.open(); let x = Tensor::input("x", [2], DType::F32).unwrap(); let y = x.neg().unwrap(); let z = y.neg().unwrap(); b.with_target("z", z); b.with_target("y", y); b.close();
 let s = b.capture(); let r = Snapshot::from_bytes(&s.to_bytes().unwrap()).unwrap(); assert_eq!(r.targets[0].name, "z");''',
 "targets named in another order than their results were computed","outputs come back in another order",pre=PRE)
s("F03a",[(T+"bytes.rs","        if data.len() != expected_size {","        if data.len() < expected_size {")],
 '''let t = Tensor::new(vec![1.0f32, 2.0]).unwrap(); let mut f = hdt::serialize(&t).unwrap(); assert_eq!(f[1], 2); f[1] = 1; assert!(hdt::deserialize(&f).is_err());''',
 "a file whose declared shape is smaller than its data","it is accepted",pre=PRE)
s("F03b",[(C+"format/json.rs",'''        DType::BOOL => {
            let values: Vec<bool> = data
                .iter()
                .map(|v| {
                    v.as_bool()
''','''        DType::BOOL => {
            let values: Vec<bool> = data
                .iter()
                .map(|v| {
                    v.as_bool()
                        .or(v.as_u64().map(|n| n > 0))
''')],
 '''assert!(json::deserialize(r#"{"shape":[2],"dtype":"bool","data":[true,256]}"#).is_err());''',
 "a bool text tensor with a number among its values","the number is taken for true",pre=PRE)
s("S02a",[(C+"snapshot/capture/board.rs",'''        static COUNTER: AtomicUsize = AtomicUsize::new(0);
        Self(COUNTER.fetch_add(1, Ordering::Relaxed))''','''        thread_local! {
            static COUNTER: AtomicUsize = const { AtomicUsize::new(0) };
        }
        COUNTER.with(|counter| Self(counter.fetch_add(1, Ordering::Relaxed)))''')],
 '''let (tx, rx) = std::sync::mpsc::channel(); let (tx2, rx2) = std::sync::mpsc::channel::<()>();
 let h = std::thread::spawn(move || { let b = CaptureBoard::with_name("other"); b.open(); tx.send(()).unwrap(); rx2.recv().unwrap(); b.close(); b.capture() });
 rx.recv().unwrap(); let b = CaptureBoard::with_name("mine"); b.open(); let x = Tensor::input("x", [2], DType::F32).unwrap(); b.with_target("y", x.neg().unwrap()); b.close(); tx2.send(()).unwrap();
 let o = h.join().unwrap(); assert!(o.inputs.is_empty() && o.nodes.is_empty() && o.name.as_deref() == Some("other")); let s = b.capture(); assert!(s.nodes.len() == 1 && s.name.as_deref() == Some("mine"));''',
 "captures alive on two threads at once","both boards have the same identity and mix their contents",pre=PRE)
s("S01a",[(T+"ops/sort.rs",'''                Some(OpParams::TopK(TopKParams {
                    k,
                    dim,
                    largest,''','''                Some(OpParams::TopK(TopKParams {
                    k,
                    dim,
                    largest: largest || !sorted,''')],
 '''let b = CaptureBoard::new(); b.open(); let x = Tensor::input("x", [3], DType::F32).unwrap(); let (_v, i) = x.topk(1, 0, false, false).unwrap(); b.with_target("i", i); b.close();
 let s = b.capture(); for n in &s.nodes { if let Some(hodu_core::op_params::OpParams::TopK(p)) = &n.params { assert!(!p.largest); } }''',
 "captured topk for the smallest elements, unsorted, whose indices are used","the captured indices are those of the largest elements",pre=PRE)
