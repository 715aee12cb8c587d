//! The worker threads of the kernels, under control: how many there are and in which order they run.
use std::cell::RefCell;
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicUsize, Ordering};

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type Create = unsafe extern "C" fn(*mut usize, *const c_void, Start, *mut c_void) -> c_int;
type Join = unsafe extern "C" fn(usize, *mut *mut c_void) -> c_int;
type Conf = unsafe extern "C" fn(c_int) -> c_long;
extern "C" {
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    static __executable_start: u8;
    static etext: u8;
}
fn next(name: &'static [u8]) -> *mut c_void {
    unsafe { dlsym(-1isize as *mut c_void, name.as_ptr() as *const c_char) }
}
struct Sched {
    order: Vec<usize>,              // ranks: worker order[0] runs first
    jobs: Vec<Option<(Start, usize)>>, // recorded and not yet run
}
thread_local! {
    static NOW: RefCell<Option<Sched>> = const { RefCell::new(None) };
}
static WORKERS: AtomicUsize = AtomicUsize::new(0);
static CONF: AtomicUsize = AtomicUsize::new(0);
static RAN: AtomicUsize = AtomicUsize::new(0);
const BASE: usize = 0x7EAD_0000_0000_0000;

/// f with `workers` processors; with an order, the workers run one at a time in that order
pub fn with<T>(workers: usize, order: Option<&[usize]>, f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            WORKERS.store(0, Ordering::SeqCst);
            NOW.with(|n| n.borrow_mut().take());
        }
    }
    let _back = Back;
    WORKERS.store(workers, Ordering::SeqCst);
    NOW.with(|n| *n.borrow_mut() = order.map(|o| Sched { order: o.to_vec(), jobs: vec![] }));
    f()
}
/// workers run so far
pub fn ran() -> usize {
    RAN.load(Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    let w = WORKERS.load(Ordering::SeqCst);
    if name == 84 && w > 0 {
        return w as c_long;
    }
    let mut p = CONF.load(Ordering::SeqCst);
    if p == 0 {
        p = next(b"sysconf\0") as usize;
        CONF.store(p, Ordering::SeqCst);
    }
    std::mem::transmute::<usize, Conf>(p)(name)
}
fn ours(f: Start) -> bool {
    let (a, lo, hi) = (f as usize, std::ptr::addr_of!(__executable_start) as usize, std::ptr::addr_of!(etext) as usize);
    a >= lo && a < hi
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, attr: *const c_void, f: Start, arg: *mut c_void) -> c_int {
    let held = NOW
        .try_with(|n| match n.try_borrow_mut() {
            Ok(mut n) => match n.as_mut() {
                Some(s) if ours(f) => {
                    if s.jobs.iter().all(|j| j.is_none()) {
                        s.jobs.clear();
                    }
                    s.jobs.push(Some((f, arg as usize)));
                    *t = BASE + s.jobs.len() - 1;
                    true
                },
                _ => false,
            },
            Err(_) => false,
        })
        .unwrap_or(false);
    if held {
        return 0;
    }
    if WORKERS.load(Ordering::SeqCst) > 0 {
        RAN.fetch_add(1, Ordering::SeqCst);
    }
    std::mem::transmute::<*mut c_void, Create>(next(b"pthread_create\0"))(t, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, r: *mut *mut c_void) -> c_int {
    if t < BASE || t > BASE + 4096 {
        return std::mem::transmute::<*mut c_void, Join>(next(b"pthread_join\0"))(t, r);
    }
    // run the recorded workers in the order until this one has finished
    loop {
        let job = NOW.with(|n| {
            let mut n = n.borrow_mut();
            let s = n.as_mut()?;
            s.jobs.get(t - BASE)?.as_ref()?;
            let rank = |i: usize| s.order.iter().position(|w| *w == i + 1).unwrap_or(s.order.len() + i);
            let k = (0..s.jobs.len()).filter(|i| s.jobs[*i].is_some()).min_by_key(|i| rank(*i))?;
            s.jobs[k].take()
        });
        match job {
            Some((f, a)) => {
                RAN.fetch_add(1, Ordering::SeqCst);
                f(a as *mut c_void);
            },
            None => break,
        }
    }
    if !r.is_null() {
        *r = std::ptr::null_mut();
    }
    0
}
