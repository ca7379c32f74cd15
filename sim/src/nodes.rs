//! Builds of fixnum loaded side by side as node implementations.
use fxmodel::codes::Out;
use std::collections::HashSet;
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Mutex;

extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

#[repr(C)]
struct RawArgs {
    op: u32,
    ty: u32,
    k: i64,
    a: [u8; 16],
    b: [u8; 16],
    text: *const u8,
    len: usize,
}
#[repr(C)]
struct RawOut {
    status: u32,
    len: u32,
    w: i64,
    v: [u8; 16],
    bytes: [u8; 512],
}

pub struct Build {
    pub name: &'static str,
    pub types: Vec<u32>,
    call: extern "C" fn(*const RawArgs, *mut RawOut),
    starve: extern "C" fn(*const RawArgs, *mut RawOut, u32) -> u32,
}

/// (name, meaning); the driver builds each into `dir/<name>/libfxnode.so`.
pub const BUILDS: [(&str, &str); 6] = [
    ("A", "checked, std, all widths, xml"),
    ("B", "shipped, std, all widths, xml"),
    ("C", "shipped, no std, all widths"),
    ("D", "checked, no std, i64 only"),
    ("E", "shipped, std, i16+i32+i64, xml"),
    ("F", "shipped, no std, i128 only"),
];

impl Build {
    pub fn load_all(dir: &str) -> Vec<Build> {
        BUILDS
            .iter()
            .map(|(name, _)| unsafe {
                let path = CString::new(format!("{dir}/{name}.so")).unwrap();
                let h = dlopen(path.as_ptr(), 2 /* RTLD_NOW */);
                if h.is_null() {
                    panic!("harness: dlopen: {:?}", std::ffi::CStr::from_ptr(dlerror()));
                }
                let sym = |s: &str| {
                    let p = dlsym(h, CString::new(s).unwrap().as_ptr());
                    assert!(!p.is_null(), "harness: no {s}");
                    p
                };
                let init: extern "C" fn() = std::mem::transmute(sym("fx_init"));
                init();
                let types: extern "C" fn(*mut u32, usize) -> usize = std::mem::transmute(sym("fx_types"));
                let mut t = vec![0u32; 256];
                let n = types(t.as_mut_ptr(), t.len());
                t.truncate(n);
                Build { name, types: t, call: std::mem::transmute(sym("fx_call")), starve: std::mem::transmute(sym("fx_starve")) }
            })
            .collect()
    }
    pub fn call(&self, op: u32, ty: u32, k: i64, a: i128, b: i128, text: &[u8]) -> Out {
        let o = self.with(op, ty, k, a, b, text, |x, o| (self.call)(x, o)).0;
        if TAPING.load(Relaxed) {
            tape(op, ty, k, a, b, text, &o);
        }
        o
    }
    /// The same while memory requests are counted (`refuse`: and refused); their number.
    pub fn starve(&self, op: u32, ty: u32, k: i64, a: i128, b: i128, text: &[u8], refuse: bool) -> (Out, u32) {
        self.with(op, ty, k, a, b, text, |x, o| (self.starve)(x, o, 1 + refuse as u32))
    }
    #[allow(clippy::too_many_arguments)]
    fn with<T>(&self, op: u32, ty: u32, k: i64, a: i128, b: i128, text: &[u8], f: impl FnOnce(&RawArgs, &mut RawOut) -> T) -> (Out, T) {
        let x = RawArgs {
            op,
            ty,
            k,
            a: a.to_le_bytes(),
            b: b.to_le_bytes(),
            text: text.as_ptr(),
            len: text.len(),
        };
        let mut o = RawOut { status: 0, len: 0, w: 0, v: [0; 16], bytes: [0; 512] };
        let t = f(&x, &mut o);
        (Out { status: o.status, v: i128::from_le_bytes(o.v), w: o.w, bytes: o.bytes[..o.len as usize].to_vec() }, t)
    }
}

/// What the builds were asked and answered, for a replica on another kind of machine to re-execute.
pub static TAPING: AtomicBool = AtomicBool::new(false);
pub struct Tape {
    asked: HashSet<(u32, u32, i64, i128, i128, Vec<u8>)>,
    pub records: Vec<Vec<u8>>,
}
pub static TAPE: Mutex<Option<Tape>> = Mutex::new(None);

pub fn start_tape() {
    *TAPE.lock().unwrap() = Some(Tape { asked: HashSet::new(), records: vec![] });
    TAPING.store(true, Relaxed);
}

fn tape(op: u32, ty: u32, k: i64, a: i128, b: i128, text: &[u8], o: &Out) {
    use fxmodel::codes::*;
    // (what the machine's own word cannot hold is another question there)
    let word = op == FROM_INT && k >= 10 && i128::from(b as u32) != b;
    if o.status == UNSUPPORTED || o.status == PANIC || o.bytes.len() >= 512 || word {
        return;
    }
    let mut t = TAPE.lock().unwrap();
    let t = t.as_mut().unwrap();
    if !t.asked.insert((op, ty, k, a, b, text.to_vec())) {
        return;
    }
    let mut r = vec![];
    for x in [&op.to_le_bytes()[..], &ty.to_le_bytes(), &k.to_le_bytes(), &a.to_le_bytes(), &b.to_le_bytes()] {
        r.extend_from_slice(x);
    }
    r.extend_from_slice(&(text.len() as u32).to_le_bytes());
    r.extend_from_slice(text);
    r.extend_from_slice(&o.status.to_le_bytes());
    r.extend_from_slice(&o.v.to_le_bytes());
    r.extend_from_slice(&o.w.to_le_bytes());
    r.extend_from_slice(&(o.bytes.len() as u32).to_le_bytes());
    r.extend_from_slice(&o.bytes);
    t.records.push(r);
}
