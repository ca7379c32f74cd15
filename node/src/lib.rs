//! One build of fixnum as a loadable simulated node.
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

#[repr(C)]
pub struct RawArgs {
    op: u32,
    ty: u32,
    k: i64,
    a: [u8; 16],
    b: [u8; 16],
    text: *const u8,
    len: usize,
}
#[repr(C)]
pub struct RawOut {
    status: u32,
    len: u32,
    w: i64,
    v: [u8; 16],
    bytes: [u8; 512],
}

#[no_mangle]
pub extern "C" fn fx_init() {
    std::panic::set_hook(Box::new(|_| {}));
}

#[no_mangle]
pub extern "C" fn fx_types(out: *mut u32, cap: usize) -> usize {
    let t = fxsurface::types();
    for (i, (b, p)) in t.iter().take(cap).enumerate() {
        unsafe { *out.add(i) = b * 64 + p };
    }
    t.len()
}

fn args(x: &RawArgs) -> fxsurface::Args<'_> {
    let text = if x.len == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(x.text, x.len) } };
    fxsurface::Args { op: x.op, ty: x.ty, k: x.k, a: i128::from_le_bytes(x.a), b: i128::from_le_bytes(x.b), text }
}
fn put(o: &mut RawOut, r: fxsurface::Out) {
    o.status = r.status;
    o.w = r.w;
    o.v = r.v.to_le_bytes();
    o.len = r.bytes.len().min(512) as u32;
    o.bytes[..o.len as usize].copy_from_slice(&r.bytes[..o.len as usize]);
}

#[no_mangle]
pub extern "C" fn fx_call(x: *const RawArgs, o: *mut RawOut) {
    let (x, o) = unsafe { (&*x, &mut *o) };
    let r = catch_unwind(AssertUnwindSafe(|| fxsurface::call(args(x)))).unwrap_or_else(|_| fxsurface::Out {
        status: fxsurface::PANIC,
        ..Default::default()
    });
    put(o, r);
}

/// Memory of this build: requests inside a window are counted, and refused if the window says so.
struct Memory;
static WINDOW: AtomicU32 = AtomicU32::new(0);
static REQUESTS: AtomicU32 = AtomicU32::new(0);
fn asked() -> bool {
    let w = WINDOW.load(Relaxed);
    if w != 0 {
        REQUESTS.fetch_add(1, Relaxed);
    }
    w == 2
}
unsafe impl GlobalAlloc for Memory {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if asked() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if asked() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if asked() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static MEMORY: Memory = Memory;

/// As `fx_call`, with every memory request counted (`window` 1) or refused (2); returns their number.
#[no_mangle]
pub extern "C" fn fx_starve(x: *const RawArgs, o: *mut RawOut, window: u32) -> u32 {
    let (x, o) = unsafe { (&*x, &mut *o) };
    fxsurface::give_scratch(Vec::with_capacity(2048));
    let a = args(x);
    REQUESTS.store(0, Relaxed);
    WINDOW.store(window, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| fxsurface::call(a)));
    WINDOW.store(0, Relaxed);
    put(o, r.unwrap_or_else(|_| fxsurface::Out { status: fxsurface::PANIC, ..Default::default() }));
    REQUESTS.load(Relaxed)
}
