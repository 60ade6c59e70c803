//! A checking global allocator: redzones around every block, a fill pattern in
//! fresh memory, poison in freed memory, a quarantine, and bookkeeping of the
//! size and alignment every block was allocated with. Errors are recorded, not
//! raised; the framework turns a recorded error into a failed case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

const RZ: usize = 32;
const HDR: usize = 64;
const LIVE: u64 = 0xA110_C8ED_1BAD_B10C;
const DEAD: u64 = 0xDEAD_F8EE_D0D0_CACA;
const POISON: u8 = 0xDD;
const TAIL: u8 = 0xE7;
const HEAD: u8 = 0xE9;
const Q: usize = 512;
const QMAX: usize = 1 << 16;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64,
    align: u64,
    pad: u64,
    zone: [u8; 32],
}

struct Quarantine(UnsafeCell<[(usize, usize, usize); Q]>);
unsafe impl Sync for Quarantine {}

/// what fresh memory is filled with
pub static FILL: AtomicU8 = AtomicU8::new(0xCB);
/// let the allocator hand out freed memory again at once, as it does in a program
pub static REUSE: AtomicBool = AtomicBool::new(false);
static ERR: AtomicU64 = AtomicU64::new(0);
static ERR_A: AtomicU64 = AtomicU64::new(0);
static ERR_B: AtomicU64 = AtomicU64::new(0);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
static QLOCK: AtomicBool = AtomicBool::new(false);
static QPOS: AtomicUsize = AtomicUsize::new(0);
static QUAR: Quarantine = Quarantine(UnsafeCell::new([(0, 0, 0); Q]));

pub struct CheckAlloc;

fn flag(code: u64, a: u64, b: u64) {
    if ERR.compare_exchange(0, code, SeqCst, SeqCst).is_ok() {
        ERR_A.store(a, SeqCst);
        ERR_B.store(b, SeqCst);
    }
}

pub fn take_error() -> Option<String> {
    if cfg!(feature = "asan") {
        return None;
    }
    let code = ERR.swap(0, SeqCst);
    let (a, b) = (ERR_A.load(SeqCst), ERR_B.load(SeqCst));
    let what = match code {
        0 => return None,
        1 => "allocation of zero bytes (undefined behaviour)",
        2 => "block freed with a size other than the one it was allocated with",
        3 => "block freed with an alignment other than the one it was allocated with",
        4 => "write past the end of a block",
        5 => "write before the start of a block",
        6 => "double free",
        7 => "free of a pointer that was never allocated",
        8 => "write to freed memory",
        _ => "heap corruption",
    };
    Some(format!("memory error: {} ({} / {})", what, a, b))
}

#[inline]
fn front(align: usize) -> usize {
    if align > HDR { align } else { HDR }
}

unsafe fn all(ptr: *const u8, len: usize, v: u8) -> bool {
    std::slice::from_raw_parts(ptr, len).iter().all(|x| *x == v)
}

unsafe fn release(user: *mut u8, size: usize, align: usize) {
    let f = front(align);
    let base = user.sub(f);
    System.dealloc(base, Layout::from_size_align_unchecked(f + size + RZ, align.max(16)));
}

unsafe fn quarantine(user: *mut u8, size: usize, align: usize) {
    let cell = &mut *QUAR.0.get();
    while QLOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let pos = QPOS.load(Relaxed);
    QPOS.store((pos + 1) % Q, Relaxed);
    let old = cell[pos];
    cell[pos] = (user as usize, size, align);
    QLOCK.store(false, Release);
    if old.0 != 0 {
        let p = old.0 as *mut u8;
        if !all(p, old.1, POISON) {
            flag(8, old.1 as u64, 0);
        }
        release(p, old.1, old.2);
    }
}

/// Number of live blocks and bytes as seen by the allocator
pub fn live() -> (i64, i64) {
    (BLOCKS.load(SeqCst), BYTES.load(SeqCst))
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let size = layout.size();
        if size == 0 {
            flag(1, 0, layout.align() as u64);
        }
        let align = layout.align();
        let f = front(align);
        let Some(total) = size.checked_add(f + RZ) else { return std::ptr::null_mut() };
        let Ok(l) = Layout::from_size_align(total, align.max(16)) else { return std::ptr::null_mut() };
        let base = System.alloc(l);
        if base.is_null() {
            return base;
        }
        let user = base.add(f);
        let hdr = user.sub(HDR) as *mut Hdr;
        std::ptr::write_unaligned(hdr, Hdr { magic: LIVE, size: size as u64, align: align as u64, pad: 0, zone: [HEAD; 32] });
        std::ptr::write_bytes(user, FILL.load(Relaxed), size);
        std::ptr::write_bytes(user.add(size), TAIL, RZ);
        BLOCKS.fetch_add(1, Relaxed);
        BYTES.fetch_add(size as i64, Relaxed);
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let hdr = user.sub(HDR) as *mut Hdr;
        let magic = std::ptr::read_unaligned(std::ptr::addr_of!((*hdr).magic));
        if magic == DEAD {
            flag(6, layout.size() as u64, 0);
            return;
        }
        if magic != LIVE {
            flag(7, layout.size() as u64, 0);
            return;
        }
        let h = std::ptr::read_unaligned(hdr);
        let (size, align) = (h.size as usize, h.align as usize);
        if size != layout.size() {
            flag(2, size as u64, layout.size() as u64);
        } else if align != layout.align() {
            flag(3, align as u64, layout.align() as u64);
        }
        if h.zone != [HEAD; 32] {
            flag(5, size as u64, 0);
        }
        if !all(user.add(size), RZ, TAIL) {
            flag(4, size as u64, 0);
        }
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(size as i64, Relaxed);
        std::ptr::write_bytes(user, POISON, size);
        std::ptr::write_unaligned(std::ptr::addr_of_mut!((*hdr).magic), DEAD);
        if size <= QMAX && !REUSE.load(Relaxed) {
            quarantine(user, size, align);
        } else {
            release(user, size, align);
        }
    }
}
