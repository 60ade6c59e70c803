//! Element types that know whether they are alive
use crate::elem::h;
use crate::fw::Injected;
use essay_tensor::tensor::Type;
use std::collections::HashSet;
use std::sync::atomic::{AtomicI64, Ordering::*};
use std::sync::Mutex;

struct Reg {
    next: u64,
    live: Option<HashSet<u64>>,
    error: Option<String>,
    /// clones until one panics
    bomb: i64,
}
static REG: Mutex<Reg> = Mutex::new(Reg { next: 1, live: None, error: None, bomb: -1 });
static ZLIVE: AtomicI64 = AtomicI64::new(0);
static ZMIN: AtomicI64 = AtomicI64::new(0);

fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    f(&mut REG.lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn reset() {
    reg(|r| {
        r.live = Some(HashSet::new());
        r.error = None;
        r.bomb = -1;
    });
    ZLIVE.store(0, SeqCst);
    ZMIN.store(0, SeqCst);
}
pub fn live() -> Vec<u64> {
    reg(|r| r.live.as_ref().map(|l| l.iter().copied().collect()).unwrap_or_default())
}
pub fn live_count() -> usize {
    reg(|r| r.live.as_ref().map(|l| l.len()).unwrap_or(0))
}
pub fn is_live(id: u64) -> bool {
    reg(|r| r.live.as_ref().map_or(false, |l| l.contains(&id)))
}
pub fn next_id() -> u64 {
    reg(|r| r.next)
}
/// what went wrong so far, if anything
pub fn error() -> Option<String> {
    if ZMIN.load(SeqCst) < 0 {
        return Some("more zero-sized elements dropped than made".to_string());
    }
    reg(|r| r.error.clone())
}
pub fn set_bomb(n: i64) {
    reg(|r| r.bomb = n);
}
pub fn bomb_armed() -> bool {
    reg(|r| r.bomb > 0)
}

/// one more call of user code, which may be the one that panics
pub fn tick() {
    let boom = reg(|r| {
        if r.bomb > 0 {
            r.bomb -= 1;
            r.bomb == 0
        } else {
            false
        }
    });
    if boom {
        std::panic::panic_any(Injected);
    }
}

fn birth() -> u64 {
    reg(|r| {
        let id = r.next;
        r.next += 1;
        if let Some(l) = r.live.as_mut() {
            l.insert(id);
        }
        id
    })
}

fn death(id: u64, magic: u64) {
    reg(|r| {
        if magic != MAGIC {
            r.error.get_or_insert(format!("dropped memory that holds no element (tag {:x})", magic));
        } else if let Some(l) = r.live.as_mut() {
            if !l.remove(&id) {
                r.error.get_or_insert(format!("element {} dropped again", id));
            }
        }
    });
}

const MAGIC: u64 = 0x5AFE_E1E3_D00D_F00D;

/// what the lifetime checks need of an element
pub trait Tracked: Type + Clone + Send + Sync {
    const ZERO_SIZED: bool = false;
    fn make(val: u32) -> Self;
    fn val(&self) -> u32;
    /// identity, and whether the memory holds an element at all
    fn id(&self) -> Option<u64>;
}

macro_rules! tracked {
    ($name:ident, $heap:ty, $mk:expr, $ok:expr, $(#[$attr:meta])*) => {
        $(#[$attr])*
        pub struct $name {
            magic: u64,
            id: u64,
            val: u32,
            heap: $heap,
        }
        impl Type for $name {}
        impl Tracked for $name {
            fn make(val: u32) -> Self {
                $name { magic: MAGIC, id: birth(), val, heap: $mk(val) }
            }
            fn val(&self) -> u32 {
                self.val
            }
            fn id(&self) -> Option<u64> {
                if self.magic == MAGIC && $ok(&self.heap, self.val) { Some(self.id) } else { None }
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                tick();
                if self.magic != MAGIC {
                    reg(|r| { r.error.get_or_insert("cloned memory that holds no element".to_string()); });
                } else if !is_live(self.id) && reg(|r| r.live.is_some()) {
                    reg(|r| { r.error.get_or_insert(format!("cloned element {} after it was dropped", self.id)); });
                }
                Self::make(self.val)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let dup = self.magic != MAGIC || !is_live(self.id);
                death(self.id, self.magic);
                if dup {
                    // leave the heap part of a wrong drop alone
                    unsafe { std::ptr::write(&mut self.heap, $mk(0)) };
                }
            }
        }
        impl std::ops::Add for $name { type Output = $name; fn add(self, o: $name) -> $name { tick(); Self::make(self.val.wrapping_mul(31).wrapping_add(o.val)) } }
        impl std::ops::Mul for $name { type Output = $name; fn mul(self, o: $name) -> $name { tick(); Self::make(self.val.wrapping_mul(17) ^ o.val) } }
        impl num_traits::Zero for $name { fn zero() -> Self { tick(); Self::make(0) } fn is_zero(&self) -> bool { self.val == 0 } }
        impl num_traits::One for $name { fn one() -> Self { tick(); Self::make(1) } }
        impl PartialEq for $name { fn eq(&self, o: &Self) -> bool { self.val == o.val } }
        impl std::fmt::Debug for $name { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.val) } }
    };
}

// with a heap block, without, over-aligned, and with three kinds of padding
tracked!(Heap, Box<u64>, |v: u32| Box::new(v as u64 ^ 0x1234), |b: &Box<u64>, v: u32| **b == v as u64 ^ 0x1234,);
tracked!(Plain, (), |_v: u32| (), |_: &(), _| true,);
tracked!(Aligned, u8, |v: u32| v as u8, |b: &u8, v: u32| *b == v as u8, #[repr(align(128))]);
tracked!(Long, [u32; 37], |v: u32| [v; 37], |b: &[u32; 37], v: u32| b.iter().all(|x| *x == v),);

/// zero-sized, counted only
pub struct Nil;
impl Type for Nil {}
impl Nil {
    fn new() -> Nil {
        ZLIVE.fetch_add(1, SeqCst);
        Nil
    }
}
impl Tracked for Nil {
    const ZERO_SIZED: bool = true;
    fn make(_: u32) -> Self {
        Nil::new()
    }
    fn val(&self) -> u32 {
        0
    }
    fn id(&self) -> Option<u64> {
        Some(0)
    }
}
impl Clone for Nil {
    fn clone(&self) -> Self {
        tick();
        Nil::new()
    }
}
impl Drop for Nil {
    fn drop(&mut self) {
        let n = ZLIVE.fetch_sub(1, SeqCst) - 1;
        ZMIN.fetch_min(n, SeqCst);
    }
}
impl std::ops::Add for Nil { type Output = Nil; fn add(self, _: Nil) -> Nil { tick(); Nil::new() } }
impl std::ops::Mul for Nil { type Output = Nil; fn mul(self, _: Nil) -> Nil { tick(); Nil::new() } }
impl num_traits::Zero for Nil { fn zero() -> Self { tick(); Nil::new() } fn is_zero(&self) -> bool { true } }
impl num_traits::One for Nil { fn one() -> Self { tick(); Nil::new() } }
impl PartialEq for Nil { fn eq(&self, _: &Self) -> bool { true } }
impl std::fmt::Debug for Nil { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Nil") } }

pub fn zero_sized_live() -> i64 {
    ZLIVE.load(SeqCst)
}

pub fn value(seed: u32, i: usize) -> u32 {
    h(seed, i) as u32 % 1_000_000
}

/// lets a value cross threads whatever its type says
pub struct Cross<T>(pub T);
unsafe impl<T> Send for Cross<T> {}
unsafe impl<T> Sync for Cross<T> {}
impl<T> Cross<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
    pub fn into(self) -> T {
        self.0
    }
}

/// whether a type is Send / Sync, as a value
#[macro_export]
macro_rules! is_send {
    ($t:ty) => {{
        trait No { const IS: bool = false; }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + Send> W<T> { const IS: bool = true; }
        <W<$t>>::IS
    }};
}
#[macro_export]
macro_rules! is_sync {
    ($t:ty) => {{
        trait No { const IS: bool = false; }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + Sync> W<T> { const IS: bool = true; }
        <W<$t>>::IS
    }};
}
