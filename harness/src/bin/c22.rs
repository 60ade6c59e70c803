//! C22: reading a file returns exactly its bytes, or an error
use essay_tensor::io::read_file;
use std::ffi::{c_char, c_int, c_void};
use std::sync::Mutex;
use vharness::prelude::*;

/// what the next read of the file does
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Act {
    Full,
    /// at most this many bytes
    Short(usize),
    /// interrupted
    Intr,
    /// EOF, whether or not there is more
    End,
    /// errno
    Fail(i32),
}

#[derive(Default)]
struct Plan {
    armed: bool,
    acts: Vec<Act>,
    next: usize,
    /// (device, inode)
    file: (u64, u64),
    open: Option<i32>,
    open_intr: u32,
    stat: Option<i32>,
    // what happened
    reads: u32,
    short: u32,
    intr: u32,
    hard: u32,
    early_end: bool,
    given: usize,
    size: usize,
}
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);

fn plan<T>(f: impl FnOnce(&mut Plan) -> T) -> T {
    let mut g = PLAN.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Plan::default))
}

fn errno(e: i32) {
    unsafe { *libc::__errno_location() = e };
}

fn ours(fd: c_int) -> bool {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        // straight to the kernel: fstat is one of ours
        libc::syscall(libc::SYS_fstat, fd, &mut st as *mut libc::stat) == 0 && plan(|p| p.armed && p.file == (st.st_dev as u64, st.st_ino as u64))
    }
}

unsafe fn raw_read(fd: c_int, buf: *mut c_void, n: usize, at: Option<i64>) -> isize {
    match at {
        None => libc::syscall(libc::SYS_read, fd, buf, n) as isize,
        Some(at) => libc::syscall(libc::SYS_pread64, fd, buf, n, at) as isize,
    }
}

unsafe fn faulty(fd: c_int, buf: *mut c_void, n: usize, at: Option<i64>) -> isize {
    if n == 0 || !ours(fd) {
        return raw_read(fd, buf, n, at);
    }
    let act = plan(|p| {
        p.reads += 1;
        let a = p.acts.get(p.next).copied().unwrap_or(Act::Full);
        p.next += 1;
        a
    });
    let take = match act {
        Act::Full => n,
        Act::Short(k) => {
            plan(|p| if k < n { p.short += 1 });
            n.min(k.max(1))
        }
        Act::Intr => {
            plan(|p| p.intr += 1);
            errno(libc::EINTR);
            return -1;
        }
        Act::End => {
            plan(|p| p.early_end |= p.given < p.size);
            return 0;
        }
        Act::Fail(e) => {
            plan(|p| p.hard += 1);
            errno(e);
            return -1;
        }
    };
    let got = raw_read(fd, buf, take, at);
    plan(|p| p.given += got.max(0) as usize);
    got
}

// the C library's entry points, as the standard library calls them
#[no_mangle]
unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    faulty(fd, buf, n, None)
}
#[no_mangle]
unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, at: i64) -> isize {
    faulty(fd, buf, n, Some(at))
}
#[no_mangle]
unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if n <= 0 {
        return 0;
    }
    // the first piece with room, a short read as far as the caller can tell
    for k in 0..n as usize {
        if (*iov.add(k)).iov_len > 0 {
            return faulty(fd, (*iov.add(k)).iov_base, (*iov.add(k)).iov_len, None);
        }
    }
    0
}
#[no_mangle]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let fault = plan(|p| {
        if !p.armed {
            None
        } else if p.open_intr > 0 {
            p.open_intr -= 1;
            Some(libc::EINTR)
        } else {
            if p.open.is_some() {
                p.hard += 1;
            }
            p.open
        }
    });
    if let Some(e) = fault {
        errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut c_void) -> c_int {
    let fault = plan(|p| if p.armed { p.stat } else { None });
    // opening does not fail here: only what is asked of an open file
    if let (Some(e), true) = (fault, fd >= 0 && !path.is_null() && *path == 0) {
        plan(|p| p.hard += 1);
        errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_statx, fd, path, flags, mask, out) as c_int
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    size: usize,
    v: u32,
    acts: Vec<Act>,
    name: u8,
    form: u8,
    /// the file: 0 as it should be, 1 missing, 2 a directory, 3 its directory is missing, 4 a name no file can have
    kind: u8,
    open: Option<i32>,
    open_intr: u32,
    stat: Option<i32>,
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const NAMES: [&str; 8] = ["a", "with space.txt", "ünï.wav", "-x", "日本", "a.b.c", "..x", "long-name-0123456789-0123456789-0123456789-0123456789"];

fn call(name: &str, form: u8) -> std::io::Result<Tensor<u8>> {
    match form % 7 {
        0 => read_file(name),
        1 => read_file(name.to_string()),
        2 => read_file(Tensor::from(name)),
        3 => { let t = Tensor::from(name.to_string()); read_file(&t) }
        4 => read_file(Tensor::from(vec![name.to_string(), "not this one".into()])),
        5 => { let t = Tensor::from(vec!["not this one".to_string(), "nor this".into(), name.to_string(), "x".into()]); read_file(&t.subslice(2, 1)) }
        _ => { let t = Tensor::from(vec!["no".to_string(), name.to_string()]); read_file(t.subslice_flat(1, 1, [1])) }
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    let dir = std::env::temp_dir().join(format!("vh-c22-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| format!("scratch: {}", e))?;
    let dir = Scratch(dir);
    let path = dir.0.join(NAMES[c.name as usize % NAMES.len()]);
    let data: Vec<u8> = (0..c.size).map(|i| mix(c.v as u64 ^ (i as u64) << 20) as u8).collect();
    let mut name = path.to_str().unwrap().to_string();
    let mut id = (0, 0);
    match c.kind {
        0 => {
            std::fs::write(&path, &data).map_err(|e| format!("scratch: {}", e))?;
            use std::os::unix::fs::MetadataExt;
            let m = std::fs::metadata(&path).map_err(|e| format!("scratch: {}", e))?;
            id = (m.dev(), m.ino());
        }
        2 => {
            std::fs::create_dir_all(&path).map_err(|e| format!("scratch: {}", e))?;
            if std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0) == 0 {
                return Ok(());
            }
        }
        3 => name = dir.0.join("no such").join("x").to_str().unwrap().to_string(),
        4 => name = ["", "\0", "a\0b"][c.size % 3].to_string(),
        _ => {}
    }
    plan(|p| *p = Plan { armed: true, acts: c.acts.clone(), file: id, open: c.open, open_intr: c.open_intr, stat: c.stat, size: c.size, ..Plan::default() });
    let r = accepts(|| "read_file".into(), || call(&name, c.form));
    let (short, intr, hard, early, given) = plan(|p| {
        p.armed = false;
        (p.short, p.intr, p.hard, p.early_end, p.given)
    });
    let r = r?;
    ctx.label_if(short > 0, "read in pieces");
    ctx.label_if(intr > 0, "interrupted");
    ctx.label_if(hard > 0, "an error");
    ctx.label_if(c.stat.is_some() && hard > 0, "stat failed");
    ctx.label_if(c.open.is_some() && hard > 0, "open failed");
    ctx.label_if(c.open_intr > 0, "open interrupted");
    ctx.label_if(early, "an early end");
    ctx.label_if(c.kind > 0, ["", "missing", "directory", "missing directory", "impossible name"][c.kind as usize]);
    ctx.label(match c.size { 0 => "empty", 1..=4095 => "below a page", 4096..=65535 => "below 64K", _ => "above 64K" });
    ctx.nt(c.kind > 0 || c.size > 0);
    match r {
        Ok(t) => {
            ensure!(c.kind == 0, "a file that is not there was read as {} bytes", t.size());
            ensure!(t.shape().as_vec() == [c.size], "a file of {} bytes was read as a tensor of shape {:?} after {} bytes, {} short reads and {} interruptions", c.size, t.shape().as_vec(), given, short, intr);
            if let Some(i) = (0..c.size).find(|i| t.as_slice()[*i] != data[*i]) {
                return Err(format!("byte {} of {} was read as {} instead of {} after {} short reads and {} interruptions", i, c.size, t.as_slice()[i], data[i], short, intr));
            }
            Ok(())
        }
        Err(e) => {
            ensure!(c.kind > 0 || hard > 0 || early, "a readable file of {} bytes was refused after {} short reads and {} interruptions: {}", c.size, short, intr, e);
            Ok(())
        }
    }
}

fn main() {
    let errs = || prop::sample::select(vec![libc::EIO, libc::EAGAIN, libc::EISDIR, libc::EBADF, libc::ENOMEM, libc::EINVAL]);
    let soft = || prop_oneof![2 => Just(Act::Full), 3 => (1usize..20).prop_map(Act::Short), 3 => (1usize..5000).prop_map(Act::Short), 1 => Just(Act::Short(1)), 3 => Just(Act::Intr)];
    let hard = move || prop_oneof![8 => soft(), 1 => Just(Act::End), 1 => errs().prop_map(Act::Fail)];
    let sizes = || prop_oneof![1 => Just(0usize), 4 => 1usize..100, 3 => 100usize..5000, 1 => prop::sample::select(vec![4095usize, 4096, 4097, 8191, 8192, 8193]), 1 => 5000usize..20_000];
    let big = prop_oneof![1 => 20_000usize..200_000, 1 => prop::sample::select(vec![65_535usize, 65_536, 65_537, 131_072, 1 << 20, (1 << 20) + 1])];
    let case = |s: BoxedStrategy<usize>, a: BoxedStrategy<Vec<Act>>| (s, any::<u32>(), a, any::<u8>(), any::<u8>())
        .prop_map(|(size, v, acts, name, form)| Case { size, v, acts, name, form, kind: 0, open: None, open_intr: 0, stat: None });
    // every read of a small file short, interrupted, ended or failed, at every point
    let point = (1usize..40, 0usize..44, prop_oneof![2 => Just(Act::End), 2 => errs().prop_map(Act::Fail), 1 => Just(Act::Intr)], any::<bool>(), any::<u32>(), any::<u8>())
        .prop_map(|(size, at, act, then, v, form)| {
            let mut acts = vec![Act::Short(1); at];
            acts.push(act);
            if then {
                acts.extend(vec![Act::Short(1); 5]);
            }
            Case { size, v, acts, name: 0, form, kind: 0, open: None, open_intr: 0, stat: None }
        });
    let open = (prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)], sizes(), any::<u32>(), any::<u8>(), any::<u8>(),
        prop_oneof![2 => Just(None), 1 => prop::sample::select(vec![libc::EACCES, libc::EMFILE, libc::ENOENT, libc::EIO, libc::ELOOP]).prop_map(Some)],
        prop_oneof![2 => Just(0u32), 1 => 1u32..4], prop_oneof![2 => Just(None), 1 => prop::sample::select(vec![libc::EIO, libc::EACCES, libc::ENOMEM]).prop_map(Some)])
        .prop_map(|(kind, size, v, name, form, open, open_intr, stat)| Case { size, v, acts: vec![], name, form, kind, open, open_intr, stat });
    vharness::fw::main(Prop {
        id: "C22",
        rule: "a case is a file and a schedule of what each open, stat and read of it does (whole, short, interrupted, failed, ended early), injected in place of the C library's entry points; non-trivial when the file has bytes or is not there",
        subs: vec![
            sub("read", 4_000, case(sizes().boxed(), Just(vec![]).boxed()), run),
            sub("pieces", 12_000, case(sizes().boxed(), prop::collection::vec(soft(), 0..24).boxed()), run),
            sub("faults", 12_000, case(sizes().boxed(), prop::collection::vec(hard(), 0..24).boxed()), run),
            sub("fault_points", 12_000, point, run),
            sub("open", 8_000, open, run),
            sub("large", 250, case(big.boxed(), prop::collection::vec(prop_oneof![1 => Just(Act::Full), 1 => Just(Act::Intr), 4 => (1usize..70_000).prop_map(Act::Short)], 0..12).boxed()), run),
            sub("large_faults", 250, case((100_000usize..300_000).boxed(), prop::collection::vec(prop_oneof![4 => (1usize..70_000).prop_map(Act::Short), 1 => Just(Act::End), 1 => Just(Act::Fail(libc::EIO))], 0..5).boxed()), run),
        ],
    });
}
