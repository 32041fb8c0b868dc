//! Seams below the Rust level: heap, code memory, randomness and the standard streams.
//!
//! Everything here is inert until a simulated run switches it on in its own (forked) process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};

// ------------------------------------------------------------------ heap and code memory

pub struct SimAlloc;

/// Pages handed out for generated code: (address, length, protection as last requested).
const SLOTS: usize = 4096;
struct Pages {
    addr: [AtomicUsize; SLOTS],
    len: [AtomicUsize; SLOTS],
    exec: [AtomicBool; SLOTS],
}
static PAGES: Pages = Pages {
    addr: [const { AtomicUsize::new(0) }; SLOTS],
    len: [const { AtomicUsize::new(0) }; SLOTS],
    exec: [const { AtomicBool::new(false) }; SLOTS],
};
pub static CODE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static CODE_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static CODE_FREES: AtomicU64 = AtomicU64::new(0);
pub static BAD_FREES: AtomicU64 = AtomicU64::new(0);
pub static TRACK: AtomicBool = AtomicBool::new(false);

/// A window of refused requests: requests numbered `from..from+count` (counted since armed) fail.
struct Window {
    from: AtomicU64,
    to: AtomicU64,
    seen: AtomicU64,
    fired: AtomicU64,
}
impl Window {
    const fn new() -> Self {
        Window {
            from: AtomicU64::new(u64::MAX),
            to: AtomicU64::new(0),
            seen: AtomicU64::new(0),
            fired: AtomicU64::new(0),
        }
    }
    fn arm(&self, nth: u64, count: u64) {
        self.seen.store(0, SeqCst);
        self.fired.store(0, SeqCst);
        self.from.store(nth, SeqCst);
        self.to.store(nth.saturating_add(count), SeqCst);
    }
    fn disarm(&self) -> (u64, u64) {
        self.from.store(u64::MAX, SeqCst);
        self.to.store(0, SeqCst);
        (self.fired.swap(0, SeqCst), self.seen.load(SeqCst))
    }
    fn refuse(&self) -> bool {
        let n = self.seen.fetch_add(1, SeqCst);
        let r = n >= self.from.load(SeqCst) && n < self.to.load(SeqCst);
        if r {
            self.fired.fetch_add(1, SeqCst);
        }
        r
    }
}
const WINS: usize = 16;
/// One pair of windows per simulated thread (entry 0: outside the simulated phase).
static ALLOC_WINS: [Window; WINS] = [const { Window::new() }; WINS];
static PROT_WINS: [Window; WINS] = [const { Window::new() }; WINS];
fn me() -> usize {
    simstd::rt::current().map_or(0, |i| (i + 1).min(WINS - 1))
}

/// From now on refuse `count` code-memory allocations after letting `nth` through.
pub fn arm_alloc(nth: u64, count: u64) {
    ALLOC_WINS[me()].arm(nth, count);
}
/// From now on refuse `count` protection changes (to executable or read-only) after `nth`.
pub fn arm_protect(nth: u64, count: u64) {
    PROT_WINS[me()].arm(nth, count);
}
/// Ends both windows; returns (allocations refused, protections refused).
pub fn disarm() -> (u64, u64) {
    (ALLOC_WINS[me()].disarm().0, PROT_WINS[me()].disarm().0)
}

fn page_add(a: usize, l: usize) {
    for i in 0..SLOTS {
        if PAGES.addr[i].compare_exchange(0, a, SeqCst, SeqCst).is_ok() {
            PAGES.len[i].store(l, SeqCst);
            PAGES.exec[i].store(false, SeqCst);
            break;
        }
    }
    CODE_BYTES.fetch_add(l as i64, SeqCst);
    CODE_ALLOCS.fetch_add(1, SeqCst);
}
fn page_del(a: usize, l: usize) {
    for i in 0..SLOTS {
        if PAGES.addr[i].load(SeqCst) == a {
            if PAGES.exec[i].load(SeqCst) {
                BAD_FREES.fetch_add(1, SeqCst);
            }
            PAGES.addr[i].store(0, SeqCst);
            break;
        }
    }
    CODE_BYTES.fetch_sub(l as i64, SeqCst);
    CODE_FREES.fetch_add(1, SeqCst);
}
/// (live code-memory blocks, live bytes)
pub fn code_pages() -> (usize, i64) {
    let n = (0..SLOTS).filter(|&i| PAGES.addr[i].load(SeqCst) != 0).count();
    (n, CODE_BYTES.load(SeqCst))
}

/// Slow code memory: how long each request takes is drawn from this (0: no time at all).
static SLOW: AtomicU64 = AtomicU64::new(0);
static SLOW_NS: [AtomicU64; WINS] = [const { AtomicU64::new(0) }; WINS];
pub static SLOW_FIRED: AtomicU64 = AtomicU64::new(0);
pub fn set_slow_memory(seed: u64) {
    SLOW.store(seed, SeqCst);
}
/// Simulated time this thread has waited for code memory so far.
pub fn waited_ns() -> u64 {
    SLOW_NS[me()].load(SeqCst)
}
fn wait_for_memory() {
    let mut s = SLOW.load(SeqCst);
    if s == 0 {
        return;
    }
    let x = simstd::rt::splitmix(&mut s);
    SLOW.store(s | 1, SeqCst);
    let us = match x % 6 {
        0 => 0,
        1 => (x >> 8) % 20,
        2 => (x >> 8) % 5_000,
        3 => (x >> 8) % 3_000_000,
        4 => (x >> 8) % 20_000_000_000, // hours
        _ => 1,
    };
    if us > 0 {
        SLOW_FIRED.fetch_add(1, SeqCst);
        SLOW_NS[me()].fetch_add(us * 1000, SeqCst);
        simstd::rt::pass_ns(us * 1000);
    }
}

/// Requests for memory that is writable and executable at once.
static WX: AtomicU64 = AtomicU64::new(0);
fn note_protection(prot: i32) {
    if prot & libc::PROT_WRITE != 0 && prot & libc::PROT_EXEC != 0 {
        WX.fetch_add(1, SeqCst);
    }
}
/// Memory that is, or was asked to be, writable and executable at once.
pub fn writable_code() -> Option<String> {
    let n = WX.load(SeqCst);
    if n > 0 {
        return Some(format!("{n} requests for memory both writable and executable"));
    }
    let maps = std::fs::read_to_string("/proc/self/maps").ok()?;
    maps.lines()
        .find(|l| l.split_whitespace().nth(1).is_some_and(|f| f.contains('w') && f.contains('x')))
        .map(|l| format!("a mapping {}", l.split_whitespace().nth(1).unwrap_or("")))
}

/// 0: off; otherwise what new (and, complemented, released) memory is filled with.
static FILL: AtomicU64 = AtomicU64::new(0);
pub fn set_fill(x: u64) {
    FILL.store(x & 0xff, SeqCst);
}
unsafe fn fill(p: *mut u8, n: usize, flip: u8) {
    let f = FILL.load(Relaxed);
    if f != 0 && !p.is_null() {
        std::ptr::write_bytes(p, f as u8 ^ flip, n);
    }
}
/// Takes and gives back blocks in a seeded pattern, so that later ones lie elsewhere.
pub fn perturb_heap(seed: u64) {
    if seed == 0 {
        return;
    }
    let mut s = seed;
    let mut keep: Vec<Vec<u8>> = vec![];
    for _ in 0..simstd::rt::splitmix(&mut s) % 300 {
        let x = simstd::rt::splitmix(&mut s);
        let n = match x % 16 {
            0 => 4096 + (x >> 8) % 400_000,
            _ => 1 + (x >> 8) % 600,
        };
        let v = vec![1u8; n as usize];
        if x & 0x80 == 0 {
            std::mem::forget(v);
        } else {
            keep.push(v);
        }
    }
}

static HEAP: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
/// Bytes given out by the allocator and not given back, in this process.
pub fn heap_in_use() -> i64 {
    HEAP.load(Relaxed)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() >= 4096 && TRACK.load(SeqCst) {
            wait_for_memory();
            if ALLOC_WINS[me()].refuse() {
                return std::ptr::null_mut();
            }
            let p = System.alloc(l);
            if !p.is_null() {
                HEAP.fetch_add(l.size() as i64, Relaxed);
                page_add(p as usize, l.size());
            }
            return p;
        }
        simstd::rt::alloc_point();
        let p = System.alloc(l);
        if !p.is_null() {
            HEAP.fetch_add(l.size() as i64, Relaxed);
        }
        fill(p, l.size(), 0);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() >= 4096 && TRACK.load(SeqCst) {
            page_del(p as usize, l.size());
        }
        fill(p, l.size(), 0xff);
        HEAP.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.align() >= 4096 && TRACK.load(SeqCst) {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        simstd::rt::alloc_point();
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            HEAP.fetch_add(l.size() as i64, Relaxed);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.align() >= 4096 && TRACK.load(SeqCst) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        simstd::rt::alloc_point();
        if FILL.load(Relaxed) != 0 {
            // always elsewhere
            let m = Layout::from_size_align_unchecked(n, l.align());
            let q = System.alloc(m);
            if !q.is_null() {
                fill(q, n, 0);
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                fill(p, l.size(), 0xff);
                System.dealloc(p, l);
                HEAP.fetch_add(n as i64 - l.size() as i64, Relaxed);
            }
            return q;
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            HEAP.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        q
    }
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut c_void, l: usize, prot: i32) -> i32 {
    note_protection(prot);
    if TRACK.load(SeqCst) {
        // returning memory to plain read-write never fails for lack of resources here
        let restoring = prot & libc::PROT_WRITE != 0 && prot & libc::PROT_EXEC == 0;
        let (lo, hi) = (a as usize, a as usize + l);
        let ours = (0..SLOTS).any(|i| {
            let p = PAGES.addr[i].load(SeqCst);
            p != 0 && lo <= p && p < hi.max(lo + 1)
        });
        if ours && !restoring {
            wait_for_memory();
        }
        if ours && !restoring && PROT_WINS[me()].refuse() {
            set_errno(libc::ENOMEM);
            return -1;
        }
        for i in 0..SLOTS {
            let p = PAGES.addr[i].load(SeqCst);
            if p != 0 && lo <= p && p < hi.max(lo + 1) {
                PAGES.exec[i].store(!restoring, SeqCst);
            }
        }
    }
    libc::syscall(libc::SYS_mprotect, a, l, prot as libc::c_long) as i32
}

/// Anonymous executable mappings count as code memory too, should a change obtain it this way.
#[no_mangle]
pub unsafe extern "C" fn mmap(
    a: *mut c_void,
    l: usize,
    prot: i32,
    flags: i32,
    fd: i32,
    off: i64,
) -> *mut c_void {
    note_protection(prot);
    libc::syscall(
        libc::SYS_mmap,
        a,
        l,
        prot as libc::c_long,
        flags as libc::c_long,
        fd as libc::c_long,
        off,
    ) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, l: usize) -> i32 {
    libc::syscall(libc::SYS_munmap, a, l) as i32
}

// ------------------------------------------------------------------ randomness

static RAND_ON: AtomicBool = AtomicBool::new(false);
static RAND: AtomicU64 = AtomicU64::new(0);
pub static RAND_CALLS: AtomicU64 = AtomicU64::new(0);

/// Makes every later request for randomness (hash seeds above all) a function of `seed`.
pub fn seed_randomness(seed: u64) {
    RAND.store(seed, SeqCst);
    RAND_ON.store(true, SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if !RAND_ON.load(SeqCst) {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags as libc::c_long) as isize;
    }
    RAND_CALLS.fetch_add(1, SeqCst);
    let mut s = RAND.load(SeqCst);
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for c in out.chunks_mut(8) {
        let v = simstd::rt::splitmix(&mut s).to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    RAND.store(s, SeqCst);
    len as isize
}

// ------------------------------------------------------------------ standard streams

pub const W_PASS: u64 = 0;
pub const W_EPIPE: u64 = 1;
pub const W_ENOSPC: u64 = 2;
pub const W_EINTR: u64 = 3;
pub const W_SHORT: u64 = 4;
pub const W_EBADF: u64 = 5;
pub const W_EIO: u64 = 6;
pub const W_SINK: u64 = 7;

static WMODE: AtomicU64 = AtomicU64::new(W_PASS);
pub static W_CALLS: AtomicU64 = AtomicU64::new(0);
pub static W_BYTES: AtomicU64 = AtomicU64::new(0);
static W_FIRST: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

pub fn set_write_mode(m: u64) {
    WMODE.store(m, SeqCst);
}
pub fn first_written() -> String {
    let g = W_FIRST.lock().unwrap_or_else(|e| e.into_inner());
    String::from_utf8_lossy(&g).into_owned()
}

unsafe fn do_write(fd: i32, b: *const u8, n: usize) -> isize {
    let m = WMODE.load(SeqCst);
    let c = W_CALLS.fetch_add(1, SeqCst);
    W_BYTES.fetch_add(n as u64, SeqCst);
    if let Ok(mut g) = W_FIRST.try_lock() {
        let room = 200usize.saturating_sub(g.len());
        g.extend_from_slice(std::slice::from_raw_parts(b, n.min(room)));
    }
    let fail = |e: i32| -> isize {
        set_errno(e);
        -1
    };
    match m {
        W_EPIPE => fail(libc::EPIPE),
        W_ENOSPC => fail(libc::ENOSPC),
        W_EBADF => fail(libc::EBADF),
        W_EIO => fail(libc::EIO),
        W_EINTR if c % 2 == 0 => fail(libc::EINTR),
        W_SHORT => n.min(1) as isize,
        _ => {
            let _ = fd;
            n as isize
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const c_void, n: usize) -> isize {
    if (fd == 1 || fd == 2) && WMODE.load(SeqCst) != W_PASS {
        return do_write(fd, b as *const u8, n);
    }
    libc::syscall(libc::SYS_write, fd as libc::c_long, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if (fd == 1 || fd == 2) && WMODE.load(SeqCst) != W_PASS {
        let mut total = 0;
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len == 0 {
                continue;
            }
            let r = do_write(fd, x.iov_base as *const u8, x.iov_len);
            if r < 0 {
                return if total > 0 { total } else { r };
            }
            total += r;
            if (r as usize) < x.iov_len {
                break;
            }
        }
        return total;
    }
    libc::syscall(libc::SYS_writev, fd as libc::c_long, v, n as libc::c_long) as isize
}

/// Raw output that bypasses the simulated streams.
pub fn raw_write(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let r = unsafe { libc::syscall(libc::SYS_write, fd as libc::c_long, b.as_ptr(), b.len()) };
        if r < 0 {
            if unsafe { *libc::__errno_location() } == libc::EINTR {
                continue;
            }
            return false;
        }
        b = &b[r as usize..];
    }
    true
}

// ------------------------------------------------------------------ clock and terminals

static CLOCK: AtomicU64 = AtomicU64::new(0);
static CLOCK_NOW: AtomicU64 = AtomicU64::new(0);
static TTY: AtomicU64 = AtomicU64::new(0);

/// Clock readings of everything that asks libc (the dependencies): 0 real, 1 stalled,
/// otherwise jumping by amounts drawn from the number.
pub fn set_libc_clock(mode: u64) {
    CLOCK_NOW.store(1_000_000_000, SeqCst);
    CLOCK.store(mode, SeqCst);
}
/// 0: ask the system; 1: nothing is a terminal; 2: everything is.
pub fn set_tty(mode: u64) {
    TTY.store(mode, SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut libc::timespec) -> i32 {
    let m = CLOCK.load(SeqCst);
    if m == 0 {
        return libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, t) as i32;
    }
    let mut s = m ^ CLOCK_NOW.load(SeqCst);
    let mut now = CLOCK_NOW.load(SeqCst);
    if m != 1 {
        let x = simstd::rt::splitmix(&mut s);
        now += match x % 4 {
            0 => 0,
            1 => (x >> 8) % 1000,
            2 => (x >> 8) % 1_000_000_000,
            _ => (x >> 8) % 1_000_000_000_000,
        };
        if id == libc::CLOCK_REALTIME && x & 0x80 != 0 {
            now = now / 2 + 1;
        } else {
            CLOCK_NOW.store(now, SeqCst);
        }
    }
    (*t).tv_sec = (now / 1_000_000_000) as i64;
    (*t).tv_nsec = (now % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    match TTY.load(SeqCst) {
        1 => {
            set_errno(libc::ENOTTY);
            0
        }
        2 => 1,
        _ => {
            let mut t: libc::termios = std::mem::zeroed();
            (libc::ioctl(fd, libc::TCGETS, &mut t) == 0) as i32
        }
    }
}

// ------------------------------------------------------------------ the process's surroundings

static ENV_SEED: AtomicU64 = AtomicU64::new(0);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
/// From now on every environment variable somebody asks for by name has a value drawn from `seed`
/// (0: what the process was given).
pub fn set_env_seed(seed: u64) {
    ENV_SEED.store(seed, SeqCst);
}
extern "C" {
    static environ: *const *const std::ffi::c_char;
}
const ENV_VALUES: [&std::ffi::CStr; 10] = [
    c"1", c"0", c"true", c"", c"debug", c"/nonexistent", c"off", c"64", c"de_DE.UTF-8", c"\xff\xfe",
];
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const std::ffi::c_char) -> *mut std::ffi::c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    let seed = ENV_SEED.load(SeqCst);
    // (what std itself asks for is not the library's business; with the second, cranelift writes a
    // map of the code for `perf`, which whoever sets it asked for)
    if seed != 0 && !n.starts_with(b"RUST_") && n != b"PERF_BUILDID_DIR" {
        ENV_READS.fetch_add(1, SeqCst);
        let mut h = seed;
        for b in n {
            h = (h ^ *b as u64).wrapping_mul(0x0100_0000_01b3);
        }
        let k = (simstd::rt::splitmix(&mut h) % (ENV_VALUES.len() as u64 + 2)) as usize;
        return ENV_VALUES.get(k).map_or(std::ptr::null_mut(), |v| v.as_ptr() as *mut _);
    }
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null_mut();
    }
    while !(*e).is_null() {
        let s = std::ffi::CStr::from_ptr(*e).to_bytes();
        if s.len() > n.len() && s[n.len()] == b'=' && s.starts_with(n) {
            return (*e).add(n.len() + 1) as *mut _;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

/// System calls that reach beyond the process: files, network, other processes.
const OUTWARD: &[(i64, &str, i32)] = &[
    // number, name, which argument is a path (-1: none)
    (libc::SYS_open, "open", 0), (libc::SYS_openat, "openat", 1), (libc::SYS_openat2, "openat2", 1), (libc::SYS_creat, "creat", 0),
    (libc::SYS_stat, "stat", 0), (libc::SYS_lstat, "lstat", 0), (libc::SYS_newfstatat, "newfstatat", 1), (libc::SYS_statx, "statx", 1),
    (libc::SYS_access, "access", 0), (libc::SYS_faccessat, "faccessat", 1), (libc::SYS_faccessat2, "faccessat2", 1),
    (libc::SYS_readlink, "readlink", 0), (libc::SYS_readlinkat, "readlinkat", 1), (libc::SYS_getcwd, "getcwd", -1),
    (libc::SYS_mkdir, "mkdir", 0), (libc::SYS_mkdirat, "mkdirat", 1), (libc::SYS_rmdir, "rmdir", 0),
    (libc::SYS_unlink, "unlink", 0), (libc::SYS_unlinkat, "unlinkat", 1), (libc::SYS_rename, "rename", 0),
    (libc::SYS_renameat, "renameat", 1), (libc::SYS_renameat2, "renameat2", 1), (libc::SYS_link, "link", 0),
    (libc::SYS_linkat, "linkat", 1), (libc::SYS_symlink, "symlink", 0), (libc::SYS_symlinkat, "symlinkat", 0),
    (libc::SYS_chmod, "chmod", 0), (libc::SYS_fchmodat, "fchmodat", 1), (libc::SYS_chown, "chown", 0), (libc::SYS_truncate, "truncate", 0),
    (libc::SYS_mknod, "mknod", 0), (libc::SYS_mknodat, "mknodat", 1), (libc::SYS_chdir, "chdir", 0), (libc::SYS_fchdir, "fchdir", -1),
    (libc::SYS_chroot, "chroot", 0), (libc::SYS_umask, "umask", -1),
    (libc::SYS_socket, "socket", -1), (libc::SYS_socketpair, "socketpair", -1), (libc::SYS_connect, "connect", -1), (libc::SYS_bind, "bind", -1),
    (libc::SYS_memfd_create, "memfd_create", 0), (libc::SYS_pipe, "pipe", -1), (libc::SYS_pipe2, "pipe2", -1),
    (libc::SYS_shmget, "shmget", -1), (libc::SYS_inotify_init1, "inotify_init1", -1),
    (libc::SYS_execve, "execve", 0), (libc::SYS_execveat, "execveat", 1), (libc::SYS_fork, "fork", -1), (libc::SYS_clone, "clone", -1), (libc::SYS_sched_setaffinity, "sched_setaffinity", -1),
    (libc::SYS_sched_setscheduler, "sched_setscheduler", -1), (libc::SYS_sendto, "sendto", -1),
    (libc::SYS_mlockall, "mlockall", -1), (libc::SYS_timer_create, "timer_create", -1), (libc::SYS_sethostname, "sethostname", -1), (libc::SYS_vfork, "vfork", -1),
    (libc::SYS_kill, "kill", -1), (libc::SYS_setrlimit, "setrlimit", -1), (libc::SYS_setpriority, "setpriority", -1),
    (libc::SYS_setitimer, "setitimer", -1), (libc::SYS_alarm, "alarm", -1), (libc::SYS_setuid, "setuid", -1), (libc::SYS_setsid, "setsid", -1),
];
static TOUCHED: AtomicU64 = AtomicU64::new(0);
pub static KERNEL_ASKED: AtomicU64 = AtomicU64::new(0);
static REFUSAL: AtomicU64 = AtomicU64::new(0);
static TOUCHED_NR: AtomicU64 = AtomicU64::new(0);
static mut TOUCHED_PATH: [u8; 160] = [0; 160];

unsafe extern "C" fn on_outward(_: i32, info: *mut libc::siginfo_t, ctx: *mut c_void) {
    let u = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut u.uc_mcontext.gregs;
    let nr = *(info as *const u8).add(24).cast::<i32>() as i64;
    // the C library and std ask the kernel about itself (malloc does): refused, not held against anybody
    let p = g[libc::REG_RSI as usize] as *const u8;
    if nr == libc::SYS_openat && g[libc::REG_RDX as usize] & 3 == 0 && !p.is_null() {
        let s = |w: &[u8]| (0..w.len()).all(|i| *p.add(i) == w[i]);
        if s(b"/proc/") || s(b"/sys/") {
            KERNEL_ASKED.fetch_add(1, SeqCst);
            g[libc::REG_RAX as usize] = -(REFUSAL.load(SeqCst) as i64);
            return;
        }
    }
    if TOUCHED.fetch_add(1, SeqCst) == 0 {
        TOUCHED_NR.store(nr as u64, SeqCst);
        if let Some(&(_, _, a)) = OUTWARD.iter().find(|o| o.0 == nr) {
            let p = match a {
                0 => g[libc::REG_RDI as usize],
                1 => g[libc::REG_RSI as usize],
                _ => 0,
            } as *const u8;
            if !p.is_null() {
                for i in 0..159 {
                    let b = *p.add(i);
                    if b == 0 {
                        break;
                    }
                    TOUCHED_PATH[i] = b;
                }
            }
        }
    }
    g[libc::REG_RAX as usize] = -(REFUSAL.load(SeqCst) as i64);
}
/// From now on, in this thread and those it starts, reaching outside is recorded and refused
/// with `errno`. False: the kernel does not let us.
pub fn refuse_outward(errno: i32) -> bool {
    REFUSAL.store(errno as u64, SeqCst);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_outward as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        if libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut()) != 0 {
            return false;
        }
        let st = |code: u32, jt: u8, jf: u8, k: u32| libc::sock_filter { code: code as u16, jt, jf, k };
        let mut f = vec![st(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0, 0, 0)];
        // a copy of the process is another process; a thread is not
        f.push(st(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, 0, 4, libc::SYS_clone as u32));
        f.push(st(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0, 0, 16));
        f.push(st(libc::BPF_JMP | libc::BPF_JSET | libc::BPF_K, 1, 0, libc::CLONE_THREAD as u32));
        f.push(st(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_TRAP));
        f.push(st(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_ALLOW));
        for o in OUTWARD.iter().filter(|o| o.0 != libc::SYS_clone) {
            f.push(st(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, 0, 1, o.0 as u32));
            f.push(st(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_TRAP));
        }
        f.push(st(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_ALLOW));
        let prog = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0
            && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog as *const _) == 0
    }
}
/// What reached outside so far, if anything: how often, and the first of it.
pub fn touched() -> Option<(u64, String)> {
    let n = TOUCHED.load(SeqCst);
    if n == 0 {
        return None;
    }
    let nr = TOUCHED_NR.load(SeqCst) as i64;
    let name = OUTWARD.iter().find(|o| o.0 == nr).map_or("?", |o| o.1);
    let p: Vec<u8> = unsafe { (*std::ptr::addr_of!(TOUCHED_PATH)).iter().copied().take_while(|b| *b != 0).collect() };
    Some((n, format!("{name}({:?})", String::from_utf8_lossy(&p))))
}

/// Floating-point control of this thread: rounding, traps, flush-to-zero.
pub fn fp_mode() -> u64 {
    let (mut mx, mut cw) = (0u32, 0u16);
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut mx, options(nostack));
        std::arch::asm!("fnstcw [{}]", in(reg) &mut cw, options(nostack));
    }
    (mx & 0xffc0) as u64 | (cw as u64) << 32
}

/// How this thread takes signals: what it blocks, and the stack it handles them on.
pub fn signal_state() -> (u64, u64) {
    unsafe {
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut m);
        let mut w = 0;
        for s in 1..64 {
            w |= ((libc::sigismember(&m, s) == 1) as u64) << s;
        }
        let mut a: libc::stack_t = std::mem::zeroed();
        libc::sigaltstack(std::ptr::null(), &mut a);
        (w, a.ss_sp as u64)
    }
}

/// What a process carries with it: environment, descriptors, signal handling, limits, timers, children.
pub fn carried() -> Vec<String> {
    let mut v = vec![];
    unsafe {
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            v.push(format!("environment {}", std::ffi::CStr::from_ptr(*e).to_string_lossy()));
            e = e.add(1);
        }
        for fd in 0..512 {
            if libc::fcntl(fd, libc::F_GETFD) >= 0 {
                v.push(format!("descriptor {fd}"));
            }
        }
        for s in 1..32 {
            let mut sa: libc::sigaction = std::mem::zeroed();
            if libc::sigaction(s, std::ptr::null(), &mut sa) == 0 {
                v.push(format!("signal {s} handled by {:#x} with {:#x}", sa.sa_sigaction, sa.sa_flags));
            }
        }
        for r in 0..16u32 {
            let mut l: libc::rlimit = std::mem::zeroed();
            if libc::getrlimit(r as _, &mut l) == 0 {
                v.push(format!("limit {r}: {} {}", l.rlim_cur, l.rlim_max));
            }
        }
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(libc::getpid(), std::mem::size_of::<libc::cpu_set_t>(), &mut s) == 0 {
            let c: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &s)).collect();
            v.push(format!("processors {c:?}"));
        }
        v.push(format!("priority {}", libc::syscall(libc::SYS_getpriority, libc::PRIO_PROCESS as libc::c_long, libc::getpid() as libc::c_long)));
        for t in 0..3 {
            let mut i: libc::itimerval = std::mem::zeroed();
            libc::syscall(libc::SYS_getitimer, t as libc::c_long, &mut i);
            v.push(format!("timer {t}: {}", i.it_value.tv_sec != 0 || i.it_value.tv_usec != 0));
        }
        v.push(format!("children: {}", libc::waitpid(-1, std::ptr::null_mut(), libc::WNOHANG | libc::__WALL) >= 0));
    }
    v.sort();
    v
}
