//! The scheduler of the blocking pool and the file system model, with their
//! symbolic choices: which queued operation runs next, and which system call is
//! short, interrupted or fails.
use std::future::Future;
use std::io;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::io::FromRawFd;
use std::path::Path;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

extern "C" {
    fn mk_range(lo: u64, hi: u64) -> u64;
    fn mk_concretize(x: u64) -> u64;
    fn mk_assert(c: bool, id: u64);
    fn mk_exit() -> !;
    fn mk_assume(c: bool);
    fn __errno_location() -> *mut i32;
}
pub fn choice(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { mk_concretize(mk_range(0, n as u64 - 1)) as usize }
}
/// assertion ids of the model
pub const ID_DEADLOCK: u64 = 1;
pub const ID_BAD_FD: u64 = 2;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const EINVAL: i32 = 22;
pub const ENOENT: i32 = 2;
pub const ENOSPC: i32 = 28;

pub const FD_BASE: i32 = 1000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Open,
    Write,
    Read,
    Sync,
    Truncate,
    Seek,
    Close,
    Rename,
    Unlink,
}
#[derive(Clone)]
pub struct Op {
    pub kind: Kind,
    pub file: usize,
    pub off: u64,
    pub data: Vec<u8>,
    pub ok: bool,
}
pub struct FileData {
    pub path: Vec<u8>,
    pub data: Vec<u8>,
}
struct Fd {
    file: usize,
    pos: u64,
    append: bool,
}
/// what may go wrong, and how often in one run
#[derive(Clone, Copy)]
pub struct Faults {
    pub budget: u32,
    pub write: bool,
    pub short: bool,
    pub intr: bool,
    pub read: bool,
    pub sync: bool,
    pub open: bool,
}
pub const NO_FAULTS: Faults = Faults { budget: 0, write: false, short: false, intr: false, read: false, sync: false, open: false };

pub struct World {
    pub files: Vec<FileData>,
    names: Vec<(Vec<u8>, usize)>,
    fds: Vec<Option<Fd>>,
    pub log: Vec<Op>,
    pub faults: Faults,
    /// operations that failed for good
    pub hard: usize,
    /// calls that were short or interrupted
    pub soft: usize,
    /// only short and interrupted calls, none that fails for good
    pub no_hard: bool,
    /// every path opened for writing or reading, in order
    pub opened: Vec<Vec<u8>>,
    /// every open gets a file of its own, names are not compared
    pub no_lookup: bool,
    queue: Vec<Box<dyn FnOnce()>>,
    tasks: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>,
    /// 0: queued operations run in order, when awaited; 1: in any order;
    /// 2: in any order, or at once; 3: in any order, and any of them may run between two
    /// system calls of another
    pub sched: u8,
    woken: bool,
    /// operations set aside between two of their system calls
    nested: usize,
}
static mut WORLD: Option<World> = None;

pub fn world() -> &'static mut World {
    unsafe {
        let w = &mut *std::ptr::addr_of_mut!(WORLD);
        if w.is_none() {
            *w = Some(World {
                files: Vec::new(),
                names: Vec::new(),
                fds: Vec::new(),
                log: Vec::new(),
                faults: NO_FAULTS,
                hard: 0,
                soft: 0,
                no_hard: false,
                opened: Vec::new(),
                no_lookup: false,
                queue: Vec::new(),
                tasks: Vec::new(),
                sched: 0,
                woken: false,
                nested: 0,
            });
        }
        w.as_mut().unwrap()
    }
}

// ---------------------------------------------------------------- scheduler

pub fn submit(f: Box<dyn FnOnce()>) {
    let w = world();
    if w.sched == 2 && choice(2) == 1 {
        f();
        return;
    }
    w.queue.push(f);
}
pub fn submit_task(f: Pin<Box<dyn Future<Output = ()>>>) {
    world().tasks.push(Some(f));
    world().woken = true;
}
/// run one queued operation
pub fn step() -> bool {
    let n = world().queue.len();
    if n == 0 {
        return false;
    }
    let k = if world().sched == 0 { 0 } else { choice(n) };
    let f = world().queue.remove(k);
    f();
    true
}
/// a system call of an operation: others may run before it
pub fn preempt() {
    while world().sched == 3 && world().queue.len() > 0 && choice(2) == 1 {
        world().nested += 1;
        step();
        world().nested -= 1;
    }
}
/// A thread waits for a lock of std. When an operation set aside below it may hold the
/// lock, this schedule ends here: it is the one where the waiting operation starts later.
/// Otherwise the rest of the pool runs, and with nothing left to run nobody can wake it.
pub fn futex_wait() {
    unsafe {
        if world().nested > 0 {
            mk_assume(false);
        }
        if !step() {
            mk_assert(false, ID_DEADLOCK);
            mk_exit()
        }
    }
}
pub fn queued() -> usize {
    world().queue.len()
}
/// run everything still queued, as the pool does in the end
pub fn drain() {
    while step() {}
}

fn vt_clone(_: *const ()) -> RawWaker {
    RawWaker::new(std::ptr::null(), &VT)
}
fn vt_wake(_: *const ()) {
    world().woken = true;
}
fn vt_drop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake, vt_drop);

/// the future after one poll, unless it was ready
pub fn poll_once<F: Future>(f: F) -> Option<Pin<Box<F>>> {
    let waker = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(_) => None,
        Poll::Pending => Some(f),
    }
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let waker = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    loop {
        world().woken = false;
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        let mut i = 0;
        while i < world().tasks.len() {
            if let Some(mut t) = world().tasks[i].take() {
                if t.as_mut().poll(&mut cx).is_pending() {
                    world().tasks[i] = Some(t);
                }
            }
            i += 1;
        }
        if world().woken {
            continue;
        }
        if !step() {
            unsafe {
                mk_assert(false, ID_DEADLOCK);
                mk_exit()
            }
        }
    }
}

// -------------------------------------------------------------- file system

pub fn put_file(path: &[u8], data: &[u8]) -> usize {
    let w = world();
    w.files.push(FileData { path: path.to_vec(), data: data.to_vec() });
    let k = w.files.len() - 1;
    w.names.push((path.to_vec(), k));
    k
}
pub fn find(path: &[u8]) -> Option<usize> {
    for (n, k) in &world().names {
        if n.as_slice() == path {
            return Some(*k);
        }
    }
    None
}
pub fn errno(e: i32) {
    unsafe { *__errno_location() = e }
}
/// any error number but that of an interrupted call
fn hard_errno() -> i32 {
    let e = unsafe { mk_range(1, 132) } as i32;
    e + (e >= EINTR) as i32
}
enum Out {
    Normal,
    Err(i32),
    Short,
    Zero,
}
fn outcome(hard: bool, short: bool, zero: bool) -> Out {
    let w = world();
    let (hard, zero) = (hard && !w.no_hard, zero && !w.no_hard);
    if w.faults.budget == 0 {
        return Out::Normal;
    }
    let mut opts: [u8; 6] = [0; 6];
    let mut n = 1;
    if hard {
        opts[n] = 1;
        n += 1;
    }
    if w.faults.intr {
        opts[n] = 2;
        n += 1;
    }
    if short && w.faults.short {
        opts[n] = 3;
        n += 1;
    }
    if zero && w.faults.short {
        opts[n] = 4;
        n += 1;
    }
    let k = choice(n);
    if k > 0 {
        w.faults.budget -= 1;
    }
    match opts[k] {
        0 => Out::Normal,
        1 => {
            w.hard += 1;
            Out::Err(hard_errno())
        }
        2 => {
            w.soft += 1;
            Out::Err(EINTR)
        }
        3 => {
            w.soft += 1;
            Out::Short
        }
        _ => {
            w.hard += 1;
            Out::Zero
        }
    }
}
fn log(kind: Kind, file: usize, off: u64, data: &[u8], ok: bool) {
    world().log.push(Op { kind, file, off, data: data.to_vec(), ok });
}
/// number of bytes of a short transfer
fn shorter(len: usize) -> usize {
    if len <= 5 {
        1 + choice(len - 1)
    } else {
        [1, len / 2, len - 1][choice(3)]
    }
}

const O_WRONLY: i32 = 1;
const O_RDWR: i32 = 2;
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;

pub fn open(path: &[u8], flags: i32) -> i32 {
    let w = world();
    if w.faults.open {
        if let Out::Err(e) = outcome(true, false, false) {
            log(Kind::Open, usize::MAX, 0, path, false);
            errno(e);
            return -1;
        }
    }
    let found = if w.no_lookup { None } else { find(path) };
    let file = match found {
        Some(k) => {
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                errno(EEXIST);
                return -1;
            }
            if flags & O_TRUNC != 0 {
                w.files[k].data.clear();
            }
            k
        }
        None => {
            if flags & O_CREAT == 0 && !w.no_lookup {
                errno(ENOENT);
                return -1;
            }
            put_file(path, &[])
        }
    };
    w.opened.push(path.to_vec());
    log(Kind::Open, file, 0, &[], true);
    w.fds.push(Some(Fd { file, pos: 0, append: flags & O_APPEND != 0 }));
    FD_BASE + w.fds.len() as i32 - 1
}
pub fn create(path: impl AsRef<Path>) -> io::Result<std::fs::File> {
    let p = path.as_ref().as_os_str().as_bytes();
    loop {
        let fd = open(p, O_WRONLY | O_CREAT | O_TRUNC);
        if fd >= 0 {
            return Ok(unsafe { std::fs::File::from_raw_fd(fd) });
        }
        let e = io::Error::last_os_error();
        if e.kind() != io::ErrorKind::Interrupted {
            return Err(e);
        }
    }
}
fn fd(n: i32) -> &'static mut Fd {
    let i = (n - FD_BASE) as usize;
    let w = world();
    if i >= w.fds.len() || w.fds[i].is_none() {
        unsafe {
            mk_assert(false, ID_BAD_FD);
            mk_exit()
        }
    }
    w.fds[i].as_mut().unwrap()
}
fn store(file: usize, off: u64, data: &[u8]) {
    let f = &mut world().files[file].data;
    let off = off as usize;
    if off == f.len() {
        f.extend_from_slice(data);
        return;
    }
    if f.len() < off + data.len() {
        f.resize(off + data.len(), 0);
    }
    f[off..off + data.len()].copy_from_slice(data);
}
pub fn write(n: i32, data: &[u8], at: Option<u64>) -> isize {
    preempt();
    let f = fd(n);
    if f.append {
        f.pos = world().files[f.file].data.len() as u64;
    }
    let off = at.unwrap_or(f.pos);
    let mut len = data.len();
    if world().faults.write && len > 0 {
        match outcome(true, len > 1, true) {
            Out::Normal => {}
            Out::Err(e) => {
                if e != EINTR {
                    log(Kind::Write, f.file, off, &[], false);
                }
                errno(e);
                return -1;
            }
            Out::Short => len = shorter(len),
            Out::Zero => {
                log(Kind::Write, f.file, off, &[], false);
                return 0;
            }
        }
    }
    store(f.file, off, &data[..len]);
    log(Kind::Write, f.file, off, &data[..len], true);
    if at.is_none() {
        f.pos = off + len as u64;
    }
    len as isize
}
pub fn read(n: i32, buf: *mut u8, count: usize, at: Option<u64>) -> isize {
    preempt();
    let f = fd(n);
    let off = at.unwrap_or(f.pos);
    let size = world().files[f.file].data.len() as u64;
    let mut len = if off >= size { 0 } else { ((size - off) as usize).min(count) };
    if world().faults.read && count > 0 {
        match outcome(true, len > 1, false) {
            Out::Normal => {}
            Out::Err(e) => {
                errno(e);
                return -1;
            }
            Out::Short => len = shorter(len),
            Out::Zero => return 0,
        }
    }
    if len > 0 {
        let d = &world().files[f.file].data;
        unsafe { std::ptr::copy_nonoverlapping(d.as_ptr().add(off as usize), buf, len) };
    }
    if at.is_none() {
        f.pos = off + len as u64;
    }
    len as isize
}
pub fn sync(n: i32) -> i32 {
    preempt();
    let f = fd(n);
    if world().faults.sync {
        if let Out::Err(e) = outcome(true, false, false) {
            if e != EINTR {
                log(Kind::Sync, f.file, 0, &[], false);
            }
            errno(e);
            return -1;
        }
    }
    log(Kind::Sync, f.file, 0, &[], true);
    0
}
pub fn seek(n: i32, off: i64, whence: i32) -> i64 {
    preempt();
    let f = fd(n);
    let base = match whence {
        0 => 0,
        1 => f.pos as i64,
        _ => world().files[f.file].data.len() as i64,
    };
    match base.checked_add(off) {
        Some(p) if p >= 0 => {
            f.pos = p as u64;
            p
        }
        _ => {
            errno(EINVAL);
            -1
        }
    }
}
pub fn truncate(n: i32, len: i64) -> i32 {
    let f = fd(n);
    world().files[f.file].data.resize(len as usize, 0);
    log(Kind::Truncate, f.file, len as u64, &[], true);
    0
}
pub fn size(n: i32) -> u64 {
    let f = fd(n);
    world().files[f.file].data.len() as u64
}
pub fn close(n: i32) -> i32 {
    let file = fd(n).file;
    log(Kind::Close, file, 0, &[], true);
    world().fds[(n - FD_BASE) as usize] = None;
    0
}
pub fn dup(n: i32) -> i32 {
    let f = fd(n);
    let c = Fd { file: f.file, pos: f.pos, append: f.append };
    world().fds.push(Some(c));
    FD_BASE + world().fds.len() as i32 - 1
}
pub fn rename(a: &[u8], b: &[u8]) -> i32 {
    match find(a) {
        None => {
            errno(ENOENT);
            -1
        }
        Some(k) => {
            let w = world();
            w.names.retain(|(n, _)| n.as_slice() != a && n.as_slice() != b);
            w.names.push((b.to_vec(), k));
            w.files[k].path = b.to_vec();
            log(Kind::Rename, k, 0, b, true);
            0
        }
    }
}
pub fn unlink(a: &[u8]) -> i32 {
    match find(a) {
        None => {
            errno(ENOENT);
            -1
        }
        Some(k) => {
            world().names.retain(|(n, _)| n.as_slice() != a);
            log(Kind::Unlink, k, 0, a, true);
            0
        }
    }
}
