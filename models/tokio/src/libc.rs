//! The system calls std::fs makes, answered by the model. Descriptors below
//! `FD_BASE` are the process's own (a panic message on standard error).
use crate::mk::{self, FD_BASE};

extern "C" {
    fn mk_symbolic() -> u64;
    fn syscall(n: i64, ...) -> i64;
}
unsafe fn path(p: *const i8) -> &'static [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p as *const u8, n)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, flags: i32, _mode: i32) -> i32 {
    mk::open(path(p), flags)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd < FD_BASE {
        return 0;
    }
    mk::close(fd)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if fd < FD_BASE {
        if mk_symbolic() == 1 {
            return n as isize;
        }
        return syscall(1, fd as i64, p, n) as isize;
    }
    mk::write(fd, std::slice::from_raw_parts(p, n), None)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const (*const u8, usize), n: i32) -> isize {
    let mut total = 0;
    for i in 0..n as usize {
        let (p, l) = *v.add(i);
        let r = write(fd, p, l);
        if r < 0 {
            return if total > 0 { total } else { r };
        }
        total += r;
        if (r as usize) < l {
            break;
        }
    }
    total
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, off: i64) -> isize {
    mk::write(fd, std::slice::from_raw_parts(p, n), Some(off as u64))
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if fd < FD_BASE {
        return 0;
    }
    mk::read(fd, p, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, p: *mut u8, n: usize, off: i64) -> isize {
    if off < 0 {
        mk::errno(mk::EINVAL);
        return -1;
    }
    mk::read(fd, p, n, Some(off as u64))
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    mk::sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    mk::sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    mk::seek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    mk::truncate(fd, len)
}
unsafe fn fill(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = 0;
    }
}
/// struct stat of x86_64: st_mode at 24, st_size at 48
unsafe fn stat_of(size: u64, p: *mut u8) -> i32 {
    fill(p, 144);
    *(p.add(24) as *mut u32) = 0o100644;
    *(p.add(48) as *mut u64) = size;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, p: *mut u8) -> i32 {
    stat_of(mk::size(fd), p)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(name: *const i8, p: *mut u8) -> i32 {
    match mk::find(path(name)) {
        Some(k) => stat_of(mk::world().files[k].data.len() as u64, p),
        None => {
            mk::errno(mk::ENOENT);
            -1
        }
    }
}
/// struct statx: stx_mask at 0, stx_mode at 28, stx_size at 40
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, name: *const i8, _flags: i32, _mask: u32, p: *mut u8) -> i32 {
    let n = if name.is_null() { &[][..] } else { path(name) };
    let size = if n.is_empty() && dir >= FD_BASE {
        mk::size(dir)
    } else {
        match mk::find(n) {
            Some(k) => mk::world().files[k].data.len() as u64,
            None => {
                mk::errno(mk::ENOENT);
                return -1;
            }
        }
    };
    fill(p, 256);
    *(p as *mut u32) = 0x7ff;
    *(p.add(28) as *mut u16) = 0o100644;
    *(p.add(40) as *mut u64) = size;
    0
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
    mk::rename(path(a), path(b))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const i8) -> i32 {
    mk::unlink(path(a))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(_a: *const i8, _mode: u32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, _cmd: i32, _arg: i64) -> i32 {
    if fd < FD_BASE {
        return 0;
    }
    mk::dup(fd)
}

/// futex(2), what std's locks wait with: the engine sends the call here
#[no_mangle]
pub unsafe extern "C" fn mk_futex(addr: *const u32, op: i32, val: u32) -> i64 {
    if op & 0x7f == 0 || op & 0x7f == 9 {
        if *addr == val {
            mk::futex_wait();
        }
        return 0;
    }
    1
}
