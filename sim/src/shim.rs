//! System calls of this process that concern paths under /gptsim/ are answered from simulated
//! disks, everything else is passed on. The library (through `std::fs::File`) runs unchanged.

use crate::sim::{lock, Disk, Shared, COUNTERS, ERR_OPEN, OP_OPEN};
use libc::{c_char, c_int, c_void, iovec, mode_t, off_t, size_t, ssize_t};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::io;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

pub const ROOT: &str = "/gptsim/";

/// Where the seeds of hash tables come from, while a run is under way.
static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static IN_RUN: AtomicBool = AtomicBool::new(false);
static HASHED: AtomicBool = AtomicBool::new(false);

/// From here on the keys of hash tables are a function of this value (None: of the system).
pub fn hash_seed(x: Option<u64>) {
    HASH_SEED.store(x.unwrap_or(0), Ordering::SeqCst);
    IN_RUN.store(x.is_some(), Ordering::SeqCst);
}

/// A thread was given keys. It keeps them, further runs need threads of their own.
pub fn hashed() -> bool {
    HASHED.load(Ordering::SeqCst)
}

/// What the standard library asks for the keys of a thread's hash tables.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: libc::c_uint) -> ssize_t {
    if !IN_RUN.load(Ordering::SeqCst) {
        return libc::syscall(libc::SYS_getrandom, buf, n, flags) as ssize_t;
    }
    HASHED.store(true, Ordering::SeqCst);
    let mut x = HASH_SEED.load(Ordering::SeqCst);
    for b in std::slice::from_raw_parts_mut(buf as *mut u8, n) {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *b = (x >> 56) as u8;
    }
    n as ssize_t
}

#[derive(Clone)]
pub struct FileNode {
    pub disk: Shared,
    pub writable: bool,
    pub readable: bool,
    /// open fails with this errno
    pub open_error: Option<i32>,
}

struct Fd {
    disk: Shared,
    pos: Arc<Mutex<u64>>,
    readable: bool,
    writable: bool,
    append: bool,
}

#[derive(Default)]
struct Fs {
    files: BTreeMap<String, FileNode>,
    fds: BTreeMap<c_int, Fd>,
    /// files that were created by the library
    created: Vec<String>,
    /// access modes of every open: (path, flags)
    opens: Vec<(String, i32)>,
}

static FS: Mutex<Fs> = Mutex::new(Fs {
    files: BTreeMap::new(),
    fds: BTreeMap::new(),
    created: vec![],
    opens: vec![],
});
static OPEN_FDS: AtomicUsize = AtomicUsize::new(0);

fn fs() -> MutexGuard<'static, Fs> {
    FS.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn mount(name: &str, node: FileNode) -> String {
    let p = format!("{ROOT}{name}");
    fs().files.insert(p.clone(), node);
    p
}

pub fn unmount_all() {
    let mut f = fs();
    f.files.clear();
    f.created.clear();
    f.opens.clear();
}

pub fn created() -> Vec<String> {
    fs().created.clone()
}

pub fn opens() -> Vec<(String, i32)> {
    fs().opens.clone()
}

pub fn node_mut(path: &str, f: impl FnOnce(&mut FileNode)) {
    if let Some(n) = fs().files.get_mut(path) {
        f(n)
    }
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn fail(e: io::Error) -> ssize_t {
    set_errno(e.raw_os_error().unwrap_or(libc::EIO));
    -1
}

struct Handle {
    disk: Shared,
    pos: Arc<Mutex<u64>>,
    readable: bool,
    writable: bool,
    append: bool,
}

fn handle(fd: c_int) -> Option<Handle> {
    if OPEN_FDS.load(Ordering::Relaxed) == 0 {
        return None;
    }
    fs().fds.get(&fd).map(|f| Handle {
        disk: f.disk.clone(),
        pos: f.pos.clone(),
        readable: f.readable,
        writable: f.writable,
        append: f.append,
    })
}

fn register(fd: Fd) -> c_int {
    // a real descriptor that nothing can be done with, so that the number is not used twice
    let n = unsafe {
        libc::syscall(
            libc::SYS_openat,
            libc::AT_FDCWD,
            c"/dev/null".as_ptr(),
            libc::O_RDONLY | libc::O_CLOEXEC,
            0,
        ) as c_int
    };
    if n >= 0 {
        fs().fds.insert(n, fd);
        OPEN_FDS.fetch_add(1, Ordering::Relaxed);
    }
    n
}

unsafe fn sim_open(path: *const c_char, flags: c_int) -> Option<c_int> {
    if path.is_null() {
        return None;
    }
    let p = CStr::from_ptr(path).to_bytes();
    if !p.starts_with(ROOT.as_bytes()) {
        return None;
    }
    crate::sched::point();
    let p = String::from_utf8_lossy(p).into_owned();
    let mut f = fs();
    f.opens.push((p.clone(), flags));
    let acc = flags & libc::O_ACCMODE;
    let (r, w) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
    let node = match f.files.get(&p) {
        Some(n) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                set_errno(libc::EEXIST);
                return Some(-1);
            }
            n.clone()
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                set_errno(libc::ENOENT);
                return Some(-1);
            }
            let n = FileNode {
                disk: Disk::new(0, 0).shared(),
                writable: true,
                readable: true,
                open_error: None,
            };
            f.created.push(p.clone());
            f.files.insert(p.clone(), n.clone());
            n
        }
    };
    drop(f);
    {
        let mut d = lock(&node.disk);
        d.stats.n[OP_OPEN] += 1;
        if d.crashed {
            set_errno(libc::EIO);
            return Some(-1);
        }
        if let Some(e) = node.open_error {
            d.stats.n[ERR_OPEN] += 1;
            d.errs_fired += 1;
            if let Some(l) = &mut d.log {
                l.push(format!("    injected {} {e}", COUNTERS[ERR_OPEN]));
            }
            set_errno(e);
            return Some(-1);
        }
        if (w && !node.writable) || (r && !node.readable) {
            set_errno(libc::EACCES);
            return Some(-1);
        }
        if w && flags & libc::O_TRUNC != 0 {
            d.truncate(0);
        }
    }
    Some(register(Fd {
        disk: node.disk,
        pos: Arc::new(Mutex::new(0)),
        readable: r,
        writable: w,
        append: flags & libc::O_APPEND != 0,
    }))
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match sim_open(path, flags) {
        Some(r) => r,
        None => {
            libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode)
                as c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if OPEN_FDS.load(Ordering::Relaxed) > 0 {
        let gone = fs().fds.remove(&fd);
        if gone.is_some() {
            OPEN_FDS.fetch_sub(1, Ordering::Relaxed);
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

unsafe fn sim_read(h: &Handle, buf: *mut c_void, n: size_t, at: Option<u64>) -> ssize_t {
    crate::sched::point();
    if !h.readable {
        set_errno(libc::EBADF);
        return -1;
    }
    let mut pos = h.pos.lock().unwrap();
    let off = at.unwrap_or(*pos);
    let slice = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    let r = lock(&h.disk).do_read(off, slice);
    match r {
        Ok(k) => {
            if at.is_none() {
                *pos += k as u64;
            }
            k as ssize_t
        }
        Err(e) => fail(e),
    }
}

unsafe fn sim_write(h: &Handle, buf: *const c_void, n: size_t, at: Option<u64>) -> ssize_t {
    crate::sched::point();
    if !h.writable {
        set_errno(libc::EBADF);
        return -1;
    }
    let mut pos = h.pos.lock().unwrap();
    if h.append {
        *pos = lock(&h.disk).size;
    }
    let off = at.unwrap_or(*pos);
    let slice = std::slice::from_raw_parts(buf as *const u8, n);
    let r = lock(&h.disk).do_write(off, slice);
    match r {
        Ok(k) => {
            if at.is_none() {
                *pos += k as u64;
            }
            k as ssize_t
        }
        Err(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match handle(fd) {
        Some(h) => sim_read(&h, buf, n, None),
        None => libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match handle(fd) {
        Some(h) => sim_write(&h, buf, n, None),
        None => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    match handle(fd) {
        Some(h) => sim_read(&h, buf, n, Some(off as u64)),
        None => libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    match handle(fd) {
        Some(h) => sim_write(&h, buf, n, Some(off as u64)),
        None => libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    match handle(fd) {
        // a short transfer into the first buffer that isn't empty
        Some(h) => {
            for i in 0..n as usize {
                let e = &*v.add(i);
                if e.iov_len > 0 {
                    return sim_read(&h, e.iov_base, e.iov_len, None);
                }
            }
            0
        }
        None => libc::syscall(libc::SYS_readv, fd, v, n) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    match handle(fd) {
        Some(h) => {
            for i in 0..n as usize {
                let e = &*v.add(i);
                if e.iov_len > 0 {
                    return sim_write(&h, e.iov_base, e.iov_len, None);
                }
            }
            0
        }
        None => libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match handle(fd) {
        Some(h) => {
            crate::sched::point();
            let mut pos = h.pos.lock().unwrap();
            let to = match whence {
                libc::SEEK_SET => {
                    if off < 0 {
                        set_errno(libc::EINVAL);
                        return -1;
                    }
                    io::SeekFrom::Start(off as u64)
                }
                libc::SEEK_CUR => io::SeekFrom::Current(off),
                libc::SEEK_END => io::SeekFrom::End(off),
                _ => {
                    set_errno(libc::EINVAL);
                    return -1;
                }
            };
            let r = lock(&h.disk).do_seek(*pos, to);
            match r {
                Ok(p) => {
                    *pos = p;
                    p as i64
                }
                Err(e) => fail(e) as i64,
            }
        }
        None => libc::syscall(libc::SYS_lseek, fd, off, whence),
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek64(fd, off, whence)
}

unsafe fn sync(fd: c_int, nr: libc::c_long) -> c_int {
    match handle(fd) {
        Some(h) => {
            crate::sched::point();
            let r = lock(&h.disk).do_flush();
            match r {
                Ok(()) => 0,
                Err(e) => fail(e) as c_int,
            }
        }
        None => libc::syscall(nr, fd) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fsync)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fdatasync)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    match handle(fd) {
        Some(h) => {
            if !h.writable {
                set_errno(libc::EINVAL);
                return -1;
            }
            lock(&h.disk).truncate(len as u64);
            0
        }
        None => libc::syscall(libc::SYS_ftruncate, fd, len) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    match handle(fd) {
        Some(h) => {
            let mut d = lock(&h.disk);
            let end = off as u64 + len as u64;
            if end > d.size {
                d.truncate(end);
            }
            0
        }
        None => libc::syscall(libc::SYS_fallocate, fd, mode, off, len) as c_int,
    }
}

unsafe fn fill_stat(h: &Handle, st: *mut libc::stat64) {
    std::ptr::write_bytes(st, 0, 1);
    let d = lock(&h.disk);
    (*st).st_mode = libc::S_IFREG | 0o644;
    (*st).st_size = d.size as i64;
    (*st).st_blksize = 4096;
    (*st).st_nlink = 1;
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    match handle(fd) {
        Some(h) => {
            fill_stat(&h, st);
            0
        }
        None => libc::syscall(libc::SYS_fstat, fd, st) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    dirfd: c_int,
    path: *const c_char,
    flags: c_int,
    mask: libc::c_uint,
    buf: *mut libc::statx,
) -> c_int {
    let empty = path.is_null() || *path == 0;
    let h = if empty {
        handle(dirfd)
    } else {
        let p = CStr::from_ptr(path).to_bytes();
        if p.starts_with(ROOT.as_bytes()) {
            let p = String::from_utf8_lossy(p).into_owned();
            match fs().files.get(&p) {
                Some(n) => Some(Handle {
                    disk: n.disk.clone(),
                    pos: Arc::new(Mutex::new(0)),
                    readable: true,
                    writable: true,
                    append: false,
                }),
                None => {
                    set_errno(libc::ENOENT);
                    return -1;
                }
            }
        } else {
            None
        }
    };
    match h {
        Some(h) => {
            std::ptr::write_bytes(buf, 0, 1);
            let d = lock(&h.disk);
            (*buf).stx_mask = libc::STATX_BASIC_STATS;
            (*buf).stx_mode = (libc::S_IFREG | 0o644) as u16;
            (*buf).stx_size = d.size;
            (*buf).stx_blksize = 4096;
            (*buf).stx_nlink = 1;
            0
        }
        None => libc::syscall(libc::SYS_statx, dirfd, path, flags, mask, buf) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    if matches!(cmd, libc::F_DUPFD | libc::F_DUPFD_CLOEXEC) {
        if let Some(h) = handle(fd) {
            return register(Fd {
                disk: h.disk,
                pos: h.pos,
                readable: h.readable,
                writable: h.writable,
                append: h.append,
            });
        }
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

/// The interposition works in this build: a file written through `std::fs` arrives on the
/// simulated disk.
pub fn self_test() -> Result<(), String> {
    let keys = |x| {
        std::thread::spawn(move || {
            use std::hash::BuildHasher;
            hash_seed(Some(x));
            let h = std::hash::RandomState::new().hash_one(1);
            hash_seed(None);
            h
        })
        .join()
        .map_err(|_| "hash tables".to_string())
    };
    if keys(5)? != keys(5)? || keys(5)? == keys(6)? {
        return Err("keys of hash tables are not seeded".into());
    }
    use std::io::{Read, Seek, Write};
    let disk = Disk::new(8192, 0).shared();
    let p = mount(
        "selftest",
        FileNode { disk: disk.clone(), writable: true, readable: true, open_error: None },
    );
    fn e(s: &'static str) -> impl Fn(io::Error) -> String {
        move |e| format!("{s}: {e}")
    }
    let mut f = std::fs::OpenOptions::new().read(true).write(true).open(&p).map_err(e("open"))?;
    f.seek(io::SeekFrom::Start(4096)).map_err(e("seek"))?;
    f.write_all(b"simulated").map_err(e("write"))?;
    if lock(&disk).unsynced() == 0 {
        return Err("write did not arrive in the cache".into());
    }
    f.sync_all().map_err(e("sync"))?;
    if lock(&disk).unsynced() != 0 || lock(&disk).peek(4096, 9) != b"simulated" {
        return Err("sync did not arrive".into());
    }
    if f.seek(io::SeekFrom::End(0)).map_err(e("seek end"))? != 8192 {
        return Err("wrong end".into());
    }
    if f.metadata().map_err(e("metadata"))?.len() != 8192 {
        return Err("wrong length in metadata".into());
    }
    let mut b = [0u8; 9];
    f.seek(io::SeekFrom::Start(4096)).map_err(e("seek"))?;
    f.read_exact(&mut b).map_err(e("read"))?;
    if &b != b"simulated" {
        return Err("wrong data".into());
    }
    drop(f);
    if OPEN_FDS.load(Ordering::Relaxed) != 0 {
        return Err("close did not arrive".into());
    }
    if std::fs::File::open(format!("{ROOT}missing")).map(|_| ()).unwrap_err().kind()
        != io::ErrorKind::NotFound
    {
        return Err("missing file was found".into());
    }
    unmount_all();
    Ok(())
}
