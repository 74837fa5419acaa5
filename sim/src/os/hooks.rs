//! libc symbols defined by the simulator executable. The Rust standard library and every crate
//! of decy are linked statically into it, so all their system interaction arrives here; calls
//! from threads that are not simulated go straight to the kernel.
use super::raw::{ret, sc6, set_errno};
use super::vfs::{Node, Vfs};
use super::*;
use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, pid_t, size_t, ssize_t};
use std::ffi::{CStr, CString};

pub struct VDir {
    pub fd: i32,
    pub names: Vec<(String, usize, u8)>,
    pub pos: usize,
    pub ent: Box<libc::dirent64>,
    pub path: String,
}

pub fn next(name: &CStr) -> *mut c_void {
    unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) }
}
macro_rules! real {
    ($n:literal, $t:ty) => {{
        static mut P: usize = 0;
        if P == 0 {
            P = next($n) as usize;
        }
        std::mem::transmute::<usize, $t>(P)
    }};
}
unsafe fn cs<'a>(p: *const c_char) -> std::borrow::Cow<'a, str> {
    CStr::from_ptr(p).to_string_lossy()
}
unsafe fn err(e: i32) -> c_int {
    set_errno(e);
    -1
}

/// Paths that belong to the machine, not to the simulation (read by libclang and the runtime).
fn is_real(p: &str) -> bool {
    const PRE: [&str; 9] = ["/usr", "/lib", "/lib64", "/etc", "/proc", "/sys", "/dev", "/opt", "/root"];
    PRE.iter().any(|x| p == *x || (p.starts_with(x) && p.as_bytes().get(x.len()) == Some(&b'/')))
}

/// Absolute virtual path, or None if the call must go to the kernel.
unsafe fn vpath(dirfd: c_int, p: *const c_char) -> Option<String> {
    let p = cs(p);
    let s = sim();
    let abs = if p.starts_with('/') {
        p.to_string()
    } else if dirfd == libc::AT_FDCWD {
        let pr = s.threads[s.cur].proc;
        format!("{}/{}", s.procs[pr].cwd, p)
    } else {
        let o = *s.fds.get(&dirfd)?;
        format!("{}/{}", s.ofds[o].path, p)
    };
    let norm = format!("/{}", Vfs::split(&abs).join("/"));
    if is_real(&norm) {
        None
    } else {
        Some(norm)
    }
}
fn virt(fd: c_int) -> bool {
    fd >= 1_000_000 || (0..3).contains(&fd)
}

// ------------------------------------------------------------------ open / close / read / write
unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if me().is_none() {
        return ret(sc6(libc::SYS_openat, dirfd as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int;
    }
    let _b = Busy::new();
    let Some(p) = vpath(dirfd, path) else {
        if flags & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) != 0 && !cs(path).starts_with("/dev/") {
            // the machine's own files are read-only for simulated processes
            return err(libc::EACCES);
        }
        return ret(sc6(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int;
    };
    let s = sim();
    let wr = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let k = if flags & libc::O_DIRECTORY != 0 {
        OpK::Opendir
    } else if wr {
        OpK::Create
    } else {
        OpK::Open
    };
    if let Some(f) = s.op(k, &p) {
        return err(Sim::errno_of(&f));
    }
    let t = s.mtime();
    let nofollow = flags & libc::O_NOFOLLOW != 0;
    let ino = match s.fs.lookup(&p, !nofollow) {
        Ok(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return err(libc::EEXIST);
            }
            i
        }
        Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
            if p.ends_with('/') {
                return err(libc::EISDIR);
            }
            match s.fs.create(&p, Node::File(vec![]), mode & 0o777, t) {
                Ok(i) => i,
                Err(e) => return err(e),
            }
        }
        Err(e) => return err(e),
    };
    if matches!(s.fs.cur[&ino].node, Node::Symlink(_)) {
        return err(libc::ELOOP);
    }
    let m = s.fs.cur[&ino].mode;
    if (wr && m & 0o200 == 0) || (flags & libc::O_ACCMODE != libc::O_WRONLY && m & 0o400 == 0) {
        return err(libc::EACCES);
    }
    let of = if s.fs.is_dir(ino) {
        if wr {
            return err(libc::EISDIR);
        }
        Of::Dir { ino }
    } else {
        if flags & libc::O_DIRECTORY != 0 {
            return err(libc::ENOTDIR);
        }
        if flags & libc::O_TRUNC != 0 && wr {
            if let Err(e) = s.fs.trunc(ino, 0, t) {
                return err(e);
            }
        }
        let acc = flags & libc::O_ACCMODE;
        Of::File { ino, append: flags & libc::O_APPEND != 0, r: acc != libc::O_WRONLY, w: wr }
    };
    let o = s.add_ofd(of, &p);
    s.add_fd(o)
}
// rustc insists on the variadic type for a function named `open`; on this ABI the third integer
// argument of a variadic call arrives in the same register, so an alias of open64 is the same.
core::arch::global_asm!(".globl open", ".type open, @function", "open: jmp {}", sym open64);
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int;
    }
    let _b = Busy::new();
    if sim().close_fd(fd) {
        0
    } else {
        err(libc::EBADF)
    }
}

unsafe fn vread(fd: c_int, buf: *mut c_void, n: usize, at: Option<usize>) -> ssize_t {
    let s = sim();
    let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) as ssize_t };
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    match s.ofds[o].of.clone() {
        Of::File { ino, r, .. } => {
            if !r {
                return err(libc::EBADF) as ssize_t;
            }
            let path = s.ofds[o].path.clone();
            let f = s.op(OpK::Read, &path);
            let mut lim = n;
            match f.as_deref() {
                Some("short") => lim = (n / 2).max(1).min(7),
                Some(k) => return err(Sim::errno_of(k)) as ssize_t,
                None => {}
            }
            if s.cfg.short_io > 0 && s.frand.below(100) < s.cfg.short_io as u64 {
                lim = lim.min(1 + s.frand.below(16) as usize);
            }
            let data = match s.fs.file(ino) {
                Ok(d) => d,
                Err(e) => return err(e) as ssize_t,
            };
            let off = at.unwrap_or(s.ofds[o].off);
            let k = data.len().saturating_sub(off).min(lim);
            out[..k].copy_from_slice(&data[off.min(data.len())..off.min(data.len()) + k]);
            if at.is_none() {
                s.ofds[o].off += k;
            }
            k as ssize_t
        }
        Of::PipeR(p) => loop {
            let s = sim();
            if !s.pipes[p].buf.is_empty() {
                let mut k = s.pipes[p].buf.len().min(n);
                if s.cfg.short_io > 0 && s.frand.below(100) < s.cfg.short_io as u64 {
                    k = k.min(1 + s.frand.below(16) as usize);
                }
                for b in out[..k].iter_mut() {
                    *b = s.pipes[p].buf.pop_front().unwrap();
                }
                s.wake(Key::Pipe, usize::MAX);
                return k as ssize_t;
            }
            if s.pipes[p].writers == 0 {
                return 0;
            }
            if s.ofds[o].nonblock {
                return err(libc::EAGAIN) as ssize_t;
            }
            s.block(Key::Pipe, None);
        },
        Of::Stdin(p) => {
            let f = s.op(OpK::StdinR, "<stdin>");
            let mut lim = n;
            match f.as_deref() {
                Some("short") => lim = 1,
                Some(k) => return err(Sim::errno_of(k)) as ssize_t,
                None => {}
            }
            if s.cfg.short_io > 0 && s.frand.below(100) < s.cfg.short_io as u64 {
                lim = lim.min(1 + s.frand.below(8) as usize);
            }
            let k = s.procs[p].stdin.len().min(lim);
            for b in out[..k].iter_mut() {
                *b = s.procs[p].stdin.pop_front().unwrap();
            }
            k as ssize_t
        }
        Of::Null => 0,
        Of::Dir { .. } => err(libc::EISDIR) as ssize_t,
        _ => err(libc::EBADF) as ssize_t,
    }
}

unsafe fn vwrite(fd: c_int, buf: *const c_void, n: usize, at: Option<usize>) -> ssize_t {
    let s = sim();
    let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) as ssize_t };
    let data = std::slice::from_raw_parts(buf as *const u8, n);
    match s.ofds[o].of.clone() {
        Of::File { ino, append, w, .. } => {
            if !w {
                return err(libc::EBADF) as ssize_t;
            }
            let path = s.ofds[o].path.clone();
            let f = s.op(OpK::Write, &path);
            let mut lim = n;
            let mut then = 0; // 1 = crash after the partial write, 2 = error
            match f.as_deref() {
                Some("short") => lim = (n / 2).max(1),
                Some("crash_mid") => {
                    lim = s.frand.below(n as u64 + 1) as usize;
                    then = 1;
                }
                Some("torn") => {
                    lim = s.frand.below(n as u64 + 1) as usize;
                    then = 2;
                }
                Some(k) => return err(Sim::errno_of(k)) as ssize_t,
                None => {}
            }
            if then == 0 && s.cfg.short_io > 0 && s.frand.below(100) < s.cfg.short_io as u64 {
                lim = lim.min(1 + s.frand.below(64) as usize);
            }
            let off = if append {
                s.fs.file(ino).map(|f| f.len()).unwrap_or(0)
            } else {
                at.unwrap_or(s.ofds[o].off)
            };
            let t = s.mtime();
            let k = match s.fs.write(ino, off, &data[..lim], t) {
                Ok(k) => k,
                Err(e) => {
                    *s.fired.entry("disk_full_write".into()).or_insert(0) += 1;
                    return err(e) as ssize_t;
                }
            };
            if at.is_none() {
                s.ofds[o].off = off + k;
            }
            match then {
                1 => s.crash_current(),
                2 => err(libc::EIO) as ssize_t,
                _ => k as ssize_t,
            }
        }
        Of::PipeW(p) => loop {
            let s = sim();
            if s.pipes[p].readers == 0 {
                return err(libc::EPIPE) as ssize_t;
            }
            let room = 65536usize.saturating_sub(s.pipes[p].buf.len());
            if room > 0 {
                let k = room.min(n);
                s.pipes[p].buf.extend(&data[..k]);
                s.wake(Key::Pipe, usize::MAX);
                return k as ssize_t;
            }
            if s.ofds[o].nonblock {
                return err(libc::EAGAIN) as ssize_t;
            }
            s.block(Key::Pipe, None);
        },
        Of::Capture(p, which) => {
            let mut lim = n;
            if which == 1 {
                if let Some(k) = s.op(OpK::StdoutW, "<stdout>") {
                    if k == "stdout_short" {
                        lim = (n / 2).max(1);
                    } else {
                        return err(Sim::errno_of(&k)) as ssize_t;
                    }
                }
            }
            let data = &data[..lim.min(n)];
            let q = &mut s.procs[p];
            if !q.discard {
                let v = if which == 1 { &mut q.stdout } else { &mut q.stderr };
                if v.len() < 4 << 20 {
                    v.extend_from_slice(data);
                }
            }
            lim.min(n) as ssize_t
        }
        Of::Null => n as ssize_t,
        _ => err(libc::EBADF) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t;
    }
    let _b = Busy::new();
    vread(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t;
    }
    let _b = Busy::new();
    vread(fd, buf, n, Some(off as usize))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_readv, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as ssize_t;
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return read(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t;
    }
    let _b = Busy::new();
    vwrite(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t;
    }
    let _b = Busy::new();
    vwrite(fd, buf, n, Some(off as usize))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_writev, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as ssize_t;
    }
    let _b = Busy::new();
    let mut all = vec![];
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
    }
    vwrite(fd, all.as_ptr() as *const _, all.len(), None)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0));
    }
    let _b = Busy::new();
    let s = sim();
    let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) as off64_t };
    let Of::File { ino, .. } = s.ofds[o].of else { return err(libc::ESPIPE) as off64_t };
    let len = s.fs.file(ino).map(|f| f.len()).unwrap_or(0) as i64;
    let n = match wh {
        libc::SEEK_SET => off,
        libc::SEEK_CUR => s.ofds[o].off as i64 + off,
        _ => len + off,
    };
    if n < 0 {
        return err(libc::EINVAL) as off64_t;
    }
    s.ofds[o].off = n as usize;
    n
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int;
    }
    let _b = Busy::new();
    let s = sim();
    let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) };
    let Of::File { ino, .. } = s.ofds[o].of else { return err(libc::EINVAL) };
    let p = s.ofds[o].path.clone();
    if let Some(k) = s.op(OpK::Trunc, &p) {
        return err(Sim::errno_of(&k));
    }
    let t = s.mtime();
    match s.fs.trunc(ino, len as usize, t) {
        Ok(()) => 0,
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn do_fsync(fd: c_int, nr: c_long) -> c_int {
    if me().is_none() || !virt(fd) {
        return ret(sc6(nr, fd as i64, 0, 0, 0, 0, 0)) as c_int;
    }
    let _b = Busy::new();
    let s = sim();
    let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) };
    let p = s.ofds[o].path.clone();
    if let Some(k) = s.op(OpK::Fsync, &p) {
        return err(Sim::errno_of(&k));
    }
    match s.ofds[o].of {
        Of::File { ino, .. } | Of::Dir { ino } => {
            s.fs.fsync(ino);
            0
        }
        _ => err(libc::EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_fsync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_fsync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as c_int;
    }
    let _b = Busy::new();
    // advisory locks keyed by inode, owned by the open file description
    let s = sim();
    let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) };
    let p = s.ofds[o].path.clone();
    let _ = s.op(OpK::Kill, &p);
    0
}

// ------------------------------------------------------------------ metadata
unsafe fn fill(st: *mut libc::stat64, ino: usize) -> c_int {
    let s = sim();
    let Some(i) = s.fs.cur.get(&ino) else { return err(libc::ENOENT) };
    std::ptr::write_bytes(st, 0, 1);
    let st = &mut *st;
    st.st_ino = ino as u64;
    st.st_dev = 42;
    st.st_nlink = 1;
    let (ty, size) = match &i.node {
        Node::File(f) => (libc::S_IFREG, f.len()),
        Node::Dir(_) => (libc::S_IFDIR, 4096),
        Node::Symlink(t) => (libc::S_IFLNK, t.len()),
    };
    st.st_mode = ty | i.mode;
    st.st_size = size as i64;
    st.st_blksize = 4096;
    st.st_blocks = (size as i64 + 511) / 512;
    let (sec, ns) = (i.mtime.div_euclid(1_000_000_000), i.mtime.rem_euclid(1_000_000_000));
    st.st_mtime = sec as i64;
    st.st_mtime_nsec = ns as i64;
    st.st_ctime = sec as i64;
    st.st_ctime_nsec = ns as i64;
    st.st_atime = sec as i64;
    0
}
unsafe fn fill_fd(fd: c_int, st: *mut libc::stat64) -> c_int {
    let s = sim();
    let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) };
    match s.ofds[o].of {
        Of::File { ino, .. } | Of::Dir { ino } => fill(st, ino),
        _ => {
            std::ptr::write_bytes(st, 0, 1);
            (*st).st_mode = libc::S_IFIFO | 0o600;
            0
        }
    }
}
unsafe fn do_stat(d: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    let pass = || ret(sc6(libc::SYS_newfstatat, d as i64, path as i64, st as i64, flags as i64, 0, 0)) as c_int;
    if me().is_none() {
        return pass();
    }
    let _b = Busy::new();
    if flags & libc::AT_EMPTY_PATH != 0 && *path == 0 {
        return if virt(d) { fill_fd(d, st) } else { pass() };
    }
    let Some(p) = vpath(d, path) else { return pass() };
    let s = sim();
    if let Some(k) = s.op(OpK::Stat, &p) {
        return err(Sim::errno_of(&k));
    }
    match s.fs.lookup(&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0) {
        Ok(i) => fill(st, i),
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, f: c_int) -> c_int {
    do_stat(d, p, st, f)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut libc::stat64, f: c_int) -> c_int {
    do_stat(d, p, st, f)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if me().is_none() || !virt(fd) {
        return ret(sc6(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int;
    }
    let _b = Busy::new();
    fill_fd(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if me().is_none() {
        return ret(sc6(libc::SYS_statx, d as i64, p as i64, flags as i64, mask as i64, out as i64, 0)) as c_int;
    }
    // std checks availability with null pointers
    if out.is_null() || p.is_null() {
        return err(libc::EFAULT);
    }
    let mut st: libc::stat64 = std::mem::zeroed();
    let rc = do_stat(d, p, &mut st, flags & (libc::AT_SYMLINK_NOFOLLOW | libc::AT_EMPTY_PATH));
    if rc != 0 {
        return rc;
    }
    std::ptr::write_bytes(out, 0, 1);
    let o = &mut *out;
    o.stx_mask = libc::STATX_BASIC_STATS;
    o.stx_blksize = 4096;
    o.stx_nlink = 1;
    o.stx_mode = st.st_mode as u16;
    o.stx_ino = st.st_ino;
    o.stx_size = st.st_size as u64;
    o.stx_blocks = st.st_blocks as u64;
    o.stx_mtime.tv_sec = st.st_mtime;
    o.stx_mtime.tv_nsec = st.st_mtime_nsec as u32;
    o.stx_ctime = o.stx_mtime;
    o.stx_atime = o.stx_mtime;
    o.stx_dev_minor = 42;
    0
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    faccessat(libc::AT_FDCWD, p, m, 0)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int {
    if me().is_some() {
        let v = {
            let _b = Busy::new();
            vpath(d, p)
        };
        if v.is_some() {
            let mut st: libc::stat64 = std::mem::zeroed();
            let rc = do_stat(d, p, &mut st, 0);
            if rc == 0 && m & libc::W_OK != 0 && st.st_mode & 0o200 == 0 {
                return err(libc::EACCES);
            }
            return rc;
        }
    }
    ret(sc6(libc::SYS_faccessat, d as i64, p as i64, m as i64, f as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if me().is_some() {
        let _b = Busy::new();
        if let Some(v) = vpath(libc::AT_FDCWD, p) {
            let s = sim();
            return match s.fs.lookup(&v, false) {
                Ok(i) => match &s.fs.cur[&i].node {
                    Node::Symlink(t) => {
                        let k = t.len().min(n);
                        std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                        k as ssize_t
                    }
                    _ => err(libc::EINVAL) as ssize_t,
                },
                Err(e) => err(e) as ssize_t,
            };
        }
    }
    ret(sc6(libc::SYS_readlink, p as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if me().is_some() {
        let v = {
            let _b = Busy::new();
            vpath(libc::AT_FDCWD, p)
        };
        if let Some(v) = v {
            let _b = Busy::new();
            let s = sim();
            if let Some(k) = s.op(OpK::Stat, &v) {
                set_errno(Sim::errno_of(&k));
                return std::ptr::null_mut();
            }
            // the simulated tree only has links as leaves; good enough for canonical names
            match s.fs.lookup(&v, true) {
                Ok(_) => {
                    let c = CString::new(v).unwrap();
                    if out.is_null() {
                        return libc::strdup(c.as_ptr());
                    }
                    libc::strcpy(out, c.as_ptr());
                    return out;
                }
                Err(e) => {
                    set_errno(e);
                    return std::ptr::null_mut();
                }
            }
        }
    }
    real!(c"realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if me().is_some() {
        let _b = Busy::new();
        let s = sim();
        let c = CString::new(s.procs[s.threads[s.cur].proc].cwd.clone()).unwrap();
        if c.as_bytes_with_nul().len() > n {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        libc::strcpy(buf, c.as_ptr());
        return buf;
    }
    real!(c"getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        if let Some(v) = vpath(libc::AT_FDCWD, p) {
            let s = sim();
            return match s.fs.lookup(&v, true) {
                Ok(i) if s.fs.is_dir(i) => {
                    let pr = s.threads[s.cur].proc;
                    s.procs[pr].cwd = v;
                    0
                }
                Ok(_) => err(libc::ENOTDIR),
                Err(e) => err(e),
            };
        }
        return err(libc::EACCES);
    }
    ret(sc6(libc::SYS_chdir, p as i64, 0, 0, 0, 0, 0)) as c_int
}
fn res(r: Result<(), i32>) -> c_int {
    match r {
        Ok(()) => 0,
        Err(e) => unsafe { err(e) },
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, m: mode_t) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        if let Some(v) = vpath(d, p) {
            let s = sim();
            if let Some(k) = s.op(OpK::Mkdir, &v) {
                return err(Sim::errno_of(&k));
            }
            let t = s.mtime();
            if Vfs::split(&v).is_empty() {
                return err(libc::EEXIST);
            }
            return res(s.fs.create(&v, Node::Dir(BTreeMap::new()), m & 0o777, t).map(|_| ()));
        }
        return err(libc::EACCES);
    }
    ret(sc6(libc::SYS_mkdirat, d as i64, p as i64, m as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    mkdirat(libc::AT_FDCWD, p, m)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        if let Some(v) = vpath(d, p) {
            let s = sim();
            if let Some(k) = s.op(OpK::Unlink, &v) {
                return err(Sim::errno_of(&k));
            }
            let t = s.mtime();
            return res(s.fs.unlink(&v, f & libc::AT_REMOVEDIR != 0, t));
        }
        return err(libc::EACCES);
    }
    ret(sc6(libc::SYS_unlinkat, d as i64, p as i64, f as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, p, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: u32) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        if let (Some(x), Some(y)) = (vpath(d1, a), vpath(d2, b)) {
            let s = sim();
            if let Some(k) = s.op(OpK::Rename, &y) {
                return err(Sim::errno_of(&k));
            }
            let t = s.mtime();
            return res(s.fs.rename(&x, &y, f & 1 != 0, t));
        }
        return err(libc::EXDEV);
    }
    ret(sc6(libc::SYS_renameat2, d1 as i64, a as i64, d2 as i64, b as i64, f as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    renameat2(d1, a, d2, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat2(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_int) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        if let (Some(x), Some(y)) = (vpath(d1, a), vpath(d2, b)) {
            let s = sim();
            if let Some(k) = s.op(OpK::Rename, &y) {
                return err(Sim::errno_of(&k));
            }
            let t = s.mtime();
            let r = s.fs.lookup(&x, false);
            return res(r.and_then(|i| s.fs.link(i, &y, t)));
        }
        return err(libc::EXDEV);
    }
    ret(sc6(libc::SYS_linkat, d1 as i64, a as i64, d2 as i64, b as i64, f as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        if let Some(v) = vpath(libc::AT_FDCWD, p) {
            let s = sim();
            let tm = s.mtime();
            return res(s.fs.create(&v, Node::Symlink(cs(t).into_owned()), 0o777, tm).map(|_| ()));
        }
        return err(libc::EACCES);
    }
    ret(sc6(libc::SYS_symlink, t as i64, p as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        if let Some(v) = vpath(libc::AT_FDCWD, p) {
            let s = sim();
            return res(s.fs.lookup(&v, true).map(|i| s.fs.chmod(i, m & 0o777)));
        }
        return err(libc::EACCES);
    }
    ret(sc6(libc::SYS_chmod, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if me().is_some() && virt(fd) {
        let _b = Busy::new();
        let s = sim();
        let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) };
        if let Of::File { ino, .. } | Of::Dir { ino } = s.ofds[o].of {
            s.fs.chmod(ino, m & 0o777);
        }
        return 0;
    }
    ret(sc6(libc::SYS_fchmod, fd as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const libc::timespec) -> c_int {
    if me().is_some() && virt(fd) {
        let _b = Busy::new();
        let s = sim();
        let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) };
        if let Of::File { ino, .. } = s.ofds[o].of {
            let m = &*ts.add(1);
            if let Some(i) = s.fs.cur.get_mut(&ino) {
                i.mtime = m.tv_sec as i128 * 1_000_000_000 + m.tv_nsec as i128;
            }
        }
        return 0;
    }
    ret(sc6(libc::SYS_utimensat, fd as i64, 0, ts as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, f: u32) -> ssize_t {
    if me().is_some() {
        return err(libc::ENOSYS) as ssize_t;
    }
    ret(sc6(libc::SYS_copy_file_range, a as i64, ao as i64, b as i64, bo as i64, n as i64, f as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t {
    if me().is_some() {
        return err(libc::EINVAL) as ssize_t;
    }
    ret(sc6(libc::SYS_sendfile, a as i64, b as i64, o as i64, n as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, f: u32) -> ssize_t {
    if me().is_some() {
        return err(libc::EINVAL) as ssize_t;
    }
    ret(sc6(libc::SYS_splice, a as i64, ao as i64, b as i64, bo as i64, n as i64, f as i64)) as ssize_t
}

// ------------------------------------------------------------------ directories
unsafe fn make_dirp(fd: i32, ino: usize, path: String) -> *mut libc::DIR {
    let s = sim();
    let mut names: Vec<(String, usize, u8)> = match s.fs.dir(ino) {
        Ok(d) => d
            .iter()
            .map(|(n, i)| {
                let ty = match s.fs.cur.get(i).map(|x| &x.node) {
                    Some(Node::Dir(_)) => libc::DT_DIR,
                    Some(Node::Symlink(_)) => libc::DT_LNK,
                    _ => libc::DT_REG,
                };
                (n.clone(), *i, ty)
            })
            .collect(),
        Err(_) => vec![],
    };
    names.push((".".into(), ino, libc::DT_DIR));
    names.push(("..".into(), ino, libc::DT_DIR));
    if s.cfg.readdir_seed != 0 {
        let mut r = Rng::new(s.cfg.readdir_seed ^ ino as u64);
        r.shuffle(&mut names);
    }
    let id = s.new_dirp();
    s.vdirs.insert(id, VDir { fd, names, pos: 0, ent: Box::new(std::mem::zeroed()), path });
    id as *mut libc::DIR
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if me().is_some() {
        let v = {
            let _b = Busy::new();
            vpath(libc::AT_FDCWD, p)
        };
        if v.is_some() {
            let fd = do_open(libc::AT_FDCWD, p, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC, 0);
            if fd < 0 {
                return std::ptr::null_mut();
            }
            return fdopendir(fd);
        }
    }
    real!(c"opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR)(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if me().is_some() && virt(fd) {
        let _b = Busy::new();
        let s = sim();
        if let Some(o) = s.ofd_of(fd) {
            if let Of::Dir { ino } = s.ofds[o].of {
                let p = s.ofds[o].path.clone();
                return make_dirp(fd, ino, p);
            }
        }
        set_errno(libc::ENOTDIR);
        return std::ptr::null_mut();
    }
    real!(c"fdopendir", unsafe extern "C" fn(c_int) -> *mut libc::DIR)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if me().is_some() {
        let _b = Busy::new();
        let s = sim();
        if let Some(path) = s.vdirs.get(&(d as usize)).map(|v| v.path.clone()) {
            if let Some(k) = s.op(OpK::Readdir, &path) {
                set_errno(Sim::errno_of(&k));
                return std::ptr::null_mut();
            }
            let v = s.vdirs.get_mut(&(d as usize)).unwrap();
            if v.pos >= v.names.len() {
                return std::ptr::null_mut();
            }
            let (n, i, ty) = v.names[v.pos].clone();
            v.pos += 1;
            v.ent.d_ino = i as u64;
            v.ent.d_type = ty;
            v.ent.d_off = v.pos as i64;
            v.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            let b = n.as_bytes();
            for (k, c) in b.iter().take(255).enumerate() {
                v.ent.d_name[k] = *c as c_char;
            }
            v.ent.d_name[b.len().min(255)] = 0;
            return &mut *v.ent;
        }
    }
    real!(c"readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64)(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut libc::DIR) -> *mut libc::dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        let s = sim();
        if let Some(v) = s.vdirs.remove(&(d as usize)) {
            s.close_fd(v.fd);
            return 0;
        }
    }
    real!(c"closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if me().is_some() {
        if let Some(v) = sim().vdirs.get(&(d as usize)) {
            return v.fd;
        }
    }
    real!(c"dirfd", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}

// ------------------------------------------------------------------ descriptors, terminals
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if me().is_some() && virt(fd) {
        let _b = Busy::new();
        let s = sim();
        let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) };
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_SETFD => 0,
            libc::F_GETFL => {
                (if s.ofds[o].nonblock { libc::O_NONBLOCK } else { 0 })
                    | match s.ofds[o].of {
                        Of::File { r: true, w: true, .. } => libc::O_RDWR,
                        Of::File { w: true, .. } | Of::PipeW(_) => libc::O_WRONLY,
                        _ => libc::O_RDONLY,
                    }
            }
            libc::F_SETFL => {
                s.ofds[o].nonblock = arg as c_int & libc::O_NONBLOCK != 0;
                0
            }
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                s.ref_ofd(o);
                s.add_fd(o)
            }
            _ => 0,
        };
    }
    ret(sc6(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: c_long) -> c_int {
    if me().is_some() && virt(fd) {
        let _b = Busy::new();
        if req == libc::FIONBIO {
            let s = sim();
            let Some(o) = s.ofd_of(fd) else { return err(libc::EBADF) };
            s.ofds[o].nonblock = *(arg as *const c_int) != 0;
            return 0;
        }
        return err(libc::ENOTTY);
    }
    ret(sc6(libc::SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if me().is_some() && virt(fd) {
        set_errno(libc::ENOTTY);
        return 0;
    }
    real!(c"isatty", unsafe extern "C" fn(c_int) -> c_int)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, t: *mut libc::termios) -> c_int {
    if me().is_some() && virt(fd) {
        return err(libc::ENOTTY);
    }
    real!(c"tcgetattr", unsafe extern "C" fn(c_int, *mut libc::termios) -> c_int)(fd, t)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if me().is_some() && virt(fd) {
        return fcntl(fd, libc::F_DUPFD, 0);
    }
    ret(sc6(libc::SYS_dup, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(out: *mut c_int, flags: c_int) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        let s = sim();
        if let Some(k) = s.op(OpK::PipeNew, "<pipe>") {
            return err(Sim::errno_of(&k));
        }
        s.pipes.push(Pipe { buf: VecDeque::new(), readers: 1, writers: 1 });
        let p = s.pipes.len() - 1;
        let r = s.add_ofd(Of::PipeR(p), "<pipe>");
        let w = s.add_ofd(Of::PipeW(p), "<pipe>");
        *out = s.add_fd(r);
        *out.add(1) = s.add_fd(w);
        return 0;
    }
    ret(sc6(libc::SYS_pipe2, out as i64, flags as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe(out: *mut c_int) -> c_int {
    pipe2(out, 0)
}
fn pipe_events(s: &Sim, fd: c_int, want: i16) -> i16 {
    let Some(o) = s.ofd_of(fd) else { return libc::POLLNVAL };
    let mut ev = 0;
    match s.ofds[o].of {
        Of::PipeR(p) => {
            if !s.pipes[p].buf.is_empty() {
                ev |= libc::POLLIN;
            }
            if s.pipes[p].writers == 0 {
                ev |= libc::POLLHUP;
            }
        }
        Of::PipeW(p) => {
            if s.pipes[p].buf.len() < 65536 {
                ev |= libc::POLLOUT;
            }
            if s.pipes[p].readers == 0 {
                ev |= libc::POLLERR;
            }
        }
        _ => ev |= libc::POLLIN | libc::POLLOUT,
    }
    ev & (want | libc::POLLHUP | libc::POLLERR | libc::POLLNVAL)
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    if me().is_none() {
        return ret(sc6(libc::SYS_poll, fds as i64, n as i64, timeout as i64, 0, 0, 0)) as c_int;
    }
    let _b = Busy::new();
    let s = sim();
    let _ = s.op(OpK::Kill, "<poll>");
    let deadline = if timeout < 0 { None } else { Some(s.now + timeout as u64 * 1_000_000) };
    loop {
        let s = sim();
        let mut c = 0;
        for i in 0..n as usize {
            let f = &mut *fds.add(i);
            f.revents = if f.fd < 0 { 0 } else { pipe_events(s, f.fd, f.events) };
            if f.revents != 0 {
                c += 1;
            }
        }
        if c > 0 {
            return c;
        }
        if deadline.is_some_and(|d| s.now >= d) {
            return 0;
        }
        s.block(Key::Pipe, deadline);
    }
}

// ------------------------------------------------------------------ processes
type FA = *mut libc::posix_spawn_file_actions_t;
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(a: FA) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        sim().file_actions.insert(a as usize, (vec![], None));
        return 0;
    }
    real!(c"posix_spawn_file_actions_init", unsafe extern "C" fn(FA) -> c_int)(a)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(a: FA) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        sim().file_actions.remove(&(a as usize));
        return 0;
    }
    real!(c"posix_spawn_file_actions_destroy", unsafe extern "C" fn(FA) -> c_int)(a)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(a: FA, x: c_int, y: c_int) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        if let Some(v) = sim().file_actions.get_mut(&(a as usize)) {
            v.0.push((x, y));
        }
        return 0;
    }
    real!(c"posix_spawn_file_actions_adddup2", unsafe extern "C" fn(FA, c_int, c_int) -> c_int)(a, x, y)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(a: FA, p: *const c_char) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        let v = vpath(libc::AT_FDCWD, p);
        if let Some(e) = sim().file_actions.get_mut(&(a as usize)) {
            e.1 = v;
        }
        return 0;
    }
    real!(c"posix_spawn_file_actions_addchdir_np", unsafe extern "C" fn(FA, *const c_char) -> c_int)(a, p)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut pid_t,
    file: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    attr: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if me().is_none() {
        return real!(
            c"posix_spawnp",
            unsafe extern "C" fn(
                *mut pid_t,
                *const c_char,
                *const libc::posix_spawn_file_actions_t,
                *const libc::posix_spawnattr_t,
                *const *mut c_char,
                *const *mut c_char,
            ) -> c_int
        )(pid, file, fa, attr, argv, envp);
    }
    let _b = Busy::new();
    let name = cs(file).into_owned();
    let mut args = vec![];
    let mut i = 0;
    while !(*argv.add(i)).is_null() {
        args.push(cs(*argv.add(i)).into_owned());
        i += 1;
    }
    let s = sim();
    if let Some(k) = s.op(OpK::Spawn, &name) {
        return Sim::errno_of(&k);
    }
    s.spawned.push(args.clone());
    let me_p = s.threads[s.cur].proc;
    let Some(f) = progs::resolve(&name, &args) else { return libc::ENOENT };
    let f = match f {
        Ok(f) => f,
        Err(e) => return e,
    };
    let cwd = s.procs[me_p].cwd.clone();
    let p = s.new_proc(&name, &cwd);
    s.procs[p].parent = Some(me_p);
    s.procs[p].argv = args.clone();
    s.procs[p].stub = true;
    s.procs[p].daemon = true;
    let mut std = s.procs[me_p].stdfd;
    if let Some((dups, cd)) = s.file_actions.get(&(fa as usize)).cloned() {
        if let Some(cd) = cd {
            s.procs[p].cwd = cd;
        }
        for (from, to) in dups {
            if (0..3).contains(&to) {
                // "/dev/null" is opened by std as a real descriptor
                std[to as usize] = match s.ofd_of(from) {
                    Some(o) => Some(o),
                    None => Some(s.add_ofd(Of::Null, "/dev/null")),
                };
            }
        }
    }
    for o in std.iter().flatten() {
        s.ref_ofd(*o);
    }
    s.procs[p].stdfd = std;
    *pid = s.procs[p].pid;
    start_proc(p, Box::new(move || f(&args)));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(
    pid: *mut pid_t,
    file: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    attr: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    posix_spawnp(pid, file, fa, attr, argv, envp)
}
fn status_of(e: Exit) -> c_int {
    match e {
        Exit::Code(c) => (c & 0xff) << 8,
        Exit::Signal(n) => n,
        Exit::Crashed => libc::SIGKILL,
    }
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: pid_t, st: *mut c_int, opts: c_int) -> pid_t {
    if me().is_none() {
        return ret(sc6(libc::SYS_wait4, pid as i64, st as i64, opts as i64, 0, 0, 0)) as pid_t;
    }
    let _b = Busy::new();
    let s = sim();
    if let Some(k) = s.op(OpK::Wait, "<wait>") {
        return err(Sim::errno_of(&k));
    }
    let mep = s.threads[s.cur].proc;
    loop {
        let s = sim();
        let mut any = false;
        for q in 0..s.procs.len() {
            if s.procs[q].parent == Some(mep) && !s.procs[q].reaped && (pid < 0 || s.procs[q].pid == pid) {
                any = true;
                if let Some(e) = s.procs[q].exit {
                    s.procs[q].reaped = true;
                    if !st.is_null() {
                        *st = status_of(e);
                    }
                    return s.procs[q].pid;
                }
            }
        }
        if !any {
            return err(libc::ECHILD);
        }
        if opts & libc::WNOHANG != 0 {
            return 0;
        }
        s.block(Key::Child, None);
    }
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    if me().is_none() {
        return ret(sc6(libc::SYS_kill, pid as i64, sig as i64, 0, 0, 0, 0)) as c_int;
    }
    let _b = Busy::new();
    let s = sim();
    let _ = s.op(OpK::Kill, "<kill>");
    for q in 0..s.procs.len() {
        // a process nobody waits for leaves no zombie behind
        let gone = s.procs[q].reaped || (s.procs[q].exit.is_some() && s.procs[q].parent.map_or(true, |p| s.procs[p].exit.is_some()));
        if s.procs[q].pid == pid && !gone {
            if sig != 0 && s.procs[q].exit.is_none() {
                s.kill_proc(q, Exit::Signal(sig));
            }
            return 0;
        }
    }
    err(libc::ESRCH)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if me().is_some() {
        let s = sim();
        return s.procs[s.threads[s.cur].proc].pid;
    }
    sc6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t
}
/// The standard library remembers (as the address of errno, in a private static) which thread is
/// exiting and stops every other thread that calls exit. Simulated processes share that static,
/// so it is found by its value and cleared.
unsafe fn forget_exiting_thread() {
    static mut SLOTS: Vec<usize> = Vec::new();
    unsafe extern "C" fn cb(info: *mut libc::dl_phdr_info, _n: size_t, data: *mut c_void) -> c_int {
        let want = *(data as *const usize);
        let i = &*info;
        for k in 0..i.dlpi_phnum as usize {
            let ph = &*i.dlpi_phdr.add(k);
            if ph.p_type == libc::PT_LOAD && ph.p_flags & libc::PF_W != 0 {
                let lo = (i.dlpi_addr + ph.p_vaddr) as usize;
                let hi = lo + ph.p_memsz as usize;
                let mut a = (lo + 7) & !7;
                while a + 8 <= hi {
                    if *(a as *const usize) == want {
                        SLOTS.push(a);
                    }
                    a += 8;
                }
            }
        }
        1 // only the first object: the executable
    }
    let mut want = libc::__errno_location() as usize;
    if SLOTS.is_empty() {
        libc::dl_iterate_phdr(Some(cb), &mut want as *mut usize as *mut c_void);
    }
    for a in SLOTS.iter() {
        if *(*a as *const usize) == want {
            *(*a as *mut usize) = 0;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if me().is_some() {
        let _b = Busy::new();
        let s = sim();
        let p = s.threads[s.cur].proc;
        forget_exiting_thread();
        s.end_proc(p, Exit::Code(code & 0xff));
        s.park_forever();
    }
    real!(c"exit", unsafe extern "C" fn(c_int) -> !)(code)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if me().is_some() {
        let _b = Busy::new();
        let s = sim();
        let p = s.threads[s.cur].proc;
        s.end_proc(p, Exit::Signal(libc::SIGABRT));
        s.park_forever();
    }
    real!(c"abort", unsafe extern "C" fn() -> !)()
}

// ------------------------------------------------------------------ threads
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    if me().is_some() {
        return match spawn_c(attr, start, arg) {
            Ok(th) => {
                *t = th;
                let _b = Busy::new();
                sim().yield_now();
                0
            }
            Err(e) => e,
        };
    }
    real!(
        c"pthread_create",
        unsafe extern "C" fn(
            *mut libc::pthread_t,
            *const libc::pthread_attr_t,
            extern "C" fn(*mut c_void) -> *mut c_void,
            *mut c_void,
        ) -> c_int
    )(t, attr, start, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        let s = sim();
        if let Some(tid) = s.threads.iter().rposition(|x| x.pthread == t) {
            loop {
                let s = sim();
                if s.threads[tid].state == TState::Finished {
                    break;
                }
                s.block(Key::Thread(tid), None);
            }
        }
    }
    real!(c"pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int)(t, out)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        sim().preempt_any();
        return 0;
    }
    sc6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
/// std's locks, parking and condition variables reach the kernel through `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if me().is_some() {
        let _b = Busy::new();
        let s = sim();
        if n == libc::SYS_futex {
            let op = b as c_int & 0x7f;
            let addr = a as usize;
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    if *(a as *const u32) != c as u32 {
                        return err(libc::EAGAIN) as c_long;
                    }
                    let ts = d as *const libc::timespec;
                    let deadline = if ts.is_null() {
                        None
                    } else {
                        let ns = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
                        let mut abs = if op == libc::FUTEX_WAIT { s.now as i128 + ns } else { ns };
                        if op == libc::FUTEX_WAIT_BITSET && b as c_int & libc::FUTEX_CLOCK_REALTIME != 0 {
                            abs -= s.wall_off;
                        }
                        Some(abs.max(0) as u64)
                    };
                    if s.block(Key::Futex(addr), deadline) {
                        return err(libc::ETIMEDOUT) as c_long;
                    }
                    return 0;
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    return s.wake(Key::Futex(addr), c.max(0) as usize) as c_long;
                }
                _ => return err(libc::ENOSYS) as c_long,
            }
        }
        if n == libc::SYS_getrandom {
            return getrandom_v(a as *mut c_void, b as usize) as c_long;
        }
        if n == libc::SYS_pidfd_open || n == libc::SYS_copy_file_range {
            return err(libc::ENOSYS) as c_long;
        }
        if n == libc::SYS_renameat2 {
            drop(_b);
            return renameat2(a as c_int, b as *const _, c as c_int, d as *const _, e as u32) as c_long;
        }
    }
    ret(sc6(n, a, b, c, d, e, f))
}

// ------------------------------------------------------------------ clocks and randomness
unsafe fn getrandom_v(buf: *mut c_void, n: usize) -> ssize_t {
    let s = sim();
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    for b in out.iter_mut() {
        *b = (s.rand.next() >> 24) as u8;
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, f: libc::c_uint) -> ssize_t {
    if me().is_some() {
        let _b = Busy::new();
        return getrandom_v(buf, n);
    }
    // harness code: constant, so that nothing in a run depends on real randomness
    let _ = f;
    std::slice::from_raw_parts_mut(buf as *mut u8, n).fill(0x5a);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        let s = sim();
        s.clock_reads += 1;
        if s.clock_reads > 10_000 {
            // busy loop on the clock: time passes and others run
            s.now += 1_000_000;
            s.clock_reads = 9_000;
            s.preempt_any();
        }
        let t = if clk == libc::CLOCK_REALTIME { s.wall() } else { s.now as i128 };
        let g = s.cfg.clock_gran.max(1) as i128;
        let t = t.div_euclid(g) * g;
        (*ts).tv_sec = t.div_euclid(1_000_000_000) as i64;
        (*ts).tv_nsec = t.rem_euclid(1_000_000_000) as i64;
        return 0;
    }
    ret(sc6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        sim().sleep(ns);
        return 0;
    }
    ret(sc6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if me().is_some() {
        let _b = Busy::new();
        let s = sim();
        let ns = (*req).tv_sec as i128 * 1_000_000_000 + (*req).tv_nsec as i128;
        if flags & libc::TIMER_ABSTIME != 0 {
            let now = if clk == libc::CLOCK_REALTIME { s.wall() } else { s.now as i128 };
            if ns > now {
                s.sleep((ns - now) as u64);
            }
        } else {
            s.sleep(ns as u64);
        }
        return 0;
    }
    -(sc6(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int)
}
