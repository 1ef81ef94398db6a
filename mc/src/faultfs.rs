//! Interposes the file system functions of libc for directories under test.
//!
//! The definitions below take precedence over the ones of libc for everything linked statically
//! into this program (Rust's standard library and all crates), so each operation of the library
//! under test that changes the file system passes through here. For a tracked directory, a
//! callback runs after each operation (and in the middle of each write), on the thread which
//! executes it, while no other operation on the same directory can happen: what it sees on disk
//! is what would be left if the process died at this moment. It can also make operations fail.
use std::collections::HashMap;
use std::ffi::{CStr, c_char, c_int, c_void};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, RwLock};

/// How much of each write is done before the callback is called in its middle
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Torn {
    None,
    Half,
    /// after the first byte, the half and all but the last byte
    Many,
}

pub struct Track {
    pub torn: Torn,
    /// Called with the number of the point, its description and the changed paths. Also called
    /// with u64::MAX before each operation, to find changes which have not been interposed
    /// (some crates use system calls directly).
    pub point: Box<dyn FnMut(u64, &str, &[PathBuf]) + Send>,
    pub n: u64,
    /// Operations with this number (from 0) fail with EIO (and all later ones if `fail_all`)
    pub fail_from: Option<u64>,
    pub fail_all: bool,
    pub ops: u64,
}

type Shared = Arc<Mutex<Track>>;
static TRACKED: RwLock<Option<HashMap<PathBuf, Shared>>> = RwLock::new(None);
static ACTIVE: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static INSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub struct Guard(PathBuf, Shared);
impl Guard {
    pub fn with<T>(&self, f: impl FnOnce(&mut Track) -> T) -> T {
        f(&mut self.1.lock().unwrap())
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        TRACKED.write().unwrap().get_or_insert_with(Default::default).remove(&self.0);
        ACTIVE.fetch_sub(1, SeqCst);
    }
}

/// Track all operations below `dir` (an absolute path without symbolic links)
pub fn track(dir: &Path, torn: Torn, point: Box<dyn FnMut(u64, &str, &[PathBuf]) + Send>) -> Guard {
    let dir = std::fs::canonicalize(dir).unwrap();
    let t = Arc::new(Mutex::new(Track { torn, point, n: 0, fail_from: None, fail_all: false, ops: 0 }));
    TRACKED.write().unwrap().get_or_insert_with(Default::default).insert(dir.clone(), t.clone());
    ACTIVE.fetch_add(1, SeqCst);
    Guard(dir, t)
}

fn find(p: &Path) -> Option<Shared> {
    let g = TRACKED.read().unwrap();
    let m = g.as_ref()?;
    p.ancestors().find_map(|a| m.get(a).cloned())
}

fn enabled() -> bool {
    ACTIVE.load(SeqCst) > 0 && !INSIDE.with(|x| x.get())
}

fn fd_path(fd: c_int) -> Option<PathBuf> {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).ok()
}

fn at_path(dirfd: c_int, p: *const c_char) -> Option<PathBuf> {
    let p = Path::new(std::ffi::OsStr::from_bytes(unsafe { CStr::from_ptr(p) }.to_bytes()));
    if p.is_absolute() {
        return Some(p.to_path_buf());
    }
    if dirfd == libc::AT_FDCWD {
        return Some(std::env::current_dir().ok()?.join(p));
    }
    Some(fd_path(dirfd)?.join(p))
}

fn fail(e: c_int) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

/// Directory outside of which operations of this thread are only recorded
pub struct Jail {
    pub dir: PathBuf,
    /// temporary files of the library are allowed in this directory
    pub tmp: PathBuf,
    pub escaped: Vec<String>,
}
thread_local! {
    static JAIL: std::cell::RefCell<Option<Jail>> = const { std::cell::RefCell::new(None) };
}

/// Run with all changes of the file system restricted to `dir` and temporary files, returns the attempts to leave it
pub fn jailed<T>(dir: &Path, f: impl FnOnce() -> T) -> (T, Vec<String>) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            JAIL.with(|j| j.borrow_mut().take());
        }
    }
    JAIL.with(|j| *j.borrow_mut() = Some(Jail { dir: dir.to_path_buf(), tmp: std::env::temp_dir(), escaped: vec![] }));
    let reset = Reset;
    let r = f();
    let escaped = JAIL.with(|j| j.borrow_mut().take().map(|j| j.escaped).unwrap_or_default());
    drop(reset);
    (r, escaped)
}

fn normalize(p: &Path) -> PathBuf {
    let mut r = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                r.pop();
            }
            std::path::Component::CurDir => {}
            c => r.push(c),
        }
    }
    r
}

/// Is the operation forbidden?
fn escapes(paths: &[Option<PathBuf>], what: &str) -> bool {
    JAIL.try_with(|j| {
        let Ok(mut j) = j.try_borrow_mut() else { return false };
        let Some(j) = j.as_mut() else { return false };
        for p in paths.iter().flatten() {
            let n = normalize(p);
            let ok = n.starts_with(&j.dir) || n.strip_prefix(&j.tmp).is_ok_and(|r| [&b".tmp"[..], b"graphannis-"].iter().any(|x| r.as_os_str().as_bytes().starts_with(x))) || n.starts_with("/dev/null") || n.starts_with("/proc")
                // files without a name
                || n.as_os_str().as_bytes().ends_with(b" (deleted)");
            if !ok {
                j.escaped.push(format!("{what} {}", n.to_string_lossy()));
                return true;
            }
        }
        false
    })
    .unwrap_or(false)
}

/// Execute an operation that changes the tracked directory
fn op(paths: &[Option<PathBuf>], what: &str, f: impl Fn() -> isize) -> isize {
    if what != "open" {
        scheduled(paths);
    }
    if escapes(paths, what) {
        return fail(libc::EACCES);
    }
    if !enabled() {
        return f();
    }
    INSIDE.with(|x| x.set(true));
    let t = paths.iter().flatten().find_map(|p| find(p));
    let r = match t {
        None => f(),
        Some(t) => {
            let mut t = t.lock().unwrap();
            let k = t.ops;
            t.ops += 1;
            if t.fail_from.is_some_and(|n| k == n || (t.fail_all && k > n)) {
                fail(libc::EIO)
            } else {
                (t.point)(u64::MAX, "", &[]);
                let r = f();
                let e = unsafe { *libc::__errno_location() };
                if r >= 0 {
                    let n = t.n;
                    t.n += 1;
                    let name = paths.iter().flatten().next().map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
                    let ps: Vec<PathBuf> = paths.iter().flatten().cloned().collect();
                    (t.point)(n, &format!("{what} {name}"), &ps);
                }
                unsafe { *libc::__errno_location() = e };
                r
            }
        }
    };
    INSIDE.with(|x| x.set(false));
    r
}

/// Write data with points in the middle
fn op_write(fd: c_int, len: usize, what: &str, f: impl Fn(usize, usize) -> isize) -> isize {
    if !enabled() {
        return f(0, len);
    }
    INSIDE.with(|x| x.set(true));
    let p = fd_path(fd);
    let t = p.as_ref().and_then(|p| find(p));
    let r = match t {
        None => f(0, len),
        Some(t) => {
            let mut t = t.lock().unwrap();
            let k = t.ops;
            t.ops += 1;
            let path = p.unwrap();
            let name = path.to_string_lossy().to_string();
            if t.fail_from.is_some_and(|n| k == n || (t.fail_all && k > n)) {
                // the device is full: a part is written
                if t.fail_all && len > 1 && k == t.fail_from.unwrap() { f(0, len / 2) } else { fail(libc::ENOSPC) }
            } else {
                (t.point)(u64::MAX, "", &[]);
                let mut cuts: Vec<usize> = match t.torn {
                    Torn::None => vec![],
                    Torn::Half => vec![len / 2],
                    Torn::Many => vec![1, len / 2, len.saturating_sub(1)],
                };
                cuts.push(len);
                cuts.retain(|c| *c > 0 && *c <= len);
                cuts.sort();
                cuts.dedup();
                let mut done = 0;
                let mut res = 0;
                for c in cuts {
                    let r = f(done, c - done);
                    if r < 0 {
                        if done == 0 {
                            res = r;
                        }
                        break;
                    }
                    done += r as usize;
                    res = done as isize;
                    let n = t.n;
                    t.n += 1;
                    (t.point)(n, &format!("{what} {done}/{len} {name}"), std::slice::from_ref(&path));
                    if done < c {
                        break;
                    }
                }
                res
            }
        }
    };
    INSIDE.with(|x| x.set(false));
    r
}

// raw system calls
macro_rules! sys {
    ($n:ident $(, $a:expr)*) => { unsafe { libc::syscall(libc::$n $(, $a)*) as isize } };
}

const CHANGING: c_int = libc::O_CREAT | libc::O_TRUNC;

/// File system operations of threads of a scheduler on directories with this mark are points
/// where the scheduler decides
const MARK: &[u8] = b"mcdb";
/// Only operations on the lock file are points in directories with this mark
const MARK_LOCK: &[u8] = b"mclk";

fn scheduled(paths: &[Option<PathBuf>]) {
    if ACTIVE_SCHED.load(SeqCst) == 0 || INSIDE.with(|x| x.get()) {
        return;
    }
    if let Some((s, t)) = graphannis_core::mc::scheduler() {
        let has = |p: &Path, m: &[u8]| p.as_os_str().as_bytes().windows(m.len()).any(|w| w == m);
        let marked = paths.iter().flatten().any(|p| has(p, MARK) || has(p, MARK_LOCK) && has(p, b"db.lock"));
        if marked {
            INSIDE.with(|x| x.set(true));
            let e = unsafe { *libc::__errno_location() };
            s.file_system(t);
            unsafe { *libc::__errno_location() = e };
            INSIDE.with(|x| x.set(false));
        }
    }
}
pub static ACTIVE_SCHED: AtomicUsize = AtomicUsize::new(0);

/// File shown instead of the memory map of the process: reading the real one takes longer than
/// most of the operations under test, and the amount of used memory must not change the
/// behaviour from run to run.
static SMAPS: std::sync::OnceLock<std::ffi::CString> = std::sync::OnceLock::new();

/// Let the memory usage of this process look constant
pub fn fake_memory_usage(dir: &Path, kb: usize) {
    let p = dir.join("smaps");
    std::fs::write(&p, format!("Size: {kb} kB\nRss: {kb} kB\n")).unwrap();
    let _ = SMAPS.set(std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap());
}

fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if let Some(p) = SMAPS.get()
        && unsafe { CStr::from_ptr(path) } == c"/proc/self/smaps"
    {
        return sys!(SYS_openat, libc::AT_FDCWD, p.as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0) as c_int;
    }
    let call = || sys!(SYS_openat, dirfd, path, flags, mode as libc::c_uint);
    if ACTIVE_SCHED.load(SeqCst) > 0 {
        scheduled(&[at_path(dirfd, path)]);
    }
    if flags & (CHANGING | libc::O_WRONLY | libc::O_RDWR) != 0 && flags & libc::O_TMPFILE != libc::O_TMPFILE && escapes(&[at_path(dirfd, path)], "open") {
        return fail(libc::EACCES) as c_int;
    }
    // creating unnamed files does not change a directory
    if flags & CHANGING == 0 || flags & libc::O_TMPFILE == libc::O_TMPFILE || !enabled() {
        return call() as c_int;
    }
    op(&[at_path(dirfd, path)], "open", call) as c_int
}

#[unsafe(no_mangle)]
pub extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[unsafe(no_mangle)]
pub extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[unsafe(no_mangle)]
pub extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(dirfd, path, flags, mode)
}
#[unsafe(no_mangle)]
pub extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(dirfd, path, flags, mode)
}
#[unsafe(no_mangle)]
pub extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    op_write(fd, n, "write", |o, l| sys!(SYS_write, fd, unsafe { (buf as *const u8).add(o) }, l))
}
#[unsafe(no_mangle)]
pub extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if !enabled() {
        return sys!(SYS_writev, fd, iov, n);
    }
    let mut all = vec![];
    for i in 0..n as usize {
        let v = unsafe { *iov.add(i) };
        all.extend_from_slice(unsafe { std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len) });
    }
    op_write(fd, all.len(), "writev", |o, l| sys!(SYS_write, fd, all[o..].as_ptr(), l))
}
#[unsafe(no_mangle)]
pub extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    op_write(fd, n, "pwrite", |o, l| sys!(SYS_pwrite64, fd, unsafe { (buf as *const u8).add(o) }, l, off + o as i64))
}
#[unsafe(no_mangle)]
pub extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite64(fd, buf, n, off)
}
#[unsafe(no_mangle)]
pub extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    op(&[fd_path(fd)], "ftruncate", || sys!(SYS_ftruncate, fd, len)) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
#[unsafe(no_mangle)]
pub extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    op(&[at_path(libc::AT_FDCWD, a), at_path(libc::AT_FDCWD, b)], "rename", || sys!(SYS_rename, a, b)) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    op(&[at_path(d1, a), at_path(d2, b)], "rename", || sys!(SYS_renameat, d1, a, d2, b)) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn unlink(a: *const c_char) -> c_int {
    op(&[at_path(libc::AT_FDCWD, a)], "unlink", || sys!(SYS_unlink, a)) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn unlinkat(d: c_int, a: *const c_char, flags: c_int) -> c_int {
    op(&[at_path(d, a)], "unlink", || sys!(SYS_unlinkat, d, a, flags)) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn mkdir(a: *const c_char, mode: libc::mode_t) -> c_int {
    op(&[at_path(libc::AT_FDCWD, a)], "mkdir", || sys!(SYS_mkdir, a, mode as libc::c_uint)) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn rmdir(a: *const c_char) -> c_int {
    op(&[at_path(libc::AT_FDCWD, a)], "rmdir", || sys!(SYS_rmdir, a)) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    op(&[at_path(libc::AT_FDCWD, b)], "link", || sys!(SYS_link, a, b)) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_int) -> c_int {
    op(&[at_path(d2, b)], "link", || sys!(SYS_linkat, d1, a, d2, b, flags)) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    op(&[at_path(libc::AT_FDCWD, b)], "symlink", || sys!(SYS_symlink, a, b)) as c_int
}

#[unsafe(no_mangle)]
pub extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if ACTIVE_SCHED.load(SeqCst) > 0 {
        scheduled(&[fd_path(fd)]);
    }
    sys!(SYS_flock, fd, op) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn close(fd: c_int) -> c_int {
    if ACTIVE_SCHED.load(SeqCst) > 0 && graphannis_core::mc::scheduler().is_some() {
        let p = fd_path(fd);
        // only closing the lock file is of interest for others
        if p.as_ref().is_some_and(|p| p.as_os_str().as_bytes().windows(7).any(|w| w == b"db.lock")) {
            scheduled(&[p]);
        }
    }
    sys!(SYS_close, fd) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(d: c_int, a: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    if ACTIVE_SCHED.load(SeqCst) > 0 && !a.is_null() && unsafe { *a } != 0 && graphannis_core::mc::scheduler().is_some() {
        let p = at_path(d, a);
        if p.as_ref().is_some_and(|p| p.as_os_str().as_bytes().windows(7).any(|w| w == b"db.lock")) {
            scheduled(&[p]);
        }
    }
    sys!(SYS_statx, d, a, flags, mask, buf) as c_int
}

// Used by `std::fs::copy`, found with dlsym: not interposed, but the self check (the directory
// after the last point is the directory at the end) would report it.

/// The content of a directory: relative path -> file content (None for directories)
pub type Image = std::collections::BTreeMap<PathBuf, Option<Arc<Vec<u8>>>>;

fn rec(base: &Path, dir: &Path, r: &mut Image) {
    let Ok(it) = std::fs::read_dir(dir) else { return };
    for e in it {
        let p = e.unwrap().path();
        let rel = p.strip_prefix(base).unwrap().to_path_buf();
        if p.is_dir() {
            r.insert(rel, None);
            rec(base, &p, r);
        } else if let Ok(c) = std::fs::read(&p) {
            r.insert(rel, Some(Arc::new(c)));
        }
    }
}

pub fn image(dir: &Path) -> Image {
    let mut r = Image::new();
    rec(dir, dir, &mut r);
    r
}

/// An image which follows the changes in a directory
pub struct Follow {
    dir: PathBuf,
    pub img: Image,
    meta: HashMap<PathBuf, (u64, u64, i64, i64)>,
}
impl Follow {
    pub fn new(dir: &Path) -> Follow {
        let dir = std::fs::canonicalize(dir).unwrap();
        let img = image(&dir);
        let mut f = Follow { dir, img, meta: HashMap::new() };
        f.shallow();
        f
    }
    /// Read the given paths again, and whatever has changed in the upper levels (where files are
    /// moved with system calls that are not interposed). Returns if something changed there.
    pub fn refresh(&mut self, paths: &[PathBuf]) -> bool {
        for p in paths {
            let Ok(rel) = p.strip_prefix(&self.dir) else { continue };
            self.reread(&rel.to_path_buf());
        }
        self.shallow()
    }
    fn reread(&mut self, rel: &PathBuf) {
        let below: Vec<PathBuf> = self.img.range(rel.clone()..).take_while(|(k, _)| k.starts_with(rel)).map(|(k, _)| k.clone()).collect();
        for k in below {
            self.img.remove(&k);
        }
        let p = self.dir.join(rel);
        if p.is_dir() {
            self.img.insert(rel.clone(), None);
            rec(&self.dir, &p, &mut self.img);
        } else if let Ok(c) = std::fs::read(&p) {
            self.img.insert(rel.clone(), Some(Arc::new(c)));
        }
    }
    fn shallow(&mut self) -> bool {
        use std::os::unix::fs::MetadataExt;
        let mut seen = HashMap::new();
        let mut todo = vec![(self.dir.clone(), 0)];
        while let Some((d, level)) = todo.pop() {
            let Ok(it) = std::fs::read_dir(&d) else { continue };
            for e in it {
                let e = e.unwrap();
                let p = e.path();
                let Ok(m) = e.metadata() else { continue };
                if m.is_dir() {
                    seen.insert(p.strip_prefix(&self.dir).unwrap().to_path_buf(), (0, 0, 0, 0));
                    if level == 0 {
                        todo.push((p, 1));
                    }
                } else {
                    let now = (m.ino(), m.len(), m.mtime() * 1_000_000_000 + m.mtime_nsec(), m.ctime() * 1_000_000_000 + m.ctime_nsec());
                    seen.insert(p.strip_prefix(&self.dir).unwrap().to_path_buf(), now);
                }
            }
        }
        let mut changed = false;
        let all: std::collections::HashSet<PathBuf> = seen.keys().chain(self.meta.keys()).cloned().collect();
        for k in all {
            if seen.get(&k) != self.meta.get(&k) {
                let before = self.img.get(&k).cloned();
                self.reread(&k);
                changed |= before != self.img.get(&k).cloned();
            }
        }
        self.meta = seen;
        changed
    }
}

pub fn restore(img: &Image, dir: &Path) {
    for (p, c) in img {
        let p = dir.join(p);
        match c {
            None => std::fs::create_dir_all(p).unwrap(),
            Some(c) => {
                std::fs::write(p, c.as_slice()).unwrap();
            }
        }
    }
}
