//! Interposes the file-system calls of libc in this process. Calls on files below a given directory, made by
//! a thread between [`enter`] and [`leave`], are reported to a controller, which decides whether the call
//! is done, fails, is done partially, or whether the machine stops there.
use std::{
    cell::{Cell, RefCell},
    collections::HashMap,
    ffi::CStr,
    os::raw::{c_char, c_int, c_void},
};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Open { path: String, create: bool, trunc: bool, write: bool },
    Write { path: String, len: usize },
    Read { path: String, len: usize },
    Sync { path: String },
    Rename { from: String, to: String },
    Unlink { path: String },
    Truncate { path: String, len: usize },
    Close { path: String },
    Mkdir { path: String },
    Other { name: &'static str },
}

impl Op {
    pub fn mutates(&self) -> bool {
        match self {
            Op::Open { create, trunc, .. } => *create || *trunc,
            Op::Read { .. } | Op::Close { .. } => false,
            _ => true,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Do,
    /// Only the first bytes of a read or write
    Short(usize),
    Err(i32),
    /// The machine stops before the call
    Stop,
    /// The machine stops after some bytes of a write
    StopAfter(usize),
}

#[derive(Clone, Debug)]
struct Inode {
    /// What is on the disk for sure
    durable: Vec<u8>,
    /// Changes after the last sync
    pending: Vec<Change>,
}

#[derive(Clone, Debug)]
enum Change {
    Write(usize, Vec<u8>),
    Trunc(usize),
}

impl Change {
    fn apply(&self, c: &mut Vec<u8>) {
        match self {
            Change::Write(off, data) => {
                if c.len() < off + data.len() {
                    c.resize(off + data.len(), 0);
                }
                c[*off..*off + data.len()].copy_from_slice(data);
            }
            Change::Trunc(l) => c.resize(*l, 0),
        }
    }
}

#[derive(Clone, Debug)]
enum Meta {
    Create(String, usize),
    Rename(String, String),
    Unlink(String),
}

/// The files, and which part of them survives.
#[derive(Default)]
pub struct Disk {
    base: HashMap<String, usize>,
    names: HashMap<String, usize>,
    inodes: Vec<Inode>,
    meta: Vec<Meta>,
    durable_meta: usize,
}

impl Disk {
    pub fn new(files: &[(String, Vec<u8>)]) -> Self {
        let mut d = Disk::default();
        for (n, c) in files {
            d.base.insert(n.clone(), d.inodes.len());
            d.inodes.push(Inode {
                durable: c.clone(),
                pending: vec![],
            });
        }
        d.names = d.base.clone();
        d
    }

    fn sync(&mut self, ino: usize) {
        let i = &mut self.inodes[ino];
        for p in std::mem::take(&mut i.pending) {
            p.apply(&mut i.durable);
        }
        if let Some(p) = self.meta.iter().rposition(|m| matches!(m, Meta::Create(_, i) if *i == ino)) {
            self.durable_meta = self.durable_meta.max(p + 1);
        }
    }

    /// How many metadata operations may, or may not, have reached the disk.
    pub fn open_meta(&self) -> usize {
        self.meta.len() - self.durable_meta
    }

    /// The inodes with data which may, or may not, have reached the disk.
    pub fn open_data(&self) -> Vec<usize> {
        (0..self.inodes.len()).filter(|i| !self.inodes[*i].pending.is_empty()).collect()
    }

    /// The files after a restart, if the last 'lost' metadata operations, and the given part of the
    /// unsynchronised data is lost.
    pub fn image(&self, lost: usize, part: impl Fn(usize) -> Part) -> Vec<(String, Vec<u8>)> {
        let mut names = self.base.clone();
        for m in &self.meta[..self.meta.len() - lost] {
            match m {
                Meta::Create(p, i) => {
                    names.insert(p.clone(), *i);
                }
                Meta::Rename(f, t) => {
                    if let Some(i) = names.remove(f) {
                        names.insert(t.clone(), i);
                    }
                }
                Meta::Unlink(p) => {
                    names.remove(p);
                }
            }
        }
        let mut out: Vec<_> = names
            .into_iter()
            .map(|(n, i)| {
                let ino = &self.inodes[i];
                let mut c = ino.durable.clone();
                match part(i) {
                    Part::All => ino.pending.iter().for_each(|p| p.apply(&mut c)),
                    Part::None => {}
                    Part::NoData => {
                        // The length changed, but not the content
                        let mut full = c.clone();
                        ino.pending.iter().for_each(|p| p.apply(&mut full));
                        c = vec![0; full.len()];
                    }
                    Part::Truncated => {
                        for p in ino.pending.iter().filter(|p| matches!(p, Change::Trunc(_))) {
                            p.apply(&mut c);
                        }
                    }
                    Part::Half => {
                        for p in &ino.pending {
                            match p {
                                Change::Write(o, d) => Change::Write(*o, d[..d.len() / 2].to_vec()).apply(&mut c),
                                t => t.apply(&mut c),
                            }
                        }
                    }
                }
                (n, c)
            })
            .collect();
        out.sort();
        out
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Part {
    All,
    None,
    Truncated,
    Half,
    NoData,
}
pub const PARTS: [Part; 5] = [Part::All, Part::None, Part::Truncated, Part::Half, Part::NoData];

pub struct Session {
    dir: String,
    ctl: Box<dyn FnMut(&Op) -> Act>,
    stopped: bool,
    fds: HashMap<c_int, (String, usize, usize, bool)>, // path, inode, offset, append
    pub disk: Disk,
    pub log: Vec<Op>,
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static SESSION: RefCell<Option<Session>> = const { RefCell::new(None) };
}

/// All calls of this thread on files in dir go through ctl.
pub fn enter(dir: &str, files: &[(String, Vec<u8>)], ctl: impl FnMut(&Op) -> Act + 'static) {
    SESSION.with(|s| {
        *s.borrow_mut() = Some(Session {
            dir: dir.to_string(),
            ctl: Box::new(ctl),
            stopped: false,
            fds: HashMap::new(),
            disk: Disk::new(files),
            log: vec![],
        })
    });
    ACTIVE.with(|a| a.set(true));
}

pub fn leave() -> Option<Session> {
    ACTIVE.with(|a| a.set(false));
    SESSION.with(|s| s.borrow_mut().take())
}

impl Session {
    pub fn stopped(&self) -> bool {
        self.stopped
    }

    fn act(&mut self, op: Op) -> Act {
        if self.stopped {
            return Act::Err(libc::EIO);
        }
        let a = (self.ctl)(&op);
        self.log.push(op);
        if matches!(a, Act::Stop | Act::StopAfter(_)) {
            self.stopped = true;
        }
        a
    }
}

fn with<T>(f: impl FnOnce(&mut Session) -> T) -> Option<T> {
    if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        return None;
    }
    // The controller and the bookkeeping must not be intercepted.
    ACTIVE.with(|a| a.set(false));
    let r = SESSION.with(|s| s.borrow_mut().as_mut().map(f));
    ACTIVE.with(|a| a.set(true));
    r
}

unsafe fn err(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

unsafe fn sys(n: i64, a: usize, b: usize, c: usize, d: usize) -> isize {
    unsafe { crate::det::syscall(n, a, b, c, d, 0, 0) as isize }
}

fn rel(dir: &str, p: *const c_char) -> Option<String> {
    let p = unsafe { CStr::from_ptr(p) }.to_string_lossy().to_string();
    p.strip_prefix(dir).map(|r| r.trim_start_matches('/').to_string())
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: usize) -> c_int {
    let real = || unsafe { sys(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode) as c_int };
    let r = with(|s| {
        let p = rel(&s.dir, path)?;
        if p.is_empty() {
            // The directory itself
            let fd = real();
            if fd >= 0 {
                s.fds.insert(fd, (p, usize::MAX, 0, false));
            }
            return Some(fd);
        }
        let exists = s.disk.names.contains_key(&p);
        let op = Op::Open {
            path: p.clone(),
            create: flags & libc::O_CREAT != 0 && !exists,
            trunc: flags & libc::O_TRUNC != 0,
            write: flags & libc::O_ACCMODE != libc::O_RDONLY,
        };
        match s.act(op) {
            Act::Err(e) => return Some(unsafe { err(e) } as c_int),
            Act::Stop | Act::StopAfter(_) => return Some(unsafe { err(libc::EIO) } as c_int),
            _ => {}
        }
        let fd = real();
        if fd >= 0 {
            let ino = match s.disk.names.get(&p) {
                Some(i) => *i,
                None => {
                    let i = s.disk.inodes.len();
                    s.disk.inodes.push(Inode {
                        durable: vec![],
                        pending: vec![],
                    });
                    s.disk.names.insert(p.clone(), i);
                    s.disk.meta.push(Meta::Create(p.clone(), i));
                    i
                }
            };
            if flags & libc::O_TRUNC != 0 && exists {
                s.disk.inodes[ino].pending.push(Change::Trunc(0));
            }
            s.fds.insert(fd, (p, ino, 0, flags & libc::O_APPEND != 0));
        }
        Some(fd)
    });
    match r.flatten() {
        Some(fd) => fd,
        None => real(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: usize) -> c_int {
    unsafe { do_open(path, flags, mode) }
}

unsafe fn do_write(fd: c_int, buf: *const c_void, len: usize, at: Option<i64>) -> isize {
    let real = |n: usize| unsafe {
        match at {
            None => sys(libc::SYS_write, fd as usize, buf as usize, n, 0),
            Some(o) => sys(libc::SYS_pwrite64, fd as usize, buf as usize, n, o as usize),
        }
    };
    let r = with(|s| {
        let (path, ino, off, app) = s.fds.get(&fd)?.clone();
        if ino == usize::MAX {
            return None;
        }
        let a = s.act(Op::Write { path, len });
        let n = match a {
            Act::Do => len,
            Act::Short(n) | Act::StopAfter(n) => n.min(len),
            Act::Err(e) => return Some(unsafe { err(e) }),
            Act::Stop => return Some(unsafe { err(libc::EIO) }),
        };
        let done = real(n);
        if done > 0 {
            let data = unsafe { std::slice::from_raw_parts(buf as *const u8, done as usize) }.to_vec();
            let mut off = at.map(|o| o as usize).unwrap_or(off);
            if app {
                let mut c = s.disk.inodes[ino].durable.clone();
                s.disk.inodes[ino].pending.iter().for_each(|p| p.apply(&mut c));
                off = c.len();
            }
            s.disk.inodes[ino].pending.push(Change::Write(off, data));
            if at.is_none() {
                if let Some(f) = s.fds.get_mut(&fd) {
                    f.2 = off + done as usize;
                }
            }
        }
        Some(if matches!(a, Act::StopAfter(_)) { unsafe { err(libc::EIO) } } else { done })
    });
    match r.flatten() {
        Some(n) => n,
        None => real(len),
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    unsafe { do_write(fd, buf, len, None) }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: usize, off: i64) -> isize {
    unsafe { do_write(fd, buf, len, Some(off)) }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    let ours = with(|s| s.fds.contains_key(&fd)).unwrap_or(false);
    if ours && cnt > 0 {
        // Writing only a part is always allowed.
        for i in 0..cnt as usize {
            let v = unsafe { *iov.add(i) };
            if v.iov_len > 0 {
                return unsafe { do_write(fd, v.iov_base, v.iov_len, None) };
            }
        }
        return 0;
    }
    unsafe { sys(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0) }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    let r = with(|s| {
        let (path, ino, ..) = s.fds.get(&fd)?.clone();
        if ino == usize::MAX {
            return None;
        }
        let n = match s.act(Op::Read { path, len }) {
            Act::Do | Act::StopAfter(_) => len,
            Act::Short(n) => n.min(len),
            Act::Err(e) => return Some(unsafe { err(e) }),
            Act::Stop => return Some(unsafe { err(libc::EIO) }),
        };
        Some(unsafe { sys(libc::SYS_read, fd as usize, buf as usize, n, 0) })
    });
    match r.flatten() {
        Some(n) => n,
        None => unsafe { sys(libc::SYS_read, fd as usize, buf as usize, len, 0) },
    }
}

unsafe fn do_sync(fd: c_int, nr: i64) -> c_int {
    let r = with(|s| {
        let (path, ino, ..) = s.fds.get(&fd)?.clone();
        match s.act(Op::Sync { path }) {
            Act::Err(e) => return Some(unsafe { err(e) } as c_int),
            Act::Stop | Act::StopAfter(_) => return Some(unsafe { err(libc::EIO) } as c_int),
            _ => {}
        }
        // There is no need to really synchronise a scratch directory.
        if ino == usize::MAX {
            s.disk.durable_meta = s.disk.meta.len();
        } else {
            s.disk.sync(ino);
        }
        Some(0)
    });
    match r.flatten() {
        Some(n) => n,
        None => unsafe { sys(nr, fd as usize, 0, 0, 0) as c_int },
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    unsafe { do_sync(fd, libc::SYS_fsync) }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    unsafe { do_sync(fd, libc::SYS_fdatasync) }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let real = || unsafe { sys(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0) as c_int };
    let r = with(|s| {
        let (path, ino, ..) = s.fds.get(&fd)?.clone();
        match s.act(Op::Truncate { path, len: len as usize }) {
            Act::Err(e) => return Some(unsafe { err(e) } as c_int),
            Act::Stop | Act::StopAfter(_) => return Some(unsafe { err(libc::EIO) } as c_int),
            _ => {}
        }
        let r = real();
        if r == 0 && ino != usize::MAX {
            s.disk.inodes[ino].pending.push(Change::Trunc(len as usize));
        }
        Some(r)
    });
    match r.flatten() {
        Some(n) => n,
        None => real(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    with(|s| {
        if let Some(f) = s.fds.remove(&fd) {
            if !s.stopped {
                s.log.push(Op::Close { path: f.0 });
            }
        }
    });
    unsafe { sys(libc::SYS_close, fd as usize, 0, 0, 0) as c_int }
}

unsafe fn do_rename(from: *const c_char, to: *const c_char) -> c_int {
    let real = || unsafe { sys(libc::SYS_rename, from as usize, to as usize, 0, 0) as c_int };
    let r = with(|s| {
        let (f, t) = (rel(&s.dir, from)?, rel(&s.dir, to)?);
        let op = Op::Rename {
            from: f.clone(),
            to: t.clone(),
        };
        match s.act(op) {
            Act::Err(e) => return Some(unsafe { err(e) } as c_int),
            Act::Stop | Act::StopAfter(_) => return Some(unsafe { err(libc::EIO) } as c_int),
            _ => {}
        }
        let r = real();
        if r == 0 {
            if let Some(i) = s.disk.names.remove(&f) {
                s.disk.names.insert(t.clone(), i);
            }
            s.disk.meta.push(Meta::Rename(f, t));
        }
        Some(r)
    });
    match r.flatten() {
        Some(n) => n,
        None => real(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    unsafe { do_rename(from, to) }
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let real = || unsafe { sys(libc::SYS_unlink, path as usize, 0, 0, 0) as c_int };
    let r = with(|s| {
        let p = rel(&s.dir, path)?;
        match s.act(Op::Unlink { path: p.clone() }) {
            Act::Err(e) => return Some(unsafe { err(e) } as c_int),
            Act::Stop | Act::StopAfter(_) => return Some(unsafe { err(libc::EIO) } as c_int),
            _ => {}
        }
        let r = real();
        if r == 0 {
            s.disk.names.remove(&p);
            s.disk.meta.push(Meta::Unlink(p));
        }
        Some(r)
    });
    match r.flatten() {
        Some(n) => n,
        None => real(),
    }
}

// Those would bypass the bookkeeping: let callers use read and write instead.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    i: c_int,
    io: *mut i64,
    o: c_int,
    oo: *mut i64,
    len: usize,
    flags: u32,
) -> isize {
    if with(|s| s.fds.contains_key(&o)).unwrap_or(false) {
        return unsafe { err(libc::ENOSYS) };
    }
    unsafe {
        crate::det::syscall(
            libc::SYS_copy_file_range,
            i as usize,
            io as usize,
            o as usize,
            oo as usize,
            len,
            flags as usize,
        ) as isize
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, len: usize) -> isize {
    if with(|s| s.fds.contains_key(&o)).unwrap_or(false) {
        return unsafe { err(libc::EINVAL) };
    }
    unsafe { sys(libc::SYS_sendfile, o as usize, i as usize, off as usize, len) }
}
