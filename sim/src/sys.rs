//! The operating system as the code under test sees it: the harness binary defines the libc symbols that `std` calls,
//! so files, environment, randomness, clocks, standard streams and lock waits of simulated tasks come from `World`.
//! Calls of the harness itself (or outside a run) pass through as raw system calls.
use crate::alloc::{nohook, IN_SUT, NOHOOK};
use crate::rng::mix;
use crate::sched;
use libc::{c_char, c_int, c_long, c_uint, c_void, off64_t, size_t, ssize_t};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;

thread_local! {
  pub static TASK: Cell<i32> = const { Cell::new(-1) };
}

#[inline]
pub unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
  let r: c_long;
  core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
    in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
  r
}
unsafe fn ret(r: c_long) -> c_long {
  if r < 0 && r > -4096 {
    *libc::__errno_location() = -r as c_int;
    -1
  } else {
    r
  }
}
unsafe fn fail(e: c_int) -> c_int {
  *libc::__errno_location() = e;
  -1
}

/// One injected fault: at the `nth` call of kind `call` made by load operation `op`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct IoFault {
  pub op: u32,
  pub call: String,
  pub nth: u32,
  pub kind: String,
  #[serde(default)]
  pub arg: u32,
}

#[derive(Clone, Default)]
pub struct Inode {
  pub data: Vec<u8>,
  pub mtime: i64,
  pub ino: u64,
}
#[derive(Clone)]
pub struct OpenFd {
  pub inode: usize,
  pub pos: usize,
  pub op: u32,
  pub dir: bool,
}
/// What a load operation did, as recorded at the seam.
#[derive(Clone, Default, Debug)]
pub struct OpIo {
  pub counts: BTreeMap<String, u32>,
  /// Faults that fired: (call, kind, path)
  pub fired: Vec<(String, String, String)>,
  pub opened: Vec<String>,
  pub hard_open: u32,
  pub hard_read: u32,
  pub missing: u32,
}
#[derive(Default)]
pub struct World {
  pub on: bool,
  pub files: BTreeMap<String, usize>,
  pub dirs: Vec<String>,
  pub inodes: Vec<Inode>,
  pub fds: BTreeMap<i32, OpenFd>,
  pub next_fd: i32,
  pub env: BTreeMap<String, String>,
  pub env_ptrs: BTreeMap<String, *const c_char>,
  pub hash_seed: u64,
  pub rand_ctr: u64,
  pub faults: Vec<IoFault>,
  pub ops: Vec<OpIo>,
  pub cur_op: BTreeMap<i32, u32>,
  /// Caps of successive reads (cycled); 0 = no cap.
  pub chunks: Vec<u32>,
  pub chunk_ix: usize,
  pub size_lie: u32,
  pub clock_ns: i128,
  pub stray: Vec<String>,
  pub out_bytes: u64,
  pub out_fail: i32,
  pub double_close: u32,
  pub fault_hits: BTreeMap<String, u64>,
  pub calls: u64,
  pub events: u64,
  pub ev_hash: u64,
  pub trace: Option<Vec<String>>,
  pub zombie: Vec<*const *const c_char>,
}
static mut WORLD: *mut World = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
  unsafe {
    if WORLD.is_null() {
      WORLD = Box::into_raw(Box::new(World { next_fd: 1_000_000, ..Default::default() }));
    }
    &mut *WORLD
  }
}
/// A simulated task is running code under test.
fn simulated() -> bool {
  unsafe {
    !WORLD.is_null() && (*WORLD).on && TASK.with(|t| t.get()) >= 0 && IN_SUT.with(|c| c.get()) && NOHOOK.with(|c| c.get()) == 0
  }
}

impl World {
  pub fn event(&mut self, s: &str) {
    self.events += 1;
    self.ev_hash = mix(self.ev_hash ^ crate::rng::hash_str(s));
    if let Some(t) = &mut self.trace {
      if t.len() < 4000 {
        t.push(s.to_string());
      }
    }
  }
  pub fn hit(&mut self, k: &str) {
    *self.fault_hits.entry(k.to_string()).or_insert(0) += 1;
  }
  pub fn put_new(&mut self, path: &str, data: &[u8]) -> usize {
    // a new inode linked under the path: creation or atomic replacement
    let ino = self.inodes.len() as u64 + 100;
    self.inodes.push(Inode { data: data.to_vec(), mtime: (self.clock_ns / 1_000_000_000) as i64, ino });
    let ix = self.inodes.len() - 1;
    self.files.insert(path.to_string(), ix);
    ix
  }
  pub fn put_in_place(&mut self, path: &str, data: &[u8]) {
    match self.files.get(path) {
      Some(&ix) => {
        self.inodes[ix].data = data.to_vec();
        self.inodes[ix].mtime = (self.clock_ns / 1_000_000_000) as i64;
      }
      None => {
        self.put_new(path, data);
      }
    }
  }
  pub fn remove(&mut self, path: &str) {
    self.files.remove(path);
  }
  pub fn set_env(&mut self, k: &str, v: Option<&str>) {
    match v {
      Some(v) => {
        self.env.insert(k.to_string(), v.to_string());
        let c = std::ffi::CString::new(v).unwrap();
        self.env_ptrs.insert(k.to_string(), c.into_raw());
      }
      None => {
        self.env.remove(k);
        self.env_ptrs.remove(k);
      }
    }
    self.sync_environ();
  }
  /// Keeps the C `environ` array in step, for code that enumerates the environment.
  pub fn sync_environ(&mut self) {
    let mut v: Vec<*const c_char> = vec![];
    for (k, val) in &self.env {
      v.push(std::ffi::CString::new(format!("{}={}", k, val)).unwrap().into_raw());
    }
    v.push(std::ptr::null());
    let p = Box::leak(v.into_boxed_slice()).as_ptr();
    unsafe {
      environ = p as *mut *mut c_char;
    }
  }
  pub fn op(&mut self) -> Option<&mut OpIo> {
    let t = TASK.with(|t| t.get());
    let o = *self.cur_op.get(&t)? as usize;
    while self.ops.len() <= o {
      self.ops.push(OpIo::default());
    }
    Some(&mut self.ops[o])
  }
  pub fn begin_op(&mut self, op: u32) {
    let t = TASK.with(|t| t.get());
    self.cur_op.insert(t, op);
    self.op();
  }
  pub fn end_op(&mut self) {
    let t = TASK.with(|t| t.get());
    self.cur_op.remove(&t);
  }
  /// The fault the plan holds for this call, if any.
  fn fault(&mut self, call: &str, path: &str) -> Option<IoFault> {
    self.calls += 1;
    let t = TASK.with(|t| t.get());
    let opid = *self.cur_op.get(&t)?;
    let n = {
      let o = self.op().unwrap();
      let c = o.counts.entry(call.to_string()).or_insert(0);
      *c += 1;
      *c - 1
    };
    let f = self.faults.iter().find(|f| f.op == opid && f.call == call && (f.nth == n || (f.kind == "EINTR" && n > f.nth && n - f.nth <= f.arg))).cloned()?;
    let key = format!("{}:{}", call, f.kind);
    self.hit(&key);
    self.op().unwrap().fired.push((call.to_string(), f.kind.clone(), path.to_string()));
    Some(f)
  }
}
extern "C" {
  static mut environ: *mut *mut c_char;
}

fn errno_of(kind: &str) -> c_int {
  match kind {
    "ENOENT" => libc::ENOENT,
    "EACCES" => libc::EACCES,
    "EMFILE" => libc::EMFILE,
    "ENFILE" => libc::ENFILE,
    "ELOOP" => libc::ELOOP,
    "ENOMEM" => libc::ENOMEM,
    "EIO" => libc::EIO,
    "EINTR" => libc::EINTR,
    "EISDIR" => libc::EISDIR,
    "ESTALE" => libc::ESTALE,
    "EBADF" => libc::EBADF,
    "EAGAIN" => libc::EAGAIN,
    "ENOSYS" => libc::ENOSYS,
    "EPERM" => libc::EPERM,
    "ENOTDIR" => libc::ENOTDIR,
    "ETIMEDOUT" => libc::ETIMEDOUT,
    "EINVAL" => libc::EINVAL,
    "ENODATA" => libc::ENODATA,
    "ECONNRESET" => libc::ECONNRESET,
    "EPIPE" => libc::EPIPE,
    "EOVERFLOW" => libc::EOVERFLOW,
    _ => libc::EIO,
  }
}
fn norm(p: &str) -> String {
  let mut p = p.to_string();
  while let Some(s) = p.strip_prefix("./") {
    p = s.to_string();
  }
  p
}

unsafe fn sim_open(path: *const c_char, flags: c_int) -> c_int {
  let p0 = CStr::from_ptr(path).to_string_lossy().to_string();
  let p = norm(&p0);
  let w = world();
  w.event(&format!("t{} open {}", TASK.with(|t| t.get()), p));
  if flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 {
    w.stray.push(format!("open for writing: {}", p));
    return fail(libc::EROFS);
  }
  if let Some(o) = w.op() {
    o.opened.push(p.clone());
  }
  if let Some(f) = w.fault("open", &p) {
    if f.kind != "EINTR" {
      w.op().unwrap().hard_open += 1;
    }
    return fail(errno_of(&f.kind));
  }
  let is_dir = w.dirs.contains(&p);
  let inode = match w.files.get(&p) {
    Some(&i) => i,
    None if is_dir => usize::MAX,
    None => {
      if let Some(o) = w.op() {
        o.missing += 1;
      }
      return fail(libc::ENOENT);
    }
  };
  let fd = w.next_fd;
  w.next_fd += 1;
  let op = w.cur_op.get(&TASK.with(|t| t.get())).copied().unwrap_or(u32::MAX);
  w.fds.insert(fd, OpenFd { inode, pos: 0, op, dir: is_dir });
  fd
}
unsafe fn sim_read(fd: c_int, buf: *mut u8, n: usize, at: Option<i64>) -> ssize_t {
  let w = world();
  let Some(f) = w.fds.get(&fd).cloned() else { return fail(libc::EBADF) as ssize_t };
  let mut cap = usize::MAX;
  if let Some(ft) = w.fault("read", "") {
    match ft.kind.as_str() {
      "SHORT" => cap = ft.arg.max(1) as usize,
      "EINTR" => return fail(libc::EINTR) as ssize_t,
      k => {
        w.op().unwrap().hard_read += 1;
        return fail(errno_of(k)) as ssize_t;
      }
    }
  }
  if f.dir {
    if let Some(o) = w.op() {
      o.hard_read += 1;
    }
    return fail(libc::EISDIR) as ssize_t;
  }
  if !w.chunks.is_empty() {
    let c = w.chunks[w.chunk_ix % w.chunks.len()] as usize;
    w.chunk_ix += 1;
    if c > 0 && n > c {
      cap = cap.min(c);
    }
  }
  let pos = at.map(|a| a as usize).unwrap_or(f.pos);
  let data = &w.inodes[f.inode].data;
  let avail = data.len().saturating_sub(pos);
  let k = n.min(cap).min(avail);
  if k < n && k < avail {
    *w.fault_hits.entry("read:short".into()).or_insert(0) += 1;
  }
  if k > 0 {
    std::ptr::copy_nonoverlapping(data.as_ptr().add(pos), buf, k);
  }
  if at.is_none() {
    w.fds.get_mut(&fd).unwrap().pos = pos + k;
  }
  w.event(&format!("t{} read fd{} {}@{}", TASK.with(|t| t.get()), fd - 1_000_000, k, pos));
  k as ssize_t
}
unsafe fn sim_size(fd: c_int) -> Result<(u64, i64, u64, bool), c_int> {
  let w = world();
  let Some(f) = w.fds.get(&fd).cloned() else { return Err(libc::EBADF) };
  if let Some(ft) = w.fault("stat", "") {
    return Err(errno_of(&ft.kind));
  }
  if f.dir {
    return Ok((4096, 0, 7, true));
  }
  let i = &w.inodes[f.inode];
  let (len, mt, ino) = (i.data.len() as u64, i.mtime, i.ino);
  Ok((lie(w, len), mt, ino, false))
}
fn lie(w: &mut World, len: u64) -> u64 {
  match w.size_lie {
    0 => len,
    1 => {
      w.hit("stat:size0");
      0
    }
    2 => {
      w.hit("stat:size-small");
      len / 2
    }
    _ => {
      w.hit("stat:size-large");
      len * 3 + 100
    }
  }
}
unsafe fn fill_stat(st: *mut libc::stat64, r: (u64, i64, u64, bool)) {
  std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
  (*st).st_size = r.0 as i64;
  (*st).st_mtime = r.1;
  (*st).st_ino = r.2;
  (*st).st_mode = if r.3 { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
  (*st).st_nlink = 1;
  (*st).st_blksize = 4096;
}
unsafe fn stat_path(path: *const c_char) -> Result<(u64, i64, u64, bool), c_int> {
  let p = norm(&CStr::from_ptr(path).to_string_lossy());
  let w = world();
  w.event(&format!("t{} stat {}", TASK.with(|t| t.get()), p));
  if let Some(ft) = w.fault("stat", &p) {
    return Err(errno_of(&ft.kind));
  }
  if w.dirs.contains(&p) {
    return Ok((4096, 0, 7, true));
  }
  match w.files.get(&p) {
    Some(&i) => {
      let (len, mt, ino) = (w.inodes[i].data.len() as u64, w.inodes[i].mtime, w.inodes[i].ino);
      Ok((lie(w, len), mt, ino, false))
    }
    None => Err(libc::ENOENT),
  }
}

// ------------------------------------------------------------------ libc symbols
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
  if simulated() {
    let _g = nohook();
    sched::yield_point(sched::YK_IO);
    return sim_open(path, flags);
  }
  ret(raw6(libc::SYS_open, path as c_long, flags as c_long, mode as c_long, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
  open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
  if simulated() {
    let _g = nohook();
    sched::yield_point(sched::YK_IO);
    return sim_open(path, flags);
  }
  ret(raw6(libc::SYS_openat, dir as c_long, path as c_long, flags as c_long, mode as c_long, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
  openat64(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
  if simulated() {
    let _g = nohook();
    if fd >= 1_000_000 {
      sched::yield_point(sched::YK_IO);
      return sim_read(fd, buf as *mut u8, n, None);
    }
    world().stray.push(format!("read of foreign fd {}", fd));
    return fail(libc::EBADF) as ssize_t;
  }
  ret(raw6(libc::SYS_read, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
  if simulated() && fd >= 1_000_000 {
    let _g = nohook();
    sched::yield_point(sched::YK_IO);
    return sim_read(fd, buf as *mut u8, n, Some(off));
  }
  ret(raw6(libc::SYS_pread64, fd as c_long, buf as c_long, n as c_long, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
  if simulated() && fd >= 1_000_000 {
    let _g = nohook();
    sched::yield_point(sched::YK_IO);
    let mut total = 0;
    for i in 0..cnt as usize {
      let v = &*iov.add(i);
      if v.iov_len == 0 {
        continue;
      }
      let r = sim_read(fd, v.iov_base as *mut u8, v.iov_len, None);
      if r < 0 {
        return if total > 0 { total } else { r };
      }
      total += r;
      if (r as usize) < v.iov_len {
        break;
      }
    }
    return total;
  }
  ret(raw6(libc::SYS_readv, fd as c_long, iov as c_long, cnt as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
  if fd >= 1_000_000 {
    let _g = nohook();
    let w = world();
    w.event(&format!("t{} close fd{}", TASK.with(|t| t.get()), fd - 1_000_000));
    let r = if w.fds.remove(&fd).is_none() {
      w.double_close += 1;
      fail(libc::EBADF)
    } else if let Some(ft) = w.fault("close", "") {
      fail(errno_of(&ft.kind))
    } else {
      0
    };
    if simulated_task() {
      sched::yield_point(sched::YK_IO);
    }
    return r;
  }
  ret(raw6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
fn simulated_task() -> bool {
  unsafe { !WORLD.is_null() && (*WORLD).on && TASK.with(|t| t.get()) >= 0 }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
  if fd >= 1_000_000 {
    let _g = nohook();
    let w = world();
    if w.fault("seek", "").map(|f| *libc::__errno_location() = errno_of(&f.kind)).is_some() {
      return -1;
    }
    let Some(f) = w.fds.get(&fd).cloned() else { return fail(libc::EBADF) as off64_t };
    let len = if f.dir { 0 } else { w.inodes[f.inode].data.len() } as i64;
    let np = match whence {
      libc::SEEK_SET => off,
      libc::SEEK_CUR => f.pos as i64 + off,
      _ => len + off,
    };
    if np < 0 {
      return fail(libc::EINVAL) as off64_t;
    }
    w.fds.get_mut(&fd).unwrap().pos = np as usize;
    return np;
  }
  ret(raw6(libc::SYS_lseek, fd as c_long, off, whence as c_long, 0, 0, 0)) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
  lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
  if fd >= 1_000_000 {
    let _g = nohook();
    return match sim_size(fd) {
      Ok(r) => {
        fill_stat(st, r);
        0
      }
      Err(e) => fail(e),
    };
  }
  ret(raw6(libc::SYS_fstat, fd as c_long, st as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
  if simulated() {
    let _g = nohook();
    sched::yield_point(sched::YK_IO);
    return match stat_path(p) {
      Ok(r) => {
        fill_stat(st, r);
        0
      }
      Err(e) => fail(e),
    };
  }
  ret(raw6(libc::SYS_stat, p as c_long, st as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
  if simulated() {
    return stat64(p, st);
  }
  ret(raw6(libc::SYS_lstat, p as c_long, st as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(
  dir: c_int,
  p: *const c_char,
  flags: c_int,
  mask: c_uint,
  st: *mut libc::statx,
) -> c_int {
  let on_fd = dir >= 1_000_000;
  if on_fd || simulated() {
    let _g = nohook();
    if p.is_null() || st.is_null() {
      return fail(libc::EFAULT); // std probes the call this way once its first one has failed
    }
    let r = if on_fd {
      sim_size(dir)
    } else {
      sched::yield_point(sched::YK_IO);
      stat_path(p)
    };
    return match r {
      Ok(r) => {
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*st).stx_mask = 0x7ff;
        (*st).stx_size = r.0;
        (*st).stx_mtime.tv_sec = r.1;
        (*st).stx_ino = r.2;
        (*st).stx_nlink = 1;
        (*st).stx_blksize = 4096;
        (*st).stx_mode = (if r.3 { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }) as u16;
        0
      }
      Err(e) => fail(e),
    };
  }
  ret(raw6(libc::SYS_statx, dir as c_long, p as c_long, flags as c_long, mask as c_long, st as c_long, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
  if simulated() {
    let _g = nohook();
    sched::yield_point(sched::YK_IO);
    return match stat_path(p) {
      Ok(_) => 0,
      Err(e) => fail(e),
    };
  }
  ret(raw6(libc::SYS_access, p as c_long, m as c_long, 0, 0, 0, 0)) as c_int
}
unsafe fn sink(fd: c_int, n: usize) -> ssize_t {
  let w = world();
  w.out_bytes += n as u64;
  w.event(&format!("t{} write fd{} {}", TASK.with(|t| t.get()), fd, n));
  if fd >= 1_000_000 {
    w.stray.push(format!("write of {} bytes to a file handle", n));
  } else {
    w.stray.push(format!("write of {} bytes to fd {}", n, fd));
  }
  if w.out_fail != 0 {
    w.hit("stdout:write-error");
    return fail(w.out_fail) as ssize_t;
  }
  n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
  if simulated() || fd >= 1_000_000 {
    let _g = nohook();
    sched::yield_point(sched::YK_IO);
    return sink(fd, n);
  }
  ret(raw6(libc::SYS_write, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
  if simulated() || fd >= 1_000_000 {
    let _g = nohook();
    let n: usize = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum();
    return sink(fd, n);
  }
  ret(raw6(libc::SYS_writev, fd as c_long, iov as c_long, cnt as c_long, 0, 0, 0)) as ssize_t
}
macro_rules! stray_path {
  ($name:ident, $nr:expr, ($($a:ident : $t:ty),*)) => {
    #[no_mangle]
    pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
      if simulated() {
        let _g = nohook();
        world().stray.push(format!("{}()", stringify!($name)));
        return fail(libc::EROFS);
      }
      let v = [$($a as c_long),*];
      let g = |i: usize| v.get(i).copied().unwrap_or(0);
      ret(raw6($nr, g(0), g(1), g(2), g(3), g(4), g(5))) as c_int
    }
  };
}
stray_path!(rename, libc::SYS_rename, (a: *const c_char, b: *const c_char));
stray_path!(unlink, libc::SYS_unlink, (a: *const c_char));
stray_path!(mkdir, libc::SYS_mkdir, (a: *const c_char, m: c_uint));
stray_path!(rmdir, libc::SYS_rmdir, (a: *const c_char));
stray_path!(link, libc::SYS_link, (a: *const c_char, b: *const c_char));
stray_path!(symlink, libc::SYS_symlink, (a: *const c_char, b: *const c_char));
stray_path!(chdir, libc::SYS_chdir, (a: *const c_char));
stray_path!(truncate64, libc::SYS_truncate, (a: *const c_char, l: c_long));
stray_path!(chmod, libc::SYS_chmod, (a: *const c_char, m: c_uint));

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
  if simulated() {
    let _g = nohook();
    sched::yield_point(sched::YK_ENV);
    let n = CStr::from_ptr(name).to_string_lossy().to_string();
    let w = world();
    w.event(&format!("t{} getenv {}", TASK.with(|t| t.get()), n));
    w.hit("env:lookup");
    return w.env_ptrs.get(&n).copied().unwrap_or(std::ptr::null());
  }
  // plain lookup in environ
  let nlen = libc::strlen(name);
  let mut e = environ;
  if e.is_null() {
    return std::ptr::null();
  }
  while !(*e).is_null() {
    if libc::strncmp(*e, name, nlen) == 0 && *(*e).add(nlen) as u8 == b'=' {
      return (*e).add(nlen + 1);
    }
    e = e.add(1);
  }
  std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn setenv(k: *const c_char, v: *const c_char, _o: c_int) -> c_int {
  let _g = nohook();
  let (k, v) = (CStr::from_ptr(k).to_string_lossy().to_string(), CStr::from_ptr(v).to_string_lossy().to_string());
  let w = world();
  if w.on {
    w.stray.push(format!("setenv {}", k));
    w.set_env(&k, Some(&v));
  }
  0
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(k: *const c_char) -> c_int {
  let _g = nohook();
  let k = CStr::from_ptr(k).to_string_lossy().to_string();
  let w = world();
  if w.on {
    w.stray.push(format!("unsetenv {}", k));
    w.set_env(&k, None);
  }
  0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
  if !WORLD.is_null() && (*WORLD).on {
    let _g = nohook();
    let w = world();
    w.hit("rand:hash-seed");
    for i in 0..n {
      if i % 8 == 0 {
        w.rand_ctr += 1;
      }
      let v = mix(w.hash_seed ^ mix(w.rand_ctr));
      *(buf as *mut u8).add(i) = (v >> (8 * (i % 8))) as u8;
    }
    return n as ssize_t;
  }
  ret(raw6(libc::SYS_getrandom, buf as c_long, n as c_long, flags as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
  if simulated() {
    let _g = nohook();
    let w = world();
    w.hit("clock:read");
    (*ts).tv_sec = (w.clock_ns / 1_000_000_000) as i64;
    (*ts).tv_nsec = (w.clock_ns % 1_000_000_000) as i64;
    return 0;
  }
  ret(raw6(libc::SYS_clock_gettime, id as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
  if simulated() {
    let _g = nohook();
    world().clock_ns += (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
    sched::yield_point(sched::YK_LOCK);
    return 0;
  }
  ret(raw6(libc::SYS_nanosleep, ts as c_long, rem as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
  id: c_int,
  fl: c_int,
  ts: *const libc::timespec,
  rem: *mut libc::timespec,
) -> c_int {
  if simulated() {
    let _g = nohook();
    world().clock_ns += (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
    sched::yield_point(sched::YK_LOCK);
    return 0;
  }
  -(raw6(libc::SYS_clock_nanosleep, id as c_long, fl as c_long, ts as c_long, rem as c_long, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
  if simulated() {
    sched::blocked_point();
    return 0;
  }
  ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
/// `std` waits for contended locks through `syscall(SYS_futex, ..)`: a simulated thread that would wait hands the baton on
/// and then sees a spurious wake-up; a wake needs no action because nobody really sleeps.
#[no_mangle]
pub unsafe extern "C" fn syscall(
  n: c_long,
  a: c_long,
  b: c_long,
  c: c_long,
  d: c_long,
  e: c_long,
  f: c_long,
) -> c_long {
  if n == libc::SYS_futex && simulated_task() {
    let cmd = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    if cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET {
      let w = &*(a as *const std::sync::atomic::AtomicU32);
      if w.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
        return fail(libc::EAGAIN) as c_long;
      }
      if d != 0 {
        world().clock_ns += 1_000_000;
      }
      sched::blocked_point();
      return 0;
    }
    if cmd == libc::FUTEX_WAKE || cmd == libc::FUTEX_WAKE_BITSET {
      // the lock is free, and nobody has taken it yet
      sched::yield_point(sched::YK_LOCK);
      return 0;
    }
  }
  if n == libc::SYS_getrandom && !WORLD.is_null() && (*WORLD).on {
    return getrandom(a as *mut c_void, b as size_t, c as c_uint) as c_long;
  }
  ret(raw6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
  if fd >= 1_000_000 {
    let open = world().fds.contains_key(&fd);
    return match cmd {
      libc::F_GETFD if open => libc::FD_CLOEXEC,
      libc::F_GETFL if open => libc::O_RDONLY,
      _ if open => 0,
      _ => fail(libc::EBADF),
    };
  }
  ret(raw6(libc::SYS_fcntl, fd as c_long, cmd as c_long, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
  fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
  if fd >= 1_000_000 {
    return 0;
  }
  -(raw6(libc::SYS_fadvise64, fd as c_long, a, b, c as c_long, 0, 0) as c_int)
}
