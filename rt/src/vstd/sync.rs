pub use ::std::sync::*;
use crate::rt::{self, Meta};
use ::std::fmt;
use ::std::mem::ManuallyDrop;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as ss;
use ::std::time::Duration;

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
  meta: Meta,
  inner: ss::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
  g: ManuallyDrop<ss::RwLockReadGuard<'a, T>>,
  meta: &'a Meta,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
  g: ManuallyDrop<ss::RwLockWriteGuard<'a, T>>,
  meta: &'a Meta,
}
fn wb() -> ! {
  panic!("facade lock out of step with the runtime")
}
impl<T> RwLock<T> {
  #[cfg(not(feature = "lazy"))]
  pub fn new(t: T) -> RwLock<T> {
    RwLock { meta: Meta::new(), inner: ss::RwLock::new(t) }
  }
  #[cfg(feature = "lazy")]
  pub const fn new(t: T) -> RwLock<T> {
    RwLock { meta: Meta::new(), inner: ss::RwLock::new(t) }
  }
  pub fn into_inner(self) -> LockResult<T> {
    self.inner.into_inner()
  }
}
impl<T: ?Sized> RwLock<T> {
  fn rg<'a>(&'a self, g: ss::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
    RwLockReadGuard { g: ManuallyDrop::new(g), meta: &self.meta }
  }
  fn wg<'a>(&'a self, g: ss::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
    RwLockWriteGuard { g: ManuallyDrop::new(g), meta: &self.meta }
  }
  pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
    if !rt::active() {
      return match self.inner.read() {
        Ok(g) => Ok(self.rg(g)),
        Err(p) => Err(PoisonError::new(self.rg(p.into_inner()))),
      };
    }
    rt::acquire_read(&self.meta);
    match self.inner.try_read() {
      Ok(g) => Ok(self.rg(g)),
      Err(TryLockError::Poisoned(p)) => Err(PoisonError::new(self.rg(p.into_inner()))),
      Err(TryLockError::WouldBlock) => wb(),
    }
  }
  pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
    if !rt::active() {
      return match self.inner.write() {
        Ok(g) => Ok(self.wg(g)),
        Err(p) => Err(PoisonError::new(self.wg(p.into_inner()))),
      };
    }
    rt::acquire_write(&self.meta);
    match self.inner.try_write() {
      Ok(g) => Ok(self.wg(g)),
      Err(TryLockError::Poisoned(p)) => Err(PoisonError::new(self.wg(p.into_inner()))),
      Err(TryLockError::WouldBlock) => wb(),
    }
  }
  pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
    if !rt::try_acquire(&self.meta, false) {
      return Err(TryLockError::WouldBlock);
    }
    match self.inner.try_read() {
      Ok(g) => Ok(self.rg(g)),
      Err(TryLockError::Poisoned(p)) => {
        Err(TryLockError::Poisoned(PoisonError::new(self.rg(p.into_inner()))))
      }
      Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
    }
  }
  pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
    if !rt::try_acquire(&self.meta, true) {
      return Err(TryLockError::WouldBlock);
    }
    match self.inner.try_write() {
      Ok(g) => Ok(self.wg(g)),
      Err(TryLockError::Poisoned(p)) => {
        Err(TryLockError::Poisoned(PoisonError::new(self.wg(p.into_inner()))))
      }
      Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
    }
  }
  pub fn is_poisoned(&self) -> bool {
    self.inner.is_poisoned()
  }
  pub fn clear_poison(&self) {
    self.inner.clear_poison()
  }
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    self.inner.get_mut()
  }
}
impl<T: Default> Default for RwLock<T> {
  fn default() -> Self {
    RwLock::new(T::default())
  }
}
impl<T> From<T> for RwLock<T> {
  fn from(t: T) -> Self {
    RwLock::new(t)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.inner.fmt(f)
  }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    &self.g
  }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    &self.g
  }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    &mut self.g
  }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
  fn drop(&mut self) {
    unsafe { ManuallyDrop::drop(&mut self.g) };
    rt::release_read(self.meta);
  }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
  fn drop(&mut self) {
    unsafe { ManuallyDrop::drop(&mut self.g) };
    rt::release_write(self.meta);
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
  meta: Meta,
  inner: ss::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
  g: ManuallyDrop<ss::MutexGuard<'a, T>>,
  lock: &'a Mutex<T>,
}
impl<T> Mutex<T> {
  #[cfg(not(feature = "lazy"))]
  pub fn new(t: T) -> Mutex<T> {
    Mutex { meta: Meta::new(), inner: ss::Mutex::new(t) }
  }
  #[cfg(feature = "lazy")]
  pub const fn new(t: T) -> Mutex<T> {
    Mutex { meta: Meta::new(), inner: ss::Mutex::new(t) }
  }
  pub fn into_inner(self) -> LockResult<T> {
    self.inner.into_inner()
  }
}
impl<T: ?Sized> Mutex<T> {
  fn mg<'a>(&'a self, g: ss::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
    MutexGuard { g: ManuallyDrop::new(g), lock: self }
  }
  fn take_real(&self) -> LockResult<MutexGuard<'_, T>> {
    match self.inner.try_lock() {
      Ok(g) => Ok(self.mg(g)),
      Err(TryLockError::Poisoned(p)) => Err(PoisonError::new(self.mg(p.into_inner()))),
      Err(TryLockError::WouldBlock) => wb(),
    }
  }
  pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
    if !rt::active() {
      return match self.inner.lock() {
        Ok(g) => Ok(self.mg(g)),
        Err(p) => Err(PoisonError::new(self.mg(p.into_inner()))),
      };
    }
    rt::acquire_write(&self.meta);
    self.take_real()
  }
  pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
    if !rt::try_acquire(&self.meta, true) {
      return Err(TryLockError::WouldBlock);
    }
    match self.inner.try_lock() {
      Ok(g) => Ok(self.mg(g)),
      Err(TryLockError::Poisoned(p)) => {
        Err(TryLockError::Poisoned(PoisonError::new(self.mg(p.into_inner()))))
      }
      Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
    }
  }
  pub fn is_poisoned(&self) -> bool {
    self.inner.is_poisoned()
  }
  pub fn clear_poison(&self) {
    self.inner.clear_poison()
  }
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    self.inner.get_mut()
  }
}
impl<T: Default> Default for Mutex<T> {
  fn default() -> Self {
    Mutex::new(T::default())
  }
}
impl<T> From<T> for Mutex<T> {
  fn from(t: T) -> Self {
    Mutex::new(t)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.inner.fmt(f)
  }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    &self.g
  }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    &mut self.g
  }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
  fn drop(&mut self) {
    unsafe { ManuallyDrop::drop(&mut self.g) };
    rt::release_write(&self.lock.meta);
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}

// ---------------------------------------------------------------- Condvar
pub struct Condvar {
  meta: Meta,
  inner: ss::Condvar,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
  pub fn timed_out(&self) -> bool {
    self.0
  }
}
impl Default for Condvar {
  fn default() -> Self {
    Condvar::new()
  }
}
impl fmt::Debug for Condvar {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("Condvar { .. }")
  }
}
impl Condvar {
  #[cfg(not(feature = "lazy"))]
  pub fn new() -> Condvar {
    Condvar { meta: Meta::new(), inner: ss::Condvar::new() }
  }
  #[cfg(feature = "lazy")]
  pub const fn new() -> Condvar {
    Condvar { meta: Meta::new(), inner: ss::Condvar::new() }
  }
  fn addr(&self) -> usize {
    &self.meta as *const Meta as usize
  }
  fn wait_virtual<'a, T>(
    &self,
    mut guard: MutexGuard<'a, T>,
    deadline: Option<u64>,
  ) -> (LockResult<MutexGuard<'a, T>>, bool) {
    let lock = guard.lock;
    unsafe { ManuallyDrop::drop(&mut guard.g) };
    ::std::mem::forget(guard);
    let to = rt::cond_wait(self.addr(), &lock.meta, deadline);
    (lock.take_real(), to)
  }
  pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
    if !rt::active() {
      let lock = guard.lock;
      let mut guard = guard;
      let g = unsafe { ManuallyDrop::take(&mut guard.g) };
      ::std::mem::forget(guard);
      return match self.inner.wait(g) {
        Ok(g) => Ok(lock.mg(g)),
        Err(p) => Err(PoisonError::new(lock.mg(p.into_inner()))),
      };
    }
    self.wait_virtual(guard, None).0
  }
  pub fn wait_while<'a, T, F>(
    &self,
    mut guard: MutexGuard<'a, T>,
    mut condition: F,
  ) -> LockResult<MutexGuard<'a, T>>
  where
    F: FnMut(&mut T) -> bool,
  {
    while condition(&mut *guard) {
      guard = self.wait(guard)?;
    }
    Ok(guard)
  }
  pub fn wait_timeout<'a, T>(
    &self,
    guard: MutexGuard<'a, T>,
    dur: Duration,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
    if !rt::active() {
      let lock = guard.lock;
      let mut guard = guard;
      let g = unsafe { ManuallyDrop::take(&mut guard.g) };
      ::std::mem::forget(guard);
      return match self.inner.wait_timeout(g, dur) {
        Ok((g, r)) => Ok((lock.mg(g), WaitTimeoutResult(r.timed_out()))),
        Err(p) => {
          let (g, r) = p.into_inner();
          Err(PoisonError::new((lock.mg(g), WaitTimeoutResult(r.timed_out()))))
        }
      };
    }
    let d = rt::now_ns().saturating_add(dur.as_nanos().min(u64::MAX as u128) as u64);
    let (g, to) = self.wait_virtual(guard, Some(d));
    match g {
      Ok(g) => Ok((g, WaitTimeoutResult(to))),
      Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(to)))),
    }
  }
  pub fn wait_timeout_while<'a, T, F>(
    &self,
    mut guard: MutexGuard<'a, T>,
    dur: Duration,
    mut condition: F,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
  where
    F: FnMut(&mut T) -> bool,
  {
    let start = super::time::Instant::now();
    loop {
      if !condition(&mut *guard) {
        return Ok((guard, WaitTimeoutResult(false)));
      }
      let left = match dur.checked_sub(start.elapsed()) {
        Some(l) if l > Duration::ZERO => l,
        _ => return Ok((guard, WaitTimeoutResult(true))),
      };
      guard = self.wait_timeout(guard, left)?.0;
    }
  }
  pub fn notify_one(&self) {
    rt::cond_notify(self.addr(), &self.meta, false);
    self.inner.notify_one();
  }
  pub fn notify_all(&self) {
    rt::cond_notify(self.addr(), &self.meta, true);
    self.inner.notify_all();
  }
}

// ---------------------------------------------------------------- atomics
pub mod atomic {
  pub use ::std::sync::atomic::*;
  use crate::rt::{self, Meta};
  use ::std::sync::atomic as sa;

  macro_rules! atomic_common {
    ($name:ident, $t:ty $(, <$g:ident>)?) => {
      impl$(<$g>)? $name$(<$g>)? {
        #[cfg(not(feature = "lazy"))]
  pub fn new(v: $t) -> Self { Self { meta: Meta::new(), v: sa::$name::new(v) } }
  #[cfg(feature = "lazy")]
  pub const fn new(v: $t) -> Self { Self { meta: Meta::new(), v: sa::$name::new(v) } }
        pub fn load(&self, o: Ordering) -> $t { rt::access(&self.meta, false); self.v.load(o) }
        pub fn store(&self, x: $t, o: Ordering) { rt::access(&self.meta, true); self.v.store(x, o) }
        pub fn swap(&self, x: $t, o: Ordering) -> $t { rt::access(&self.meta, true); self.v.swap(x, o) }
        pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
          rt::access(&self.meta, true); self.v.compare_exchange(a, b, s, f)
        }
        pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
          rt::access(&self.meta, true); self.v.compare_exchange(a, b, s, f)
        }
        pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
          rt::access(&self.meta, true); { #[allow(deprecated)] self.v.fetch_update(s, f, g) }
        }
        pub fn into_inner(self) -> $t { self.v.into_inner() }
        pub fn get_mut(&mut self) -> &mut $t { self.v.get_mut() }
      }
      impl$(<$g>)? From<$t> for $name$(<$g>)? { fn from(v: $t) -> Self { Self::new(v) } }
      impl$(<$g>)? ::std::fmt::Debug for $name$(<$g>)? {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.v.fmt(f) }
      }
    };
  }
  macro_rules! atomic_int {
    ($($name:ident $t:ty),*) => {$(
      pub struct $name { meta: Meta, v: sa::$name }
      atomic_common!($name, $t);
      impl Default for $name { fn default() -> Self { Self::new(0) } }
      impl $name {
        pub fn fetch_add(&self, x: $t, o: Ordering) -> $t { rt::access(&self.meta, true); self.v.fetch_add(x, o) }
        pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t { rt::access(&self.meta, true); self.v.fetch_sub(x, o) }
        pub fn fetch_and(&self, x: $t, o: Ordering) -> $t { rt::access(&self.meta, true); self.v.fetch_and(x, o) }
        pub fn fetch_or(&self, x: $t, o: Ordering) -> $t { rt::access(&self.meta, true); self.v.fetch_or(x, o) }
        pub fn fetch_xor(&self, x: $t, o: Ordering) -> $t { rt::access(&self.meta, true); self.v.fetch_xor(x, o) }
        pub fn fetch_max(&self, x: $t, o: Ordering) -> $t { rt::access(&self.meta, true); self.v.fetch_max(x, o) }
        pub fn fetch_min(&self, x: $t, o: Ordering) -> $t { rt::access(&self.meta, true); self.v.fetch_min(x, o) }
      }
    )*};
  }
  atomic_int!(
    AtomicI8 i8, AtomicU8 u8, AtomicI16 i16, AtomicU16 u16, AtomicI32 i32, AtomicU32 u32,
    AtomicI64 i64, AtomicU64 u64, AtomicIsize isize, AtomicUsize usize
  );
  pub struct AtomicBool {
    meta: Meta,
    v: sa::AtomicBool,
  }
  atomic_common!(AtomicBool, bool);
  impl Default for AtomicBool {
    fn default() -> Self {
      Self::new(false)
    }
  }
  impl AtomicBool {
    pub fn fetch_and(&self, x: bool, o: Ordering) -> bool {
      rt::access(&self.meta, true);
      self.v.fetch_and(x, o)
    }
    pub fn fetch_or(&self, x: bool, o: Ordering) -> bool {
      rt::access(&self.meta, true);
      self.v.fetch_or(x, o)
    }
    pub fn fetch_xor(&self, x: bool, o: Ordering) -> bool {
      rt::access(&self.meta, true);
      self.v.fetch_xor(x, o)
    }
    pub fn fetch_not(&self, o: Ordering) -> bool {
      rt::access(&self.meta, true);
      self.v.fetch_xor(true, o)
    }
  }
}

// ---------------------------------------------------------------- mpsc
pub mod mpsc {
  pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
  use super::{Condvar, Mutex};
  use ::std::collections::VecDeque;
  use ::std::sync::Arc;
  use ::std::time::Duration;

  struct Ch<T> {
    q: Mutex<State<T>>,
    c: Condvar,
  }
  struct State<T> {
    items: VecDeque<T>,
    senders: usize,
    rx: bool,
    cap: usize,
  }
  pub struct Sender<T>(Arc<Ch<T>>);
  pub type SyncSender<T> = Sender<T>;
  pub struct Receiver<T>(Arc<Ch<T>>);
  pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    sync_channel(usize::MAX)
  }
  pub fn sync_channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Ch {
      q: Mutex::new(State { items: VecDeque::new(), senders: 1, rx: true, cap: cap.max(1) }),
      c: Condvar::new(),
    });
    (Sender(c.clone()), Receiver(c))
  }
  impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
      self.0.q.lock().unwrap().senders += 1;
      Sender(self.0.clone())
    }
  }
  impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
      if let Ok(mut g) = self.0.q.lock() {
        g.senders -= 1;
      }
      self.0.c.notify_all();
    }
  }
  impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
      if let Ok(mut g) = self.0.q.lock() {
        g.rx = false;
        g.items.clear();
      }
      self.0.c.notify_all();
    }
  }
  impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
      let mut g = self.0.q.lock().unwrap();
      while g.rx && g.items.len() >= g.cap {
        g = self.0.c.wait(g).unwrap();
      }
      if !g.rx {
        return Err(SendError(t));
      }
      g.items.push_back(t);
      drop(g);
      self.0.c.notify_all();
      Ok(())
    }
  }
  impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
      let mut g = self.0.q.lock().unwrap();
      loop {
        if let Some(x) = g.items.pop_front() {
          drop(g);
          self.0.c.notify_all();
          return Ok(x);
        }
        if g.senders == 0 {
          return Err(RecvError);
        }
        g = self.0.c.wait(g).unwrap();
      }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
      let mut g = self.0.q.lock().unwrap();
      match g.items.pop_front() {
        Some(x) => Ok(x),
        None if g.senders == 0 => Err(TryRecvError::Disconnected),
        None => Err(TryRecvError::Empty),
      }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
      let mut g = self.0.q.lock().unwrap();
      loop {
        if let Some(x) = g.items.pop_front() {
          return Ok(x);
        }
        if g.senders == 0 {
          return Err(RecvTimeoutError::Disconnected);
        }
        let (g2, r) = self.0.c.wait_timeout(g, d).unwrap();
        g = g2;
        if r.timed_out() && g.items.is_empty() {
          return Err(RecvTimeoutError::Timeout);
        }
      }
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
      ::std::iter::from_fn(move || self.recv().ok())
    }
  }
}
