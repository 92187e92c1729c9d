pub use ::std::thread::*;
use crate::rt;
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;

type Slot<T> = Arc<Mutex<Option<::std::thread::Result<T>>>>;

pub struct JoinHandle<T> {
  t: rt::Tid,
  slot: Slot<T>,
  real: Option<::std::thread::JoinHandle<T>>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
  pub fn join(self) -> ::std::thread::Result<T> {
    if let Some(r) = self.real {
      return r.join();
    }
    rt::join(self.t);
    let r = self.slot.lock().unwrap().take();
    r.unwrap()
  }
  pub fn is_finished(&self) -> bool {
    match &self.real {
      Some(r) => r.is_finished(),
      None => {
        rt::point();
        rt::finished(self.t)
      }
    }
  }
  pub fn thread(&self) -> Thread {
    Thread { t: self.t }
  }
}
impl<T> ::std::fmt::Debug for JoinHandle<T> {
  fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
    f.write_str("JoinHandle { .. }")
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(usize);

#[derive(Clone, Debug)]
pub struct Thread {
  t: rt::Tid,
}
impl Thread {
  pub fn id(&self) -> ThreadId {
    ThreadId(self.t)
  }
  pub fn name(&self) -> Option<&str> {
    None
  }
  pub fn unpark(&self) {
    rt::unpark(self.t)
  }
}
pub fn current() -> Thread {
  Thread { t: rt::tid() }
}
pub fn park() {
  rt::park()
}
pub fn park_timeout(d: Duration) {
  sleep(d)
}

fn spawn_named<F, T>(name: String, f: F) -> JoinHandle<T>
where
  F: FnOnce() -> T + Send + 'static,
  T: Send + 'static,
{
  let slot: Slot<T> = Arc::new(Mutex::new(None));
  if !rt::active() {
    return JoinHandle { t: 0, slot, real: Some(::std::thread::spawn(f)) };
  }
  let s2 = slot.clone();
  let t = rt::spawn_virtual(
    name,
    Box::new(move || {
      let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
      match r {
        Ok(v) => *s2.lock().unwrap() = Some(Ok(v)),
        Err(e) => {
          let msg = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
          } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
          } else {
            "panic".to_string()
          };
          rt::log_s("panic", &[], &msg);
          *s2.lock().unwrap() = Some(Err(e));
        }
      }
    }),
  );
  JoinHandle { t, slot, real: None }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
  F: FnOnce() -> T + Send + 'static,
  T: Send + 'static,
{
  spawn_named("worker".into(), f)
}

#[derive(Debug)]
pub struct Builder {
  name: String,
}
impl Default for Builder {
  fn default() -> Self {
    Builder::new()
  }
}
impl Builder {
  pub fn new() -> Builder {
    Builder { name: "worker".into() }
  }
  pub fn name(self, _n: String) -> Builder {
    self
  }
  pub fn stack_size(self, _n: usize) -> Builder {
    self
  }
  pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
  where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
  {
    Ok(spawn_named(self.name, f))
  }
}

pub fn sleep(d: Duration) {
  if rt::active() {
    rt::sleep_ns(d.as_nanos().min(u64::MAX as u128) as u64);
  } else {
    ::std::thread::sleep(d);
  }
}
pub fn sleep_until(t: super::time::Instant) {
  sleep(t.saturating_duration_since(super::time::Instant::now()))
}
pub fn yield_now() {
  if rt::active() {
    rt::point();
  } else {
    ::std::thread::yield_now();
  }
}
