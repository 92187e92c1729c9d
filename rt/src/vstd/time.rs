pub use ::std::time::*;
use crate::rt;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);
impl Instant {
  pub fn now() -> Instant {
    Instant(Duration::from_nanos(rt::now_ns()))
  }
  pub fn elapsed(&self) -> Duration {
    Instant::now().duration_since(*self)
  }
  pub fn duration_since(&self, e: Instant) -> Duration {
    self.0.saturating_sub(e.0)
  }
  pub fn saturating_duration_since(&self, e: Instant) -> Duration {
    self.0.saturating_sub(e.0)
  }
  pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
    self.0.checked_sub(e.0)
  }
  pub fn checked_add(&self, d: Duration) -> Option<Instant> {
    self.0.checked_add(d).map(Instant)
  }
  pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
    self.0.checked_sub(d).map(Instant)
  }
}
impl Add<Duration> for Instant {
  type Output = Instant;
  fn add(self, d: Duration) -> Instant {
    Instant(self.0 + d)
  }
}
impl AddAssign<Duration> for Instant {
  fn add_assign(&mut self, d: Duration) {
    self.0 += d
  }
}
impl Sub<Duration> for Instant {
  type Output = Instant;
  fn sub(self, d: Duration) -> Instant {
    Instant(self.0 - d)
  }
}
impl SubAssign<Duration> for Instant {
  fn sub_assign(&mut self, d: Duration) {
    self.0 -= d
  }
}
impl Sub<Instant> for Instant {
  type Output = Duration;
  fn sub(self, o: Instant) -> Duration {
    self.0.saturating_sub(o.0)
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SystemTime(Duration);
pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
impl SystemTime {
  pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
  pub fn now() -> SystemTime {
    SystemTime(Duration::from_nanos(rt::now_ns()))
  }
  pub fn duration_since(&self, e: SystemTime) -> Result<Duration, ::std::time::SystemTimeError> {
    match self.0.checked_sub(e.0) {
      Some(d) => Ok(d),
      None => {
        ::std::time::UNIX_EPOCH.duration_since(::std::time::UNIX_EPOCH + (e.0 - self.0))
      }
    }
  }
  pub fn elapsed(&self) -> Result<Duration, ::std::time::SystemTimeError> {
    SystemTime::now().duration_since(*self)
  }
}
impl Add<Duration> for SystemTime {
  type Output = SystemTime;
  fn add(self, d: Duration) -> SystemTime {
    SystemTime(self.0 + d)
  }
}
impl Sub<Duration> for SystemTime {
  type Output = SystemTime;
  fn sub(self, d: Duration) -> SystemTime {
    SystemTime(self.0 - d)
  }
}
