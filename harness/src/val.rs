//! Items, errors and the counters that tell whether the library still owns what the user gave it.
use another_rxrust::prelude::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

pub static LIVE: [AtomicI64; 3] = [AtomicI64::new(0), AtomicI64::new(0), AtomicI64::new(0)];
pub const ITEM: usize = 0;
pub const CLOSURE: usize = 1;
pub const CALLBACK: usize = 2;

/// counts the live copies of something the user handed to the library
pub struct Tok(usize);
impl Tok {
  pub fn new(c: usize) -> Tok {
    LIVE[c].fetch_add(1, SeqCst);
    Tok(c)
  }
  pub fn touch(&self) {}
}
impl Clone for Tok {
  fn clone(&self) -> Tok {
    Tok::new(self.0)
  }
}
impl Drop for Tok {
  fn drop(&mut self) {
    LIVE[self.0].fetch_sub(1, SeqCst);
  }
}
pub fn live() -> [i64; 3] {
  [LIVE[0].load(SeqCst), LIVE[1].load(SeqCst), LIVE[2].load(SeqCst)]
}

#[derive(Clone)]
pub struct Val {
  pub tag: i64,
  pub n: i64,
  pub kids: Vec<Val>,
  pub obs: Option<Observable<'static, Val>>,
  _tok: Tok,
}
impl Val {
  pub fn new(tag: i64, n: i64, kids: Vec<Val>) -> Val {
    Val { tag, n, kids, obs: None, _tok: Tok::new(ITEM) }
  }
  pub fn int(n: i64) -> Val {
    Val::new(0, n, vec![])
  }
  pub fn bool(b: bool) -> Val {
    Val::new(5, b as i64, vec![])
  }
  pub fn list(k: Vec<Val>) -> Val {
    Val::new(1, 0, k)
  }
  pub fn unit() -> Val {
    Val::new(9, 0, vec![])
  }
  pub fn obs(o: Observable<'static, Val>) -> Val {
    let mut v = Val::new(20, 0, vec![]);
    v.obs = Some(o);
    v
  }
  pub fn num(&self) -> i64 {
    match self.tag {
      0 | 5 => self.n,
      1 => self.kids.len() as i64 + self.kids.iter().map(|k| k.num()).sum::<i64>(),
      2 => 1 + self.kids[0].num(),
      3 => 100 + self.kids[0].n,
      4 => 200,
      20 => 3,
      _ => 7,
    }
  }
  pub fn json(&self) -> Value {
    json!([self.tag, self.n, self.kids.iter().map(|k| k.json()).collect::<Vec<_>>()])
  }
  pub fn from(v: &Value) -> Val {
    Val::new(
      v[0].as_i64().unwrap(),
      v[1].as_i64().unwrap(),
      v[2].as_array().map(|a| a.iter().map(Val::from).collect()).unwrap_or_default(),
    )
  }
}
impl PartialEq for Val {
  fn eq(&self, o: &Val) -> bool {
    self.tag == o.tag && self.n == o.n && self.kids == o.kids
  }
}
impl PartialOrd for Val {
  fn partial_cmp(&self, o: &Val) -> Option<std::cmp::Ordering> {
    self.num().partial_cmp(&o.num())
  }
}
impl std::ops::Add for Val {
  type Output = Val;
  fn add(self, o: Val) -> Val {
    Val::int(self.num() + o.num())
  }
}
impl std::fmt::Debug for Val {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}", self.json())
  }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Payload {
  pub code: i64,
  pub text: String,
}
static STRS: [&str; 10] = ["s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9"];

/// error with payload <<tag, n, <<>>>>; the payload also proves to be the one it was made from
pub fn err(tag: i64, n: i64) -> RxError {
  match tag {
    11 => RxError::from_error(format!("e{}", n)),
    12 => RxError::from_result(Err::<i64, _>(Payload { code: n, text: format!("p{}", n) })),
    13 => RxError::from_error(STRS[n.rem_euclid(10) as usize]),
    _ => RxError::from_error(n),
  }
}
pub fn err_of(v: &Val) -> RxError {
  err(v.tag, v.n)
}
pub fn unerr(e: &RxError) -> Val {
  if let Some(n) = e.downcast_ref::<i64>() {
    return Val::new(10, *n, vec![]);
  }
  if let Some(s) = e.downcast_ref::<String>() {
    if let Some(n) = s.strip_prefix('e').and_then(|x| x.parse().ok()) {
      return Val::new(11, n, vec![]);
    }
  }
  if let Some(p) = e.downcast_ref::<Payload>() {
    if p.text == format!("p{}", p.code) {
      return Val::new(12, p.code, vec![]);
    }
  }
  if let Some(s) = e.downcast_ref::<&'static str>() {
    if let Some(n) = s.strip_prefix('s').and_then(|x| x.parse().ok()) {
      return Val::new(13, n, vec![]);
    }
  }
  if let Some(x) = e.downcast_ref::<std::io::Error>() {
    return Val::new(14, (x.kind() == std::io::ErrorKind::TimedOut) as i64, vec![]);
  }
  Val::new(19, 0, vec![])
}

pub fn pred(p: i64, v: &Val) -> bool {
  let n = v.num();
  match p {
    0 => true,
    1 => n.rem_euclid(2) == 0,
    2 => n < 3,
    3 => false,
    4 => n.rem_euclid(3) != 0,
    _ => n < p,
  }
}
pub fn fold(x: &Val, y: &Val) -> Val {
  Val::int((2 * x.num() + y.num()).rem_euclid(1000))
}
pub fn rpred(p: i64, e: &RxError) -> bool {
  match p {
    0 => false,
    1 => unerr(e).n < 5,
    _ => true,
  }
}
pub fn to_mat(v: Val) -> Material<Val> {
  match v.tag {
    2 => Material::Next(v.kids[0].clone()),
    3 => Material::Error(err_of(&v.kids[0])),
    4 => Material::Complete,
    _ => Material::Next(v),
  }
}
pub fn of_mat(m: Material<Val>) -> Val {
  match m {
    Material::Next(v) => Val::new(2, 0, vec![v]),
    Material::Error(e) => Val::new(3, 0, vec![unerr(&e)]),
    Material::Complete => Val::new(4, 0, vec![]),
  }
}
