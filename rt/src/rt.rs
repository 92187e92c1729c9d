use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Tid = usize;

/// Identity of a synchronisation object: (creating virtual thread, per-thread creation number).
pub type Key = (u32, u32);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum LockKind {
  Mutex,
  RwLock,
}

/// Bookkeeping of one facade lock; only touched by the OS thread that runs the execution.
pub struct Meta {
  inner: UnsafeCell<MetaInner>,
}
struct MetaInner {
  init: bool,
  run: u64,
  key: Key,
  writer: Option<Tid>,
  readers: Vec<Tid>,
  pending_writers: Vec<Tid>,
}
unsafe impl Send for Meta {}
unsafe impl Sync for Meta {}

impl Meta {
  /// identity and life of the object begin at its creation
  #[cfg(not(feature = "lazy"))]
  pub fn new() -> Meta {
    let m = Meta::blank();
    m.begin();
    m
  }
  /// ... or at its first use, so that objects can live in statics
  #[cfg(feature = "lazy")]
  pub const fn new() -> Meta {
    Meta::blank()
  }
  const fn blank() -> Meta {
    Meta {
      inner: UnsafeCell::new(MetaInner {
        init: false,
        run: 0,
        key: (u32::MAX, 0),
        writer: None,
        readers: Vec::new(),
        pending_writers: Vec::new(),
      }),
    }
  }
  fn begin(&self) {
    let _ = LIVE.try_with(|l| l.set(l.get() + 1));
    let (run, key) = fresh_key();
    let mi = self.m();
    mi.init = true;
    mi.run = run;
    mi.key = key;
  }
  #[allow(clippy::mut_from_ref)]
  fn m(&self) -> &mut MetaInner {
    unsafe { &mut *self.inner.get() }
  }
}
impl Drop for Meta {
  fn drop(&mut self) {
    if self.m().init {
      let _ = LIVE.try_with(|l| l.set(l.get() - 1));
    }
  }
}

#[derive(Clone, Copy)]
enum Block {
  Run,
  Read(*const Meta),
  Write(*const Meta),
  Cond(usize),              // waiting on a condvar (address)
  CondTimed(usize, u64),    // ... with deadline
  Sleep(u64),
  Settle(u64),
  Join(Tid),
  Park,
  Never,
  Done,
}

struct Th {
  co: Option<Box<Coroutine<(), (), (), DefaultStack>>>,
  yielder: *const Yielder<(), ()>,
  block: Block,
  name: String,
  notified: bool,
  timed_out: bool,
  park_token: bool,
  lock_seq: u32,
  prio: u64,
  steps: u64,
  panicked: Option<String>,
  holds: i32,
}

/// One logged event: virtual thread, virtual time (ns), kind, integer arguments, optional text.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ev {
  pub t: u32,
  pub now: u64,
  pub k: &'static str,
  pub a: Vec<i64>,
  pub s: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
  /// the main virtual thread returned
  Finished,
  /// nothing can move and the main thread has not returned
  Stuck,
  /// the step budget is exhausted
  Spin,
}

pub struct Outcome {
  pub status: Status,
  pub log: Vec<Ev>,
  /// name and blocking reason of every virtual thread that has not ended
  pub live: Vec<(Tid, String, &'static str)>,
  pub panics: Vec<(Tid, String)>,
  pub spinning: Option<Tid>,
  pub steps: u64,
  pub points: usize,
}

/// Chooses among `n` alternatives; alternative 0 is "carry on with the running thread" when `cont`.
pub enum Sched {
  /// never preempt
  Seq,
  /// depth-first over all choices with at most `bound` preemptions
  Dfs { bound: usize },
  /// preempt with probability num/den
  Random { num: u64, den: u64 },
  /// priority based (PCT) with `depth` change points over `len` steps
  Pct { depth: usize, len: usize },
}

#[derive(Clone)]
struct Choice {
  pick: usize,
  n: usize,
  cont: bool,
}

pub struct Explorer {
  pub sched: Sched,
  pub rng: u64,
  pub budget: u64,
  pub cond_spurious: bool,
  path: Vec<Choice>,
  pub shared: HashSet<Key>,
  pub runs: u64,
  pub restarted: u64,
  pub exhausted: bool,
  pub truncated: u64,
}

impl Explorer {
  pub fn new(sched: Sched, seed: u64) -> Explorer {
    Explorer {
      sched,
      rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
      budget: 200_000,
      cond_spurious: false,
      path: Vec::new(),
      shared: HashSet::new(),
      runs: 0,
      restarted: 0,
      exhausted: false,
      truncated: 0,
    }
  }

  /// Runs `f` once as virtual thread 0.
  pub fn run<F: FnOnce() + 'static>(&mut self, f: F) -> Outcome {
    let mut rt = Box::new(Rt {
      id: next_run_id(),
      ths: Vec::new(),
      cur: 0,
      next: None,
      now: 0,
      log: Vec::new(),
      steps: 0,
      status: None,
      spinning: None,
      shared: std::mem::take(&mut self.shared),
      touched: HashMap::new(),
      conds: HashMap::new(),
      path: std::mem::take(&mut self.path),
      pos: 0,
      preempts: 0,
      dfs_bound: match self.sched {
        Sched::Dfs { bound } => Some(bound),
        _ => None,
      },
      random: match self.sched {
        Sched::Random { num, den } => Some((num, den)),
        _ => None,
      },
      pct: match self.sched {
        Sched::Pct { depth, len } => Some((depth, len)),
        _ => None,
      },
      pct_points: Vec::new(),
      rng: self.rng,
      budget: self.budget,
      spurious: self.cond_spurious,
      points: 0,
      seq: matches!(self.sched, Sched::Seq),
      diverged: false,
    });
    if let Some((depth, len)) = rt.pct {
      for _ in 0..depth {
        let p = (rt.rand() as usize) % len.max(1);
        rt.pct_points.push(p);
      }
    }
    RT.with(|r| {
      assert!(r.get().is_null(), "nested execution");
      r.set(&mut *rt as *mut Rt);
    });
    install_hook();
    new_thread("main".into(), Box::new(f));
    rt.next = Some(0);
    while let Some(t) = rt.next.take() {
      rt.cur = t;
      let co: *mut Coroutine<(), (), (), DefaultStack> = &mut **rt.ths[t].co.as_mut().unwrap();
      let r = unsafe { (*co).resume(()) };
      if let CoroutineResult::Return(()) = r {
        rt.ths[t].block = Block::Done;
        if t != 0 {
          let e = Ev { t: t as u32, now: rt.now, k: "th-", a: vec![t as i64], s: String::new() };
          rt.log.push(e);
        }
        let co = rt.ths[t].co.take().unwrap();
        give_stack(t == 0, co.into_stack());
        if t == 0 {
          rt.status = Some(Status::Finished);
          // let workers that can still move without time passing do so
        }
        if rt.status == Some(Status::Spin) {
          break;
        }
        rt.next = rt.pick_blocked();
      }
      if rt.status == Some(Status::Spin) {
        break;
      }
    }
    if rt.status.is_none() {
      rt.status = Some(Status::Stuck);
    }
    let mut live = Vec::new();
    let mut panics = Vec::new();
    for t in 0..rt.ths.len() {
      let th = &mut rt.ths[t];
      if let Some(m) = th.panicked.take() {
        panics.push((t, m));
      }
      if let Some(mut co) = th.co.take() {
        let why = match th.block {
          Block::Run => "run",
          Block::Read(_) => "read",
          Block::Write(_) => "write",
          Block::Cond(_) | Block::CondTimed(..) => "cond",
          Block::Sleep(_) => "sleep",
          Block::Settle(_) => "settle",
          Block::Join(_) => "join",
          Block::Park => "park",
          Block::Never => "never",
          Block::Done => "done",
        };
        live.push((t, th.name.clone(), why));
        if co.started() && !co.done() {
          unsafe { co.force_reset() };
          give_stack(t == 0, co.into_stack());
        } else {
          // never started: dropping it drops the closure
          drop(co);
        }
      }
    }
    RT.with(|r| r.set(std::ptr::null_mut()));
    self.runs += 1;
    self.rng = rt.rng;
    self.shared = std::mem::take(&mut rt.shared);
    if rt.status == Some(Status::Spin) {
      self.truncated += 1;
    }
    // conflicting objects found in this run
    let mut grew = false;
    for (k, (tids, wr)) in rt.touched.iter() {
      if tids.count_ones() >= 2 && *wr && self.shared.insert(*k) {
        grew = true;
      }
    }
    if let Sched::Dfs { .. } = self.sched {
      if grew {
        self.path.clear();
        self.restarted += 1;
        if self.restarted > 40 {
          // keep going from the current set
        }
      } else {
        let mut p = std::mem::take(&mut rt.path);
        p.truncate(rt.pos.max(0));
        let bound = match self.sched {
          Sched::Dfs { bound } => bound,
          _ => 0,
        };
        self.path = Self::next_path(p, bound, &mut self.exhausted);
      }
    }
    Outcome {
      status: rt.status.unwrap(),
      log: std::mem::take(&mut rt.log),
      live,
      panics,
      spinning: rt.spinning,
      steps: rt.steps,
      points: rt.points,
    }
  }

  fn next_path(mut p: Vec<Choice>, bound: usize, exhausted: &mut bool) -> Vec<Choice> {
    while let Some(last) = p.pop() {
      let used: usize = p.iter().filter(|c| c.cont && c.pick > 0).count();
      let allow = !last.cont || used < bound;
      if last.pick + 1 < last.n && allow {
        p.push(Choice { pick: last.pick + 1, n: last.n, cont: last.cont });
        return p;
      }
    }
    *exhausted = true;
    p
  }

  /// the choice sequence that the next DFS run will follow / the last run followed
  pub fn path_string(&self) -> String {
    self.path.iter().map(|c| c.pick.to_string()).collect::<Vec<_>>().join(".")
  }
}

struct Rt {
  id: u64,
  ths: Vec<Th>,
  cur: Tid,
  next: Option<Tid>,
  now: u64,
  log: Vec<Ev>,
  steps: u64,
  status: Option<Status>,
  spinning: Option<Tid>,
  shared: HashSet<Key>,
  touched: HashMap<Key, (u64, bool)>,
  conds: HashMap<usize, Vec<Tid>>,
  path: Vec<Choice>,
  pos: usize,
  preempts: usize,
  dfs_bound: Option<usize>,
  random: Option<(u64, u64)>,
  pct: Option<(usize, usize)>,
  pct_points: Vec<usize>,
  rng: u64,
  budget: u64,
  spurious: bool,
  points: usize,
  seq: bool,
  diverged: bool,
}

thread_local! {
  static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
  static LIVE: Cell<i64> = const { Cell::new(0) };
  static RUN_ID: Cell<u64> = const { Cell::new(1) };
  static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
  static BIG: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
  static HASH_SEED: Cell<u64> = const { Cell::new(0) };
}

pub fn set_hash_seed(s: u64) {
  HASH_SEED.with(|h| h.set(s));
}
pub fn hash_seed() -> u64 {
  HASH_SEED.with(|h| h.get())
}

/// Number of facade locks alive that were created by this OS thread: a black-box measure of what the library
/// still holds on to.
pub fn live_locks() -> i64 {
  LIVE.with(|l| l.get())
}

fn next_run_id() -> u64 {
  RUN_ID.with(|r| {
    r.set(r.get() + 1);
    r.get()
  })
}

fn fresh_key() -> (u64, Key) {
  match rt() {
    None => (0, (u32::MAX, 0)),
    Some(r) => {
      let c = r.cur;
      let id = r.id;
      let th = &mut r.ths[c];
      th.lock_seq += 1;
      (id, (c as u32, th.lock_seq))
    }
  }
}

fn take_stack(big: bool) -> DefaultStack {
  let pool = if big { &BIG } else { &STACKS };
  pool.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| {
    DefaultStack::new(if big { 64 << 20 } else { 1 << 20 }).expect("stack")
  })
}
fn give_stack(big: bool, s: DefaultStack) {
  let pool = if big { &BIG } else { &STACKS };
  pool.with(|p| p.borrow_mut().push(s));
}

static HOOK: std::sync::Once = std::sync::Once::new();
fn install_hook() {
  HOOK.call_once(|| {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
      // what the library or the program under it panics with is part of the run; the rest is a defect of this tool
      if active() && !info.location().map(|l| l.file().ends_with("rt.rs") || l.file().ends_with("conc.rs")).unwrap_or(false) {
        return;
      }
      old(info)
    }));
  });
}

#[inline]
fn rt() -> Option<&'static mut Rt> {
  let p = RT.with(|r| r.get());
  if p.is_null() {
    None
  } else {
    Some(unsafe { &mut *p })
  }
}
pub fn active() -> bool {
  RT.try_with(|r| !r.get().is_null()).unwrap_or(false)
}

impl Rt {
  fn rand(&mut self) -> u64 {
    self.rng ^= self.rng << 13;
    self.rng ^= self.rng >> 7;
    self.rng ^= self.rng << 17;
    self.rng
  }

  fn readable(&self, m: &MetaInner, _t: Tid) -> bool {
    m.writer.is_none() && m.pending_writers.is_empty()
  }
  fn writable(&self, m: &MetaInner, _t: Tid) -> bool {
    m.writer.is_none() && m.readers.is_empty()
  }

  fn enabled(&self, t: Tid) -> bool {
    match self.ths[t].block {
      Block::Run => true,
      Block::Read(m) => self.readable(unsafe { &*m }.m(), t),
      Block::Write(m) => self.writable(unsafe { &*m }.m(), t),
      Block::Cond(_) | Block::CondTimed(..) => self.ths[t].notified || self.ths[t].timed_out,
      Block::Join(j) => matches!(self.ths[j].block, Block::Done),
      Block::Park => self.ths[t].park_token,
      Block::Sleep(_) | Block::Settle(_) | Block::Never | Block::Done => false,
    }
  }

  fn enabled_list(&self) -> Vec<Tid> {
    (0..self.ths.len()).filter(|t| self.enabled(*t)).collect()
  }

  fn choose(&mut self, n: usize, cont: bool) -> usize {
    if n <= 1 {
      return 0;
    }
    self.points += 1;
    if self.seq {
      return 0;
    }
    if let Some(bound) = self.dfs_bound {
      if self.pos < self.path.len() {
        let c = &self.path[self.pos];
        if c.n != n || c.cont != cont {
          self.diverged = true;
        }
        let pick = c.pick.min(n - 1);
        self.path[self.pos].n = n;
        self.path[self.pos].cont = cont;
        self.path[self.pos].pick = pick;
        self.pos += 1;
        if cont && pick > 0 {
          self.preempts += 1;
        }
        return pick;
      }
      if cont && self.preempts >= bound {
        return 0;
      }
      self.path.push(Choice { pick: 0, n, cont });
      self.pos += 1;
      return 0;
    }
    if let Some((num, den)) = self.random {
      if cont {
        if self.rand() % den < num {
          return 1 + (self.rand() as usize) % (n - 1);
        }
        return 0;
      }
      return (self.rand() as usize) % n;
    }
    0
  }

  fn pct_pick(&mut self, en: &[Tid]) -> Tid {
    self.points += 1;
    let p = self.points;
    if self.pct_points.contains(&p) {
      let c = self.cur;
      let low = self.ths.iter().map(|t| t.prio).min().unwrap_or(1);
      self.ths[c].prio = low.saturating_sub(1);
    }
    *en.iter().max_by_key(|t| (self.ths[**t].prio, usize::MAX - **t)).unwrap()
  }

  /// the running thread may go on; who moves?
  fn pick_running(&mut self) -> Tid {
    let cur = self.cur;
    let mut en = self.enabled_list();
    if en.len() <= 1 {
      return cur;
    }
    if self.pct.is_some() {
      return self.pct_pick(&en);
    }
    en.retain(|t| *t != cur);
    let k = self.choose(en.len() + 1, true);
    if k == 0 {
      cur
    } else {
      en[k - 1]
    }
  }

  /// the running thread cannot go on; who moves?  None: nobody ever can
  fn pick_blocked(&mut self) -> Option<Tid> {
    loop {
      let en = self.enabled_list();
      if !en.is_empty() {
        if self.pct.is_some() {
          return Some(self.pct_pick(&en));
        }
        let k = self.choose(en.len(), false);
        return Some(en[k]);
      }
      if self.status == Some(Status::Finished) {
        return None;
      }
      // nothing runnable: let time pass
      let mut best: Option<(u64, bool)> = None;
      for th in &self.ths {
        let w = match th.block {
          Block::Sleep(w) | Block::CondTimed(_, w) => (w, false),
          Block::Settle(w) => (w, true),
          _ => continue,
        };
        best = Some(match best {
          None => w,
          Some(b) => b.min(w),
        });
      }
      let (w, settle) = best?;
      self.now = self.now.max(w);
      let mut first = true;
      for t in 0..self.ths.len() {
        match self.ths[t].block {
          Block::Sleep(x) if !settle && x <= w => self.ths[t].block = Block::Run,
          Block::CondTimed(_, x) if !settle && x <= w => self.ths[t].timed_out = true,
          Block::Settle(x) if settle && x <= w && first => {
            self.ths[t].block = Block::Run;
            first = false;
          }
          _ => {}
        }
      }
    }
  }

  fn step(&mut self) -> bool {
    self.steps += 1;
    let c = self.cur;
    self.ths[c].steps += 1;
    if self.steps > self.budget {
      if self.status.is_none() {
        self.status = Some(Status::Spin);
        self.spinning = Some(c);
      }
      return false;
    }
    true
  }

  fn touch(&mut self, key: Key, write: bool) {
    let e = self.touched.entry(key).or_insert((0, false));
    let before = e.0;
    e.0 |= 1u64 << (self.cur.min(63));
    if write && (e.0.count_ones() >= 2 || before != 0) {
      e.1 = true;
    }
    let _ = before;
  }
}

fn suspend_cur() {
  let r = rt().unwrap();
  let y = r.ths[r.cur].yielder;
  unsafe { (*y).suspend(()) };
}

fn switch_to(t: Tid) {
  let r = rt().unwrap();
  if t == r.cur {
    return;
  }
  r.next = Some(t);
  suspend_cur();
}

/// block the running thread as `b` until it is chosen again
fn block_on(b: Block) {
  let r = rt().unwrap();
  let cur = r.cur;
  r.ths[cur].block = b;
  if r.status == Some(Status::Spin) {
    r.next = None;
    suspend_cur();
    unreachable!();
  }
  let n = r.pick_blocked();
  if n != Some(cur) {
    r.next = n;
    suspend_cur();
  }
  let r = rt().unwrap();
  r.ths[cur].block = Block::Run;
}

fn count_step() {
  let r = rt().unwrap();
  if !r.step() {
    if std::thread::panicking() {
      return;
    }
    r.next = None;
    suspend_cur();
    unreachable!();
  }
}

/// unconditional scheduling point
pub fn point() {
  if !active() || std::thread::panicking() {
    return;
  }
  count_step();
  let r = rt().unwrap();
  let n = r.pick_running();
  switch_to(n);
}

fn point_on(key: Key, write: bool) {
  if std::thread::panicking() {
    return;
  }
  count_step();
  let r = rt().unwrap();
  if r.ths.len() == 1 {
    r.touch(key, write);
    return;
  }
  r.touch(key, write);
  if r.dfs_bound.is_none() || r.shared.contains(&key) {
    let n = r.pick_running();
    switch_to(n);
  }
}

fn fix(m: &Meta) {
  // an object that outlives its execution starts afresh
  if !m.m().init {
    m.begin();
  }
  let r = rt().unwrap();
  let mi = m.m();
  if mi.run != r.id {
    mi.run = r.id;
    mi.writer = None;
    mi.readers.clear();
    mi.pending_writers.clear();
    mi.key = (u32::MAX, (m as *const Meta as usize >> 4) as u32);
  }
}

pub fn acquire_read(m: &Meta) {
  if !active() {
    return;
  }
  fix(m);
  point_on(m.m().key, false);
  let r = rt().unwrap();
  if !r.readable(m.m(), r.cur) {
    if std::thread::panicking() {
      die_locked();
    }
    block_on(Block::Read(m));
  }
  let r = rt().unwrap();
  m.m().readers.push(r.cur);
  r.ths[r.cur].holds += 1;
}
pub fn acquire_write(m: &Meta) {
  if !active() {
    return;
  }
  fix(m);
  point_on(m.m().key, true);
  let r = rt().unwrap();
  let cur = r.cur;
  if !r.writable(m.m(), cur) {
    if std::thread::panicking() {
      die_locked();
    }
    m.m().pending_writers.push(cur);
    block_on(Block::Write(m));
    m.m().pending_writers.retain(|t| *t != cur);
  }
  let r = rt().unwrap();
  m.m().writer = Some(cur);
  r.ths[cur].holds += 1;
}
pub fn try_acquire(m: &Meta, write: bool) -> bool {
  if !active() {
    return true;
  }
  fix(m);
  point_on(m.m().key, write);
  let r = rt().unwrap();
  let cur = r.cur;
  let mi = m.m();
  if write {
    if !r.writable(mi, cur) {
      return false;
    }
    mi.writer = Some(cur);
  } else {
    if mi.writer.is_some() {
      return false;
    }
    mi.readers.push(cur);
  }
  r.ths[cur].holds += 1;
  true
}
pub fn release_read(m: &Meta) {
  if !active() {
    return;
  }
  let r = rt().unwrap();
  let mi = m.m();
  if mi.run != r.id {
    return;
  }
  if let Some(i) = mi.readers.iter().position(|t| *t == r.cur) {
    mi.readers.remove(i);
  } else {
    mi.readers.pop();
  }
  r.ths[r.cur].holds -= 1;
}
pub fn release_write(m: &Meta) {
  if !active() {
    return;
  }
  let r = rt().unwrap();
  let mi = m.m();
  if mi.run != r.id {
    return;
  }
  mi.writer = None;
  r.ths[r.cur].holds -= 1;
}
fn die_locked() -> ! {
  let r = rt().unwrap();
  let c = r.cur;
  r.ths[c].block = Block::Never;
  r.next = r.pick_blocked();
  suspend_cur();
  unreachable!()
}

/// number of facade locks the running virtual thread holds
pub fn holding() -> i32 {
  rt().map(|r| r.ths[r.cur].holds).unwrap_or(0)
}

/// condvar wait: release the mutex, sleep until notified (or deadline), take the mutex again.
/// returns true when woken by the deadline
pub fn cond_wait(cond: usize, m: &Meta, deadline: Option<u64>) -> bool {
  count_step();
  let r = rt().unwrap();
  let cur = r.cur;
  release_write(m);
  r.conds.entry(cond).or_default().push(cur);
  r.ths[cur].notified = false;
  r.ths[cur].timed_out = false;
  block_on(match deadline {
    Some(d) => Block::CondTimed(cond, d),
    None => Block::Cond(cond),
  });
  let r = rt().unwrap();
  let to = r.ths[cur].timed_out && !r.ths[cur].notified;
  r.ths[cur].notified = false;
  r.ths[cur].timed_out = false;
  if let Some(q) = r.conds.get_mut(&cond) {
    q.retain(|t| *t != cur);
  }
  // take the mutex again
  if !r.writable(m.m(), cur) {
    m.m().pending_writers.push(cur);
    block_on(Block::Write(m));
    m.m().pending_writers.retain(|t| *t != cur);
  }
  let r = rt().unwrap();
  m.m().writer = Some(cur);
  r.ths[cur].holds += 1;
  to
}
pub fn cond_notify(cond: usize, key: &Meta, all: bool) {
  if !active() {
    return;
  }
  fix(key);
  point_on(key.m().key, true);
  let r = rt().unwrap();
  if let Some(q) = r.conds.get_mut(&cond) {
    let k = if all { q.len() } else { q.len().min(1) };
    let woken: Vec<Tid> = q.drain(..k).collect();
    for t in woken {
      r.ths[t].notified = true;
    }
  }
}
pub fn spurious() -> bool {
  rt().map(|r| r.spurious).unwrap_or(false)
}
/// a facade operation on an object that is not a lock (atomics)
pub fn access(m: &Meta, write: bool) {
  if !active() {
    return;
  }
  fix(m);
  point_on(m.m().key, write);
}

fn new_thread(name: String, f: Box<dyn FnOnce()>) -> Tid {
  let r = rt().unwrap();
  let t = r.ths.len();
  let prio = (r.rand() >> 8) | (1 << 40);
  r.ths.push(Th {
    co: None,
    yielder: std::ptr::null(),
    block: Block::Run,
    name,
    notified: false,
    timed_out: false,
    park_token: false,
    lock_seq: 0,
    prio,
    steps: 0,
    panicked: None,
    holds: 0,
  });
  let stack = take_stack(t == 0);
  let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
    let r = rt().unwrap();
    r.ths[t].yielder = y as *const _;
    let res = catch_unwind(AssertUnwindSafe(f));
    if let Err(e) = res {
      let msg = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
      } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
      } else {
        "panic".to_string()
      };
      log_s("panic", &[], &msg);
      rt().unwrap().ths[t].panicked = Some(msg);
    }
  });
  let r = rt().unwrap();
  r.ths[t].co = Some(Box::new(co)); // boxed: `ths` may move while the coroutine runs
  t
}

/// start a virtual thread
pub fn spawn_virtual(name: String, f: Box<dyn FnOnce()>) -> Tid {
  let t = new_thread(name, f);
  log("th+", &[t as i64]);
  point();
  t
}
pub fn join(t: Tid) {
  point();
  let r = rt().unwrap();
  if !matches!(r.ths[t].block, Block::Done) {
    block_on(Block::Join(t));
  }
}
pub fn finished(t: Tid) -> bool {
  rt().map(|r| matches!(r.ths[t].block, Block::Done)).unwrap_or(true)
}
pub fn sleep_ns(d: u64) {
  count_step();
  let r = rt().unwrap();
  let w = r.now.saturating_add(d);
  block_on(Block::Sleep(w));
}
/// wait until every other thread is blocked and virtual time would have to pass `now + d`
pub fn settle(d: u64) {
  count_step();
  let r = rt().unwrap();
  let w = r.now.saturating_add(d);
  block_on(Block::Settle(w));
}
pub fn park() {
  count_step();
  let r = rt().unwrap();
  let c = r.cur;
  if !r.ths[c].park_token {
    block_on(Block::Park);
  }
  let r = rt().unwrap();
  r.ths[c].park_token = false;
}
pub fn unpark(t: Tid) {
  point();
  if let Some(r) = rt() {
    r.ths[t].park_token = true;
  }
}
pub fn block_forever() -> ! {
  block_on(Block::Never);
  unreachable!()
}
pub fn tid() -> Tid {
  rt().map(|r| r.cur).unwrap_or(0)
}
pub fn now_ns() -> u64 {
  rt().map(|r| r.now).unwrap_or(0)
}
pub fn thread_name(t: Tid) -> String {
  rt().map(|r| r.ths[t].name.clone()).unwrap_or_default()
}
/// (tid, reason) of every other virtual thread that has not ended: "lock", "cond", "sleep", "run", ...
pub fn others() -> Vec<(Tid, &'static str)> {
  let r = match rt() {
    Some(r) => r,
    None => return vec![],
  };
  let mut v = Vec::new();
  for t in 0..r.ths.len() {
    if t == r.cur {
      continue;
    }
    let w = match r.ths[t].block {
      Block::Done => continue,
      Block::Read(_) | Block::Write(_) => "lock",
      Block::Cond(_) | Block::CondTimed(..) => "cond",
      Block::Sleep(_) | Block::Settle(_) => "sleep",
      Block::Run => "run",
      Block::Join(_) => "join",
      Block::Park => "park",
      Block::Never => "never",
    };
    v.push((t, w));
  }
  v
}
pub fn steps() -> u64 {
  rt().map(|r| r.steps).unwrap_or(0)
}
pub fn log(k: &'static str, a: &[i64]) {
  log_s(k, a, "");
}
pub fn log_s(k: &'static str, a: &[i64], s: &str) {
  if let Some(r) = rt() {
    let e = Ev { t: r.cur as u32, now: r.now, k, a: a.to_vec(), s: s.to_string() };
    r.log.push(e);
  }
}
pub fn rand_u64() -> u64 {
  rt().map(|r| r.rand()).unwrap_or(0)
}
