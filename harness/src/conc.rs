//! Runs threaded scenarios on the real library under the controlled scheduler, many schedules each, and records
//! the distinct histories.
use crate::graph::*;
use crate::val::*;
use another_rxrust::prelude::*;
use another_rxrust::schedulers::scheduler::IScheduler;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use vprt::vstd::sync::RwLock;
use vprt::Ev;

type Fut = Pin<Box<dyn Future<Output = Result<Arc<RwLock<Vec<Val>>>, RxError>>>>;

#[derive(Clone)]
enum Que {
  Def(schedulers::DefaultScheduler),
  New(schedulers::NewThreadScheduler<'static>),
}

#[derive(Default)]
struct World {
  graph: Option<Rc<Graph>>,
  reacts: Vec<(i64, i64, Value)>,
  pt: bool,
  aid: i64,
  counts: BTreeMap<i64, i64>,
  wins: BTreeMap<i64, i64>,
  subs: BTreeMap<i64, Subscription<'static>>,
  usings: BTreeMap<i64, utils::Using<'static>>,
  wsubs: Vec<Subscription<'static>>,
  obs: BTreeMap<(i64, i64), Observer<'static, Val>>,
  k: BTreeMap<i64, i64>,
  waiters: Vec<vprt::Tid>,
  ques: BTreeMap<i64, Que>,
  futs: BTreeMap<i64, Option<Fut>>,
  fdone: HashSet<i64>,
  fobs: Vec<Box<Obs>>,
  woken: HashSet<(i64, i64)>,
  nwake: i64,
  done: bool,
}
thread_local! {
  static W: RefCell<World> = RefCell::new(World::default());
}
fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
  W.with(|x| f(&mut x.borrow_mut()))
}
fn graph() -> Rc<Graph> {
  w(|x| x.graph.clone().unwrap())
}

fn tap(ch: i64, kind: &'static str, v: Val) {
  vprt::log_s("tap", &[ch - 100000], &format!("[\"{}\",{}]", kind, v.json()));
}

fn deliver(r: i64, kind: &'static str, v: Val) {
  let inner = v.obs.clone();
  let (m, pt) = w(|x| {
    let c = x.counts.entry(r).or_insert(0);
    *c += 1;
    (*c, x.pt)
  });
  vprt::log_s("cb", &[r, m], &format!("[\"{}\",{}]", kind, v.json()));
  drop(v);
  let (acts, win) = w(|x| {
    let win = inner.is_some().then(|| {
      let n = x.wins.entry(r).or_insert(0);
      *n += 1;
      r * 100 + *n
    });
    let acts: Vec<Value> = x.reacts.iter().filter(|a| a.0 == r && (a.1 == m || a.1 == 0)).map(|a| a.2.clone()).collect();
    (acts, win)
  });
  if let (Some(o), Some(ch)) = (inner, win) {
    let s = attach(&o, ch);
    w(|x| x.wsubs.push(s));
  }
  if pt {
    vprt::point();
  }
  for a in acts {
    act(&a);
  }
  vprt::log("cbe", &[r, m]);
}

fn attach(o: &Obs, r: i64) -> Subscription<'static> {
  let (a, b, c) = (Tok::new(CALLBACK), Tok::new(CALLBACK), Tok::new(CALLBACK));
  o.subscribe(
    move |v| {
      a.touch();
      deliver(r, "n", v)
    },
    move |e| {
      b.touch();
      deliver(r, "e", unerr(&e))
    },
    move || {
      c.touch();
      deliver(r, "c", Val::unit())
    },
  )
}

fn emit(o: &Observer<'static, Val>, kind: &str, v: &Value) {
  match kind {
    "n" => o.next(Val::from(v)),
    "e" => o.error(err(i(&v[0]), i(&v[1]))),
    _ => o.complete(),
  }
}

fn call_start(a: &Value, f: i64) -> i64 {
  let id = w(|x| {
    x.aid += 1;
    x.aid
  });
  vprt::log_s("call", &[id, f], &a.to_string());
  id
}
fn call_end(id: i64, f: i64) {
  vprt::log("ret", &[id, f]);
}

fn user<F: FnOnce() + 'static>(role: i64, f: F) -> vprt::Tid {
  vprt::spawn_virtual(
    "user".into(),
    Box::new(move || {
      vprt::log("user", &[vprt::tid() as i64, role]);
      f()
    }),
  )
}

fn run_script(n: i64, k: i64, o: &Observer<'static, Val>, d: &Value) {
  let ss = d["s"].as_array().unwrap();
  let script = &ss[(k as usize).min(ss.len()) - 1];
  for ev in script.as_array().unwrap() {
    match ev[0].as_str().unwrap() {
      "w" => vprt::sleep_ns(i(&ev[1]) as u64 * 1_000_000),
      "p" => vprt::point(),
      kind => {
        let mut on = 1;
        if i(&d["pol"]) == 1 {
          on = o.is_subscribed() as i64;
          if on == 0 {
            break;
          }
        }
        let id = call_start(&json!(["emit", n, k, kind, ev[1]]), on);
        emit(o, kind, &ev[1]);
        call_end(id, 0);
      }
    }
  }
}

fn on_source(n: usize, o: Observer<'static, Val>) {
  let n = n as i64;
  let (k, d, ws) = w(|x| {
    let e = x.k.entry(n).or_insert(0);
    *e += 1;
    let k = *e;
    x.obs.insert((n, k), o.clone());
    (k, x.graph.as_ref().unwrap().sc["srcs"][n as usize - 1].clone(), std::mem::take(&mut x.waiters))
  });
  vprt::log("src", &[n, k]);
  for t in ws {
    vprt::unpark(t);
  }
  if i(&d["hot"]) == 0 {
    if i(&d["thr"]) == 1 {
      user(0, move || run_script(n, k, &o, &d));
    } else {
      run_script(n, k, &o, &d);
    }
  }
  vprt::log("srce", &[n, k]);
}

fn on_go(j: usize, vs: Vec<Val>) {
  user(0, move || {
    for v in vs {
      act(&json!(["sj", j, "n", v.json()]));
    }
  });
}

struct Wk {
  f: i64,
  n: i64,
  tid: vprt::Tid,
  inline: bool,
}
impl Wake for Wk {
  fn wake(self: Arc<Self>) {
    vprt::log("wake", &[self.f, self.n]);
    w(|x| x.woken.insert((self.f, self.n)));
    if self.inline {
      poll(self.f, true);
    } else {
      vprt::unpark(self.tid);
    }
  }
}

/// polls once; true when there is nothing more to wait for
fn poll(f: i64, inline: bool) -> (bool, i64) {
  if w(|x| x.fdone.contains(&f)) {
    return (true, 0);
  }
  let fut = w(|x| x.futs.get_mut(&f).and_then(|o| o.take()));
  let mut fut = match fut {
    Some(x) => x,
    None => return (false, 0),
  };
  let n = w(|x| {
    x.nwake += 1;
    x.nwake
  });
  let wk = Waker::from(Arc::new(Wk { f, n, tid: vprt::tid(), inline }));
  let mut cx = Context::from_waker(&wk);
  vprt::log("poll", &[f, n]);
  match fut.as_mut().poll(&mut cx) {
    Poll::Pending => {
      vprt::log("polle", &[f, n, 0]);
      w(|x| x.futs.insert(f, Some(fut)));
      (false, n)
    }
    Poll::Ready(r) => {
      let s = match &r {
        Ok(v) => {
          let v = v.read().unwrap();
          json!(["c", v.iter().map(|v| v.json()).collect::<Vec<_>>()])
        }
        Err(e) => json!(["e", unerr(e).json()]),
      };
      vprt::log_s("polle", &[f, n, 1], &s.to_string());
      w(|x| x.fdone.insert(f));
      drop(r);
      drop(fut);
      (true, n)
    }
  }
}

fn act(a: &Value) {
  let k = a[0].as_str().unwrap();
  match k {
    "sleep" => return vprt::sleep_ns(i(&a[1]) as u64 * 1_000_000),
    "settle" => return vprt::settle(i(&a[1]) as u64 * 1_000_000),
    "p" => return vprt::point(),
    "await" => {
      let key = (i(&a[1]), i(&a[2]));
      loop {
        let ok = w(|x| {
          let ok = x.obs.contains_key(&key);
          if !ok {
            x.waiters.push(vprt::tid());
          }
          ok
        });
        if ok {
          return;
        }
        vprt::park();
      }
    }
    "is" => {
      let s = w(|x| x.subs.get(&i(&a[1])).cloned());
      if let Some(s) = s {
        let id = call_start(a, 1);
        let v = s.is_subscribed();
        call_end(id, v as i64);
      }
      return;
    }
    "probe" => {
      let o = w(|x| x.obs.clone());
      let o: Vec<Value> = o.iter().map(|(k, s)| json!([k.0, k.1, s.is_subscribed() as i64])).collect();
      vprt::log_s("probe", &[], &json!(o).to_string());
      return;
    }
    _ => {}
  }
  let id = call_start(a, 1);
  match k {
    "build" => {
      graph().node(i(&a[1]) as usize);
    }
    "sub" => {
      let o = graph().node(i(&a[2]) as usize);
      let s = attach(&o, i(&a[1]));
      w(|x| x.subs.insert(i(&a[1]), s));
    }
    "subu" => {
      let o = graph().node(i(&a[2]) as usize);
      let s = attach(&o, i(&a[1]));
      w(|x| {
        x.subs.insert(i(&a[1]), s.clone());
        x.usings.insert(i(&a[1]), utils::Using::new(s));
      });
    }
    "unsub" => {
      let s = w(|x| x.subs.get(&i(&a[1])).cloned());
      if let Some(s) = s {
        s.unsubscribe();
      } else {
        return call_end(id, -1);
      }
    }
    "drop" => {
      let u = w(|x| x.usings.remove(&i(&a[1])));
      drop(u);
    }
    "emit" => {
      let o = w(|x| x.obs.get(&(i(&a[1]), i(&a[2]))).cloned());
      if let Some(o) = o {
        emit(&o, a[3].as_str().unwrap(), &a[4]);
      } else {
        return call_end(id, -1);
      }
    }
    "sj" => {
      let s = graph().subject(i(&a[1]) as usize);
      s.call(a[2].as_str().unwrap(), &Val::from(&a[3]));
    }
    "conn" => {
      if let Cn::Pub(p) = graph().conn(i(&a[1]) as usize) {
        let s = p.connect();
        w(|x| x.subs.insert(-i(&a[1]), s));
      }
    }
    "disc" => {
      let s = w(|x| x.subs.get(&-i(&a[1])).cloned());
      if let Some(s) = s {
        s.unsubscribe();
      } else {
        return call_end(id, -1);
      }
    }
    "qnew" => {
      let q = if a[2] == "def" {
        Que::Def(schedulers::default_scheduler()())
      } else {
        Que::New(schedulers::new_thread_scheduler()())
      };
      w(|x| x.ques.insert(i(&a[1]), q));
    }
    "post" => {
      let (q, t, body) = (i(&a[1]), i(&a[2]), a[3].clone());
      let tok = Tok::new(CLOSURE);
      let f = move || {
        tok.touch();
        vprt::log("task", &[q, t]);
        for b in body.as_array().unwrap() {
          act(b);
        }
        vprt::log("taske", &[q, t]);
      };
      match w(|x| x.ques.get(&q).cloned()) {
        Some(Que::Def(s)) => s.post(f),
        Some(Que::New(s)) => s.post(f),
        None => {}
      }
    }
    "abort" => match w(|x| x.ques.get(&i(&a[1])).cloned()) {
      Some(Que::Def(s)) => s.abort(),
      Some(Que::New(s)) => s.abort(),
      None => {}
    },
    "tovec" => {
      let o = Box::new(graph().node(i(&a[2]) as usize));
      let r: &'static Obs = unsafe { &*(&*o as *const Obs) };
      let f: Fut = Box::pin(r.to_vec());
      w(|x| {
        x.fobs.push(o);
        x.futs.insert(i(&a[1]), Some(f));
      });
    }
    "poll" => {
      poll(i(&a[1]), i(&a[2]) == 1);
    }
    "block" => {
      let f = i(&a[1]);
      loop {
        let (done, n) = poll(f, false);
        if done {
          break;
        }
        while !w(|x| x.woken.contains(&(f, n))) {
          vprt::park();
        }
      }
    }
    "dropf" => {
      let f = w(|x| x.futs.get_mut(&i(&a[1])).and_then(|o| o.take()));
      drop(f);
    }
    _ => panic!("harness: unknown act {}", a),
  }
  call_end(id, 0);
}

/// a run that did not end leaves things behind that must not call into the library any more
fn clear() {
  let mut old = w(std::mem::take);
  std::mem::forget(std::mem::take(&mut old.usings));
  drop(old);
}

fn body(sc: Rc<Value>, base: [i64; 3]) {
  let g = Graph::new((*sc).clone(), on_source, tap, on_go);
  w(|x| x.graph = Some(g));
  vprt::log("user", &[0, 0]);
  for a in sc["setup"].as_array().unwrap() {
    act(a);
  }
  let mut ts = Vec::new();
  for n in 0..sc["threads"].as_array().unwrap().len() {
    let s2 = sc.clone();
    ts.push(user(n as i64 + 1, move || {
      for a in s2["threads"][n].as_array().unwrap() {
        act(a);
      }
    }));
  }
  for t in ts {
    vprt::join(t);
  }
  for a in sc["fin"].as_array().unwrap() {
    act(a);
  }
  if i(&sc["settle"]) >= 0 {
    vprt::settle(i(&sc["settle"]) as u64 * 1_000_000);
  }
  let (now, o) = (vprt::now_ns(), vprt::others());
  let _ = now;
  let o: Vec<Value> = o.iter().map(|(t, s)| json!([t, s])).collect();
  vprt::log_s("end", &[], &json!(o).to_string());
  w(|x| x.done = true);
  let (a, b, c, d) = w(|x| {
    (
      (x.graph.take(), std::mem::take(&mut x.subs), std::mem::take(&mut x.usings)),
      (std::mem::take(&mut x.wsubs), std::mem::take(&mut x.obs)),
      (std::mem::take(&mut x.ques), std::mem::take(&mut x.futs)),
      std::mem::take(&mut x.fobs),
    )
  });
  if let Some(g) = &a.0 {
    g.release();
  }
  drop((a, b, c));
  drop(d);
  let l = live();
  vprt::log("lv", &[l[0] - base[0], l[1] - base[1], l[2] - base[2]]);
}

fn kind_of(k: &str) -> u8 {
  match k {
    // (a start may be the cause of a start of another kind, so only like starts change places)
    "call" => 1,
    "cb" => 2,
    "task" => 3,
    "poll" => 4,
    "ret" | "cbe" | "taske" | "polle" => 5,
    _ => 0,
  }
}
fn may_swap(x: &Ev, y: &Ev) -> bool {
  if x.t == y.t || x.now != y.now {
    return false;
  }
  let (a, b) = (kind_of(x.k), kind_of(y.k));
  if a == 0 || a != b {
    return false;
  }
  if x.k == "cb" && y.k == "cb" && x.a[0] == y.a[0] {
    return false;
  }
  // a thread's first event stays behind the event that created it
  if (x.k == "th+" && x.a[0] == y.t as i64) || (y.k == "th+" && y.a[0] == x.t as i64) {
    return false;
  }
  true
}
/// histories that differ only in the order of independent starts (or independent ends) are the same history
fn canon(l: &mut [Ev]) {
  for _ in 0..l.len() {
    let mut any = false;
    for j in 1..l.len() {
      if l[j - 1].t > l[j].t && may_swap(&l[j - 1], &l[j]) {
        l.swap(j - 1, j);
        any = true;
      }
    }
    if !any {
      break;
    }
  }
}
fn renumber(l: &mut [Ev]) {
  let mut m: HashMap<i64, i64> = HashMap::new();
  for e in l.iter_mut() {
    if e.k == "call" {
      let n = m.len() as i64 + 1;
      m.insert(e.a[0], n);
      e.a[0] = n;
    } else if e.k == "ret" {
      e.a[0] = *m.get(&e.a[0]).unwrap_or(&0);
    }
  }
}

fn hash<T: Hash>(x: &T) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}
/// what the users saw, apart from real-time order
fn outcome(l: &[Ev], bad: &str) -> u64 {
  let mut m: BTreeMap<(u8, i64), Vec<&str>> = BTreeMap::new();
  for e in l {
    match e.k {
      "cb" => m.entry((0, e.a[0])).or_default().push(&e.s),
      "cbe" => m.entry((0, e.a[0])).or_default().push("."),
      "tap" => m.entry((1, e.a[0])).or_default().push(&e.s),
      "polle" => m.entry((2, e.a[0])).or_default().push(&e.s),
      "task" => m.entry((3, e.a[0] * 1000 + e.a[1])).or_default().push("t"),
      "end" | "lv" | "probe" => m.entry((4, 0)).or_default().push(&e.s),
      _ => {}
    }
  }
  hash(&(m, bad))
}

fn ev_json(e: &Ev) -> Value {
  let v: Value = if e.s.is_empty() || e.k == "panic" { json!(0) } else { serde_json::from_str(&e.s).unwrap_or(json!(0)) };
  json!([e.k, e.t, e.now / 1_000_000, e.a, v])
}

fn sched_of(s: &Value) -> (vprt::Sched, u64) {
  let n = i(&s["n"]) as u64;
  match s["k"].as_str().unwrap() {
    "dfs" => (vprt::Sched::Dfs { bound: i(&s["b"]) as usize }, n),
    "rand" => (vprt::Sched::Random { num: i(&s["num"]) as u64, den: i(&s["den"]) as u64 }, n),
    "pct" => (vprt::Sched::Pct { depth: i(&s["d"]) as usize, len: i(&s["len"]) as usize }, n),
    _ => (vprt::Sched::Seq, 1),
  }
}

pub fn explore(sc: &Value) -> Value {
  let keep = i(&sc["keep"]).max(1) as usize;
  let shared = Rc::new(sc.clone());
  let mut seen: HashSet<u64> = HashSet::new();
  let mut classes: HashMap<u64, usize> = HashMap::new();
  let mut kept: Vec<(usize, Value)> = Vec::new();
  let mut bads: Vec<Value> = Vec::new();
  let (mut runs, mut exhausted, mut dropped) = (0u64, true, 0u64);
  vprt::set_hash_seed(i(&sc["seed"]) as u64);
  'out: for (sx, s) in sc["sched"].as_array().unwrap().iter().enumerate() {
    let (sched, max) = sched_of(s);
    let dfs = matches!(sched, vprt::Sched::Dfs { .. });
    let mut ex = vprt::Explorer::new(sched, i(&sc["seed"]) as u64 + 1000 * sx as u64 + 1);
    ex.budget = 40_000;
    let mut n = 0;
    while n < max && !ex.exhausted {
      n += 1;
      runs += 1;
      clear();
      let base = live();
      let s2 = shared.clone();
      w(|x| {
        x.pt = i(&sc["pt"]) == 1;
        x.reacts =
          sc["reacts"].as_array().unwrap().iter().map(|r| (i(&r["r"]), i(&r["m"]), r["act"].clone())).collect();
      });
      let out = ex.run(move || body(s2, base));
      let done = w(|x| x.done);
      let bad = if !out.panics.is_empty() {
        format!("panic: {}", out.panics[0].1)
      } else if !done {
        match out.status {
          vprt::Status::Stuck => "stuck".to_string(),
          vprt::Status::Spin => "spin".to_string(),
          _ => "lost".to_string(),
        }
      } else {
        match out.live.iter().find(|l| l.2 == "read" || l.2 == "write" || l.2 == "run" || l.2 == "join") {
          Some(l) => format!("stuck: {} is at {} for ever", l.0, l.2),
          None => String::new(),
        }
      };
      let mut l = out.log;
      canon(&mut l);
      renumber(&mut l);
      if l.len() > 600 {
        l.truncate(600);
      }
      if !seen.insert(hash(&l)) && bad.is_empty() {
        continue;
      }
      let cl = outcome(&l, &bad);
      let c = classes.entry(cl).or_insert(0);
      *c += 1;
      let fresh = *c == 1;
      let alive: Vec<Value> = out.live.iter().map(|x| json!([x.0, x.2])).collect();
      let t = || json!({"bad": bad, "alive": alive, "ev": l.iter().map(ev_json).collect::<Vec<_>>()});
      if !bad.is_empty() {
        bads.push(t());
        if bads.len() >= 3 {
          break 'out;
        }
        continue;
      }
      if kept.len() < keep {
        kept.push((*c, t()));
      } else if fresh {
        // a new outcome replaces a further history of an outcome that is already there
        dropped += 1;
        match kept.iter().rposition(|x| x.0 > 1) {
          Some(p) => kept[p] = (1, t()),
          None if kept.len() < 4 * keep => kept.push((1, t())),
          None => {}
        }
      } else {
        dropped += 1;
      }
    }
    if dfs && !ex.exhausted {
      exhausted = false;
    }
  }
  clear();
  let mut traces: Vec<Value> = bads;
  traces.extend(kept.into_iter().map(|x| x.1));
  json!({"id": sc["id"], "runs": runs, "exhausted": exhausted, "classes": classes.len(), "distinct": seen.len(),
         "dropped": dropped, "traces": traces})
}

pub fn main(args: &[String]) {
  let inp = std::io::BufReader::new(std::fs::File::open(&args[0]).expect("scenario file"));
  let mut outp = std::io::BufWriter::new(std::fs::File::create(&args[1]).expect("trace file"));
  for line in inp.lines() {
    let line = line.unwrap();
    if line.trim().is_empty() {
      continue;
    }
    let sc: Value = serde_json::from_str(&line).expect("scenario");
    writeln!(outp, "{}", explore(&sc)).unwrap();
    outp.flush().unwrap();
  }
}
