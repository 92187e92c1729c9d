//! Builds the observables of a scenario's node graph.
use crate::val::*;
use another_rxrust::operators::{publish::Publish, ref_count::RefCount, replay::Replay};
use another_rxrust::prelude::*;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Duration;

pub type Obs = Observable<'static, Val>;

#[derive(Clone)]
pub enum Sj {
  Plain(subjects::Subject<'static, Val>),
  Behavior(subjects::BehaviorSubject<'static, Val>),
  Replay(subjects::ReplaySubject<'static, Val>),
  Async(subjects::AsyncSubject<'static, Val>),
  None,
}
impl Sj {
  pub fn observable(&self) -> Obs {
    match self {
      Sj::Plain(s) => s.observable(),
      Sj::Behavior(s) => s.observable(),
      Sj::Replay(s) => s.observable(),
      Sj::Async(s) => s.observable(),
      Sj::None => observables::never(),
    }
  }
  pub fn call(&self, kind: &str, v: &Val) {
    match (self, kind) {
      (Sj::Plain(s), "n") => s.next(v.clone()),
      (Sj::Plain(s), "e") => s.error(err_of(v)),
      (Sj::Plain(s), _) => s.complete(),
      (Sj::Behavior(s), "n") => s.next(v.clone()),
      (Sj::Behavior(s), "e") => s.error(err_of(v)),
      (Sj::Behavior(s), _) => s.complete(),
      (Sj::Replay(s), "n") => s.next(v.clone()),
      (Sj::Replay(s), "e") => s.error(err_of(v)),
      (Sj::Replay(s), _) => s.complete(),
      (Sj::Async(s), "n") => s.next(v.clone()),
      (Sj::Async(s), "e") => s.error(err_of(v)),
      (Sj::Async(s), _) => s.complete(),
      (Sj::None, _) => {}
    }
  }
}

#[derive(Clone)]
pub enum Cn {
  Pub(Publish<'static, Val>),
  Ref(RefCount<'static, Val>),
  Rep(Replay<'static, Val>),
}

/// what a harness source does with an observer it is given
pub type OnSource = fn(usize, Observer<'static, Val>);
/// side channel of tap
pub type OnTap = fn(i64, &'static str, Val);

/// what a thread started by ready_set_go's function does with a subject
pub type OnGo = fn(usize, Vec<Val>);

pub struct Graph {
  pub sc: Value,
  nodes: RefCell<HashMap<usize, Obs>>,
  cns: RefCell<HashMap<usize, Cn>>,
  sjs: RefCell<Vec<Sj>>,
  on_source: OnSource,
  on_tap: OnTap,
  on_go: OnGo,
}

fn ms(p: i64) -> Duration {
  Duration::from_millis(p as u64)
}
pub fn i(v: &Value) -> i64 {
  v.as_i64().unwrap_or(0)
}

impl Graph {
  pub fn new(sc: Value, on_source: OnSource, on_tap: OnTap, on_go: OnGo) -> Rc<Graph> {
    let mut sjs = Vec::new();
    let internal: Vec<i64> = sc["cns"].as_array().unwrap().iter().map(|c| i(&c["sj"])).collect();
    for (j, s) in sc["sjs"].as_array().unwrap().iter().enumerate() {
      sjs.push(if internal.contains(&(j as i64 + 1)) {
        Sj::None
      } else {
        match s["k"].as_str().unwrap() {
          "plain" => Sj::Plain(subjects::Subject::new()),
          "behavior" => Sj::Behavior(subjects::BehaviorSubject::new(Val::from(&s["v"]))),
          "replay" => Sj::Replay(subjects::ReplaySubject::new()),
          _ => Sj::Async(subjects::AsyncSubject::new()),
        }
      });
    }
    Rc::new(Graph {
      sc,
      nodes: RefCell::new(HashMap::new()),
      cns: RefCell::new(HashMap::new()),
      sjs: RefCell::new(sjs),
      on_source,
      on_tap,
      on_go,
    })
  }

  pub fn subject(&self, j: usize) -> Sj {
    self.sjs.borrow()[j - 1].clone()
  }

  pub fn release(&self) {
    let a = std::mem::take(&mut *self.nodes.borrow_mut());
    let b = std::mem::take(&mut *self.cns.borrow_mut());
    let c = std::mem::take(&mut *self.sjs.borrow_mut());
    drop((a, b, c));
  }

  pub fn conn(&self, c: usize) -> Cn {
    if let Some(x) = self.cns.borrow().get(&c) {
      return x.clone();
    }
    let d = self.sc["cns"][c - 1].clone();
    let src = self.node(i(&d["in"]) as usize);
    let cn = match d["k"].as_str().unwrap() {
      "pub" => Cn::Pub(src.publish()),
      "ref" => Cn::Ref(src.ref_count()),
      _ => Cn::Rep(src.replay()),
    };
    self.cns.borrow_mut().insert(c, cn.clone());
    cn
  }

  pub fn node(&self, n: usize) -> Obs {
    if let Some(x) = self.nodes.borrow().get(&n) {
      return x.clone();
    }
    let o = self.make(n);
    self.nodes.borrow_mut().insert(n, o.clone());
    o
  }

  fn make(&self, id: usize) -> Obs {
    let nd = self.sc["nodes"][id - 1].clone();
    let op = nd["op"].as_str().unwrap().to_string();
    let p = i(&nd["p"]);
    let arr: Vec<Val> = nd["a"].as_array().unwrap().iter().map(Val::from).collect();
    let ins: Vec<Obs> = nd["in"].as_array().unwrap().iter().map(|x| self.node(i(x) as usize)).collect();
    let tk = Tok::new(CLOSURE);
    let src = || ins[0].clone();
    let rest = || ins[1..].to_vec();
    let u = p as usize;
    match op.as_str() {
      // sources
      "src" => {
        let f = self.on_source;
        Observable::create(move |o| {
          tk.touch();
          f(u, o)
        })
      }
      "just" => observables::just(arr[0].clone()),
      "start" => {
        let v = arr[0].clone();
        observables::start(move || {
          tk.touch();
          v.clone()
        })
      }
      "from_iter" => observables::from_iter(arr.into_iter()),
      "range" => observables::range(arr[0].n, arr[1].n).map(Val::int),
      "empty" => observables::empty(),
      "never" => observables::never(),
      "error" => observables::error(err_of(&arr[0])),
      "from_ok" => observables::from_result(Ok::<Val, i64>(arr[0].clone())),
      "from_err" => match arr[0].tag {
        11 => observables::from_result(Err::<Val, String>(format!("e{}", arr[0].n))),
        12 => observables::from_result(Err::<Val, Payload>(Payload {
          code: arr[0].n,
          text: format!("p{}", arr[0].n),
        })),
        _ => observables::from_result(Err::<Val, i64>(arr[0].n)),
      },
      "repeat" => observables::repeat(arr[0].clone()),
      "iterate" => observables::from_iter((p..).map(Val::int)),
      "subj" => self.subject(u).observable(),
      "conn" => match self.conn(u) {
        Cn::Pub(x) => x.observable(),
        Cn::Ref(x) => x.observable(),
        Cn::Rep(x) => x.observable(),
      },
      // one input
      "map" => src().map(move |v: Val| {
        tk.touch();
        Val::int(v.num() + p)
      }),
      "filter" => src().filter(move |v| {
        tk.touch();
        pred(p, &v)
      }),
      "take" => src().take(u),
      "skip" => src().skip(u),
      "take_last" => src().take_last(u),
      "skip_last" => src().skip_last(u),
      "take_while" => src().take_while(move |v| {
        tk.touch();
        pred(p, &v)
      }),
      "skip_while" => src().skip_while(move |v| {
        tk.touch();
        pred(p, &v)
      }),
      "first" => src().first(),
      "last" => src().last(),
      "element_at" => src().element_at(u),
      "distinct" => src().distinct_until_changed(),
      "scan" => src().scan(move |(x, y)| {
        tk.touch();
        fold(&x, &y)
      }),
      "reduce" => src().reduce(move |(x, y)| {
        tk.touch();
        fold(&x, &y)
      }),
      "count" => src().count().map(|n| Val::int(n as i64)),
      "sum" => src().sum(),
      "sum_count" => src().sum_and_count().map(|(s, n)| Val::list(vec![s, Val::int(n as i64)])),
      "min" => src().min(),
      "max" => src().max(),
      "all" => src()
        .all(move |v| {
          tk.touch();
          pred(p, &v)
        })
        .map(Val::bool),
      "contains" => src().contains(Val::int(p)).map(Val::bool),
      "default" => src().default_if_empty(Val::int(p)),
      "ignore" => src().ignore_elements(),
      "start_iter" => src().start_with((p..).map(Val::int)),
      "start_with" => src().start_with(arr.into_iter()),
      "buffer" => src().buffer_with_count(u).map(Val::list),
      "mat" => src().materialize().map(of_mat),
      "demat" => src().map(to_mat).dematerialize(),
      "tap" => {
        let f = self.on_tap;
        let ch = 100000 + id as i64;
        let t2 = tk.clone();
        let t3 = tk.clone();
        src().tap(
          move |v| {
            tk.touch();
            f(ch, "n", v)
          },
          move |e| {
            t2.touch();
            f(ch, "e", unerr(&e))
          },
          move || {
            t3.touch();
            f(ch, "c", Val::unit())
          },
        )
      }
      "map_any" => src().map_to_any().map(|a| a.downcast_ref::<Val>().cloned().unwrap_or(Val::new(19, 1, vec![]))),
      "something" => src()
        .map(move |v: Val| {
          tk.touch();
          if pred(p, &v) {
            utils::Something::success(v)
          } else {
            utils::Something::error(err(10, v.num()))
          }
        })
        .flat_map(|x| x.proceed()),
      "obs_def" => src().observe_on(schedulers::default_scheduler()),
      "sub_def" => src().subscribe_on(schedulers::default_scheduler()),
      "defer" => {
        let o = src();
        observables::defer(move || {
          tk.touch();
          o.clone()
        })
      }
      "rsg" => {
        let s = self.subject(u);
        utils::ready_set_go(
          move || {
            tk.touch();
            for v in arr.iter() {
              s.call("n", v);
            }
          },
          src(),
        )
      }
      "rsgt" => {
        let g = self.on_go;
        utils::ready_set_go(
          move || {
            tk.touch();
            g(u, arr.clone());
          },
          src(),
        )
      }
      "delay0" => src().delay(Duration::from_millis(0)),
      // threads and time
      "obs_new" => src().observe_on(schedulers::new_thread_scheduler()),
      "sub_new" => src().subscribe_on(schedulers::new_thread_scheduler()),
      "interval" => observables::interval(ms(p), schedulers::new_thread_scheduler()).map(|n| Val::int(n as i64)),
      "interval_def" => observables::interval(ms(p), schedulers::default_scheduler()).map(|n| Val::int(n as i64)),
      "timer" => observables::timer(ms(p), schedulers::new_thread_scheduler()).map(|_| Val::unit()),
      "timer_def" => observables::timer(ms(p), schedulers::default_scheduler()).map(|_| Val::unit()),
      "delay" => src().delay(ms(p)),
      "timeout" => src().timeout(ms(p), schedulers::new_thread_scheduler()),
      "debounce" => src().debounce(ms(p), schedulers::new_thread_scheduler()),
      "time_interval" => src().time_interval().map(|d| Val::int(d.as_millis() as i64)),
      "timestamp" => src().timestamp().map(|(t, v)| {
        let d = t.duration_since(vprt::vstd::time::UNIX_EPOCH).map(|d| d.as_millis() as i64).unwrap_or(-1);
        Val::list(vec![Val::int(d), v])
      }),
      "window" => src().window_with_count(u).map(Val::obs),
      "group" => src()
        .group_by(move |v| {
          tk.touch();
          v.num().rem_euclid(p)
        })
        .map(Val::obs),
      // several inputs
      "merge" => src().merge(&rest()),
      "zip" => src().zip(&rest()).map(Val::list),
      "combine" => src().combine_latest(&rest(), move |v| {
        tk.touch();
        Val::list(v)
      }),
      "amb" => src().amb(&rest()),
      "seq_eq" => src().sequence_equal(&rest()).map(Val::bool),
      "concat" => src().concat(&rest()),
      "flat_map" => {
        let r = rest();
        src().flat_map(move |v: Val| {
          tk.touch();
          r[v.num().rem_euclid(r.len() as i64) as usize].clone()
        })
      }
      "wflat" => src().flat_map(move |v: Val| {
        tk.touch();
        match v.obs {
          None => observables::just(v),
          Some(o) => match p {
            1 => o.count().map(|n| Val::int(n as i64)),
            2 => o.take(1),
            3 => o.buffer_with_count(100).map(Val::list),
            _ => o,
          },
        }
      }),
      "take_until" => src().take_until(ins[1].clone()),
      "skip_until" => src().skip_until(ins[1].clone()),
      "sample" => src().sample(ins[1].clone()),
      "switch" => src().switch_on_next(ins[1].clone()),
      "retry" => src().retry(u),
      "retry_when" => src().retry_when(move |e| {
        tk.touch();
        rpred(p, &e)
      }),
      "resume" => {
        let r = rest();
        src().on_error_resume_next(move |e| {
          tk.touch();
          r[unerr(&e).n.rem_euclid(r.len() as i64) as usize].clone()
        })
      }
      _ => panic!("harness: unknown op {}", op),
    }
  }
}
