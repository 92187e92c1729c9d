//! Plays scenarios, one user call at a time, on the real pipeline and records what can be observed.
use crate::graph::*;
use crate::val::*;
use another_rxrust::prelude::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::rc::Rc;

#[derive(Default)]
struct World {
  graph: Option<Rc<Graph>>,
  reacts: Vec<(i64, i64, Value)>,
  out: Vec<Value>,
  cf: Vec<Value>,
  counts: BTreeMap<i64, i64>,
  wins: BTreeMap<i64, i64>,
  subs: BTreeMap<i64, Subscription<'static>>,
  usings: BTreeMap<i64, utils::Using<'static>>,
  wsubs: Vec<Subscription<'static>>,
  obs: BTreeMap<(i64, i64), Observer<'static, Val>>,
  k: BTreeMap<i64, i64>,
  steps: Vec<Value>,
  at: usize,
}
thread_local! {
  static W: RefCell<World> = RefCell::new(World::default());
}
fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
  W.with(|x| f(&mut x.borrow_mut()))
}

fn note(ch: i64, kind: &'static str, v: Val) {
  let j = json!([ch, kind, v.json()]);
  w(|x| x.out.push(j));
}

fn deliver(r: i64, kind: &'static str, v: Val) {
  let inner = v.obs.clone();
  note(r, kind, v);
  let (acts, win) = w(|x| {
    let c = x.counts.entry(r).or_insert(0);
    *c += 1;
    let m = *c;
    let win = inner.is_some().then(|| {
      let n = x.wins.entry(r).or_insert(0);
      *n += 1;
      r * 100 + *n
    });
    let acts: Vec<Value> = x.reacts.iter().filter(|a| a.0 == r && a.1 == m).map(|a| a.2.clone()).collect();
    (acts, win)
  });
  // the inner observable is subscribed before anything else happens
  if let (Some(o), Some(ch)) = (inner, win) {
    let s = attach(&o, ch);
    w(|x| x.wsubs.push(s));
  }
  for a in acts {
    act(&a);
  }
}

fn attach(o: &Obs, r: i64) -> Subscription<'static> {
  let (a, b, c) = (Tok::new(CALLBACK), Tok::new(CALLBACK), Tok::new(CALLBACK));
  o.subscribe(
    move |v| {
      a.touch();
      deliver(r, "n", v)
    },
    move |e| {
      b.touch();
      deliver(r, "e", unerr(&e))
    },
    move || {
      c.touch();
      deliver(r, "c", Val::unit())
    },
  )
}

fn emit(o: &Observer<'static, Val>, kind: &str, v: &Value) {
  match kind {
    "n" => o.next(Val::from(v)),
    "e" => o.error(err(i(&v[0]), i(&v[1]))),
    _ => o.complete(),
  }
}

fn on_source(n: usize, o: Observer<'static, Val>) {
  if !o.is_subscribed() {
    return;
  }
  let n = n as i64;
  let (k, d) = w(|x| {
    let e = x.k.entry(n).or_insert(0);
    *e += 1;
    let k = *e;
    x.obs.insert((n, k), o.clone());
    (k, x.graph.as_ref().unwrap().sc["srcs"][n as usize - 1].clone())
  });
  if i(&d["hot"]) == 1 {
    return;
  }
  let ss = d["s"].as_array().unwrap();
  let script = &ss[(k as usize).min(ss.len()) - 1];
  for (x, ev) in script.as_array().unwrap().iter().enumerate() {
    let on = o.is_subscribed();
    let f = json!([n, k, x + 1, on as i64]);
    w(|x| x.cf.push(f));
    if i(&d["pol"]) == 1 && !on {
      return;
    }
    emit(&o, ev[0].as_str().unwrap(), &ev[1]);
  }
}

fn graph() -> Rc<Graph> {
  w(|x| x.graph.clone().unwrap())
}

fn act(a: &Value) {
  match a[0].as_str().unwrap() {
    "sub" => {
      let o = graph().node(i(&a[2]) as usize);
      let s = attach(&o, i(&a[1]));
      w(|x| x.subs.insert(i(&a[1]), s));
    }
    "subu" => {
      let o = graph().node(i(&a[2]) as usize);
      let s = attach(&o, i(&a[1]));
      w(|x| {
        x.subs.insert(i(&a[1]), s.clone());
        x.usings.insert(i(&a[1]), utils::Using::new(s));
      });
    }
    "unsub" => {
      let s = w(|x| x.subs.get(&i(&a[1])).cloned());
      if let Some(s) = s {
        s.unsubscribe();
      }
    }
    "drop" => {
      let u = w(|x| x.usings.remove(&i(&a[1])));
      drop(u);
    }
    "emit" => {
      let o = w(|x| x.obs.get(&(i(&a[1]), i(&a[2]))).cloned());
      if let Some(o) = o {
        emit(&o, a[3].as_str().unwrap(), &a[4]);
      }
    }
    "sj" => {
      let s = graph().subject(i(&a[1]) as usize);
      s.call(a[2].as_str().unwrap(), &Val::from(&a[3]));
    }
    "conn" => {
      if let Cn::Pub(p) = graph().conn(i(&a[1]) as usize) {
        let s = p.connect();
        w(|x| x.subs.insert(-i(&a[1]), s));
      }
    }
    "disc" => {
      let s = w(|x| x.subs.get(&-i(&a[1])).cloned());
      if let Some(s) = s {
        s.unsubscribe();
      }
    }
    "lk" => {
      let old = w(|x| {
        let dead: Vec<_> = x.obs.iter().filter(|(_, o)| !o.is_subscribed()).map(|(k, _)| *k).collect();
        let mut old = Vec::new();
        for k in dead {
          old.push(x.obs.remove(&k));
        }
        let ended: Vec<_> = x.subs.iter().filter(|(_, s)| !s.is_subscribed()).map(|(k, _)| *k).collect();
        let gone: Vec<_> = ended.into_iter().map(|k| x.subs.remove(&k)).collect();
        (old, gone)
      });
      drop(old);
    }
    _ => {}
  }
}

fn observe(a: &Value, bad: &str) {
  let (subs, obs) = w(|x| (x.subs.clone(), x.obs.clone()));
  let (is, pr): (Vec<Value>, Vec<Value>) = if bad.is_empty() {
    (
      subs.iter().filter(|(r, _)| **r > 0).map(|(r, s)| json!([r, s.is_subscribed() as i64])).collect(),
      obs.iter().filter(|(_, o)| o.is_subscribed()).map(|(k, _)| json!([k.0, k.1])).collect(),
    )
  } else {
    (vec![], vec![])
  };
  drop((subs, obs));
  let lk = if a[0] == "lk" { vprt::live_locks() } else { 0 };
  w(|x| {
    let st = json!({"act": a, "out": std::mem::take(&mut x.out), "is": is, "pr": pr, "cf": std::mem::take(&mut x.cf),
                    "lk": lk, "lv": [0, 0, 0], "bad": bad});
    x.steps.push(st);
  });
}

fn clear() {
  let old = w(std::mem::take);
  drop(old);
}

pub fn play(sc: &Value, budget: u64) -> Value {
  clear();
  let base = live();
  let sc2 = sc.clone();
  w(|x| {
    x.reacts = sc["reacts"]
      .as_array()
      .unwrap()
      .iter()
      .map(|r| (i(&r["r"]), i(&r["m"]), r["act"].clone()))
      .collect();
  });
  vprt::set_hash_seed(i(&sc["seed"]) as u64);
  let mut ex = vprt::Explorer::new(vprt::Sched::Seq, 1);
  ex.budget = budget;
  let out = ex.run(move || {
    let g = Graph::new(sc2.clone(), on_source, note, |_, _| {});
    w(|x| x.graph = Some(g));
    for a in sc2["steps"].as_array().unwrap() {
      act(a);
      observe(a, "");
      w(|x| x.at += 1);
    }
    // everything the user holds is dropped
    let (a, b, c, d, e) = w(|x| {
      (
        x.graph.take(),
        std::mem::take(&mut x.subs),
        std::mem::take(&mut x.usings),
        std::mem::take(&mut x.wsubs),
        std::mem::take(&mut x.obs),
      )
    });
    if let Some(g) = &a {
      g.release();
    }
    drop((a, b, c, d, e));
    let l = live();
    let lv: Vec<i64> = (0..3).map(|x| l[x] - base[x]).collect();
    w(|x| {
      let mut out = std::mem::take(&mut x.out);
      let cf = std::mem::take(&mut x.cf);
      out.truncate(50);
      x.steps.push(json!({"act": ["end"], "out": out, "is": [], "pr": [], "cf": cf, "lk": 0, "lv": lv, "bad": ""}));
      x.at += 1;
    });
  });
  let bad = if !out.panics.is_empty() {
    format!("panic: {}", out.panics[0].1)
  } else {
    match out.status {
      vprt::Status::Finished => String::new(),
      vprt::Status::Stuck => "stuck".to_string(),
      vprt::Status::Spin => "spin".to_string(),
    }
  };
  if !bad.is_empty() {
    let at = w(|x| x.at);
    let a = sc["steps"].as_array().unwrap().get(at).cloned().unwrap_or(json!(["end"]));
    w(|x| {
      x.out.truncate(200);
      x.cf.truncate(200);
    });
    observe(&a, &bad);
  }
  let steps = w(|x| std::mem::take(&mut x.steps));
  clear();
  json!({"id": sc["id"], "nodes": sc["nodes"], "srcs": sc["srcs"], "sjs": sc["sjs"], "cns": sc["cns"],
         "reacts": sc["reacts"], "steps": steps})
}

pub fn main(args: &[String]) {
  let inp = std::io::BufReader::new(std::fs::File::open(&args[0]).expect("scenario file"));
  let mut outp = std::io::BufWriter::new(std::fs::File::create(&args[1]).expect("trace file"));
  let (part, of): (usize, usize) = match args.get(2) {
    Some(x) => {
      let (a, b) = x.split_once('/').unwrap();
      (a.parse().unwrap(), b.parse().unwrap())
    }
    None => (0, 1),
  };
  for (n, line) in inp.lines().enumerate() {
    let line = line.unwrap();
    if n % of != part || line.trim().is_empty() {
      continue;
    }
    let sc: Value = serde_json::from_str(&line).expect("scenario");
    let t = play(&sc, 60_000);
    writeln!(outp, "{}", t).unwrap();
  }
}
