//! `sync_launch::launch_with_async_obj_func` with everything around it: both kinds of runtime, evaluations that take
//! their time in different ways, report files, readers of these files that are slow.  The environment is free-running;
//! the events of spec/Run.tla are recorded under one lock by the evaluations themselves.  `long` records a summary of
//! runs that are too long for a trace (spec/Long.tla).
use crate::enc::*;
use crate::run::{auto_value, err_event, mul_of, start_watchdog};
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::spec_util;
use cambrian::sync_launch::{self, DetailedReportingFileInfo};
use cambrian::termination::TerminationCriterion;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct State {
    events: Vec<J>,
    started: usize,
}

struct Obj {
    st: Arc<Mutex<State>>,
    sc: J,
}

struct Guard {
    st: Arc<Mutex<State>>,
    k: usize,
    done: bool,
}

impl Drop for Guard {
    fn drop(&mut self) {
        if !self.done {
            let k = self.k;
            self.st.lock().unwrap().events.push(json!({"t": "drop", "e": k}));
        }
    }
}

async fn pass_time(pace: &str, rng: &mut StdRng) {
    match pace {
        "now" => (),
        "yield" => {
            for _ in 0..rng.gen_range(0..4) {
                tokio::task::yield_now().await;
            }
        }
        "sleep" => tokio::time::sleep(Duration::from_micros(rng.gen_range(0..900))).await,
        "spawn" => {
            let us = rng.gen_range(0..300);
            tokio::task::spawn_blocking(move || std::thread::sleep(Duration::from_micros(us))).await.unwrap();
        }
        _ => match rng.gen_range(0..4) {
            0 => (),
            1 => tokio::task::yield_now().await,
            2 => tokio::time::sleep(Duration::from_micros(rng.gen_range(0..900))).await,
            _ => tokio::spawn(async { tokio::task::yield_now().await }).await.unwrap(),
        },
    }
}

#[async_trait]
impl AsyncObjectiveFunction for Obj {
    async fn evaluate(
        &self,
        value: J,
        mut abort: async_broadcast::Receiver<()>,
        seed: u64,
        id: usize,
    ) -> Result<Option<f64>, Error> {
        let k = {
            let mut s = self.st.lock().unwrap();
            let k = s.started;
            s.started += 1;
            s.events.push(json!({"t": "start", "e": k, "id": id.to_string(), "seed": seed.to_string(),
                                 "val": jenc(&value), "hon": true}));
            k
        };
        let mut guard = Guard { st: self.st.clone(), k, done: false };
        let mut rng = StdRng::seed_from_u64(self.sc["seed"].as_u64().unwrap_or(0).wrapping_mul(1_000_003).wrapping_add(k as u64));
        let pace = self.sc["pace"].as_str().unwrap_or("mixed").to_string();
        tokio::select! {
            _ = pass_time(&pace, &mut rng) => (),
            _ = abort.recv() => {
                let mut s = self.st.lock().unwrap();
                s.events.push(json!({"t": "abort", "e": k}));
                s.events.push(json!({"t": "done", "e": k, "o": "rej"}));
                guard.done = true;
                return Ok(None);
            }
        }
        guard.done = true;
        let v = &self.sc["vals"];
        let u: f64 = rng.gen();
        let prej = v["prej"].as_f64().unwrap_or(0.0);
        let pfail = v["pfail"].as_f64().unwrap_or(0.0);
        let mut s = self.st.lock().unwrap();
        if u < prej {
            s.events.push(json!({"t": "done", "e": k, "o": "rej"}));
            return Ok(None);
        }
        if u < prej + pfail {
            if rng.gen::<bool>() {
                s.events.push(json!({"t": "done", "e": k, "o": "nonf"}));
                return Ok(Some(if rng.gen::<bool>() { f64::NAN } else { f64::NEG_INFINITY }));
            }
            s.events.push(json!({"t": "done", "e": k, "o": "fail"}));
            return Err(Error::Io(std::io::Error::new(std::io::ErrorKind::Other, format!("scripted failure #{k}"))));
        }
        let x = auto_value(v["kind"].as_str().unwrap_or("int"), k, id, seed, &value, &mut rng);
        let n = if self.sc["sample"].as_u64().unwrap_or(1) > 1 { x as i64 } else { 0 };
        let y = x * mul_of(&self.sc);
        s.events.push(json!({"t": "done", "e": k, "o": "acc", "v": flimbs(y), "n": n}));
        Ok(Some(y))
    }
}

fn header(sc: &J) -> J {
    let n = sc["n"].as_u64();
    let target = sc["target"].as_f64();
    let sample = sc["sample"].as_u64().unwrap_or(1);
    json!({"t": "run", "sid": sc["sid"], "cfg": {
        "conc": sc["conc"], "n": n.map(|n| json!([n])).unwrap_or(json!([])),
        "target": target.map(|t| json!([flimbs(t * mul_of(sc))])).unwrap_or(json!([])),
        "tn": if sample > 1 { target.map(|t| json!([(t * sample as f64) as i64])).unwrap_or(json!([])) } else { json!([]) },
        "sample": sample, "spec": sc["spec"], "k": [], "after": [],
        "guess": if sc["jguess"].is_array() { json!([jenc(&jdec(&sc["jguess"]))]) } else { json!([]) } }})
}

fn criteria(sc: &J) -> Vec<TerminationCriterion> {
    let mut crit = vec![];
    if let Some(n) = sc["n"].as_u64() {
        crit.push(TerminationCriterion::NumObjFuncEval(n as usize));
    }
    if let Some(t) = sc["target"].as_f64() {
        crit.push(TerminationCriterion::TargetObjFuncVal(t * mul_of(sc)));
    }
    crit
}

fn run_one(sc: &J) -> Vec<J> {
    let sample = sc["sample"].as_u64().unwrap_or(1) as usize;
    let guess = if sc["jguess"].is_array() { Some(jdec(&sc["jguess"])) } else { None };
    let spec = match spec_util::from_yaml_str(sc["yaml"].as_str().unwrap()) {
        Ok(s) => s,
        Err(e) => return vec![json!({"t": "badspec", "msg": esc(&e.to_string())}), json!({"t": "end"})],
    };
    let st = Arc::new(Mutex::new(State { events: vec![], started: 0 }));
    let cfg = AlgoConfigBuilder::new()
        .individual_sample_size(sample)
        .num_concurrent(sc["conc"].as_u64().unwrap() as usize)
        .build()
        .unwrap();
    let dir = sc["dir"].as_str().unwrap();
    let report = format!("{dir}/detailed_report.csv");
    let best = format!("{dir}/best_seen.json");
    let mut slow = None;
    if sc["slow"].as_bool().unwrap_or(false) {
        // whoever reads the report takes its time
        let (fifo, copy) = (format!("{dir}/fifo"), report.clone());
        std::process::Command::new("mkfifo").arg(&fifo).status().unwrap();
        let path = fifo.clone();
        let h = std::thread::spawn(move || {
            let mut f = std::fs::File::open(&path).unwrap();
            let mut o = std::fs::File::create(copy).unwrap();
            let mut buf = vec![0u8; 2048];
            loop {
                let n = f.read(&mut buf).unwrap();
                if n == 0 {
                    break;
                }
                o.write_all(&buf[..n]).unwrap();
                std::thread::sleep(Duration::from_micros(150));
            }
        });
        slow = Some((fifo, h));
    }
    let files = DetailedReportingFileInfo {
        detailed_report_file_path: slow.as_ref().map(|x| x.0.clone()).unwrap_or(report).into(),
        best_seen_file_path: best.into(),
    };
    let obj = Obj { st: st.clone(), sc: sc.clone() };
    let res = catch_unwind(AssertUnwindSafe(|| {
        sync_launch::launch_with_async_obj_func(
            spec,
            obj,
            cfg,
            criteria(sc),
            guess,
            sc["multi"].as_bool().unwrap_or(false),
            if sc["nofiles"].as_bool().unwrap_or(false) { None } else { Some(&files) },
        )
    }));
    if let Some((fifo, h)) = slow {
        // in case nobody ever opened it for writing
        drop(std::fs::OpenOptions::new().read(true).write(true).open(fifo));
        h.join().ok();
    }
    let ev = match res {
        Err(_) => json!({"t": "panic", "msg": "panic"}),
        Ok(Err(e)) => err_event(&e),
        Ok(Ok(r)) => {
            let x: f64 = r.best_seen.obj_func_val;
            let y = x / mul_of(sc) * sample as f64;
            let n = y.round();
            let isint = y.is_finite() && y.abs() < 1e9 && (y - n).abs() < 1e-9 * (1.0 + y.abs());
            json!({"t": "ret", "ok": true, "v": if x.is_finite() { flimbs(x) } else { json!([0,0,0]) },
                   "isint": isint, "n": if isint { n as i64 } else { 0 }, "val": jenc(&r.best_seen.value),
                   "acc": r.num_obj_func_eval_completed, "rej": r.num_obj_func_eval_rejected})
        }
    };
    let mut s = st.lock().unwrap();
    let mut out = std::mem::take(&mut s.events);
    out.push(ev);
    out.push(json!({"t": "end"}));
    out
}

pub fn run_file(scripts: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut f = std::fs::File::create(out).unwrap();
    start_watchdog(out.to_string(), 60);
    for line in std::fs::read_to_string(scripts).unwrap().lines() {
        let sc: J = serde_json::from_str(line).unwrap();
        crate::run::progress();
        writeln!(f, "{}", header(&sc)).unwrap();
        let mut buf = String::new();
        for e in run_one(&sc) {
            buf.push_str(&e.to_string());
            buf.push('\n');
        }
        f.write_all(buf.as_bytes()).unwrap();
    }
}

// ------------------------------------------------------------------------------------------------ long runs
#[derive(Default)]
struct Tally {
    count: u64,
    acc: u64,
    sum: i64,
    vals: Vec<usize>,
}

#[derive(Default)]
struct Book {
    texts: HashMap<String, usize>,
    inds: BTreeMap<usize, Tally>,
    seeds: Vec<String>,
    rejected: u64,
    running: HashMap<usize, usize>,
    max: usize,
    twice: u64,
    first: Option<J>,
}

struct LongObj {
    book: Arc<Mutex<Book>>,
    prej: f64,
    seed: u64,
}

#[async_trait]
impl AsyncObjectiveFunction for LongObj {
    async fn evaluate(
        &self,
        value: J,
        _abort: async_broadcast::Receiver<()>,
        seed: u64,
        id: usize,
    ) -> Result<Option<f64>, Error> {
        let k = {
            let mut b = self.book.lock().unwrap();
            let nt = b.texts.len();
            let t = *b.texts.entry(value.to_string()).or_insert(nt);
            let e = b.inds.entry(id).or_default();
            e.count += 1;
            if !e.vals.contains(&t) {
                e.vals.push(t);
            }
            b.seeds.push(seed.to_string());
            if b.first.is_none() {
                b.first = Some(jenc(&value));
            }
            let r = b.running.entry(id).or_insert(0);
            *r += 1;
            if *r > 1 {
                b.twice += 1;
            }
            let live = b.running.values().sum();
            b.max = b.max.max(live);
            b.seeds.len()
        };
        if k % 5 == 0 {
            tokio::task::yield_now().await;
        }
        let mut rng = StdRng::seed_from_u64(self.seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
        let mut b = self.book.lock().unwrap();
        let r = b.running.get_mut(&id).unwrap();
        *r -= 1;
        if *r == 0 {
            b.running.remove(&id);
        }
        if rng.gen::<f64>() < self.prej {
            b.rejected += 1;
            return Ok(None);
        }
        let x = rng.gen_range(-1_000_000..1_000_000i64);
        let e = b.inds.get_mut(&id).unwrap();
        e.acc += 1;
        e.sum += x;
        Ok(Some(x as f64))
    }
}

pub fn long_file(scripts: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut f = std::fs::File::create(out).unwrap();
    for line in std::fs::read_to_string(scripts).unwrap().lines() {
        let sc: J = serde_json::from_str(line).unwrap();
        let spec = spec_util::from_yaml_str(sc["yaml"].as_str().unwrap()).unwrap();
        let sample = sc["sample"].as_u64().unwrap() as usize;
        let cfg = AlgoConfigBuilder::new()
            .individual_sample_size(sample)
            .num_concurrent(sc["conc"].as_u64().unwrap() as usize)
            .build()
            .unwrap();
        let book = Arc::new(Mutex::new(Book::default()));
        let obj = LongObj { book: book.clone(), prej: sc["prej"].as_f64().unwrap_or(0.0), seed: sc["seed"].as_u64().unwrap() };
        let res = catch_unwind(AssertUnwindSafe(|| {
            sync_launch::launch_with_async_obj_func(spec, obj, cfg, criteria(&sc), None, false, None)
        }));
        let b = book.lock().unwrap();
        let inds: Vec<J> = b.inds.values().map(|t| json!([t.count, t.vals.len(), t.acc, t.sum])).collect();
        let ret = match res {
            Err(_) => json!({"k": "panic"}),
            Ok(Err(e)) => json!({"k": "err", "msg": esc(&e.to_string())}),
            Ok(Ok(r)) => {
                let t = b.texts.get(&r.best_seen.value.to_string());
                let who: Vec<usize> =
                    b.inds.values().enumerate().filter(|(_, x)| t.is_some_and(|t| x.vals.contains(t))).map(|(i, _)| i + 1).collect();
                let n = (r.best_seen.obj_func_val * sample as f64).round();
                json!({"k": "ok", "acc": r.num_obj_func_eval_completed, "rej": r.num_obj_func_eval_rejected,
                       "n": n.clamp(-2e9, 2e9) as i64, "exact": (n / sample as f64 - r.best_seen.obj_func_val).abs() < 1e-9, "who": who})
            }
        };
        writeln!(f, "{}", json!({"sid": sc["sid"], "n": sc["n"], "conc": sc["conc"], "sample": sample, "spec": sc["spec"],
                                 "seeds": b.seeds, "inds": inds, "rejected": b.rejected, "max": b.max, "twice": b.twice,
                                 "first": b.first.clone().unwrap_or(json!(["z"])), "ret": ret})).unwrap();
    }
}
