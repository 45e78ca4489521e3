//! Scripted execution of `async_launch::launch`: the harness owns every evaluation, polls the run by hand until it
//! settles, and records the events of spec/Run.tla.
use crate::enc::*;
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::verif::DetailedReportItem;
use cambrian::{async_launch, spec_util};
use futures::channel::mpsc;
use futures::task::{waker, ArcWake};
use futures::{Future, FutureExt};
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug)]
pub enum Out {
    Acc(f64),
    Rej,
    Fail,
    NonF(f64),
}

struct Slot {
    out: Option<Out>,
    waker: Option<Waker>,
    live: bool,
    value: J,
    seed: u64,
    id: usize,
}

pub struct Shared {
    pub events: Vec<J>,
    slots: Vec<Slot>,
    hon: Vec<bool>,
    abrt: Vec<String>,
    ints: bool,
    /// what the objective values are multiplied with (a power of two) before they are handed over
    mul: f64,
    vals: J,
    vseed: u64,
    hashes: bool,
}

type Sh = Arc<Mutex<Shared>>;

struct ObjFunc {
    sh: Sh,
}

struct DropGuard {
    sh: Sh,
    k: usize,
    done: bool,
}

impl Drop for DropGuard {
    fn drop(&mut self) {
        if !self.done {
            if let Ok(mut s) = self.sh.lock() {
                s.slots[self.k].live = false;
                let k = self.k;
                s.events.push(json!({"t": "drop", "e": k}));
            }
        }
    }
}

fn hash64(s: &str, seed: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58476D1CE4E5B9);
    h ^ (h >> 32)
}

/// sum of squares of all numbers in a JSON document, other leaves count by a hash
fn sphere(j: &J) -> f64 {
    match j {
        J::Number(n) => {
            let x = n.as_f64().unwrap().clamp(-1e100, 1e100);
            x * x
        }
        J::Bool(b) => *b as u8 as f64,
        J::String(s) => (hash64(s, 7) % 5) as f64,
        J::Array(a) => a.iter().map(sphere).sum(),
        J::Object(o) => o.values().map(sphere).sum(),
        J::Null => 0.25,
    }
}

/// an objective value of the automatic environment
pub fn auto_value(kind: &str, k: usize, id: usize, seed: u64, value: &J, rng: &mut StdRng) -> f64 {
    match kind {
        "inc" => k as f64,
        "dec" => -(k as f64),
        "const" => 3.0,
        "ties" => rng.gen_range(0..3) as f64,
        "zeros" => *[0.0, -0.0, 0.0, -0.0, 5.0].get(rng.gen_range(0..5)).unwrap(),
        "huge" => *[1e300, -1e300, 1e299, 0.0, -0.0, 5e-324, -5e-324, 1.0].get(rng.gen_range(0..8)).unwrap(),
        "hugeinc" => 1e300 * ((k as f64 + 1.0) / 1e5 - 1.0).clamp(-1.0, 1.0),
        "mod" => ((k * 7919) % 257) as f64,
        "int" => rng.gen_range(-1000..1000) as f64,
        "bigint" => rng.gen_range(-9_999_999..10_000_000) as f64,
        "gauss" => (rng.gen::<f64>() - 0.5) * 10f64.powi(rng.gen_range(-8..8)),
        "sphere" => sphere(value),
        "noisy" => (sphere(value) + (hash64("", seed) % 1000) as f64).min(1e15).round(),
        "hash" => (hash64(&value.to_string(), seed) % 100_003) as f64,
        "idmean" => ((id * 37) % 101) as f64 * 10.0 + (hash64("", seed) % 7) as f64,
        // single results lie on both sides of the targets, means of whole samples rarely do
        "split" => (if hash64("", seed) % 10 < 3 { -1000.0 } else { 600.0 }) + (id % 13) as f64,
        other => panic!("unknown vals kind {other}"),
    }
}

/// objective values of sample sizes > 1 are integers times a power of two, so that means can be compared by sums
pub fn mul_of(sc: &J) -> f64 {
    2f64.powi(sc["exp"].as_i64().unwrap_or(0) as i32)
}

impl Shared {
    /// the outcome the automatic environment gives to evaluation k
    fn auto_out(&self, k: usize) -> Out {
        let v = &self.vals;
        let mut rng = StdRng::seed_from_u64(self.vseed.wrapping_mul(1_000_003).wrapping_add(k as u64));
        let u: f64 = rng.gen();
        let prej = v["prej"].as_f64().unwrap_or(0.0);
        let pfail = v["pfail"].as_f64().unwrap_or(0.0);
        if u < prej {
            return Out::Rej;
        }
        if u < prej + pfail {
            return match rng.gen_range(0..4) {
                0 => Out::NonF(f64::NAN),
                1 => Out::NonF(f64::INFINITY),
                2 => Out::NonF(f64::NEG_INFINITY),
                _ => Out::Fail,
            };
        }
        let s = &self.slots[k];
        let x = auto_value(v["kind"].as_str().unwrap_or("rand"), k, s.id, s.seed, &s.value, &mut rng);
        Out::Acc(x)
    }

    fn done_event(&mut self, k: usize, out: &Out) -> Result<Option<f64>, Error> {
        self.slots[k].live = false;
        let (ev, res) = match out {
            Out::Acc(x) => {
                let n = if self.ints { *x as i64 } else { 0 };
                let y = *x * self.mul;
                (json!({"t": "done", "e": k, "o": "acc", "v": flimbs(y), "n": n}), Ok(Some(y)))
            }
            Out::Rej => (json!({"t": "done", "e": k, "o": "rej"}), Ok(None)),
            Out::Fail => (
                json!({"t": "done", "e": k, "o": "fail"}),
                Err(Error::Io(std::io::Error::new(std::io::ErrorKind::Other, format!("scripted failure #{k}")))),
            ),
            Out::NonF(x) => (json!({"t": "done", "e": k, "o": "nonf"}), Ok(Some(*x))),
        };
        self.events.push(ev);
        res
    }
}

#[async_trait]
impl AsyncObjectiveFunction for ObjFunc {
    async fn evaluate(
        &self,
        value: J,
        mut abort: async_broadcast::Receiver<()>,
        seed: u64,
        id: usize,
    ) -> Result<Option<f64>, Error> {
        let k = {
            let mut s = self.sh.lock().unwrap();
            let k = s.slots.len();
            let hon = s.hon[k % s.hon.len()];
            let ev = json!({"t": "start", "e": k, "id": id.to_string(), "seed": seed.to_string(),
                            "val": if s.hashes { json!(["z"]) } else { jenc(&value) }, "hon": hon});
            s.events.push(ev);
            s.slots.push(Slot { out: None, waker: None, live: true, value, seed, id });
            k
        };
        let mut guard = DropGuard { sh: self.sh.clone(), k, done: false };
        let mut abort_fut = Box::pin(async move { abort.recv().await.is_ok() });
        let mut aborted = false;
        let sh = self.sh.clone();
        let res = futures::future::poll_fn(move |cx| {
            let mut s = sh.lock().unwrap();
            if !aborted {
                if let Poll::Ready(ok) = abort_fut.as_mut().poll(cx) {
                    aborted = true;
                    if ok {
                        s.events.push(json!({"t": "abort", "e": k}));
                        if s.hon[k % s.hon.len()] && s.slots[k].out.is_none() {
                            let how = s.abrt[k % s.abrt.len()].clone();
                            s.slots[k].out = Some(match how.as_str() {
                                "acc" => Out::Acc(-1000.0 - k as f64),
                                "accbig" => Out::Acc(1e6 + k as f64),
                                "fail" => Out::Fail,
                                "nonf" => Out::NonF(f64::NAN),
                                _ => Out::Rej,
                            });
                        }
                    }
                }
            }
            if let Some(out) = s.slots[k].out.take() {
                return Poll::Ready(s.done_event(k, &out));
            }
            s.slots[k].waker = Some(cx.waker().clone());
            Poll::Pending
        })
        .await;
        guard.done = true;
        res
    }
}

struct Flag(AtomicBool);

impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
    }
}

pub fn err_event(e: &Error) -> J {
    let s = e.to_string();
    let (kind, k) = match e {
        Error::NoIndividuals => ("noind", 0),
        Error::ObjFuncValMustBeFinite => ("nonf", 0),
        Error::ClientHungUp => ("hung", 0),
        _ => match s.strip_prefix("scripted failure #") {
            Some(k) => ("fail", k.parse::<usize>().unwrap_or(0)),
            None => ("other", 0),
        },
    };
    json!({"t": "ret", "ok": false, "err": kind, "e": k, "acc": 0, "rej": 0, "msg": esc(&s)})
}

fn num_opt(x: Option<f64>) -> J {
    match x {
        None => json!([]),
        Some(x) if x.is_finite() => json!([flimbs(x)]),
        Some(_) => json!([[0, 0, 0]]),
    }
}

pub fn rec_event(item: &DetailedReportItem, hashes: bool) -> J {
    let meta = match &item.meta_params_used {
        None => json!([]),
        Some(m) => json!([
            num(m.crossover_params.crossover_prob),
            num(m.crossover_params.selection_pressure),
            num(m.mutation_params.mutation_prob),
            num(m.mutation_params.mutation_scale)
        ]),
    };
    json!({"t": "rec", "id": item.individual_id.to_string(), "seed": item.seed.to_string(),
           "val": if hashes { json!(["z"]) } else { jenc(&item.input_val) },
           "res": num_opt(item.obj_func_val), "meta": meta})
}

/// current run's events, for the watchdog
static CURRENT: Mutex<Option<Sh>> = Mutex::new(None);
static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub fn progress() {
    PROGRESS.fetch_add(1, Ordering::SeqCst);
}

pub fn start_watchdog(out_path: String, secs: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        // counted in sleeps: the clock may be a fake one
        let mut since = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            since += 1;
            let p = PROGRESS.load(Ordering::SeqCst);
            if p != last {
                last = p;
                since = 0;
            } else if since >= 5 * secs {
                // the run neither settles nor returns: record it and give up on this process
                let mut f = std::fs::OpenOptions::new().append(true).open(&out_path).unwrap();
                if let Some(sh) = CURRENT.lock().unwrap().as_ref() {
                    if let Ok(s) = sh.try_lock() {
                        for e in &s.events {
                            writeln!(f, "{e}").unwrap();
                        }
                    }
                }
                writeln!(f, "{}", json!({"t": "hang"})).unwrap();
                writeln!(f, "{}", json!({"t": "end"})).unwrap();
                std::process::exit(7);
            }
        }
    });
}

pub struct Outcome {
    pub events: Vec<J>,
}

pub fn run_script(rt: &tokio::runtime::Runtime, sc: &J) -> Outcome {
    PROGRESS.fetch_add(1, Ordering::SeqCst);
    let yaml = sc["yaml"].as_str().unwrap();
    let conc = sc["conc"].as_u64().unwrap() as usize;
    let sample = sc["sample"].as_u64().unwrap_or(1) as usize;
    let n = sc["n"].as_u64().map(|x| x as usize);
    let mul = mul_of(sc);
    let int_target = sc["target"].as_f64();
    let target = int_target.map(|t| t * mul);
    let guess = if sc["guess"].is_null() && !sc["guess_null"].as_bool().unwrap_or(false) {
        None
    } else {
        Some(if sc["jguess"].is_array() { jdec(&sc["jguess"]) } else { sc["guess"].clone() })
    };
    let hashes = sc["noval"].as_bool().unwrap_or(false);
    let strs = |k: &str, d: &str| -> Vec<String> {
        sc[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or(vec![d.into()])
    };
    let hon: Vec<bool> =
        sc["hon"].as_array().map(|a| a.iter().map(|x| x.as_bool().unwrap()).collect()).unwrap_or(vec![true]);
    let auto = sc["auto"].clone();
    let sh: Sh = Arc::new(Mutex::new(Shared {
        events: vec![],
        slots: vec![],
        hon,
        abrt: strs("abrt", "rej"),
        ints: sample > 1 || sc["ints"].as_bool().unwrap_or(false),
        mul,
        vals: auto["vals"].clone(),
        vseed: auto["seed"].as_u64().unwrap_or(0),
        hashes,
    }));
    *CURRENT.lock().unwrap() = Some(sh.clone());
    let tn = int_target.map(|t| (t * sample as f64) as i64);
    sh.lock().unwrap().events.push(json!({"t": "run", "sid": sc["sid"], "cfg": {
        "conc": conc, "n": n.map(|n| json!([n])).unwrap_or(json!([])),
        "target": num_opt(target), "tn": tn.map(|n| json!([n])).unwrap_or(json!([])),
        "sample": sample, "spec": sc["spec"],
        "guess": guess.as_ref().map(|g| json!([jenc(g)])).unwrap_or(json!([])) }}));

    let push = |ev: J| sh.lock().unwrap().events.push(ev);

    let spec = match catch_unwind(AssertUnwindSafe(|| spec_util::from_yaml_str(yaml))) {
        Ok(Ok(s)) => s,
        other => {
            let msg = match other {
                Ok(Err(e)) => e.to_string(),
                _ => "panic".into(),
            };
            // not a property of runs; C10 decides it
            push(json!({"t": "badspec", "msg": esc(&msg)}));
            push(json!({"t": "end"}));
            return Outcome { events: sh.lock().unwrap().events.clone() };
        }
    };
    let cfg = AlgoConfigBuilder::new().individual_sample_size(sample).num_concurrent(conc).build().unwrap();
    let (mut cmd_tx, cmd_rx) = mpsc::channel::<Command>(64);
    let (rep_tx, mut rep_rx) = mpsc::channel::<DetailedReportItem>(1 << 14);
    let obj = ObjFunc { sh: sh.clone() };

    rt.block_on(async {
        let mut fut: Option<Pin<Box<dyn futures::Future<Output = _>>>> =
            Some(Box::pin(async_launch::launch(spec, obj, cfg, cmd_rx, rep_tx, n, target, guess)));
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        let w = waker(flag.clone());
        let steps: Vec<J> = sc["steps"].as_array().cloned().unwrap_or_default();
        let mut step = 0;
        let mut rng = StdRng::seed_from_u64(auto["seed"].as_u64().unwrap_or(0));
        let batch = auto["batch"].as_u64().unwrap_or(1) as usize;
        let mode = auto["mode"].as_str().unwrap_or("fifo").to_string();
        let max_evals = auto["max"].as_u64().unwrap_or(400) as usize;
        let mut terms = 0usize;
        let mut stuck = 0;
        let mut finished = false;
        let drain = |rep_rx: &mut mpsc::Receiver<DetailedReportItem>| {
            while let Some(Some(item)) = futures::StreamExt::next(rep_rx).now_or_never() {
                push(rec_event(&item, hashes));
            }
        };
        // pacing only: the same script at a different speed must behave the same
        let pace = sc["pace_us"].as_u64().unwrap_or(0);
        while !finished {
            // let the run settle
            let mut polls = 0;
            let mut idle = 0;
            while idle < 3 {
                if flag.0.swap(false, Ordering::SeqCst) {
                    idle = 0;
                    polls += 1;
                    PROGRESS.fetch_add(1, Ordering::SeqCst);
                    let mut cx = Context::from_waker(&w);
                    let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().unwrap().as_mut().poll(&mut cx)));
                    match r {
                        Err(p) => {
                            let msg = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            push(json!({"t": "panic", "msg": esc(&msg)}));
                            finished = true;
                            break;
                        }
                        Ok(Poll::Ready(res)) => {
                            match res {
                                Ok(r) => {
                                    let x: f64 = r.best_seen.obj_func_val;
                                    let y = x / mul * sample as f64;
                                    let isint = y.is_finite() && y.abs() < 1e9 && (y - y.round()).abs() < 1e-9 * (1.0 + y.abs());
                                    push(json!({"t": "ret", "ok": true, "v": if x.is_finite() { flimbs(x) } else { json!([0,0,0]) },
                                        "isint": isint, "n": if isint { y.round() as i64 } else { 0 },
                                        "val": if hashes { json!(["z"]) } else { jenc(&r.best_seen.value) },
                                        "acc": r.num_obj_func_eval_completed, "rej": r.num_obj_func_eval_rejected}));
                                }
                                Err(e) => push(err_event(&e)),
                            }
                            finished = true;
                            break;
                        }
                        Ok(Poll::Pending) => (),
                    }
                    if polls > 20_000 {
                        push(json!({"t": "hang", "why": "livelock"}));
                        finished = true;
                        break;
                    }
                } else {
                    idle += 1;
                }
                tokio::task::yield_now().await;
            }
            drain(&mut rep_rx);
            if finished {
                break;
            }
            push(json!({"t": "quiet"}));
            if pace > 0 {
                std::thread::sleep(std::time::Duration::from_micros(rng_pace(pace, polls)));
            }
            // move the environment
            let release = |k: usize, out: Out| -> bool {
                let w = {
                    let mut s = sh.lock().unwrap();
                    if k >= s.slots.len() || !s.slots[k].live || s.slots[k].out.is_some() {
                        return false;
                    }
                    s.slots[k].out = Some(out);
                    s.slots[k].waker.take()
                };
                if let Some(w) = w {
                    w.wake();
                }
                true
            };
            let live: Vec<usize> = {
                let s = sh.lock().unwrap();
                (0..s.slots.len()).filter(|k| s.slots[*k].live).collect()
            };
            let mut moved = false;
            while step < steps.len() && !moved {
                let st = &steps[step];
                step += 1;
                if let Some(rel) = st["rel"].as_array() {
                    for r in rel {
                        let k = r[0].as_u64().unwrap() as usize;
                        let out = match r[1].as_str().unwrap() {
                            "acc" => Out::Acc(r[2].as_f64().unwrap()),
                            "rej" => Out::Rej,
                            "fail" => Out::Fail,
                            "nan" => Out::NonF(f64::NAN),
                            "inf" => Out::NonF(f64::INFINITY),
                            "auto" => {
                                if k < sh.lock().unwrap().slots.len() {
                                    sh.lock().unwrap().auto_out(k)
                                } else {
                                    Out::Rej
                                }
                            }
                            o => panic!("bad outcome {o}"),
                        };
                        moved |= release(k, out);
                    }
                }
                if st["term"].as_bool().unwrap_or(false) {
                    push(json!({"t": "term"}));
                    cmd_tx.try_send(Command::Terminate).ok();
                    terms += 1;
                    moved = true;
                }
            }
            if moved {
                continue;
            }
            let started = sh.lock().unwrap().slots.len();
            let term_at = auto["term_at"].as_u64().map(|x| x as usize).unwrap_or(usize::MAX);
            if (started >= max_evals || started >= term_at) && terms == 0 {
                push(json!({"t": "term"}));
                cmd_tx.try_send(Command::Terminate).ok();
                terms += 1;
                continue;
            }
            if live.is_empty() {
                stuck += 1;
                if stuck > 3 {
                    push(json!({"t": "hang", "why": "nothing in flight"}));
                    finished = true;
                } else if terms == 0 {
                    push(json!({"t": "term"}));
                    cmd_tx.try_send(Command::Terminate).ok();
                    terms += 1;
                }
                continue;
            }
            let mut pool = live.clone();
            let take = if terms > 0 { 1 } else { rng.gen_range(1..=batch).min(pool.len()) };
            for _ in 0..take {
                let i = match mode.as_str() {
                    "fifo" => 0,
                    "lifo" => pool.len() - 1,
                    "starve" => {
                        // the first evaluation never completes while others are in flight
                        if pool.len() > 1 {
                            1
                        } else {
                            0
                        }
                    }
                    _ => rng.gen_range(0..pool.len()),
                };
                let k = pool.remove(i);
                let out = sh.lock().unwrap().auto_out(k);
                release(k, out);
            }
        }
        fut.take();
        drain(&mut rep_rx);
        push(json!({"t": "end"}));
    });
    let ev = std::mem::take(&mut sh.lock().unwrap().events);
    *CURRENT.lock().unwrap() = None;
    Outcome { events: ev }
}

fn rng_pace(pace: u64, polls: u64) -> u64 {
    (pace * (1 + polls % 3)) / 2
}

pub fn run_file(scripts: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut f = std::fs::File::create(out).unwrap();
    start_watchdog(out.to_string(), 30);
    let mut stats: HashMap<String, u64> = HashMap::new();
    for line in std::fs::read_to_string(scripts).unwrap().lines() {
        let sc: J = serde_json::from_str(line).unwrap();
        let o = run_script(&rt, &sc);
        let mut buf = String::new();
        for e in &o.events {
            *stats.entry(e["t"].as_str().unwrap().to_string()).or_default() += 1;
            buf.push_str(&e.to_string());
            buf.push('\n');
        }
        f.write_all(buf.as_bytes()).unwrap();
    }
    println!("{}", json!(stats));
}
