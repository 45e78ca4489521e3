//! `sync_launch::launch` with a blocking in-process objective function: evaluations run on worker threads. The events
//! of spec/Run.tla are recorded under one lock; ids and seeds are invisible at this interface, so evaluations are
//! numbered (sample size 1 only).
use crate::enc::*;
use crate::run::{err_event, start_watchdog};
use cambrian::meta::{AlgoConfigBuilder, ObjectiveFunction};
use cambrian::spec_util;
use cambrian::sync_launch;
use cambrian::termination::TerminationCriterion;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value as J};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct State {
    events: Vec<J>,
    started: usize,
    running: Vec<usize>,
    released: Vec<usize>,
    flood: bool,
    hit: bool,
}

struct Shared {
    st: Mutex<State>,
    cv: Condvar,
    seed: u64,
    free: bool,
    prej: f64,
    lo: i64,
    hi: i64,
    target: Option<f64>,
}

struct Obj(Arc<Shared>);

impl ObjectiveFunction for Obj {
    fn evaluate(&self, value: J) -> Option<f64> {
        let sh = &self.0;
        let mut s = sh.st.lock().unwrap();
        let k = s.started;
        s.started += 1;
        s.running.push(k);
        s.events.push(json!({"t": "start", "e": k, "id": k.to_string(), "seed": k.to_string(), "val": jenc(&value),
                             "hon": false}));
        sh.cv.notify_all();
        let mut rng = StdRng::seed_from_u64(sh.seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
        let out = if rng.gen::<f64>() < sh.prej { None } else { Some(rng.gen_range(sh.lo..=sh.hi) as f64) };
        if sh.free {
            drop(s);
            match rng.gen_range(0..4) {
                0 => (),
                1 => std::thread::yield_now(),
                _ => std::thread::sleep(Duration::from_micros(rng.gen_range(0..400))),
            }
            s = sh.st.lock().unwrap();
        } else {
            while !s.flood && !s.released.contains(&k) {
                s = sh.cv.wait(s).unwrap();
            }
        }
        s.running.retain(|x| *x != k);
        s.events.push(match out {
            Some(x) => json!({"t": "done", "e": k, "o": "acc", "v": flimbs(x), "n": 0}),
            None => json!({"t": "done", "e": k, "o": "rej"}),
        });
        if let (Some(t), Some(x)) = (sh.target, out) {
            if x <= t {
                s.hit = true;
            }
        }
        sh.cv.notify_all();
        out
    }
}

fn header(sc: &J) -> J {
    let n = sc["n"].as_u64();
    let target = sc["target"].as_f64();
    json!({"t": "run", "sid": sc["sid"], "cfg": {
        "conc": sc["conc"], "n": n.map(|n| json!([n])).unwrap_or(json!([])),
        "target": target.map(|t| json!([flimbs(t)])).unwrap_or(json!([])), "tn": [],
        "sample": 1, "spec": sc["spec"],
        "guess": if sc["jguess"].is_array() { json!([jenc(&jdec(&sc["jguess"]))]) } else { json!([]) } }})
}

fn run_one(sc: &J) -> Vec<J> {
    let conc = sc["conc"].as_u64().unwrap() as usize;
    let n = sc["n"].as_u64().map(|x| x as usize);
    let target = sc["target"].as_f64();
    let batch = sc["batch"].as_u64().unwrap_or(1) as usize;
    let guess = if sc["jguess"].is_array() { Some(jdec(&sc["jguess"])) } else { None };
    let free = sc["free"].as_bool().unwrap_or(false);
    let wait_ms = sc["wait_ms"].as_u64().unwrap_or(5000);
    let mut rng = StdRng::seed_from_u64(sc["seed"].as_u64().unwrap_or(0));
    let spec = match spec_util::from_yaml_str(sc["yaml"].as_str().unwrap()) {
        Ok(s) => s,
        Err(e) => return vec![json!({"t": "badspec", "msg": esc(&e.to_string())}), json!({"t": "end"})],
    };
    let sh = Arc::new(Shared {
        st: Mutex::new(State::default()),
        cv: Condvar::new(),
        seed: sc["seed"].as_u64().unwrap_or(0),
        free,
        prej: sc["prej"].as_f64().unwrap_or(0.0),
        lo: sc["lo"].as_i64().unwrap_or(0),
        hi: sc["hi"].as_i64().unwrap_or(100),
        target,
    });
    let over = Arc::new(AtomicBool::new(false));
    let control = {
        let (sh, over) = (sh.clone(), over.clone());
        std::thread::spawn(move || {
            if free {
                return;
            }
            let mut done = 0;
            loop {
                let expected = n.map(|n| conc.min(n - done.min(n))).unwrap_or(conc);
                let t0 = Instant::now();
                let mut s = sh.st.lock().unwrap();
                while s.running.len() < expected && t0.elapsed().as_millis() < wait_ms as u128 {
                    if over.load(Ordering::SeqCst) {
                        return;
                    }
                    s = sh.cv.wait_timeout(s, Duration::from_millis(5)).unwrap().0;
                }
                // anything that starts beyond what is expected?
                drop(s);
                std::thread::sleep(Duration::from_millis(4));
                let mut s = sh.st.lock().unwrap();
                if over.load(Ordering::SeqCst) || expected == 0 {
                    s.flood = true;
                    sh.cv.notify_all();
                    return;
                }
                s.events.push(json!({"t": "quiet"}));
                if s.running.len() != expected {
                    // already rejected by the specification; let it finish
                    s.flood = true;
                    sh.cv.notify_all();
                    return;
                }
                let take = if target.is_some() { 1 } else { rng.gen_range(1..=batch).min(s.running.len()) };
                for _ in 0..take {
                    let cand: Vec<usize> = s.running.iter().copied().filter(|k| !s.released.contains(k)).collect();
                    let k = cand[rng.gen_range(0..cand.len())];
                    s.released.push(k);
                }
                sh.cv.notify_all();
                while s.running.iter().any(|k| s.released.contains(k)) {
                    s = sh.cv.wait(s).unwrap();
                }
                s.released.clear();
                done += take;
                if s.hit {
                    drop(s);
                    std::thread::sleep(Duration::from_millis(30));
                    let mut s = sh.st.lock().unwrap();
                    s.flood = true;
                    sh.cv.notify_all();
                    return;
                }
            }
        })
    };
    let cfg = AlgoConfigBuilder::new().individual_sample_size(1).num_concurrent(conc).build().unwrap();
    let mut crit = vec![];
    if let Some(n) = n {
        crit.push(TerminationCriterion::NumObjFuncEval(n));
    }
    if let Some(t) = target {
        crit.push(TerminationCriterion::TargetObjFuncVal(t));
    }
    let obj = Obj(sh.clone());
    let res = catch_unwind(AssertUnwindSafe(|| sync_launch::launch(spec, obj, cfg, crit, guess, true, None)));
    over.store(true, Ordering::SeqCst);
    let ev = match res {
        Err(_) => json!({"t": "panic", "msg": "panic"}),
        Ok(Err(e)) => err_event(&e),
        Ok(Ok(r)) => {
            let x: f64 = r.best_seen.obj_func_val;
            json!({"t": "ret", "ok": true, "v": if x.is_finite() { flimbs(x) } else { json!([0,0,0]) },
                   "isint": false, "n": 0, "val": jenc(&r.best_seen.value),
                   "acc": r.num_obj_func_eval_completed, "rej": r.num_obj_func_eval_rejected})
        }
    };
    {
        let mut s = sh.st.lock().unwrap();
        s.flood = true;
        s.events.push(ev);
        s.events.push(json!({"t": "end"}));
        sh.cv.notify_all();
    }
    control.join().ok();
    let ev = std::mem::take(&mut sh.st.lock().unwrap().events);
    ev
}

pub fn run_file(scripts: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut f = std::fs::File::create(out).unwrap();
    start_watchdog(out.to_string(), 60);
    for line in std::fs::read_to_string(scripts).unwrap().lines() {
        let sc: J = serde_json::from_str(line).unwrap();
        crate::run::progress();
        writeln!(f, "{}", header(&sc)).unwrap();
        let mut buf = String::new();
        for e in run_one(&sc) {
            buf.push_str(&e.to_string());
            buf.push('\n');
        }
        f.write_all(buf.as_bytes()).unwrap();
    }
}
