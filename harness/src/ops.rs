//! Drives the pure parts of cambrian (recombination, mutation, JSON codec, spec parser) and records what they did,
//! one line per step, for spec/OpsTrace.tla.
mod enc;
use cambrian::crossover::Crossover;
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::spec::Spec;
use cambrian::value::{Node, Value};
use cambrian::verif::PathContext;
use cambrian::{mutation, spec_util, value_util};
use enc::*;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn val_dec(j: &J) -> Node {
    match j[0].as_str().unwrap() {
        "real" => Node::Real(unflimbs(&j[1])),
        "int" => Node::Int(unilimbs(&j[1])),
        "bool" => Node::Bool(j[1].as_bool().unwrap()),
        "sub" => Node::Sub(
            j[1].as_object().unwrap().iter().map(|(k, v)| (unesc(k), Box::new(val_dec(v)))).collect(),
        ),
        "array" => Node::Array(j[1].as_array().unwrap().iter().map(|v| Box::new(val_dec(v))).collect()),
        "anon" => Node::AnonMap(
            j[1].as_object().unwrap().iter().map(|(k, v)| (k.parse().unwrap(), Box::new(val_dec(v)))).collect(),
        ),
        "variant" => Node::Variant(unesc(j[1].as_str().unwrap()), Box::new(val_dec(&j[2]))),
        "enum" => Node::Enum(unesc(j[1].as_str().unwrap())),
        "opt" => Node::Optional(j[1].as_array().unwrap().first().map(|v| Box::new(val_dec(v)))),
        "const" => Node::Const,
        k => panic!("val_dec {k}"),
    }
}

type Out = std::io::BufWriter<std::fs::File>;

fn emit(out: &mut Out, j: J) {
    writeln!(out, "{j}").unwrap();
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
    esc(&s.unwrap_or_else(|| "?".into()))
}

fn fl(j: &J) -> Vec<f64> {
    j.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect()
}

fn prob_class(p: f64) -> &'static str {
    if p == 0.0 {
        "zero"
    } else if p == 1.0 {
        "one"
    } else {
        "some"
    }
}

fn values(j: &J) -> Vec<Value> {
    j.as_array().unwrap().iter().map(|v| Value(val_dec(v))).collect()
}

/// a long mixed history of mutations and recombinations over one path context, like a run's
fn chain(spec: &Spec, c: &J, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(c["seed"].as_u64().unwrap());
    let mut oprng = StdRng::seed_from_u64(c["seed"].as_u64().unwrap() ^ 0x5555);
    let mut pop = values(&c["pop"]);
    let cap = c["cap"].as_u64().unwrap_or(12) as usize;
    let (cps, sps, mps, scales) = (fl(&c["cps"]), fl(&c["sps"]), fl(&c["mps"]), fl(&c["scales"]));
    let pinned = c["pinned"].as_bool().unwrap_or(false);
    let pmut = c["pmut"].as_f64().unwrap_or(0.5);
    // a run registers its initial value only; everything else it knows comes from its own operators
    let xreg = c["xreg"].as_bool().unwrap_or(true);
    let mut ctx = PathContext::default();
    if c["reg"].as_bool().unwrap() {
        for v in &pop {
            ctx.add_nodes_for(v);
        }
    }
    for _ in 0..c["steps"].as_u64().unwrap() {
        let new = if rng.gen_bool(pmut) {
            let v = pop.choose(&mut rng).unwrap().clone();
            let p = *mps.choose(&mut rng).unwrap();
            let mp = MutationParams { mutation_prob: p, mutation_scale: *scales.choose(&mut rng).unwrap() };
            match catch_unwind(AssertUnwindSafe(|| mutation::mutate(spec, &v, &mp, &mut ctx, &mut oprng))) {
                Ok(w) => {
                    emit(out, json!({"t": "mut", "p": prob_class(p), "pin": pinned, "v": val_enc(&v.0), "w": val_enc(&w.0)}));
                    w
                }
                Err(e) => {
                    emit(out, json!({"t": "panic", "op": "mut", "msg": panic_msg(e), "v": val_enc(&v.0)}));
                    return;
                }
            }
        } else {
            let k = rng.gen_range(1..=pop.len().min(8));
            let mut ps: Vec<Value> = (0..k).map(|_| pop.choose(&mut rng).unwrap().clone()).collect();
            if rng.gen_bool(0.1) {
                let p = ps[0].clone();
                ps.iter_mut().for_each(|x| *x = p.clone());
            }
            let cp = CrossoverParams {
                crossover_prob: *cps.choose(&mut rng).unwrap(),
                selection_pressure: *sps.choose(&mut rng).unwrap(),
            };
            if xreg {
                for v in &ps {
                    ctx.add_nodes_for(v);
                }
            }
            let refs: Vec<&Value> = ps.iter().collect();
            let cross: Crossover = Crossover::new();
            match catch_unwind(AssertUnwindSafe(|| cross.crossover(spec, &refs, &cp, &mut ctx, &mut oprng))) {
                Ok(w) => {
                    emit(
                        out,
                        json!({"t": "x", "ps": ps.iter().map(|p| val_enc(&p.0)).collect::<Vec<_>>(), "o": val_enc(&w.0)}),
                    );
                    w
                }
                Err(e) => {
                    emit(out, json!({"t": "panic", "op": "x", "msg": panic_msg(e), "v": val_enc(&ps[0].0)}));
                    return;
                }
            }
        };
        if pop.len() < cap {
            pop.push(new);
        } else {
            let i = rng.gen_range(0..pop.len());
            pop[i] = new;
        }
    }
}

/// many mutations with probability one of the same value
fn moves(spec: &Spec, c: &J, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(c["seed"].as_u64().unwrap());
    let v = Value(val_dec(&c["v"]));
    let mut outs = vec![];
    for _ in 0..c["reps"].as_u64().unwrap() {
        let mut ctx = PathContext::default();
        ctx.add_nodes_for(&v);
        let mp = MutationParams { mutation_prob: 1.0, mutation_scale: c["scale"].as_f64().unwrap() };
        match catch_unwind(AssertUnwindSafe(|| mutation::mutate(spec, &v, &mp, &mut ctx, &mut rng))) {
            Ok(w) => outs.push(val_enc(&w.0)),
            Err(e) => return emit(out, json!({"t": "panic", "op": "mut", "msg": panic_msg(e), "v": val_enc(&v.0)})),
        }
    }
    emit(out, json!({"t": "moves", "v": c["v"], "outs": outs}));
}

/// many recombinations of the same parents with crossover probability one
fn mix(spec: &Spec, c: &J, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(c["seed"].as_u64().unwrap());
    let ps = values(&c["ps"]);
    let refs: Vec<&Value> = ps.iter().collect();
    let cp = CrossoverParams { crossover_prob: 1.0, selection_pressure: c["sp"].as_f64().unwrap() };
    let mut ctx = PathContext::default();
    for v in &ps {
        ctx.add_nodes_for(v);
    }
    let cross: Crossover = Crossover::new();
    let mut outs: Vec<J> = vec![];
    for _ in 0..c["reps"].as_u64().unwrap() {
        match catch_unwind(AssertUnwindSafe(|| cross.crossover(spec, &refs, &cp, &mut ctx, &mut rng))) {
            Ok(w) => {
                let w = val_enc(&w.0);
                if !outs.contains(&w) {
                    outs.push(w)
                }
            }
            Err(e) => return emit(out, json!({"t": "panic", "op": "x", "msg": panic_msg(e), "v": c["ps"][0]})),
        }
    }
    emit(out, json!({"t": "mix", "ps": c["ps"], "outs": outs}));
}

/// the distinct results of many recombinations of the same parents
fn xs(spec: &Spec, c: &J, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(c["seed"].as_u64().unwrap());
    let ps = values(&c["ps"]);
    let refs: Vec<&Value> = ps.iter().collect();
    let mut outs: Vec<J> = vec![];
    let cross: Crossover = Crossover::new();
    for (cpr, sp) in fl(&c["cps"]).iter().flat_map(|a| fl(&c["sps"]).into_iter().map(|b| (*a, b))) {
        let cp = CrossoverParams { crossover_prob: cpr, selection_pressure: sp };
        let mut ctx = PathContext::default();
        for v in &ps {
            ctx.add_nodes_for(v);
        }
        for _ in 0..c["reps"].as_u64().unwrap() {
            match catch_unwind(AssertUnwindSafe(|| cross.crossover(spec, &refs, &cp, &mut ctx, &mut rng))) {
                Ok(w) => {
                    let w = val_enc(&w.0);
                    if !outs.contains(&w) {
                        outs.push(w)
                    }
                }
                Err(e) => return emit(out, json!({"t": "panic", "op": "x", "msg": panic_msg(e), "v": c["ps"]})),
            }
        }
    }
    emit(out, json!({"t": "xs", "ps": c["ps"], "outs": outs}));
}

/// the distinct results of many mutations of the same value with the same probability
fn muts(spec: &Spec, c: &J, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(c["seed"].as_u64().unwrap());
    let v = Value(val_dec(&c["v"]));
    let p = c["p"].as_f64().unwrap();
    let mp = MutationParams { mutation_prob: p, mutation_scale: c["scale"].as_f64().unwrap() };
    let mut outs: Vec<J> = vec![];
    for _ in 0..c["reps"].as_u64().unwrap() {
        let mut ctx = PathContext::default();
        ctx.add_nodes_for(&v);
        match catch_unwind(AssertUnwindSafe(|| mutation::mutate(spec, &v, &mp, &mut ctx, &mut rng))) {
            Ok(w) => {
                let w = val_enc(&w.0);
                if !outs.contains(&w) {
                    outs.push(w)
                }
            }
            Err(e) => return emit(out, json!({"t": "panic", "op": "mut", "msg": panic_msg(e), "v": c["v"]})),
        }
    }
    emit(out, json!({"t": "muts", "v": c["v"], "p": prob_class(p), "pin": c["pinned"], "outs": outs}));
}

/// how often each of the distinct ranked parents is the result
fn sel(spec: &Spec, c: &J, out: &mut Out) {
    let mut rng = StdRng::seed_from_u64(c["seed"].as_u64().unwrap());
    let ps = values(&c["ps"]);
    let refs: Vec<&Value> = ps.iter().collect();
    let mut counts = vec![0u64; ps.len()];
    let mut ctx = PathContext::default();
    for v in &ps {
        ctx.add_nodes_for(v);
    }
    let cross: Crossover = Crossover::new();
    let cp = CrossoverParams {
        crossover_prob: c["cp"].as_f64().unwrap(),
        selection_pressure: c["sp"].as_f64().unwrap(),
    };
    for _ in 0..c["reps"].as_u64().unwrap() {
        match catch_unwind(AssertUnwindSafe(|| cross.crossover(spec, &refs, &cp, &mut ctx, &mut rng))) {
            Ok(w) => match ps.iter().position(|p| *p == w) {
                Some(i) => counts[i] += 1,
                None => return emit(out, json!({"t": "panic", "op": "x", "msg": "not a parent", "v": val_enc(&w.0)})),
            },
            Err(e) => return emit(out, json!({"t": "panic", "op": "x", "msg": panic_msg(e), "v": ["const"]})),
        }
    }
    emit(out, json!({"t": "sel", "press": (cp.selection_pressure * 1000.0) as u64, "c": counts}));
}

/// distance of a parameter set from the described optimum
fn dist(v: &J, t: &J) -> f64 {
    if let Some(n) = t.get("$size").and_then(|x| x.as_f64()) {
        let m = v.as_object().map(|o| o.len()).unwrap_or(0) as f64;
        let e: f64 = match t.get("$each") {
            Some(t) => v.as_object().unwrap().values().map(|x| dist(x, t)).sum(),
            None => 0.0,
        };
        return (m - n) * (m - n) + e;
    }
    match (v, t) {
        (J::Number(a), J::Number(b)) => (a.as_f64().unwrap() - b.as_f64().unwrap()).powi(2),
        (J::Array(a), J::Array(b)) => a.iter().zip(b).map(|(x, y)| dist(x, y)).sum(),
        (J::Object(a), J::Object(b)) => {
            b.iter().map(|(k, y)| a.get(k).map(|x| dist(x, y)).unwrap_or(1.0)).sum::<f64>()
                + a.keys().filter(|k| !b.contains_key(*k)).count() as f64
        }
        (a, b) => (a != b) as u8 as f64,
    }
}

struct Bench {
    target: J,
    jitter: u64,
    rng: std::sync::Mutex<StdRng>,
}

#[async_trait::async_trait]
impl cambrian::meta::AsyncObjectiveFunction for Bench {
    async fn evaluate(
        &self,
        value: J,
        _abort: async_broadcast::Receiver<()>,
        _seed: u64,
        _id: usize,
    ) -> Result<Option<f64>, cambrian::error::Error> {
        let n = if self.jitter == 0 { 0 } else { self.rng.lock().unwrap().gen_range(0..self.jitter) };
        for _ in 0..n {
            tokio::task::yield_now().await;
        }
        Ok(Some(dist(&value, &self.target)))
    }
}

/// a whole run on a problem with a known optimum
fn bench(spec: Spec, c: &J, out: &mut Out) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let (_cmd_tx, cmd_rx) = futures::channel::mpsc::channel(8);
    let (rep_tx, rep_rx) = futures::channel::mpsc::channel(1 << 14);
    let init = dist(&spec.initial_value().to_json(), &c["opt"]);
    let obj = Bench {
        target: c["opt"].clone(),
        jitter: c["jitter"].as_u64().unwrap(),
        rng: std::sync::Mutex::new(StdRng::seed_from_u64(c["seed"].as_u64().unwrap())),
    };
    let cfg = cambrian::meta::AlgoConfigBuilder::new()
        .num_concurrent(c["conc"].as_u64().unwrap() as usize)
        .individual_sample_size(1)
        .build()
        .unwrap();
    let n = c["budget"].as_u64().unwrap() as usize;
    let r = catch_unwind(AssertUnwindSafe(|| {
        rt.block_on(cambrian::async_launch::launch(spec, obj, cfg, cmd_rx, rep_tx, Some(n), Some(0.0), None))
    }));
    drop(rep_rx);
    match r {
        Ok(Ok(r)) => {
            let best = r.best_seen.obj_func_val;
            let ratio = if best > 0.0 { (init / best).min(1e9) as i64 } else { 1_000_000_000 };
            emit(out, json!({"t": "bench", "name": c["name"], "zero": best == 0.0, "ratio": ratio,
                             "n": r.num_obj_func_eval_completed}))
        }
        Ok(Err(e)) => emit(out, json!({"t": "panic", "op": "bench", "msg": esc(&e.to_string())})),
        Err(e) => emit(out, json!({"t": "panic", "op": "bench", "msg": panic_msg(e)})),
    }
}

fn read_guess(spec: &Spec, j: &J) -> J {
    match catch_unwind(AssertUnwindSafe(|| value_util::from_json_value(j, spec))) {
        Ok(Ok(v)) => {
            let back = catch_unwind(AssertUnwindSafe(|| v.to_json()));
            match back {
                Ok(b) => json!(["ok", val_enc(&v.0), jenc(&b)]),
                Err(e) => json!(["panic", panic_msg(e)]),
            }
        }
        Ok(Err(e)) => json!(["err", esc(&e.to_string())]),
        Err(e) => json!(["panic", panic_msg(e)]),
    }
}

fn codec(spec: &Spec, c: &J, out: &mut Out) {
    let v = Value(val_dec(&c["v"]));
    match catch_unwind(AssertUnwindSafe(|| v.to_json())) {
        Ok(j) => {
            let text = serde_json::from_str::<J>(&j.to_string());
            let text = match text {
                Ok(t) => jenc(&t),
                Err(_) => json!(["unparsable"]),
            };
            emit(out, json!({"t": "codec", "v": c["v"], "j": jenc(&j), "text": text, "r": read_guess(spec, &j)}))
        }
        Err(e) => emit(out, json!({"t": "codec", "v": c["v"], "j": ["panic", panic_msg(e)], "text": ["z"], "r": ["err", ""]})),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var_os("OPS_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || work(&args)).unwrap();
    if t.join().is_err() {
        eprintln!("harness thread died");
        std::process::exit(3);
    }
}

fn work(args: &[String]) {
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    for line in input.lines() {
        let g: J = serde_json::from_str(&line.unwrap()).unwrap();
        if let Some(docs) = g["docs"].as_array() {
            for d in docs {
                let y = d["yaml"].as_str().unwrap();
                let r = match catch_unwind(AssertUnwindSafe(|| spec_util::from_yaml_str(y))) {
                    Ok(Ok(s)) => {
                        let init = match catch_unwind(AssertUnwindSafe(|| s.initial_value())) {
                            Ok(v) => val_enc(&v.0),
                            Err(_) => json!(["panic"]),
                        };
                        json!(["ok", spec_enc(&s.0), init])
                    }
                    Ok(Err(e)) => json!(["err", esc(&e.to_string())]),
                    Err(e) => json!(["panic", panic_msg(e)]),
                };
                emit(&mut out, json!({"t": "doc", "i": d["i"], "d": d["d"], "r": r}));
            }
            continue;
        }
        let spec = match catch_unwind(AssertUnwindSafe(|| spec_util::from_yaml_str(g["yaml"].as_str().unwrap()))) {
            Ok(Ok(s)) => s,
            _ => {
                emit(&mut out, json!({"t": "badspec", "i": g["i"]}));
                continue;
            }
        };
        emit(&mut out, json!({"t": "spec", "i": g["i"], "s": g["spec"]}));
        for c in g["cases"].as_array().unwrap() {
            match c["k"].as_str().unwrap() {
                "chain" => chain(&spec, c, &mut out),
                "moves" => moves(&spec, c, &mut out),
                "mix" => mix(&spec, c, &mut out),
                "xs" => xs(&spec, c, &mut out),
                "muts" => muts(&spec, c, &mut out),
                "bench" => bench(spec_util::from_yaml_str(g["yaml"].as_str().unwrap()).unwrap(), c, &mut out),
                "sel" => sel(&spec, c, &mut out),
                "codec" => codec(&spec, c, &mut out),
                "guess" => {
                    let j = jdec(&c["j"]);
                    emit(&mut out, json!({"t": "guess", "j": jenc(&j), "r": read_guess(&spec, &j)}))
                }
                "init" => match catch_unwind(AssertUnwindSafe(|| spec.initial_value())) {
                    Ok(v) => emit(&mut out, json!({"t": "init", "v": val_enc(&v.0)})),
                    Err(e) => emit(&mut out, json!({"t": "panic", "op": "init", "msg": panic_msg(e)})),
                },
                k => panic!("unknown case {k}"),
            }
        }
    }
}
