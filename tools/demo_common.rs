#![allow(dead_code, unused_imports)]
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::result::FinalReport;
use cambrian::{async_launch, spec_util};
use futures::channel::{mpsc, oneshot};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

type Out = Result<Option<f64>, Error>;
struct Ev {
    id: usize,
    seed: u64,
    value: Value,
    tx: Option<oneshot::Sender<Out>>,
    aborted: bool,
    ended: bool,
}
#[derive(Clone)]
struct Ctl {
    evs: Arc<Mutex<Vec<Ev>>>,
    honour: bool,
}
impl Ctl {
    fn new(honour: bool) -> Self {
        Ctl { evs: Arc::new(Mutex::new(vec![])), honour }
    }
    fn n(&self) -> usize {
        self.evs.lock().unwrap().len()
    }
    fn rel(&self, k: usize, out: Out) {
        let tx = self.evs.lock().unwrap()[k].tx.take();
        if let Some(tx) = tx {
            tx.send(out).ok();
        }
    }
    fn acc(&self, k: usize, x: f64) {
        self.rel(k, Ok(Some(x)))
    }
    fn rej(&self, k: usize) {
        self.rel(k, Ok(None))
    }
    fn fail(&self, k: usize, msg: &str) {
        self.rel(k, Err(Error::Io(std::io::Error::new(std::io::ErrorKind::Other, msg.to_string()))))
    }
    fn open(&self) -> Vec<usize> {
        let e = self.evs.lock().unwrap();
        (0..e.len()).filter(|k| e[*k].tx.is_some() && !e[*k].ended).collect()
    }
    fn aborted(&self, k: usize) -> bool {
        self.evs.lock().unwrap()[k].aborted
    }
}
#[async_trait]
impl AsyncObjectiveFunction for Ctl {
    async fn evaluate(&self, value: Value, mut abort: async_broadcast::Receiver<()>, seed: u64, id: usize) -> Out {
        let (tx, mut rx) = oneshot::channel();
        let k = {
            let mut e = self.evs.lock().unwrap();
            e.push(Ev { id, seed, value, tx: Some(tx), aborted: false, ended: false });
            e.len() - 1
        };
        let res = tokio::select! {
            r = &mut rx => r.unwrap_or(Ok(None)),
            _ = abort.recv() => {
                self.evs.lock().unwrap()[k].aborted = true;
                if self.honour { Ok(None) } else { rx.await.unwrap_or(Ok(None)) }
            }
        };
        self.evs.lock().unwrap()[k].ended = true;
        res
    }
}
async fn settle() {
    for _ in 0..300 {
        tokio::task::yield_now().await;
    }
}
struct Run {
    ctl: Ctl,
    cmd: mpsc::Sender<Command>,
    h: tokio::task::JoinHandle<Result<FinalReport, Error>>,
}
impl Run {
    fn term(&mut self) {
        self.cmd.try_send(Command::Terminate).ok();
    }
    fn finished(&self) -> bool {
        self.h.is_finished()
    }
    async fn result(self) -> Result<FinalReport, Error> {
        tokio::time::timeout(std::time::Duration::from_secs(20), self.h).await.expect("run hangs").expect("run panicked")
    }
}
fn start(yaml: &str, conc: usize, sample: usize, n: Option<usize>, target: Option<f64>, guess: Option<Value>, honour: bool) -> Run {
    let spec = spec_util::from_yaml_str(yaml).unwrap();
    let cfg = AlgoConfigBuilder::new().num_concurrent(conc).individual_sample_size(sample).build().unwrap();
    let (cmd, cmd_rx) = mpsc::channel(16);
    let (rep_tx, rep_rx) = mpsc::channel(100_000);
    let ctl = Ctl::new(honour);
    let c2 = ctl.clone();
    let h = tokio::task::spawn_local(async move {
        let _keep = rep_rx;
        async_launch::launch(spec, c2, cfg, cmd_rx, rep_tx, n, target, guess).await
    });
    Run { ctl, cmd, h }
}
fn run_local<F: std::future::Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f);
}
const SPEC: &str = "{x: {type: real, init: 1.0, scale: 1.0}, n: {type: int, init: 3, scale: 2.0}}";
