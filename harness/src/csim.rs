//! Simulated client-side transport: every hand-over is an event with an index and a (virtual) time.
use crate::exec::{yield_now, Spawner};
use crate::rng::Rng;
use postcard_rpc::host_client::{WireRx, WireSpawn, WireTx};
use std::collections::VecDeque;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

#[derive(Debug)]
pub struct CErr(pub &'static str);
impl std::fmt::Display for CErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for CErr {}

pub enum RxIt {
    Frame(usize, Vec<u8>),
    Fail,
}
/// one frame handed to the client: from the return of receive() to the next call of receive()
#[derive(Clone, Debug)]
pub struct RxEv {
    pub id: usize,
    pub e: u64,
    pub te: u64,
    pub f: Option<u64>,
    pub tf: u64,
}
#[derive(Clone, Debug)]
pub struct TxEv {
    pub frame: Vec<u8>,
    pub begin: u64,
    pub end: Option<u64>,
}
pub struct CState {
    pub clock: u64,
    pub base: Option<tokio::time::Instant>,
    pub rng: Rng,
    pub max_yields: usize,
    pub rx: VecDeque<RxIt>,
    pub rx_waker: Option<Waker>,
    pub rx_ev: Vec<RxEv>,
    pub tx: Vec<TxEv>,
    pub peer_waker: Option<Waker>,
    pub tx_stalled: bool,
    pub tx_waker: Option<Waker>,
    pub tx_fail_at: Option<usize>,
    /// only that one send fails; the link would carry later ones
    pub tx_fail_once: bool,
    pub rx_failed: Option<u64>,
    pub tx_failed: Option<u64>,
    pub rx_dropped: Option<u64>,
    pub tx_dropped: Option<u64>,
    /// called with every frame that was sent successfully
    pub on_tx: Option<Box<dyn FnMut(&[u8]) + Send>>,
}
impl CState {
    pub fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
    pub fn now(&self) -> u64 {
        match self.base {
            Some(b) => (tokio::time::Instant::now() - b).as_micros() as u64,
            None => 0,
        }
    }
}
pub type CLink = Arc<Mutex<CState>>;

pub fn clink(rng: Rng, max_yields: usize) -> CLink {
    Arc::new(Mutex::new(CState {
        clock: 0,
        base: None,
        rng,
        max_yields,
        rx: VecDeque::new(),
        rx_waker: None,
        rx_ev: vec![],
        tx: vec![],
        peer_waker: None,
        tx_stalled: false,
        tx_waker: None,
        tx_fail_at: None,
        tx_fail_once: false,
        rx_failed: None,
        tx_failed: None,
        rx_dropped: None,
        tx_dropped: None,
        on_tx: None,
    }))
}
pub fn tick(l: &CLink) -> u64 {
    l.lock().unwrap().tick()
}
pub fn push(l: &CLink, it: RxIt) {
    let w = {
        let mut g = l.lock().unwrap();
        g.rx.push_back(it);
        g.rx_waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}
pub fn set_stall(l: &CLink, on: bool) {
    let w = {
        let mut g = l.lock().unwrap();
        g.tx_stalled = on;
        g.tx_waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}
pub async fn yields(l: &CLink) {
    let n = {
        let mut g = l.lock().unwrap();
        let m = g.max_yields;
        g.rng.below(m + 1)
    };
    for _ in 0..n {
        yield_now().await;
    }
}
pub struct CTx(pub CLink);
pub struct CRx(pub CLink);
impl Drop for CTx {
    fn drop(&mut self) {
        let mut g = self.0.lock().unwrap();
        let t = g.tick();
        g.tx_dropped = Some(t);
    }
}
impl Drop for CRx {
    fn drop(&mut self) {
        let mut g = self.0.lock().unwrap();
        let t = g.tick();
        g.rx_dropped = Some(t);
    }
}
impl WireTx for CTx {
    type Error = CErr;
    async fn send(&mut self, data: Vec<u8>) -> Result<(), CErr> {
        let (i, fail, w) = {
            let mut g = self.0.lock().unwrap();
            let i = g.tx.len();
            let t = g.tick();
            g.tx.push(TxEv { frame: data, begin: t, end: None });
            let fail = g.tx_fail_at.map(|n| if g.tx_fail_once { i == n } else { i >= n }).unwrap_or(false);
            (i, fail, g.peer_waker.take())
        };
        yields(&self.0).await;
        std::future::poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            if g.tx_stalled {
                g.tx_waker = Some(cx.waker().clone());
                Poll::Pending
            } else {
                Poll::Ready(())
            }
        })
        .await;
        let mut g = self.0.lock().unwrap();
        let t = g.tick();
        if fail {
            g.tx_failed = Some(t);
            return Err(CErr("injected send failure"));
        }
        g.tx[i].end = Some(t);
        let w2 = g.peer_waker.take();
        if let Some(mut fw) = g.on_tx.take() {
            fw(&g.tx[i].frame);
            g.on_tx = Some(fw);
        }
        drop(g);
        for w in [w, w2].into_iter().flatten() {
            w.wake();
        }
        Ok(())
    }
}
impl WireRx for CRx {
    type Error = CErr;
    async fn receive(&mut self) -> Result<Vec<u8>, CErr> {
        {
            let mut g = self.0.lock().unwrap();
            let t = g.tick();
            let now = g.now();
            if let Some(l) = g.rx_ev.last_mut() {
                if l.f.is_none() {
                    l.f = Some(t);
                    l.tf = now;
                }
            }
        }
        let it = std::future::poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            match g.rx.pop_front() {
                Some(x) => Poll::Ready(x),
                None => {
                    g.rx_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await;
        match it {
            RxIt::Frame(id, f) => {
                yields(&self.0).await;
                let mut g = self.0.lock().unwrap();
                let e = g.tick();
                let te = g.now();
                g.rx_ev.push(RxEv { id, e, te, f: None, tf: te });
                Ok(f)
            }
            RxIt::Fail => {
                let mut g = self.0.lock().unwrap();
                let t = g.tick();
                g.rx_failed = Some(t);
                Err(CErr("injected receive failure"))
            }
        }
    }
}
pub struct CSpawn(pub Spawner);
impl WireSpawn for CSpawn {
    fn spawn(&mut self, fut: impl Future<Output = ()> + Send + 'static) {
        self.0.spawn("worker", fut);
    }
}
