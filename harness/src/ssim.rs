//! Simulated server-side transport: records every event, injects faults keyed by message.
use crate::exec::{yield_now, Join, Spawner};
use crate::refc::*;
use crate::rng::Rng;
use postcard_rpc::header::{VarHeader, VarKeyKind};
use postcard_rpc::server::*;
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::Topic;
use std::collections::{HashMap, VecDeque};
use std::fmt::Arguments;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// receive() handed this frame (by script index) to the server
    Rx(usize),
    RxErr(usize),
    Start { which: u32, hdr: RHdr, req: Vec<u8> },
    End { which: u32, hdr: RHdr },
    /// send() called with this frame
    SendBegin { id: u32, frame: Vec<u8> },
    /// send() returned; Ok or the injected error id
    SendEnd { id: u32, err: Option<u32> },
    /// spawn_fn was called and did / did not spawn
    Spawn { ok: bool },
    /// Server::run returned
    Ret { tx: bool, kind: &'static str, id: u32 },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TxK {
    Closed,
    Other,
    Timeout,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RxK {
    Closed,
    TooLarge,
    Other,
}
#[derive(Debug, Clone, PartialEq)]
pub struct STxErr {
    pub kind: TxK,
    pub id: u32,
}
#[derive(Debug, Clone, PartialEq)]
pub struct SRxErr {
    pub kind: RxK,
    pub id: u32,
}
impl AsWireTxErrorKind for STxErr {
    fn as_kind(&self) -> WireTxErrorKind {
        match self.kind {
            TxK::Closed => WireTxErrorKind::ConnectionClosed,
            TxK::Other => WireTxErrorKind::Other,
            TxK::Timeout => WireTxErrorKind::Timeout,
        }
    }
}
impl AsWireRxErrorKind for SRxErr {
    fn as_kind(&self) -> WireRxErrorKind {
        match self.kind {
            RxK::Closed => WireRxErrorKind::ConnectionClosed,
            RxK::TooLarge => WireRxErrorKind::ReceivedMessageTooLarge,
            RxK::Other => WireRxErrorKind::Other,
        }
    }
}

#[derive(Clone, Debug)]
pub enum RxItem {
    Frame(Vec<u8>),
    Err(RxK, u32),
}

pub struct SState {
    pub log: Vec<Ev>,
    pub rx: VecDeque<(usize, RxItem)>,
    pub rx_waker: Option<Waker>,
    pub rng: Rng,
    /// faults for a send of (sequence value, key matches error key)
    pub faults: HashMap<(u32, bool), (TxK, u32)>,
    /// frames longer than this are refused with `Other` and id u32::MAX
    pub max_frame: usize,
    /// random recoverable failures: one send in this many (0: none)
    pub fail_1_in: usize,
    pub log_ctr: u32,
    pub next_send: u32,
    pub max_yields: usize,
    pub spawn_fail: HashMap<usize, bool>,
    pub spawn_calls: usize,
    /// gate that spawned handlers wait on
    pub gate_open: bool,
    pub gate_wakers: Vec<Waker>,
    pub in_flight: usize,
    pub max_in_flight: usize,
    /// called with every frame that was sent successfully
    pub forward: Option<Box<dyn FnMut(&[u8]) + Send>>,
}
pub type SLink = Arc<Mutex<SState>>;

pub fn slink(rng: Rng) -> SLink {
    Arc::new(Mutex::new(SState {
        log: vec![],
        rx: VecDeque::new(),
        rx_waker: None,
        rng,
        faults: HashMap::new(),
        max_frame: usize::MAX,
        fail_1_in: 0,
        log_ctr: 0,
        next_send: 0,
        max_yields: 2,
        spawn_fail: HashMap::new(),
        spawn_calls: 0,
        gate_open: true,
        gate_wakers: vec![],
        in_flight: 0,
        max_in_flight: 0,
        forward: None,
    }))
}
pub fn push_rx(l: &SLink, idx: usize, it: RxItem) {
    let mut g = l.lock().unwrap();
    g.rx.push_back((idx, it));
    if let Some(w) = g.rx_waker.take() {
        drop(g);
        w.wake();
    }
}
pub fn open_gate(l: &SLink) {
    let mut g = l.lock().unwrap();
    g.gate_open = true;
    let ws = std::mem::take(&mut g.gate_wakers);
    drop(g);
    for w in ws {
        w.wake();
    }
}
pub async fn gate(l: &SLink) {
    std::future::poll_fn(|cx| {
        let mut g = l.lock().unwrap();
        if g.gate_open {
            Poll::Ready(())
        } else {
            g.gate_wakers.push(cx.waker().clone());
            Poll::Pending
        }
    })
    .await
}
pub async fn rand_yields(l: &SLink) {
    let n = {
        let mut g = l.lock().unwrap();
        let m = g.max_yields;
        g.rng.below(m + 1)
    };
    for _ in 0..n {
        yield_now().await;
    }
}

#[derive(Clone)]
pub struct STx {
    pub link: SLink,
}
impl STx {
    async fn push(&self, f: Vec<u8>) -> Result<(), STxErr> {
        let (id, fault) = {
            let mut g = self.link.lock().unwrap();
            let id = g.next_send;
            g.next_send += 1;
            let fault = match dec(&f) {
                Some((h, _)) => {
                    let is_err = keys_match(&h.key, &postcard_rpc::standard_icd::ERROR_KEY.to_bytes());
                    g.faults.get(&(h.seq, is_err)).copied()
                }
                None => None,
            };
            let fault = if f.len() > g.max_frame { Some((TxK::Other, u32::MAX)) } else { fault };
            let n = g.fail_1_in;
            let fault = if n != 0 && g.rng.chance(1, n) { Some((TxK::Other, u32::MAX - 2)) } else { fault };
            g.log.push(Ev::SendBegin { id, frame: f.clone() });
            g.in_flight += 1;
            g.max_in_flight = g.max_in_flight.max(g.in_flight);
            (id, fault)
        };
        rand_yields(&self.link).await;
        let mut g = self.link.lock().unwrap();
        g.in_flight -= 1;
        g.log.push(Ev::SendEnd { id, err: fault.map(|f| f.1) });
        match fault {
            None => {
                if let Some(fw) = g.forward.as_mut() {
                    fw(&f);
                }
                Ok(())
            }
            Some((kind, id)) => Err(STxErr { kind, id }),
        }
    }
}
impl WireTx for STx {
    type Error = STxErr;
    async fn send<T: serde::Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), STxErr> {
        let mut f = enc(&rhdr(&hdr));
        match postcard::to_stdvec(msg) {
            Ok(b) => f.extend(b),
            Err(_) => return Err(STxErr { kind: TxK::Other, id: u32::MAX - 1 }),
        }
        self.push(f).await
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), STxErr> {
        self.push(buf.to_vec()).await
    }
    async fn send_log_str(&self, k: VarKeyKind, s: &str) -> Result<(), STxErr> {
        let n = {
            let mut g = self.link.lock().unwrap();
            g.log_ctr += 1;
            g.log_ctr - 1
        };
        self.push(frame(LoggingTopic::TOPIC_KEY, klen(k), n, 4, &postcard::to_stdvec(s).unwrap())).await
    }
    async fn send_log_fmt<'a>(&self, k: VarKeyKind, a: Arguments<'a>) -> Result<(), STxErr> {
        let s = format!("{a}");
        self.send_log_str(k, &s).await
    }
}

pub struct SRx {
    pub link: SLink,
}
impl WireRx for SRx {
    type Error = SRxErr;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], SRxErr> {
        let (idx, it) = std::future::poll_fn(|cx| {
            let mut g = self.link.lock().unwrap();
            match g.rx.pop_front() {
                Some(x) => Poll::Ready(x),
                None => {
                    g.rx_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await;
        rand_yields(&self.link).await;
        match it {
            RxItem::Frame(f) => {
                if f.len() > buf.len() {
                    self.link.lock().unwrap().log.push(Ev::RxErr(idx));
                    return Err(SRxErr { kind: RxK::TooLarge, id: idx as u32 });
                }
                // a transport may scribble over the rest of the buffer
                let scr = self.link.lock().unwrap().rng.u8();
                buf.fill(scr);
                buf[..f.len()].copy_from_slice(&f);
                self.link.lock().unwrap().log.push(Ev::Rx(idx));
                Ok(&mut buf[..f.len()])
            }
            RxItem::Err(kind, id) => {
                self.link.lock().unwrap().log.push(Ev::RxErr(idx));
                Err(SRxErr { kind, id })
            }
        }
    }
}

#[derive(Clone)]
pub struct SSpawn {
    pub sp: Spawner,
    pub link: SLink,
}
impl WireSpawn for SSpawn {
    type Error = ();
    type Info = Spawner;
    fn info(&self) -> &Spawner {
        &self.sp
    }
}
pub fn s_spawn(sp: &SSpawn, fut: impl Future<Output = ()> + Send + 'static) -> Result<(), ()> {
    let ok = {
        let mut g = sp.link.lock().unwrap();
        let n = g.spawn_calls;
        g.spawn_calls += 1;
        let ok = !g.spawn_fail.get(&n).copied().unwrap_or(false);
        g.log.push(Ev::Spawn { ok });
        ok
    };
    if ok {
        let _j: Join = sp.info().spawn("handler", fut);
        Ok(())
    } else {
        Err(())
    }
}
