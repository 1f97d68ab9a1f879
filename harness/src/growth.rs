//! C20 (growth): live heap bytes of a long-lived client and server under traffic of every kind.
//! The global allocator counts per thread; every case stays on its thread.
use crate::icd::*;
use crate::probe_common::*;
use crate::refc::*;
use crate::report::*;
use crate::rng::Rng;
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq, VarSeqKind};
use postcard_rpc::host_client::{HostClient, RpcFrame};
use postcard_rpc::server::{self, Dispatch, Server};
use postcard_rpc::standard_icd::*;
use postcard_rpc::{Endpoint, Key, Topic};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.realloc(p, l, n)
    }
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;
/// tasks of the library; polled round robin by `pump`
type Tasks = Arc<Mutex<Vec<Fut>>>;
fn pump(t: &Tasks, n: usize) {
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..n {
        // tasks may spawn: take them out while polling
        let cur = std::mem::take(&mut *t.lock().unwrap());
        let mut keep = vec![];
        for mut f in cur {
            if f.as_mut().poll(&mut cx).is_pending() {
                keep.push(f);
            }
        }
        let mut g = t.lock().unwrap();
        keep.append(&mut g);
        *g = keep;
    }
}
/// a boxed future that is dropped when it is done
struct Op<F>(Option<Pin<Box<F>>>);
fn op<F: Future>(f: F) -> Op<F> {
    Op(Some(Box::pin(f)))
}
fn poll<F: Future>(f: &mut Op<F>) -> Option<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    match f.0.as_mut()?.as_mut().poll(&mut cx) {
        Poll::Ready(x) => {
            f.0 = None;
            Some(x)
        }
        Poll::Pending => None,
    }
}
fn drive<F: Future>(t: &Tasks, f: F) -> Option<F::Output> {
    let mut f = op(f);
    for _ in 0..50 {
        if let Some(x) = poll(&mut f) {
            return Some(x);
        }
        pump(t, 1);
    }
    None
}

#[derive(Default)]
struct Pipe {
    rx: VecDeque<Result<Vec<u8>, ()>>,
    tx: VecDeque<Vec<u8>>,
    fail_tx: bool,
}
type P = Arc<Mutex<Pipe>>;
struct GcTx(P);
struct GcRx(P);
#[derive(Clone)]
struct GSp(Tasks);
use crate::csim::CErr;
impl postcard_rpc::host_client::WireTx for GcTx {
    type Error = CErr;
    async fn send(&mut self, d: Vec<u8>) -> Result<(), CErr> {
        let mut g = self.0.lock().unwrap();
        if g.fail_tx {
            return Err(CErr("send"));
        }
        g.tx.push_back(d);
        Ok(())
    }
}
impl postcard_rpc::host_client::WireRx for GcRx {
    type Error = CErr;
    async fn receive(&mut self) -> Result<Vec<u8>, CErr> {
        std::future::poll_fn(|_| match self.0.lock().unwrap().rx.pop_front() {
            Some(x) => Poll::Ready(x.map_err(|_| CErr("receive"))),
            None => Poll::Pending,
        })
        .await
    }
}
impl postcard_rpc::host_client::WireSpawn for GSp {
    fn spawn(&mut self, f: impl Future<Output = ()> + Send + 'static) {
        self.0.lock().unwrap().push(Box::pin(f));
    }
}

fn fr(key: Key, kl: usize, seq: u32, sw: usize, body: &[u8]) -> Vec<u8> {
    let full = key.to_bytes();
    let mut f = enc(&RHdr { key: fold(&full, kl), seq, slen: sw });
    f.extend_from_slice(body);
    f
}
fn inject(p: &P, f: Vec<u8>) {
    p.lock().unwrap().rx.push_back(Ok(f));
}

struct Obs {
    per_round: Vec<i64>,
    allocs: u64,
}
fn judge(case: &mut Case, what: &str, o: Obs) -> Result<(), String> {
    let n = o.per_round.len();
    let early = o.per_round[n / 4..n / 2].iter().max().unwrap();
    let late = o.per_round[3 * n / 4..].iter().min().unwrap();
    case.log(|| format!("{what}: live bytes {:?}", o.per_round));
    case.count("heap_samples", n as u64);
    case.count("allocations_seen", o.allocs);
    case.evals = n as u64;
    case.nontrivial = true;
    case.note = Some(format!("{what}: {n} rounds, {} allocations, live bytes {early} (most, second quarter) / {late} (least, last quarter)", o.allocs));
    if *late > *early + 512 {
        return Err(format!("{what}: live memory grows with traffic, at most {early} bytes in rounds {}..{} but at least {late} in the last {} of {n}", n / 4, n / 2, n - 3 * n / 4));
    }
    Ok(())
}

type C = HostClient<WireError>;
struct Wld {
    c: C,
    p: P,
    t: Tasks,
    kl: usize,
    seqw: usize,
    raw: u32,
    /// subscriptions come and go without any message for them
    quiet: bool,
}
fn wld(rng: &mut Rng) -> Wld {
    let p: P = Default::default();
    let t: Tasks = Default::default();
    let seqw = *rng.pick(&[1usize, 2, 4]);
    let k = match seqw {
        1 => VarSeqKind::Seq1,
        2 => VarSeqKind::Seq2,
        _ => VarSeqKind::Seq4,
    };
    let c = C::new_with_wire(GcTx(p.clone()), GcRx(p.clone()), GSp(t.clone()), k, "error", rng.range(1, 8));
    Wld { c, p, t, kl: *rng.pick(&[1usize, 2, 4, 8]), seqw, raw: 0, quiet: rng.chance(1, 3) }
}
impl Wld {
    fn sent(&self) -> Option<RHdr> {
        let f = self.p.lock().unwrap().tx.pop_back()?;
        dec(&f).map(|x| x.0)
    }
    /// one traffic round; which: restrict to one kind of operation
    fn round(&mut self, case: &mut Case, rng: &mut Rng, which: usize) {
        for i in 0..6u32 {
            let kind = if which < 9 { which } else { rng.below(9) };
            match kind {
                // typed call: answered, answered twice, refused by the server, undecodable answer
                0 => {
                    let m = "abc".to_string();
                    let mut f = op(self.c.send_resp::<EpStr>(&m));
                    let _ = poll(&mut f);
                    pump(&self.t, 2);
                    let Some(h) = self.sent() else { continue };
                    match rng.below(4) {
                        0 | 1 => {
                            let b = postcard::to_stdvec("a reply of some length").unwrap();
                            for _ in 0..rng.range(1, 3) {
                                inject(&self.p, fr(EpStr::RESP_KEY, self.kl, h.seq, h.slen, &b));
                            }
                            case.count("calls_answered", 1);
                        }
                        2 => {
                            let b = postcard::to_stdvec(&WireError::UnknownKey).unwrap();
                            inject(&self.p, fr(ERROR_KEY, self.kl, h.seq, h.slen, &b));
                            case.count("calls_refused", 1);
                        }
                        _ => inject(&self.p, fr(EpStr::RESP_KEY, self.kl, h.seq, h.slen, &[200])),
                    }
                    pump(&self.t, 4);
                    let _ = poll(&mut f);
                }
                // abandoned at some point, late answer
                1 => {
                    let k = rng.below(4);
                    let m = "xyz".to_string();
                    let mut f = op(self.c.send_resp::<EpStr>(&m));
                    for _ in 0..k {
                        let _ = poll(&mut f);
                        pump(&self.t, 1);
                    }
                    drop(f);
                    pump(&self.t, 2);
                    if let Some(h) = self.sent() {
                        let b = postcard::to_stdvec("late").unwrap();
                        inject(&self.p, fr(EpStr::RESP_KEY, self.kl, h.seq, h.slen, &b));
                    }
                    pump(&self.t, 3);
                    case.count("calls_abandoned", 1);
                }
                // raw call, a duplicate of it in flight, then answered
                2 => {
                    self.raw = self.raw.wrapping_add(1) & 0x7f;
                    let s = match self.seqw {
                        1 => VarSeq::Seq1(self.raw as u8),
                        2 => VarSeq::Seq2(self.raw as u16 + 30000),
                        _ => VarSeq::Seq4(self.raw + 0x4000_0000),
                    };
                    let mk = || RpcFrame { header: VarHeader { key: VarKey::Key8(EpBlk::REQ_KEY), seq_no: s }, body: vec![1, 2, 3] };
                    let mut a = op(self.c.send_resp_raw(mk(), EpBlk::RESP_KEY));
                    let mut b = op(self.c.send_resp_raw(mk(), EpBlk::RESP_KEY));
                    let _ = poll(&mut a);
                    let _ = poll(&mut b);
                    pump(&self.t, 2);
                    if let Some(h) = self.sent() {
                        inject(&self.p, fr(EpBlk::RESP_KEY, self.kl, h.seq, h.slen, &[9; 20]));
                    }
                    pump(&self.t, 3);
                    let _ = poll(&mut a);
                    let _ = poll(&mut b);
                    case.count("duplicates", 1);
                }
                3 => {
                    let m = format!("message {i}");
                    drive(&self.t, self.c.publish::<TiStr>(VarSeq::Seq2(i as u16), &m));
                    let f = RpcFrame { header: VarHeader { key: VarKey::Key8(TiBlk::TOPIC_KEY), seq_no: VarSeq::Seq1(1) }, body: rng.bytes(40) };
                    drive(&self.t, self.c.publish_raw(f));
                    case.count("published", 2);
                }
                // frames nobody waits for
                4 => {
                    for _ in 0..if self.quiet { 0 } else { 4 } {
                        let n = rng.below(30);
                        let junk = rng.bytes(n);
                        inject(&self.p, junk);
                        let seq = rng.u32() & 0xff;
                        inject(&self.p, fr(EpBig::RESP_KEY, 8, seq, 4, &[1, 1]));
                        inject(&self.p, fr(ERROR_KEY, 8, seq, 4, &[1, 1]));
                        inject(&self.p, fr(ToD::TOPIC_KEY, 8, seq, 4, &[0]));
                    }
                    pump(&self.t, 20);
                    case.count("unsolicited", 16);
                }
                // subscriptions of every kind: overflow, read some, drop
                _ => {
                    let d = rng.range(1, 3);
                    let nm = if self.quiet { 0 } else { rng.below(6) };
                    let t = self.t.clone();
                    let send = |w: &Wld, k: Key| {
                        for j in 0..nm {
                            inject(&w.p, fr(k, w.kl, j as u32, 2, &postcard::to_stdvec("topic body").unwrap()));
                        }
                        pump(&w.t, nm + 2);
                    };
                    match kind {
                        5 => {
                            if let Some(Ok(mut s)) = drive(&t, self.c.subscribe_exclusive::<ToB>(d)) {
                                let _ = drive(&t, self.c.subscribe_exclusive::<ToB>(d)).map(|r| r.is_err());
                                send(self, ToB::TOPIC_KEY);
                                let mut r = op(s.recv());
                                let _ = poll(&mut r);
                            }
                        }
                        6 => {
                            if let Some(Ok(mut s)) = drive(&t, self.c.subscribe_exclusive_raw(ToA::TOPIC_KEY, d)) {
                                send(self, ToA::TOPIC_KEY);
                                let mut r = op(s.recv());
                                let _ = poll(&mut r);
                            }
                        }
                        7 if self.quiet => {
                            #[allow(deprecated)]
                            let s = drive(&t, self.c.subscribe_raw(ToC::TOPIC_KEY, d));
                            drop(s);
                        }
                        7 => {
                            #[allow(deprecated)]
                            let s = drive(&t, self.c.subscribe::<ToC>(d));
                            #[allow(deprecated)]
                            let s2 = drive(&t, self.c.subscribe_raw(ToC::TOPIC_KEY, d));
                            send(self, ToC::TOPIC_KEY);
                            drop((s, s2));
                        }
                        _ => {
                            let a = drive(&t, self.c.subscribe_multi::<ToD>(d));
                            let b = drive(&t, self.c.subscribe_multi_raw(ToD::TOPIC_KEY, d));
                            send(self, ToD::TOPIC_KEY);
                            if let Some(Ok(mut b)) = b {
                                let mut r = op(b.recv());
                                let _ = poll(&mut r);
                            }
                            drop(a);
                        }
                    }
                    case.count("subscriptions", 1);
                }
            }
        }
        // finished subscriptions are dropped by the client when the next message for them arrives
        pump(&self.t, 3);
        for k in [ToA::TOPIC_KEY, ToB::TOPIC_KEY, ToC::TOPIC_KEY, ToD::TOPIC_KEY] {
            for _ in 0..if self.quiet { 0 } else { 2 } {
                inject(&self.p, fr(k, self.kl, 0, 1, &[0]));
            }
        }
        pump(&self.t, 14);
        let mut g = self.p.lock().unwrap();
        g.tx.clear();
        g.tx.shrink_to_fit();
        g.rx.shrink_to_fit();
    }
}

fn rounds(case: &Case) -> usize {
    if cfg!(miri) {
        16
    } else if case.tier == Tier::Quick {
        160
    } else {
        600
    }
}

fn c20_client(case: &mut Case) -> Result<(), String> {
    let mut rng = case.rng.fork();
    let mut w = wld(&mut rng);
    let which = rng.below(14);
    case.sig(which as u64 * 100 + 10_000 * w.quiet as u64 + w.kl as u64 * 10 + w.seqw as u64);
    let n = rounds(case);
    let mut per = Vec::with_capacity(n);
    // the case's own counters are allocated up front
    for k in ["calls_answered", "calls_refused", "calls_abandoned", "duplicates", "published", "unsolicited", "subscriptions"] {
        case.count(k, 0);
    }
    let (b, a0) = (live(), ALLOCS.with(|a| a.get()));
    for _ in 0..n {
        w.round(case, &mut rng, which);
        per.push(live() - b);
    }
    if w.c.is_closed() {
        panic!("the client of the growth workload closed");
    }
    let allocs = ALLOCS.with(|a| a.get()) - a0;
    judge(case, "client", Obs { per_round: per, allocs })
}

/// whole life of a client, ended in different ways; nothing may stay behind
fn c20_lives(case: &mut Case) -> Result<(), String> {
    let mut rng = case.rng.fork();
    for k in ["calls_answered", "calls_refused", "calls_abandoned", "duplicates", "published", "unsolicited", "subscriptions", "lives"] {
        case.count(k, 0);
    }
    let end = rng.below(6);
    case.sig(1000 + end as u64);
    let n = rounds(case) / 2;
    let mut per = Vec::with_capacity(n);
    let (b, a0) = (live(), ALLOCS.with(|a| a.get()));
    for _ in 0..n {
        let mut w = wld(&mut rng);
        let which = rng.below(12);
        w.round(case, &mut rng, which);
        let c2 = w.c.clone();
        let ms = "pending".to_string();
        let mut call = op(c2.send_resp::<EpStr>(&ms));
        let mut call2 = op(c2.send_resp::<EpStr>(&ms));
        let _ = poll(&mut call);
        let _ = poll(&mut call2);
        let s = drive(&w.t, c2.subscribe_exclusive::<ToB>(2));
        let m = drive(&w.t, c2.subscribe_multi::<ToD>(2));
        inject(&w.p, fr(ToB::TOPIC_KEY, w.kl, 0, 1, &postcard::to_stdvec("held").unwrap()));
        inject(&w.p, fr(ToD::TOPIC_KEY, w.kl, 0, 1, &[0]));
        pump(&w.t, 3);
        let mut wt = op(c2.wait_closed());
        let _ = poll(&mut wt);
        match end {
            0 => w.c.close(),
            1 => w.p.lock().unwrap().rx.push_back(Err(())),
            2 => {
                w.p.lock().unwrap().fail_tx = true;
                drive(&w.t, w.c.publish::<TiStr>(VarSeq::Seq1(0), &"x".to_string()));
            }
            // the executor drops the workers
            3 => w.t.lock().unwrap().clear(),
            4 => {
                drop(std::mem::replace(&mut w.c, c2.clone()));
            }
            _ => {
                w.c.close();
                w.c.close();
            }
        }
        if end != 4 {
            pump(&w.t, 6);
        }
        let r = poll(&mut call).is_some();
        let _ = poll(&mut wt);
        drop((call, call2, wt, s, m));
        drop(c2);
        drop(w.c);
        pump(&w.t, 6);
        drop(std::mem::take(&mut *w.t.lock().unwrap()));
        drop((w.p, w.t));
        case.count("lives", 1);
        if r {
            case.count("calls_refused", 1);
        }
        per.push(live() - b);
    }
    let allocs = ALLOCS.with(|a| a.get()) - a0;
    judge(case, "client, whole lives", Obs { per_round: per, allocs })
}

// ------------------------------------------------------------------ server

#[derive(Clone)]
pub struct GTx;
#[derive(Debug)]
pub struct GErr;
impl server::AsWireTxErrorKind for GErr {
    fn as_kind(&self) -> server::WireTxErrorKind {
        server::WireTxErrorKind::Other
    }
}
impl server::AsWireRxErrorKind for GErr {
    fn as_kind(&self) -> server::WireRxErrorKind {
        server::WireRxErrorKind::Other
    }
}
thread_local! {
    static SENT: Cell<u64> = const { Cell::new(0) };
    static GFAIL: Cell<bool> = const { Cell::new(false) };
}
fn g_out() -> Result<(), GErr> {
    SENT.with(|s| s.set(s.get() + 1));
    if GFAIL.with(|f| f.get()) {
        Err(GErr)
    } else {
        Ok(())
    }
}
impl server::WireTx for GTx {
    type Error = GErr;
    async fn send<T: serde::Serialize + ?Sized>(&self, _h: VarHeader, m: &T) -> Result<(), GErr> {
        let _ = postcard::to_stdvec(m);
        g_out()
    }
    async fn send_raw(&self, _b: &[u8]) -> Result<(), GErr> {
        g_out()
    }
    async fn send_log_str(&self, _k: VarKeyKind, _s: &str) -> Result<(), GErr> {
        g_out()
    }
    async fn send_log_fmt<'a>(&self, _k: VarKeyKind, _a: std::fmt::Arguments<'a>) -> Result<(), GErr> {
        g_out()
    }
}
struct GsRx(P);
impl server::WireRx for GsRx {
    type Error = GErr;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], GErr> {
        let f = std::future::poll_fn(|_| match self.0.lock().unwrap().rx.pop_front() {
            Some(x) => Poll::Ready(x),
            None => Poll::Pending,
        })
        .await
        .map_err(|_| GErr)?;
        if f.len() > buf.len() {
            return Err(GErr);
        }
        buf[..f.len()].copy_from_slice(&f);
        Ok(&mut buf[..f.len()])
    }
}
#[derive(Clone)]
pub struct GSpawn {
    t: Tasks,
    fail: Arc<Mutex<bool>>,
}
impl server::WireSpawn for GSpawn {
    type Error = ();
    type Info = GSpawn;
    fn info(&self) -> &GSpawn {
        self
    }
}
fn g_spawn(s: &GSpawn, f: impl Future<Output = ()> + Send + 'static) -> Result<(), ()> {
    let mut fail = s.fail.lock().unwrap();
    *fail = !*fail;
    if *fail {
        s.t.lock().unwrap().push(Box::pin(f));
        Ok(())
    } else {
        Err(())
    }
}
mod gapp {
    use super::{g_spawn, GSpawn, GTx};
    use crate::probe_common::*;
    crate::probe_app!(GTx, GSpawn, g_spawn);
    pub type App = PApp;
}

fn c20_server(case: &mut Case) -> Result<(), String> {
    let mut rng = case.rng.fork();
    let p: P = Default::default();
    let t: Tasks = Default::default();
    let sp = GSpawn { t: t.clone(), fail: Default::default() };
    let app = gapp::App::new(PCtx { n: 0 }, sp);
    let kk = app.min_key_len();
    let n = rounds(case);
    let mut per = Vec::with_capacity(n);
    for k in ["server_frames", "server_sends"] {
        case.count(k, 0);
    }
    let mut buf = vec![0u8; 256];
    let mut srv = Server::new(GTx, GsRx(p.clone()), &mut buf[..], app, kk);
    let mut run = op(srv.run());
    case.sig(rng.u64());
    let (b, a0) = (live(), ALLOCS.with(|a| a.get()));
    for r in 0..n {
        GFAIL.with(|f| f.set(r % 8 == 7));
        for _ in 0..30 {
            let kl = *rng.pick(&[1usize, 2, 4, 8]);
            let (s, sw) = (rng.u8() as u32, *rng.pick(&[1usize, 2, 4]));
            let p1 = P1 { a: rng.u32(), b: [1; 4], c: None };
            let f = match rng.below(10) {
                0 => fr(EpPA::REQ_KEY, kl, s, sw, &postcard::to_stdvec(&p1).unwrap()),
                1 => fr(EpPB::REQ_KEY, kl, s, sw, &postcard::to_stdvec(&P2::B(7)).unwrap()),
                2 => fr(EpPC::REQ_KEY, kl, s, sw, &[]),
                3 | 4 => fr(EpPD::REQ_KEY, kl, s, sw, &postcard::to_stdvec(&P5(Ok(P4), 9)).unwrap()),
                5 => fr(TiP::TOPIC_KEY, kl, s, sw, &postcard::to_stdvec(&p1).unwrap()),
                6 => fr(EpPA::REQ_KEY, kl, s, sw, &[0xff]),
                7 => rng.bytes(20),
                8 => fr(PingEndpoint::REQ_KEY, kl, s, sw, &postcard::to_stdvec(&5u32).unwrap()),
                _ => fr(GetAllSchemasEndpoint::REQ_KEY, kl, s, sw, &[]),
            };
            inject(&p, f);
            if rng.chance(1, 12) {
                p.lock().unwrap().rx.push_back(Err(()));
            }
            case.count("server_frames", 1);
        }
        for _ in 0..40 {
            if poll(&mut run).is_some() {
                panic!("the server of the growth workload ended");
            }
            pump(&t, 1);
        }
        if !p.lock().unwrap().rx.is_empty() {
            panic!("the server does not take frames");
        }
        p.lock().unwrap().rx.shrink_to_fit();
        t.lock().unwrap().shrink_to_fit();
        per.push(live() - b);
    }
    GFAIL.with(|f| f.set(false));
    case.count("server_sends", SENT.with(|s| s.replace(0)));
    let allocs = ALLOCS.with(|a| a.get()) - a0;
    judge(case, "server", Obs { per_round: per, allocs })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C20",
        rule: "one evaluation is one sample of the live heap after a round of traffic; a case is distinct by the mix of operations, key and sequence widths or way of ending; sanitizer and interpreter executions are counted separately",
        scenarios: vec![
            Scenario { name: "client_growth", f: c20_client, quick: 60, weight: 3, serial: false },
            Scenario { name: "client_lives", f: c20_lives, quick: 30, weight: 2, serial: false },
            Scenario { name: "server_growth", f: c20_server, quick: 30, weight: 2, serial: false },
        ],
        assumptions: &["the allocator counts what this thread allocates and frees; every case stays on its thread"],
        must_see: &["heap_samples", "allocations_seen", "calls_abandoned", "subscriptions", "lives", "server_sends"],
    }]
}
