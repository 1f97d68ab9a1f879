//! C25: a real client and a real server joined by a link behave as one: judged only on what the
//! users of both ends observe, over the recording link and over the library's channel transports.
use crate::csim::*;
use crate::exec::*;
use crate::icd::{f_big, f_rs, f_str, Ctx, Rq, Rs};
use crate::icd_e2e::*;
use crate::refc::*;
use crate::report::*;
use crate::rng::Rng;
use crate::ssim::*;
use postcard_rpc::header::{VarHeader, VarKey, VarSeq};
use postcard_rpc::host_client::{HostClient, HostClientConfig, HostErr, MultiSubRxError, RpcFrame};
use postcard_rpc::server::{Dispatch, Sender, Server, ServerError, WireTx};
use postcard_rpc::standard_icd::{LoggingTopic, PingEndpoint, WireError, ERROR_PATH};
use postcard_rpc::{Endpoint, Topic};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub(crate) type Cl = HostClient<WireError>;

#[derive(Clone, Debug, PartialEq)]
pub(crate) enum Out {
    Ok(Vec<u8>),
    Wire(&'static str),
    Closed,
    Decode,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub(crate) enum K {
    Blk,
    Asy,
    Spn,
    Str,
    Big,
    Unit,
    Same,
    Ping,
    Late,
    Foreign,
    Changed,
    /// raw call with a body the device cannot decode
    Bad,
    /// raw call
    Raw,
    /// request larger than the device's receive buffer
    Huge,
    PBlk,
    PAsy,
    PSpn,
    PUnit,
}
impl K {
    pub fn which(self) -> Option<u32> {
        Some(match self {
            K::Blk | K::Raw => BLK,
            K::Asy => ASY,
            K::Spn => SPN,
            K::Str => STR,
            K::Big => BIG,
            K::Unit => UNIT,
            K::Same => SAME,
            K::Late => LATE,
            K::PBlk => TBLK,
            K::PAsy => TASY,
            K::PSpn => TSPN,
            K::PUnit => TUNIT,
            K::Ping | K::Foreign | K::Changed | K::Bad | K::Huge => return None,
        })
    }
    fn is_pub(self) -> bool {
        matches!(self, K::PBlk | K::PAsy | K::PSpn | K::PUnit)
    }
    pub fn spawned(self) -> bool {
        matches!(self, K::Spn | K::PSpn | K::Late)
    }
}
pub(crate) struct Rec {
    pub task: usize,
    pub k: K,
    pub req: Vec<u8>,
    pub want: Out,
    pub got: Option<Out>,
    pub abandoned: bool,
}
pub(crate) type Recs = Arc<Mutex<Vec<Rec>>>;

pub(crate) struct DevRec {
    pub task: usize,
    pub topic: usize,
    pub body: Vec<u8>,
    pub ok: Option<bool>,
}
pub(crate) type DevRecs = Arc<Mutex<Vec<DevRec>>>;

/// (topic index, what the subscriber received, ended)
pub(crate) struct SubRec {
    pub topic: usize,
    pub kind: &'static str,
    pub got: Vec<Vec<u8>>,
    pub lagged: u64,
    pub ended: bool,
}
pub(crate) type SubRecs = Arc<Mutex<Vec<SubRec>>>;

pub(crate) fn b<T: Serialize + ?Sized>(t: &T) -> Vec<u8> {
    postcard::to_stdvec(t).unwrap()
}
fn wname(w: &WireError) -> &'static str {
    match w {
        WireError::FrameTooLong(_) => "FrameTooLong",
        WireError::FrameTooShort(_) => "FrameTooShort",
        WireError::DeserFailed => "DeserFailed",
        WireError::SerFailed => "SerFailed",
        WireError::UnknownKey => "UnknownKey",
        WireError::FailedToSpawn => "FailedToSpawn",
        WireError::KeyTooSmall => "KeyTooSmall",
    }
}
pub(crate) fn fin<T: Serialize>(r: Result<T, HostErr<WireError>>) -> Out {
    match r {
        Ok(t) => Out::Ok(b(&t)),
        Err(HostErr::Wire(w)) => Out::Wire(wname(&w)),
        Err(HostErr::Closed) => Out::Closed,
        Err(_) => Out::Decode,
    }
}

pub(crate) struct Env {
    pub kk: usize,
    pub seq_w: usize,
    /// longest frame the device can send
    pub max_frame: usize,
    pub rx_buf: usize,
    pub foreign: bool,
    pub changed: bool,
    /// every length counts (packets), and what the device sends is bounded
    pub fine: bool,
    pub raw_seq: Mutex<u32>,
    pub uid: Mutex<u32>,
}
fn next(m: &Mutex<u32>) -> u32 {
    let mut g = m.lock().unwrap();
    *g += 1;
    *g
}
fn rq(fine: bool, r: &mut Rng, id: u32) -> Rq {
    let n = if fine { r.below(260) } else { *r.pick(&[0usize, 1, 3, 10, 40, 200]) };
    Rq { id, data: r.filler(n) }
}
/// a request whose frame may be as long as the device's receive buffer, to the last byte
fn rq_up(env: &Env, r: &mut Rng, id: u32, seq_w: usize, echoed: bool) -> Rq {
    let mut q = rq(env.fine, r, id);
    if (env.max_frame == usize::MAX || !echoed) && r.chance(1, 8) {
        let head = 1 + 8 + seq_w;
        let mut n = env.rx_buf - head - b(&q.id).len();
        while head + b(&q.id).len() + b(&n).len() + n > env.rx_buf {
            n -= 1;
        }
        if r.chance(1, 2) {
            n = r.edge_len(n);
        }
        q.data = r.filler(n);
    }
    q
}

/// one operation of a client task; the expectation is recorded before it begins
async fn op(env: &Env, c: &Cl, r: &mut Rng, recs: &Recs, task: usize, k: K, abandon: Option<usize>) {
    let id = next(&env.uid);
    let pw = *r.pick(&SLENS);
    let (req, want): (Vec<u8>, Out) = match k {
        K::Blk | K::Raw => {
            let q = rq_up(env, r, id, env.seq_w, true);
            (b(&q), Out::Ok(b(&f_rs(BLK, &q))))
        }
        K::Asy => {
            let q = rq_up(env, r, id, env.seq_w, true);
            (b(&q), Out::Ok(b(&f_rs(ASY, &q))))
        }
        K::Spn => {
            let q = rq_up(env, r, id, env.seq_w, true);
            (b(&q), Out::Ok(b(&f_rs(SPN, &q))))
        }
        K::Str => {
            let s = format!("{id}/{}", r.u8());
            (b(&s), Out::Ok(b(&f_str(&s))))
        }
        K::Big => {
            let mut n = r.below(600);
            if env.fine {
                // answers around whole packets and around the longest frame
                let head = 1 + env.kk + env.seq_w + 2;
                n = match r.below(3) {
                    0 => r.below(1100),
                    1 => (64 * r.range(3, 17) + r.below(3)).saturating_sub(head + 1),
                    _ => (env.max_frame + r.below(3)).saturating_sub(head + 1),
                };
            }
            let n = id << 12 | n as u32;
            let body = b(&f_big(n & 0xfff));
            let len = 1 + env.kk + env.seq_w + body.len();
            (b(&n), if len > env.max_frame { Out::Wire("SerFailed") } else { Out::Ok(body) })
        }
        K::Unit => (vec![], Out::Ok(vec![])),
        K::Same => {
            let q = rq(env.fine, r, id);
            let m = Rs { who: r.u32(), id, data: q.data };
            (b(&m), Out::Ok(b(&f_same(&m))))
        }
        K::Ping => (b(&id), Out::Ok(b(&id))),
        K::Late => (b(&id), Out::Ok(vec![])),
        K::Foreign => (b(&rq(env.fine, r, id)), Out::Wire("UnknownKey")),
        K::Changed => (b(&(id as u64)), Out::Wire("UnknownKey")),
        K::Bad => {
            let mut v = b(&id);
            v.extend([200, 1]);
            (v, Out::Wire("DeserFailed"))
        }
        K::Huge => {
            // whatever is left of it looks like a publication at each packet boundary
            let n = env.rx_buf + if r.chance(1, 2) { 0 } else { r.below(env.rx_buf.min(1000) * 3) };
            let kw = *r.pick(&[8, env.kk]);
            let at = 1 + kw + env.seq_w + b(&id).len() + b(&n).len();
            let mut unit = VarHeader { key: VarKey::Key8(PBlk::TOPIC_KEY), seq_no: VarSeq::Seq1(0) }.write_to_vec();
            unit.extend(b(&Rq { id: 9_999_999, data: vec![7; 40] }));
            unit.resize(64, 0);
            (b(&Rq { id, data: (0..n).map(|i| unit[(at + i) % 64]).collect() }), Out::Closed)
        }
        K::PBlk | K::PAsy | K::PSpn => (b(&rq_up(env, r, id, pw, k != K::PBlk)), Out::Ok(vec![])),
        K::PUnit => (vec![], Out::Ok(vec![])),
    };
    let i = {
        let mut g = recs.lock().unwrap();
        g.push(Rec { task, k, req: req.clone(), want, got: None, abandoned: false });
        g.len() - 1
    };
    fn d<T: DeserializeOwned>(v: &[u8]) -> T {
        postcard::from_bytes(v).unwrap()
    }
    let raw = |seq: u32| RpcFrame { header: VarHeader { key: postcard_rpc::header::VarKey::Key8(QBlk::REQ_KEY), seq_no: vseq(seq, env.seq_w) }, body: req.clone() };
    let ps = vseq((r.u32() as u64 & ((1u64 << (8 * pw)) - 1)) as u32, pw);
    let p = |r: Result<(), _>| match r {
        Ok(()) => Out::Ok(vec![]),
        Err(postcard_rpc::host_client::IoClosed) => Out::Closed,
    };
    let fut = async {
        match k {
            K::Blk => fin(c.send_resp::<QBlk>(&d(&req)).await),
            K::Asy => fin(c.send_resp::<QAsy>(&d(&req)).await),
            K::Spn => fin(c.send_resp::<QSpn>(&d(&req)).await),
            K::Str => fin(c.send_resp::<QStr>(&d(&req)).await),
            K::Big => fin(c.send_resp::<QBig>(&d(&req)).await),
            K::Unit => fin(c.send_resp::<QUnit>(&()).await),
            K::Same => fin(c.send_resp::<QSame>(&d(&req)).await),
            K::Ping => fin(c.send_resp::<PingEndpoint>(&d(&req)).await),
            K::Late => fin(c.send_resp::<QLate>(&d(&req)).await),
            K::Foreign => fin(c.send_resp::<QForeign>(&d(&req)).await),
            K::Changed => fin(c.send_resp::<QChanged>(&d(&req)).await),
            K::Huge => fin(c.send_resp::<QBlk>(&d(&req)).await),
            K::Bad | K::Raw => match c.send_resp_raw(raw(next(&env.raw_seq)), QBlk::RESP_KEY).await {
                Ok(f) => Out::Ok(f.body),
                Err(HostErr::Wire(w)) => Out::Wire(wname(&w)),
                Err(HostErr::Closed) => Out::Closed,
                Err(_) => Out::Decode,
            },
            K::PBlk => p(c.publish::<PBlk>(ps, &d(&req)).await),
            K::PAsy => p(c.publish::<PAsy>(ps, &d(&req)).await),
            K::PSpn => p(c.publish::<PSpn>(ps, &d(&req)).await),
            K::PUnit => p(c.publish::<PUnit>(ps, &()).await),
        }
    };
    match crate::client::abandon(fut, abandon).await {
        Some(o) => recs.lock().unwrap()[i].got = Some(o),
        None => recs.lock().unwrap()[i].abandoned = true,
    }
}

async fn client_task(env: Arc<Env>, c: Cl, mut r: Rng, recs: Recs, task: usize, n: usize) {
    for _ in 0..n {
        let k = *r.pick(&[
            K::Blk, K::Asy, K::Spn, K::Spn, K::Str, K::Big, K::Unit, K::Same, K::Ping, K::Late, K::Foreign, K::Changed, K::Bad, K::Raw, K::PBlk, K::PAsy, K::PSpn, K::PUnit, K::PBlk, K::PAsy,
        ]);
        if (k == K::Foreign && !env.foreign) || (k == K::Changed && !env.changed) {
            continue;
        }
        let ab = if r.chance(1, 12) { Some(r.below(12)) } else { None };
        op(&env, &c, &mut r, &recs, task, k, ab).await;
        for _ in 0..r.below(3) {
            yield_now().await;
        }
    }
}

async fn device_task<T: WireTx>(s: Sender<T>, mut r: Rng, recs: DevRecs, task: usize, n: usize, max_frame: usize, fine: bool) {
    for i in 0..n {
        let topic = r.below(4);
        let mut q = rq(fine, &mut r, (task * 1000 + i) as u32);
        let mut t = format!("{task}.{i}:{}", r.u32());
        if max_frame == usize::MAX && r.chance(1, 20) {
            let n = r.edge_len(100_000);
            q.data = r.filler(n);
            let n = r.edge_len(10_000);
            t.extend((0..n).map(|i| (b'a' + (i % 26) as u8) as char));
        } else if fine && r.chance(1, 2) {
            let n = r.below(280);
            t.extend((0..n).map(|i| (b'a' + (i % 26) as u8) as char));
        }
        let m = Rs { who: 77, id: q.id, data: q.data };
        let body = match topic {
            0 => b(&m),
            1 | 3 => b(&t),
            _ => vec![],
        };
        let at = {
            let mut g = recs.lock().unwrap();
            g.push(DevRec { task, topic, body, ok: None });
            g.len() - 1
        };
        let w = *r.pick(&SLENS);
        let seq = vseq(r.u8() as u32, w);
        let ok = match topic {
            0 => s.publish::<SA>(seq, &m).await.is_ok(),
            1 => s.publish::<SB>(seq, &t).await.is_ok(),
            2 => s.publish::<SU>(seq, &()).await.is_ok(),
            _ if r.chance(1, 2) => s.log_str(&t).await.is_ok(),
            _ => s.log_fmt(format_args!("{t}")).await.is_ok(),
        };
        recs.lock().unwrap()[at].ok = Some(ok);
        for _ in 0..r.below(4) {
            yield_now().await;
        }
    }
}

/// makes the subscription at once, then keeps receiving
fn subscriber(sched: &mut Sched, c: &Cl, r: &mut Rng, subs: &SubRecs, topic: usize, exclusive: bool, ready: &Arc<Mutex<usize>>, fails: &Arc<Mutex<Vec<String>>>) {
    let (c, subs, ready, fails) = (c.clone(), subs.clone(), ready.clone(), fails.clone());
    let raw = r.chance(1, 3);
    let mut r = r.fork();
    let slow = r.below(4);
    let at = {
        let mut g = subs.lock().unwrap();
        g.push(SubRec { topic, kind: if exclusive { "exclusive" } else { "broadcast" }, got: vec![], lagged: 0, ended: false });
        g.len() - 1
    };
    const D: usize = 400;
    macro_rules! go {
        ($t:ty) => {
            sched.spawn("subscriber", async move {
                macro_rules! pump {
                    ($sub:expr, $m:ident => $conv:expr, $multi:tt) => {
                        match $sub {
                            Ok(mut s) => {
                                *ready.lock().unwrap() += 1;
                                loop {
                                    pump!(@one s, $m => $conv, $multi);
                                    for _ in 0..r.below(slow + 1) {
                                        yield_now().await;
                                    }
                                }
                                subs.lock().unwrap()[at].ended = true;
                            }
                            Err(e) => fails.lock().unwrap().push(format!("subscribing to topic {topic} failed: {e:?}")),
                        }
                    };
                    (@one $s:ident, $m:ident => $conv:expr, excl) => {
                        match $s.recv().await {
                            Some($m) => subs.lock().unwrap()[at].got.push($conv),
                            None => break,
                        }
                    };
                    (@one $s:ident, $m:ident => $conv:expr, multi) => {
                        match $s.recv().await {
                            Ok($m) => subs.lock().unwrap()[at].got.push($conv),
                            Err(MultiSubRxError::Lagged(n)) => subs.lock().unwrap()[at].lagged += n,
                            Err(MultiSubRxError::IoClosed) => break,
                        }
                    };
                }
                match (exclusive, raw) {
                    (true, false) => pump!(c.subscribe_exclusive::<$t>(D).await, m => b(&m), excl),
                    (true, true) => pump!(c.subscribe_exclusive_raw(<$t>::TOPIC_KEY, D).await, f => f.body, excl),
                    (false, false) => pump!(c.subscribe_multi::<$t>(D).await, m => b(&m), multi),
                    (false, true) => pump!(c.subscribe_multi_raw(<$t>::TOPIC_KEY, D).await, f => f.body, multi),
                }
            })
        };
    }
    match topic {
        0 => go!(SA),
        1 => go!(SB),
        2 => go!(SU),
        _ => go!(LoggingTopic),
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub(crate) enum End {
    None,
    ClientCloses,
    DeviceStops,
}

/// everything that happens between the two ends while the link is up
pub(crate) struct Traffic {
    pub env: Arc<Env>,
    pub recs: Recs,
    pub devs: DevRecs,
    pub subs: SubRecs,
    pub fails: Arc<Mutex<Vec<String>>>,
    pub link: SLink,
    pub end: End,
    pub huge: bool,
    pub ret: Arc<Mutex<Option<&'static str>>>,
}

pub(crate) fn env(c: &mut Case, kk: usize, n: usize, seq_w: usize, max_frame: usize) -> Env {
    // a foreign key may coincide with a known one at the device's key length
    let mut known: Vec<[u8; 8]> = E_EPS.endpoints.iter().map(|e| e.1.to_bytes()).collect();
    known.extend(E_TIN.topics.iter().map(|t| t.1.to_bytes()));
    known.extend([PingEndpoint::REQ_KEY.to_bytes(), postcard_rpc::standard_icd::GetAllSchemasEndpoint::REQ_KEY.to_bytes()]);
    let free = |k: [u8; 8]| !known.iter().any(|x| fold(x, n) == fold(&k, n));
    Env {
        kk,
        seq_w,
        max_frame,
        rx_buf: if c.rng.chance(1, 8) { c.rng.edge_len(100_000).max(300) } else { c.rng.range(300, 2000) },
        foreign: free(QForeign::REQ_KEY.to_bytes()),
        changed: free(QChanged::REQ_KEY.to_bytes()),
        fine: false,
        raw_seq: Mutex::new(if seq_w == 1 { 180 } else { 30_000 }),
        uid: Mutex::new(c.rng.below(50) as u32),
    }
}

pub(crate) fn start_subscribers(c: &mut Case, sched: &mut Sched, cl: &Cl, t: &Traffic, ready: &Arc<Mutex<usize>>) -> usize {
    let mut n = 0;
    for topic in 0..4 {
        let (excl, k) = if c.rng.chance(1, 3) { (true, 1) } else { (false, c.rng.range(1, 4)) };
        for _ in 0..k {
            let mut r = c.rng.fork();
            subscriber(sched, cl, &mut r, &t.subs, topic, excl, ready, &t.fails);
            n += 1;
        }
    }
    n
}
pub(crate) fn start_clients(c: &mut Case, sched: &mut Sched, cl: &Cl, t: &Traffic) -> Vec<Join> {
    let tasks = c.rng.range(1, 6);
    let ops = if t.env.seq_w == 1 { 12 } else { 20 };
    let mut v: Vec<Join> = (0..tasks)
        .map(|i| {
            let n = c.rng.range(1, ops);
            sched.spawn("client", client_task(t.env.clone(), cl.clone(), c.rng.fork(), t.recs.clone(), i, n))
        })
        .collect();
    if t.huge {
        // stays unanswered, disturbs nobody
        let (env, cl, recs, mut r) = (t.env.clone(), cl.clone(), t.recs.clone(), c.rng.fork());
        sched.spawn("huge", async move { op(&env, &cl, &mut r, &recs, 90, K::Huge, None).await });
    }
    // the gate of the late handlers opens in the middle
    let link = t.link.clone();
    let k = c.rng.below(200);
    v.push(sched.spawn("gate", async move {
        for _ in 0..k {
            yield_now().await;
        }
        open_gate(&link);
    }));
    v
}
pub(crate) fn start_device<T: WireTx + 'static>(c: &mut Case, sched: &mut Sched, s: &Sender<T>, t: &Traffic) -> Vec<Join>
where
    Sender<T>: Clone,
{
    (0..c.rng.below(4))
        .map(|i| {
            let n = c.rng.range(1, 14);
            sched.spawn("device", device_task(s.clone(), c.rng.fork(), t.devs.clone(), i, n, t.env.max_frame, t.env.fine))
        })
        .collect()
}

/// judgement of everything observed before the end of the link
pub(crate) fn judge(c: &mut Case, t: &Traffic, spawn_failures: usize) -> Result<(), String> {
    if let Some(f) = t.fails.lock().unwrap().first() {
        return Err(f.clone());
    }
    let recs = t.recs.lock().unwrap();
    let log = t.link.lock().unwrap().log.clone();
    // calls
    let mut refused = 0;
    for r in recs.iter() {
        match &r.got {
            None if r.abandoned || r.k == K::Huge => {}
            None => return Err(format!("{:?} by task {} never finished (request {})", r.k, r.task, hex(&r.req))),
            Some(o) if r.k == K::Huge => return Err(format!("a request larger than the device's buffer returned {o:?}")),
            Some(Out::Wire("FailedToSpawn")) if r.k.spawned() && !r.k.is_pub() => refused += 1,
            Some(o) if *o == r.want => c.count(if r.k.is_pub() { "publications" } else if matches!(r.want, Out::Wire(_)) { "device_errors" } else { "calls" }, 1),
            Some(o) => return Err(format!("{:?} with request {} returned {o:?} instead of {:?}", r.k, hex(&r.req), r.want)),
        }
    }
    // handlers: each accepted message once, with its own content
    let mut runs: HashMap<(u32, Vec<u8>), usize> = HashMap::new();
    let mut order: Vec<(u32, Vec<u8>)> = vec![];
    for e in &log {
        if let Ev::Start { which, req, .. } = e {
            *runs.entry((*which, req.clone())).or_default() += 1;
            order.push((*which, req.clone()));
        }
    }
    let mut may: HashMap<(u32, Vec<u8>), (usize, usize)> = HashMap::new();
    let (mut unsure, mut topics_refused) = (0usize, 0usize);
    for r in recs.iter() {
        let Some(w) = r.k.which() else { continue };
        let m = may.entry((w, r.req.clone())).or_default();
        let failed = r.got == Some(Out::Wire("FailedToSpawn"));
        if failed {
            continue;
        }
        m.1 += 1;
        if r.abandoned {
            unsure += 1;
        } else if r.k == K::PSpn && spawn_failures > 0 {
            // a topic handler that could not be spawned is not reported to anybody
            topics_refused += 1;
        } else {
            m.0 += 1;
        }
    }
    for (k, n) in &runs {
        let (_, hi) = may.get(k).copied().unwrap_or_default();
        if *n > hi {
            return Err(format!("handler {} ran {n} times for {hi} messages {}", k.0, hex(&k.1)));
        }
    }
    for (k, (lo, _)) in &may {
        let n = runs.get(k).copied().unwrap_or(0);
        if n < *lo {
            return Err(format!("handler {} ran {n} times for {lo} messages {}", k.0, hex(&k.1)));
        }
    }
    // every failed spawn is one refused message
    if refused > spawn_failures || (unsure == 0 && topics_refused == 0 && refused != spawn_failures) {
        return Err(format!("{refused} calls were told that their handler could not be spawned, {spawn_failures} spawns failed"));
    }
    // one task's messages to inline handlers are handled in order (unit messages have no identity)
    let pos: HashMap<(u32, Vec<u8>), usize> = order.iter().enumerate().map(|(i, k)| (k.clone(), i)).collect();
    let mut last: HashMap<usize, (usize, &Rec)> = HashMap::new();
    for r in recs.iter() {
        let Some(w) = r.k.which() else { continue };
        if r.k.spawned() || r.req.is_empty() {
            continue;
        }
        let Some(p) = pos.get(&(w, r.req.clone())) else { continue };
        if let Some((q, o)) = last.get(&r.task) {
            if q > p {
                return Err(format!("task {}: {:?} {} was handled before the earlier {:?} {}", r.task, r.k, hex(&r.req), o.k, hex(&o.req)));
            }
            c.count("ordered_pairs", 1);
        }
        last.insert(r.task, (*p, r));
    }
    // publications of the device
    let mut want: Vec<Vec<Vec<u8>>> = vec![vec![]; 4];
    let devs = t.devs.lock().unwrap();
    for d in devs.iter() {
        if d.ok != Some(true) {
            return Err(format!("device task {}: publication on topic {} {} although the link is up", d.task, d.topic, if d.ok.is_none() { "never finished" } else { "failed" }));
        }
        want[d.topic].push(d.body.clone());
    }
    // and what handlers passed on
    for (w, req) in &order {
        if *w == TASY {
            let q: Rq = postcard::from_bytes(req).unwrap();
            want[0].push(b(&f_rs(TASY, &q)));
        }
        if *w == TSPN {
            want[2].push(vec![]);
        }
    }
    let mut subs = t.subs.lock().unwrap();
    // a log message's length may be written in a padded form
    for g in subs.iter_mut().filter(|s| s.topic == 3).flat_map(|s| s.got.iter_mut()) {
        if let Ok(s) = postcard::from_bytes::<String>(g) {
            *g = b(&s);
        }
    }
    let mut first: HashMap<usize, usize> = HashMap::new();
    for (i, s) in subs.iter().enumerate() {
        if s.lagged > 0 {
            return Err(format!("a {} subscriber of topic {} was told of {} lost messages although it has room for all", s.kind, s.topic, s.lagged));
        }
        if s.ended {
            return Err(format!("a {} subscription of topic {} ended although the link is up", s.kind, s.topic));
        }
        let mut a = s.got.clone();
        let mut e = want[s.topic].clone();
        a.sort();
        e.sort();
        if a != e {
            let miss = e.iter().find(|x| e.iter().filter(|y| y == x).count() > a.iter().filter(|y| y == x).count());
            let extra = a.iter().find(|x| a.iter().filter(|y| y == x).count() > e.iter().filter(|y| y == x).count());
            return Err(format!(
                "a {} subscriber of topic {} received {} of {} messages; missing {:?}, unexpected {:?}",
                s.kind,
                s.topic,
                a.len(),
                e.len(),
                miss.map(|x| hex(x)),
                extra.map(|x| hex(x))
            ));
        }
        match first.get(&s.topic) {
            Some(j) => {
                if subs[*j].got != s.got {
                    return Err(format!("two subscribers of topic {} saw different orders", s.topic));
                }
                c.count("agreeing_subscribers", 1);
            }
            None => {
                first.insert(s.topic, i);
            }
        }
        // one device task's order
        for task in 0..4 {
            let mine: Vec<&Vec<u8>> = devs.iter().filter(|d| d.task == task && d.topic == s.topic).map(|d| &d.body).collect();
            let seen: Vec<&Vec<u8>> = s.got.iter().filter(|g| mine.contains(g)).collect();
            if !mine.is_empty() && !mine[0].is_empty() && mine != seen {
                return Err(format!("topic {}: device task {task}'s messages arrived in another order", s.topic));
            }
        }
        c.count("messages_received", s.got.len() as u64);
        c.count(if s.topic == 3 { "logs_received" } else if s.topic == 2 { "empty_messages_received" } else { "typed_messages_received" }, s.got.len() as u64);
    }
    c.count("spawn_failures_reported", refused as u64);
    c.count("abandoned", unsure as u64);
    c.nontrivial = recs.len() > 2;
    for r in recs.iter() {
        c.sig(r.k as u64);
    }
    c.evals = recs.len() as u64 + devs.len() as u64;
    c.note = Some(format!("{} client operations, {} device publications, {} subscribers, end {:?}", recs.len(), devs.len(), subs.len(), t.end));
    Ok(())
}

/// after the end: nothing is left pending on either side
pub(crate) fn judge_end(c: &mut Case, t: &Traffic, cl: &Cl, server_done: bool, late: &[Option<Out>], waited: bool) -> Result<(), String> {
    if t.end == End::None {
        return Ok(());
    }
    if !server_done {
        return Err(format!("{:?}: the server loop is still running", t.end));
    }
    if t.end == End::ClientCloses && *t.ret.lock().unwrap() != Some("rx") {
        return Err(format!("the server loop returned {:?} when its client went away", t.ret.lock().unwrap()));
    }
    if !waited {
        return Err(format!("{:?}: wait_closed is still waiting", t.end));
    }
    if !cl.is_closed() {
        return Err(format!("{:?}: the client does not report being closed", t.end));
    }
    if let Some(s) = t.subs.lock().unwrap().iter().find(|s| !s.ended) {
        return Err(format!("{:?}: a {} subscriber of topic {} is still waiting", t.end, s.kind, s.topic));
    }
    if let Some(r) = t.recs.lock().unwrap().iter().find(|r| r.k == K::Huge && r.got != Some(Out::Closed)) {
        return Err(format!("{:?}: the unanswered call ended with {:?}", t.end, r.got));
    }
    if late.iter().any(|o| *o != Some(Out::Closed)) {
        return Err(format!("{:?}: calls made afterwards returned {late:?}", t.end));
    }
    c.count(if t.end == End::ClientCloses { "client_closed" } else { "device_stopped" }, 1);
    Ok(())
}
pub(crate) fn late_calls(sched: &mut Sched, cl: &Cl) -> Arc<Mutex<Vec<Option<Out>>>> {
    let v: Arc<Mutex<Vec<Option<Out>>>> = Arc::new(Mutex::new(vec![None, None]));
    let (c1, c2, v1, v2) = (cl.clone(), cl.clone(), v.clone(), v.clone());
    sched.spawn("late", async move {
        let o = fin(c1.send_resp::<QStr>(&"late".to_string()).await);
        v1.lock().unwrap()[0] = Some(o);
    });
    sched.spawn("late", async move {
        let o = match c2.publish::<PUnit>(vseq(1, 1), &()).await {
            Ok(()) => Out::Ok(vec![]),
            Err(_) => Out::Closed,
        };
        v2.lock().unwrap()[1] = Some(o);
    });
    v
}

pub(crate) fn traffic(c: &mut Case, link: &SLink, e: Env) -> Traffic {
    link.lock().unwrap().gate_open = false;
    Traffic {
        env: Arc::new(e),
        recs: Default::default(),
        devs: Default::default(),
        subs: Default::default(),
        fails: Default::default(),
        link: link.clone(),
        end: *c.rng.pick(&[End::None, End::ClientCloses, End::DeviceStops]),
        huge: c.rng.chance(1, 4),
        ret: Default::default(),
    }
}
pub(crate) fn ret_of<A, B>(e: ServerError<A, B>) -> &'static str
where
    A: postcard_rpc::server::WireTx,
    B: postcard_rpc::server::WireRx,
{
    match e {
        ServerError::TxFatal(_) => "tx",
        ServerError::RxFatal(_) => "rx",
    }
}

fn linked<D>(c: &mut Case, n: usize, mk: impl FnOnce(Ctx, SSpawn) -> D) -> Result<(), String>
where
    D: Dispatch<Tx = STx> + 'static,
{
    let rt = paused_rt();
    let mut sched = Sched::new(c.rng.fork());
    let link = slink(c.rng.fork());
    let yl = c.rng.below(4);
    let clk = clink(c.rng.fork(), yl);
    let kks: Vec<usize> = KLENS.into_iter().filter(|k| *k >= n).collect();
    let kk = *c.rng.pick(&kks);
    let seq_w = *c.rng.pick(&SLENS);
    let max_frame = if c.rng.chance(1, 2) { usize::MAX } else { 350 };
    let e = env(c, kk, n, seq_w, max_frame);
    let t = traffic(c, &link, e);
    {
        let mut g = link.lock().unwrap();
        g.max_yields = c.rng.below(4);
        g.max_frame = max_frame;
        for _ in 0..c.rng.below(3) {
            let i = c.rng.below(12);
            g.spawn_fail.insert(i, true);
        }
        let (cl, mut id) = (clk.clone(), 0);
        g.forward = Some(Box::new(move |f: &[u8]| {
            id += 1;
            push(&cl, RxIt::Frame(id, f.to_vec()));
        }));
        let (sl, mut nrx) = (link.clone(), 0);
        clk.lock().unwrap().on_tx = Some(Box::new(move |f: &[u8]| {
            push_rx(&sl, nrx, RxItem::Frame(f.to_vec()));
            nrx += 1;
        }));
    }
    let d = mk(Ctx { link: link.clone() }, SSpawn { sp: sched.spawner(), link: link.clone() });
    let buf = vec![0u8; t.env.rx_buf].into_boxed_slice();
    let mut server = Server::new(STx { link: link.clone() }, SRx { link: link.clone() }, buf, d, kkind(kk));
    let sender = server.sender();
    let ret = t.ret.clone();
    let sj = sched.spawn("server", async move {
        let e = server.run().await;
        *ret.lock().unwrap() = Some(ret_of(e));
    });
    let cfg = HostClientConfig {
        seq_kind: skind(seq_w),
        err_uri_path: ERROR_PATH,
        outgoing_depth: c.rng.range(1, 8),
        subscriber_timeout_if_full: std::time::Duration::ZERO,
    };
    let cl = Cl::new_with_wire_and_config(CTx(clk.clone()), CRx(clk.clone()), CSpawn(sched.spawner()), &cfg);
    let done = body(c, &mut sched, &rt, &cl, &sender, &t, 300_000)?;
    let failed = link.lock().unwrap().log.iter().filter(|e| matches!(e, Ev::Spawn { ok: false })).count();
    judge(c, &t, failed)?;
    c.count("linked_runs", 1);
    // the end
    match t.end {
        End::None => {}
        End::ClientCloses => cl.close(),
        End::DeviceStops => {
            // the device reports a dead link to its server and the host sees the link fail
            push_rx(&link, usize::MAX, RxItem::Err(RxK::Closed, 0));
            push(&clk, RxIt::Fail);
        }
    }
    if t.end != End::None {
        sched.run_tokio(&rt, 100_000);
        if t.end == End::ClientCloses {
            let g = clk.lock().unwrap();
            if g.tx_dropped.is_none() || g.rx_dropped.is_none() {
                return Err("a closed client keeps its transport".into());
            }
            drop(g);
            push_rx(&link, usize::MAX, RxItem::Err(RxK::Closed, 0));
        }
        let late = late_calls(&mut sched, &cl);
        sched.run_tokio(&rt, 100_000);
        let late = late.lock().unwrap().clone();
        judge_end(c, &t, &cl, sj.done(), &late, done.done())?;
    } else if sj.done() {
        return Err(format!("the server loop ended ({:?}) although the link is up", t.ret.lock().unwrap()));
    }
    c.sig(sched.switch_sig);
    clk.lock().unwrap().on_tx = None;
    link.lock().unwrap().forward = None;
    drop(cl);
    sched.drop_all();
    Ok(())
}

/// subscriptions, then everybody at once, until nothing moves; returns the task waiting for close
pub(crate) fn body<T: WireTx + 'static>(c: &mut Case, sched: &mut Sched, rt: &tokio::runtime::Runtime, cl: &Cl, sender: &Sender<T>, t: &Traffic, lim: u64) -> Result<Join, String>
where
    Sender<T>: Clone,
{
    let ready = Arc::new(Mutex::new(0usize));
    let n = start_subscribers(c, sched, cl, t, &ready);
    sched.run_tokio(rt, lim);
    if let Some(f) = t.fails.lock().unwrap().first() {
        return Err(f.clone());
    }
    if *ready.lock().unwrap() != n {
        return Err(format!("{} of {n} subscriptions came about", *ready.lock().unwrap()));
    }
    let c2 = cl.clone();
    let waiter = sched.spawn("wait_closed", async move { c2.wait_closed().await });
    let dev = start_device(c, sched, sender, t);
    let cls = start_clients(c, sched, cl, t);
    if sched.run_tokio(rt, lim) == Stop::Livelock {
        return Err("client and device keep each other busy for ever".into());
    }
    if waiter.done() || cl.is_closed() {
        return Err("the client closed although the link is up".into());
    }
    if let Some(j) = dev.iter().chain(&cls).find(|j| !j.done()) {
        let pend: Vec<String> = t.recs.lock().unwrap().iter().filter(|r| r.got.is_none() && !r.abandoned && r.k != K::Huge).map(|r| format!("{:?} {}", r.k, hex(&r.req))).collect();
        return Err(format!("a {} task hangs although the link is up; unfinished: {pend:?}", j.name));
    }
    Ok(waiter)
}

fn e2e_linked(c: &mut Case) -> Result<(), String> {
    match c.rng.below(4) {
        0 => linked(c, 2, st::App2::new),
        1 => linked(c, 4, st::App4::new),
        2 => linked(c, 8, st::App8::new),
        _ => linked(c, 8, st::App8::new),
    }
}

fn e2e_channels(c: &mut Case) -> Result<(), String> {
    use postcard_rpc::host_client::test_channels::new_from_channels;
    use postcard_rpc::server::impls::test_channels::{dispatch_impl::*, ChannelWireRx, ChannelWireSpawn, ChannelWireTx};
    let rt = paused_rt();
    let _g = rt.enter();
    let mut sched = Sched::new(c.rng.fork());
    let link = slink(c.rng.fork());
    let kk = *c.rng.pick(&[2usize, 4, 8]);
    let seq_w = *c.rng.pick(&SLENS);
    let e = env(c, kk, kk, seq_w, usize::MAX);
    let mut t = traffic(c, &link, e);
    let (up, up_rx) = tokio::sync::mpsc::channel::<Vec<u8>>(c.rng.range(1, 20));
    let (down, down_rx) = tokio::sync::mpsc::channel::<Vec<u8>>(c.rng.range(1, 20));
    link.lock().unwrap().max_yields = c.rng.below(4);
    let set = Settings { tx: ChannelWireTx::new(down), rx: ChannelWireRx::new(up_rx), buf: t.env.rx_buf, kkind: kkind(kk) };
    let ret = t.ret.clone();
    let ctx = Ctx { link: link.clone() };
    let mut stop = None;
    macro_rules! go {
        ($app:ty) => {{
            let app = <$app>::new(ctx, ChannelWireSpawn);
            let mut srv = if c.rng.chance(1, 2) {
                let (s, st) = new_server_stoppable(app, set);
                stop = Some(st);
                s
            } else {
                new_server(app, set)
            };
            let s = srv.sender();
            let j = sched.spawn("server", async move {
                let e = srv.run().await;
                *ret.lock().unwrap() = Some(ret_of(e));
            });
            (s, j)
        }};
    }
    let (sender, sj) = match kk {
        2 => go!(ch::App2),
        4 => go!(ch::App4),
        _ => go!(ch::App8),
    };
    if stop.is_none() && t.end == End::DeviceStops && c.rng.chance(1, 3) {
        t.end = End::None;
    }
    let cl = new_from_channels(up, down_rx, skind(seq_w));
    let done = body(c, &mut sched, &rt, &cl, &sender, &t, 300_000)?;
    judge(c, &t, 0)?;
    c.count("channel_runs", 1);
    drop(sender);
    match t.end {
        End::None => {}
        End::ClientCloses => cl.close(),
        End::DeviceStops => match &stop {
            Some(s) => {
                s.stop();
                c.count("stopper_used", 1);
            }
            None => sj.abort(),
        },
    }
    if t.end != End::None {
        sched.run_tokio(&rt, 100_000);
        let late = late_calls(&mut sched, &cl);
        sched.run_tokio(&rt, 100_000);
        let late = late.lock().unwrap().clone();
        judge_end(c, &t, &cl, sj.done(), &late, done.done())?;
    } else if sj.done() {
        return Err(format!("the server loop ended ({:?}) although the link is up", t.ret.lock().unwrap()));
    }
    c.sig(sched.switch_sig);
    drop(cl);
    sched.drop_all();
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C25",
        rule: "a distinct case is a distinct (operations, schedule) run of a real client and a real server over one link, judged on results, handler runs and received messages",
        scenarios: vec![
            Scenario { name: "linked", f: e2e_linked, quick: 1500, weight: 2, serial: false },
            Scenario { name: "channels", f: e2e_channels, quick: 800, weight: 1, serial: false },
        ],
        assumptions: &["the link loses, reorders and alters nothing while it is up", "a subscriber's queue has room for everything sent to it"],
        must_see: &[
            "calls", "publications", "device_errors", "ordered_pairs", "messages_received", "logs_received", "empty_messages_received", "agreeing_subscribers", "spawn_failures_reported",
            "abandoned", "linked_runs", "channel_runs", "client_closed", "device_stopped", "stopper_used",
        ],
    }]
}
