//! The real HostClient in a simulated world: callers, publishers, subscribers, a peer that answers
//! in arbitrary order and widths, hostile frames, abandonment, closure and link failure. Everything
//! that happens is an event; the oracles below judge the recorded history.
use crate::csim::*;
use crate::exec::*;
use crate::icd::*;
use crate::refc::*;
use crate::report::*;
use crate::rng::Rng;
use postcard_rpc::header::{VarHeader, VarKey};
use postcard_rpc::host_client::*;
use postcard_rpc::standard_icd::{PingEndpoint, WireError, ERROR_KEY};
use postcard_rpc::{Endpoint, Key, Topic};
use postcard_schema::Schema;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub type Cl = HostClient<WireError>;

#[derive(Clone, Debug, PartialEq)]
pub enum CallRes {
    Ok(Vec<u8>),
    Raw(RHdr, Vec<u8>),
    Wire(Vec<u8>),
    Postcard,
    Bad,
    Closed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Blk,
    Str,
    Big,
    Choice,
    Ping,
    Raw,
    PubBlk,
    PubStr,
    PubRaw,
}
impl Op {
    fn is_call(self) -> bool {
        !matches!(self, Op::PubBlk | Op::PubStr | Op::PubRaw)
    }
}

/// one submission by a task
pub struct Sub {
    pub id: u32,
    pub task: usize,
    pub op: Op,
    pub key: [u8; 8],
    /// length of the key it was submitted with
    pub kw: usize,
    pub seq: Option<(u32, usize)>,
    pub body: Vec<u8>,
    pub start: u64,
    pub done: Option<(u64, CallRes)>,
    pub abandoned: Option<u64>,
    /// must be refused as a duplicate
    pub dup: bool,
    /// whether some call had completed with a reply before this one was begun
    pub after_reply: bool,
    pub after_close: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum RKind {
    Ok,
    Err,
    BadBody,
    BadErr,
}
#[derive(Clone, Debug)]
pub struct Reply {
    pub kind: RKind,
    pub hdr: RHdr,
    pub body: Vec<u8>,
    pub frame: usize,
}
pub enum What {
    Reply(u32),
    Topic { t: usize, body: Vec<u8>, ok: bool },
    Junk,
}
pub struct FrameInfo {
    pub bytes: Vec<u8>,
    pub what: What,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SKind {
    Excl,
    ExclRaw,
    Legacy,
    LegacyRaw,
    Multi,
    MultiRaw,
}
impl SKind {
    fn multi(self) -> bool {
        matches!(self, SKind::Multi | SKind::MultiRaw)
    }
    fn raw(self) -> bool {
        matches!(self, SKind::ExclRaw | SKind::LegacyRaw | SKind::MultiRaw)
    }
    fn legacy(self) -> bool {
        matches!(self, SKind::Legacy | SKind::LegacyRaw)
    }
}
#[derive(Clone, Debug)]
pub enum Item {
    Got(Vec<u8>, Option<RHdr>),
    Lagged(u64),
    Pending,
    End,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SubRes {
    Ok,
    Already,
    Closed,
}
pub struct SubLog {
    pub kind: SKind,
    pub topic: usize,
    pub depth: usize,
    pub start: u64,
    pub ready: Option<(u64, SubRes)>,
    pub items: Vec<(u64, u64, Item)>,
    pub dropped: Option<u64>,
    pub abandoned: bool,
    pub after_close: bool,
}

pub const NTOP: usize = 4;
pub fn topic_key(t: usize) -> Key {
    match t {
        0 => ToA::TOPIC_KEY,
        1 => ToB::TOPIC_KEY,
        2 => ToC::TOPIC_KEY,
        _ => ToD::TOPIC_KEY,
    }
}
fn topic_body(rng: &mut Rng, t: usize, idx: u32) -> Vec<u8> {
    match t {
        0 => {
            let n = if rng.chance(1, 60) { rng.edge_len(100_000) } else { rng.below(6) };
            postcard::to_stdvec(&Rs { who: idx, id: rng.u32(), data: rng.filler(n) }).unwrap()
        }
        1 => postcard::to_stdvec(&format!("{idx}-{}", rng.u8())).unwrap(),
        2 => postcard::to_stdvec(&idx).unwrap(),
        _ => postcard::to_stdvec(&Choice::Struct { a: idx as i64, b: None }).unwrap(),
    }
}
/// a body no typed subscriber can decode, unique per idx
fn topic_bad(t: usize, idx: u32) -> Vec<u8> {
    let i = idx.to_le_bytes();
    match t {
        // data length claims more than there is
        0 => vec![1, 1, 0xff, 0x7f, i[0], i[1], i[2], i[3]],
        // invalid UTF-8
        1 => vec![5, 0xff, i[0], i[1], i[2], i[3]],
        // varint longer than a u32 may be
        2 => vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, i[0], i[1], i[2], i[3]],
        // unknown variant
        _ => vec![9, i[0], i[1], i[2], i[3]],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stopper {
    None,
    Close,
    RxFail,
    TxFail,
    DropClones,
}

#[derive(Clone, Debug)]
pub struct Knobs {
    pub seq_w: usize,
    pub out_depth: usize,
    pub timeout_ms: u64,
    pub tasks: usize,
    pub ops: usize,
    /// share of calls among the operations, in %
    pub calls: usize,
    /// peer's key length in replies: 0 = any
    pub reply_w: usize,
    pub never: usize,
    pub errs: usize,
    pub bad: usize,
    pub raw: bool,
    pub dups: bool,
    pub dup_replies: usize,
    /// % of replies preceded by frames that nearly match: another sequence number or another key
    pub decoy: usize,
    pub junk: usize,
    pub sub_tasks: usize,
    pub sub_lives: usize,
    pub multi: bool,
    pub excl: bool,
    pub legacy: bool,
    pub slow: bool,
    pub msgs: usize,
    pub bad_msgs: usize,
    pub abandon: usize,
    pub stall: bool,
    pub stop: Stopper,
    pub late_ops: bool,
    pub max_depth: usize,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            seq_w: 4,
            out_depth: 8,
            timeout_ms: 0,
            tasks: 3,
            ops: 4,
            calls: 80,
            reply_w: 0,
            never: 5,
            errs: 15,
            bad: 8,
            raw: true,
            dups: false,
            dup_replies: 0,
            decoy: 25,
            junk: 0,
            sub_tasks: 0,
            sub_lives: 1,
            multi: true,
            excl: true,
            legacy: false,
            slow: false,
            msgs: 0,
            bad_msgs: 10,
            abandon: 0,
            stall: false,
            stop: Stopper::None,
            late_ops: true,
            max_depth: 6,
        }
    }
}

pub struct World {
    pub k: Knobs,
    pub link: CLink,
    pub rng: RefCell<Rng>,
    pub subs: RefCell<Vec<Sub>>,
    pub replies: RefCell<HashMap<u32, Reply>>,
    pub frames: RefCell<Vec<FrameInfo>>,
    pub slogs: RefCell<Vec<SubLog>>,
    pub viol: RefCell<Vec<(&'static [&'static str], String)>>,
    pub next_id: Cell<u32>,
    pub replied: Cell<bool>,
    pub closed_at: Cell<Option<u64>>,
    pub err_key: [u8; 8],
    pub wmin: usize,
    pub live_raw: RefCell<HashMap<u32, u32>>,
    pub wait_closed_done: Cell<u32>,
    pub wait_closed_n: Cell<u32>,
    pub device_busy: Cell<bool>,
    pub in_flight_max: Cell<usize>,
    pub in_flight: Cell<usize>,
    pub unknown_reqs: Cell<u32>,
    pub decoys: Cell<u32>,
    pub used_seqs: RefCell<HashSet<u32>>,
}
type W = Rc<World>;

impl World {
    fn v(&self, tags: &'static [&'static str], m: String) {
        self.viol.borrow_mut().push((tags, m));
    }
    fn chance(&self, pct: usize) -> bool {
        pct > 0 && self.rng.borrow_mut().chance(pct, 100)
    }
    fn below(&self, n: usize) -> usize {
        self.rng.borrow_mut().below(n)
    }
    fn tick(&self) -> u64 {
        tick(&self.link)
    }
    /// when the link went down, if it did
    fn stopped_at(&self) -> Option<u64> {
        let g = self.link.lock().unwrap();
        [self.closed_at.get(), g.rx_failed, g.tx_failed].into_iter().flatten().min()
    }
    fn push_frame(&self, bytes: Vec<u8>, what: What) -> usize {
        let id = {
            let mut f = self.frames.borrow_mut();
            f.push(FrameInfo { bytes: bytes.clone(), what });
            f.len() - 1
        };
        push(&self.link, RxIt::Frame(id, bytes));
        id
    }
    fn reply_width(&self) -> usize {
        if self.k.reply_w != 0 {
            return self.k.reply_w;
        }
        let c: Vec<usize> = KLENS.into_iter().filter(|n| *n >= self.wmin).collect();
        *self.rng.borrow_mut().pick(&c)
    }
    fn topic_width(&self) -> usize {
        let c: Vec<usize> = KLENS.into_iter().filter(|n| *n >= self.wmin).collect();
        *self.rng.borrow_mut().pick(&c)
    }
    fn seq_width(&self, v: u32) -> usize {
        let c: Vec<usize> = SLENS.into_iter().filter(|n| *n == 4 || (v as u64) < (1u64 << (8 * n))).collect();
        *self.rng.borrow_mut().pick(&c)
    }
}

/// every key the device may send
pub fn out_keys(err: [u8; 8]) -> Vec<[u8; 8]> {
    let mut v: Vec<[u8; 8]> = M_EPS.endpoints.iter().map(|e| e.2.to_bytes()).collect();
    v.extend(M_TOUT.topics.iter().map(|t| t.1.to_bytes()));
    v.push(err);
    v.sort();
    v.dedup();
    v
}

/// Polls a future to completion unless it is abandoned after some scheduling rounds
pub struct Abandon<F> {
    fut: Option<Pin<Box<F>>>,
    left: Option<usize>,
}
pub fn abandon<F: Future>(f: F, after: Option<usize>) -> Abandon<F> {
    Abandon { fut: Some(Box::pin(f)), left: after }
}
impl<F: Future> Future for Abandon<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(n) = self.left {
            if n == 0 {
                self.fut = None;
                return Poll::Ready(None);
            }
            self.left = Some(n - 1);
            cx.waker().wake_by_ref();
        }
        let r = self.fut.as_mut().unwrap().as_mut().poll(cx);
        match r {
            Poll::Ready(x) => {
                self.fut = None;
                Poll::Ready(Some(x))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

fn conv<T: serde::Serialize>(r: Result<T, HostErr<WireError>>) -> CallRes {
    match r {
        Ok(t) => CallRes::Ok(postcard::to_stdvec(&t).unwrap()),
        Err(e) => conv_err(e),
    }
}
fn conv_err(e: HostErr<WireError>) -> CallRes {
    match e {
        HostErr::Wire(w) => CallRes::Wire(postcard::to_stdvec(&w).unwrap()),
        HostErr::BadResponse => CallRes::Bad,
        HostErr::Postcard(_) => CallRes::Postcard,
        HostErr::Closed => CallRes::Closed,
    }
}

fn rq(w: &World, id: u32) -> Rq {
    let mut r = w.rng.borrow_mut();
    let n = if r.chance(1, 50) {
        r.edge_len(100_000)
    } else if r.chance(1, 20) {
        r.range(100, 700)
    } else {
        r.below(12)
    };
    Rq { id, data: r.filler(n) }
}

/// does one operation and records it
pub async fn do_op(w: &W, c: &Cl, task: usize, op: Op, seq: Option<u32>, dup: bool, ab: Option<usize>, after_close: bool) -> Option<CallRes> {
    let id = w.next_id.get();
    w.next_id.set(id + 1);
    let (key, body): (Key, Vec<u8>) = match op {
        Op::Blk | Op::Raw => (EpBlk::REQ_KEY, postcard::to_stdvec(&rq(w, id)).unwrap()),
        Op::Str => (EpStr::REQ_KEY, postcard::to_stdvec(&format!("{id}:{}", w.below(1000))).unwrap()),
        Op::Big => (EpBig::REQ_KEY, postcard::to_stdvec(&id).unwrap()),
        Op::Ping => (PingEndpoint::REQ_KEY, postcard::to_stdvec(&id).unwrap()),
        Op::Choice => (EpChoice::REQ_KEY, postcard::to_stdvec(&Choice::Struct { a: id as i64, b: None }).unwrap()),
        Op::PubBlk => (TiBlk::TOPIC_KEY, postcard::to_stdvec(&rq(w, id)).unwrap()),
        Op::PubStr => (TiStr::TOPIC_KEY, postcard::to_stdvec(&format!("{id}:{}", w.below(1000))).unwrap()),
        Op::PubRaw => {
            let mut r = w.rng.borrow_mut();
            let n = r.below(10);
            let mut b = id.to_le_bytes().to_vec();
            b.extend(r.bytes(n));
            (key8(r.u64().to_le_bytes()), b)
        }
    };
    let sw = if op.is_call() { w.k.seq_w } else { *w.rng.borrow_mut().pick(&SLENS) };
    let given = match op {
        Op::Raw => {
            let s = seq.unwrap();
            w.used_seqs.borrow_mut().insert(s);
            Some((s, sw))
        }
        Op::PubBlk | Op::PubStr | Op::PubRaw => Some(((w.rng.borrow_mut().u32() as u64 & ((1u64 << (8 * sw)) - 1)) as u32, sw)),
        _ => None,
    };
    // raw frames may come with a key that is short already
    let kw = match op {
        Op::Raw if w.chance(25) => *w.rng.borrow_mut().pick(&[2, 4]),
        Op::PubRaw if w.chance(25) => *w.rng.borrow_mut().pick(&[1, 2, 4]),
        _ => 8,
    };
    let mut vk = VarKey::Key8(key);
    vk.shrink_to(kkind(kw));
    let start = w.tick();
    let i = {
        let mut s = w.subs.borrow_mut();
        s.push(Sub { id, task, op, key: key.to_bytes(), kw, seq: given, body: body.clone(), start, done: None, abandoned: None, dup, after_reply: w.replied.get(), after_close });
        s.len() - 1
    };
    if op.is_call() {
        w.in_flight.set(w.in_flight.get() + 1);
        w.in_flight_max.set(w.in_flight_max.get().max(w.in_flight.get()));
    }
    let vs = |x: Option<(u32, usize)>| {
        let (v, n) = x.unwrap();
        vseq(v, n)
    };
    let pubres = |r: Result<(), IoClosed>| match r {
        Ok(()) => CallRes::Ok(vec![]),
        Err(IoClosed) => CallRes::Closed,
    };
    let fut = async {
        match op {
            Op::Blk => conv(c.send_resp::<EpBlk>(&postcard::from_bytes(&body).unwrap()).await),
            Op::Str => conv(c.send_resp::<EpStr>(&postcard::from_bytes(&body).unwrap()).await),
            Op::Big => conv(c.send_resp::<EpBig>(&postcard::from_bytes(&body).unwrap()).await),
            Op::Ping => conv(c.send_resp::<PingEndpoint>(&postcard::from_bytes(&body).unwrap()).await),
            Op::Choice => conv(c.send_resp::<EpChoice>(&postcard::from_bytes(&body).unwrap()).await),
            Op::Raw => {
                let f = RpcFrame { header: VarHeader { key: vk, seq_no: vs(given) }, body: body.clone() };
                match c.send_resp_raw(f, EpBlk::RESP_KEY).await {
                    Ok(f) => CallRes::Raw(rhdr(&f.header), f.body),
                    Err(e) => conv_err(e),
                }
            }
            Op::PubBlk => pubres(c.publish::<TiBlk>(vs(given), &postcard::from_bytes(&body).unwrap()).await),
            Op::PubStr => pubres(c.publish::<TiStr>(vs(given), &postcard::from_bytes(&body).unwrap()).await),
            Op::PubRaw => {
                let f = RpcFrame { header: VarHeader { key: vk, seq_no: vs(given) }, body: body.clone() };
                pubres(c.publish_raw(f).await)
            }
        }
    };
    let r = abandon(fut, ab).await;
    let t = w.tick();
    if op.is_call() {
        w.in_flight.set(w.in_flight.get() - 1);
    }
    let mut s = w.subs.borrow_mut();
    match r {
        Some(r) => {
            if op.is_call() && matches!(r, CallRes::Ok(_) | CallRes::Raw(..) | CallRes::Wire(_) | CallRes::Postcard) {
                w.replied.set(true);
            }
            s[i].done = Some((t, r.clone()));
            Some(r)
        }
        None => {
            s[i].abandoned = Some(t);
            None
        }
    }
}

async fn actor(w: W, c: Cl, task: usize) {
    let n = 1 + w.below(w.k.ops);
    for _ in 0..n {
        let ab = if w.chance(w.k.abandon) { Some(w.below(14)) } else { None };
        if w.chance(w.k.calls) {
            if w.k.raw && w.chance(30) {
                // raw call with our own sequence number, out of the way of the client's counter
                let dup_of = if w.k.dups && w.chance(60) { w.live_raw.borrow().keys().copied().min() } else { None };
                match dup_of {
                    Some(s) => {
                        // the earlier call is registered; unless its reply has been handed over it must stay so
                        let owner = w.live_raw.borrow()[&s];
                        let handed = w.replies.borrow().contains_key(&owner);
                        if handed {
                            continue;
                        }
                        do_op(&w, &c, task, Op::Raw, Some(s), true, None, false).await;
                    }
                    None => {
                        // a sequence number nobody else uses; may be one whose call has finished
                        let lo = if w.k.seq_w == 1 { 150 } else { 20_000 };
                        let s = lo + w.next_id.get() % 100;
                        if w.used_seqs.borrow().contains(&s) {
                            continue;
                        }
                        w.live_raw.borrow_mut().insert(s, w.next_id.get());
                        do_op(&w, &c, task, Op::Raw, Some(s), false, ab, false).await;
                        w.live_raw.borrow_mut().remove(&s);
                    }
                }
            } else {
                let op = *w.rng.borrow_mut().pick(&[Op::Blk, Op::Str, Op::Big, Op::Choice, Op::Ping]);
                do_op(&w, &c, task, op, None, false, ab, false).await;
            }
        } else {
            let op = *w.rng.borrow_mut().pick(&[Op::PubBlk, Op::PubStr, Op::PubRaw]);
            do_op(&w, &c, task, op, None, false, ab, false).await;
        }
        yields(&w.link).await;
    }
}

/// what a request frame asks for: (endpoint, id)
fn ident(h: &RHdr, body: &[u8]) -> Option<(Op, u32)> {
    let is = |k: Key| keys_match(&h.key, &k.to_bytes());
    if is(EpBlk::REQ_KEY) {
        postcard::from_bytes::<Rq>(body).ok().map(|r| (Op::Blk, r.id))
    } else if is(EpStr::REQ_KEY) {
        postcard::from_bytes::<String>(body).ok().and_then(|s| s.split(':').next().and_then(|x| x.parse().ok())).map(|i| (Op::Str, i))
    } else if is(EpBig::REQ_KEY) {
        postcard::from_bytes::<u32>(body).ok().map(|i| (Op::Big, i))
    } else if is(PingEndpoint::REQ_KEY) {
        postcard::from_bytes::<u32>(body).ok().map(|i| (Op::Ping, i))
    } else if is(EpChoice::REQ_KEY) {
        match postcard::from_bytes::<Choice>(body) {
            Ok(Choice::Struct { a, .. }) => Some((Op::Choice, a as u32)),
            _ => None,
        }
    } else {
        None
    }
}

fn mk_reply(w: &World, op: Op, id: u32, h: &RHdr) -> (Reply, Vec<u8>) {
    let (rk, ok_body) = {
        let mut r = w.rng.borrow_mut();
        match op {
            Op::Blk | Op::Raw => {
                let n = if r.chance(1, 50) { r.edge_len(100_000) } else { r.below(9) };
                (EpBlk::RESP_KEY, postcard::to_stdvec(&Rs { who: r.u32(), id, data: r.filler(n) }).unwrap())
            }
            Op::Str => (EpStr::RESP_KEY, postcard::to_stdvec(&format!("r{id}-{}", r.u32())).unwrap()),
            Op::Big => {
                let n = r.below(40);
                let mut b = r.bytes(n);
                b.extend(id.to_le_bytes());
                (EpBig::RESP_KEY, postcard::to_stdvec(&b).unwrap())
            }
            Op::Ping => (PingEndpoint::RESP_KEY, postcard::to_stdvec(&id).unwrap()),
            Op::Choice => (EpChoice::RESP_KEY, postcard::to_stdvec(&Choice::Tup(r.u8(), format!("{id}"))).unwrap()),
            _ => unreachable!(),
        }
    };
    let x = w.below(100);
    let kind = if x < w.k.errs {
        RKind::Err
    } else if x < w.k.errs + w.k.bad {
        if w.chance(50) {
            RKind::BadBody
        } else {
            RKind::BadErr
        }
    } else {
        RKind::Ok
    };
    let (key, body) = match kind {
        RKind::Ok => (rk.to_bytes(), ok_body),
        RKind::BadBody => (rk.to_bytes(), vec![0xff; 12]),
        RKind::Err => {
            let e = match w.below(6) {
                0 => WireError::DeserFailed,
                1 => WireError::SerFailed,
                2 => WireError::UnknownKey,
                3 => WireError::KeyTooSmall,
                4 => WireError::FrameTooShort(postcard_rpc::standard_icd::FrameTooShort { len: id }),
                _ => WireError::FrameTooLong(postcard_rpc::standard_icd::FrameTooLong { len: id, max: 7 }),
            };
            (w.err_key, postcard::to_stdvec(&e).unwrap())
        }
        RKind::BadErr => (w.err_key, vec![0x7f, 0xff]),
    };
    let hdr = RHdr { key: fold(&key, w.reply_width()), seq: h.seq, slen: w.seq_width(h.seq) };
    let mut f = enc(&hdr);
    f.extend_from_slice(&body);
    (Reply { kind, hdr, body, frame: 0 }, f)
}

/// answers requests in random order
async fn peer(w: W, lazy: usize) {
    let mut seen = 0usize;
    let mut pend: Vec<(RHdr, Op, u32)> = vec![];
    let mut old: Vec<Vec<u8>> = vec![];
    loop {
        let any = std::future::poll_fn(|cx| {
            let mut g = w.link.lock().unwrap();
            if g.tx.len() > seen || !pend.is_empty() {
                Poll::Ready(())
            } else {
                g.peer_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        });
        any.await;
        let new: Vec<Vec<u8>> = {
            let g = w.link.lock().unwrap();
            let bad = g.tx_fail_at.unwrap_or(usize::MAX);
            let v = (seen..g.tx.len()).filter(|&i| if g.tx_fail_once { i != bad } else { i < bad }).map(|i| g.tx[i].frame.clone()).collect();
            seen = g.tx.len();
            v
        };
        for f in new {
            let Some((h, body)) = dec(&f) else { continue };
            match ident(&h, body) {
                Some((op, id)) => {
                    let isreq = w.subs.borrow().iter().any(|s| s.id == id && s.op.is_call() && s.body == body);
                    if !isreq {
                        continue;
                    }
                    if !w.chance(w.k.never) {
                        pend.push((h, op, id));
                    }
                }
                None => w.unknown_reqs.set(w.unknown_reqs.get() + 1),
            }
        }
        if !pend.is_empty() && w.below(lazy) == 0 {
            let i = w.below(pend.len());
            let (h, op, id) = pend.swap_remove(i);
            let (mut r, f) = mk_reply(&w, op, id, &h);
            if w.chance(w.k.decoy) {
                for _ in 0..1 + w.below(2) {
                    w.push_frame(decoy(&w, op, id, &h), What::Junk);
                }
                w.decoys.set(w.decoys.get() + 1);
            }
            if w.k.dup_replies > 0 {
                old.push(f.clone());
            }
            r.frame = w.frames.borrow().len();
            w.replies.borrow_mut().insert(id, r);
            w.push_frame(f, What::Reply(id));
        }
        if !old.is_empty() && w.chance(w.k.dup_replies) {
            // only replies that have already been handed over: the call they belong to is over
            let f = old[w.below(old.len())].clone();
            w.push_frame(f, What::Junk);
        }
        yield_now().await;
    }
}

/// a frame that differs from the reply to this request in one bit of the sequence number, or in the
/// endpoint; it is addressed to nobody
fn decoy(w: &World, op: Op, id: u32, h: &RHdr) -> Vec<u8> {
    let own = match op {
        Op::Blk | Op::Raw => EpBlk::RESP_KEY,
        Op::Str => EpStr::RESP_KEY,
        Op::Big => EpBig::RESP_KEY,
        Op::Ping => PingEndpoint::RESP_KEY,
        _ => EpChoice::RESP_KEY,
    };
    let body = match op {
        Op::Blk | Op::Raw => postcard::to_stdvec(&Rs { who: 0, id, data: b"decoy".to_vec() }).unwrap(),
        Op::Str => postcard::to_stdvec("decoy").unwrap(),
        Op::Big => postcard::to_stdvec(&b"decoy".to_vec()).unwrap(),
        Op::Ping => postcard::to_stdvec(&!id).unwrap(),
        _ => postcard::to_stdvec(&Choice::Unit).unwrap(),
    };
    // numbers in use are below 0x8000, or below 0x100 with one-byte numbers
    if w.chance(70) || w.next_id.get() > 120 {
        let lo = if w.k.seq_w == 1 { 8 } else { 15 };
        let v = h.seq ^ (1 << (lo + w.below(32 - lo)));
        let kw = w.reply_width();
        let sw = w.seq_width(v);
        let key = if w.chance(70) { own.to_bytes() } else { w.err_key };
        let body = if key == w.err_key { postcard::to_stdvec(&WireError::UnknownKey).unwrap() } else { body };
        let mut f = enc(&RHdr { key: fold(&key, kw), seq: v, slen: sw });
        f.extend(body);
        f
    } else {
        // same number, the response key of another endpoint, or nearly the right key
        let mut key = own.to_bytes();
        let mut near = key;
        near[w.below(8)] ^= 1 << w.below(8);
        let free = |k: &[u8; 8]| KLENS.into_iter().filter(|n| *n >= w.wmin).all(|n| !out_keys(w.err_key).iter().any(|o| fold(o, n) == fold(k, n)));
        if w.chance(50) && free(&near) {
            key = near;
        } else {
            let others: Vec<Key> = [EpBlk::RESP_KEY, EpStr::RESP_KEY, EpBig::RESP_KEY, PingEndpoint::RESP_KEY, EpChoice::RESP_KEY, EpUnit::RESP_KEY]
                .into_iter()
                .filter(|k| k.to_bytes() != key)
                .collect();
            key = others[w.below(others.len())].to_bytes();
        }
        frame(key8(key), 8, h.seq, w.seq_width(h.seq), &body)
    }
}

fn junk(w: &World) -> Vec<u8> {
    let mut r = w.rng.borrow_mut();
    match r.below(10) {
        0 => vec![],
        1 => {
            let n = r.below(20);
            r.bytes(n)
        }
        2 => {
            // wrong version, with a body of any length
            let mut b = vec![1, 2, 3];
            if r.chance(1, 3) {
                let n = r.edge_len(20_000);
                b.extend(r.filler(n));
            }
            let mut f = frame(ToA::TOPIC_KEY, 8, 1, 4, &b);
            f[0] |= 1 + r.below(15) as u8;
            f
        }
        3 => {
            // undefined sequence code
            let mut b = b"\x03abc".to_vec();
            if r.chance(1, 3) {
                let n = r.edge_len(20_000);
                b.extend(r.filler(n));
            }
            let mut f = frame(ToB::TOPIC_KEY, 8, 1, 4, &b);
            f[0] |= 0x30;
            f
        }
        4 => {
            let mut f = frame(ToA::TOPIC_KEY, 8, 1, 4, &[]);
            let n = r.below(f.len());
            f.truncate(n);
            f
        }
        5 => {
            // unknown 8 byte key
            let k = key8(r.u64().to_le_bytes());
            let n = r.below(9);
            let b = r.bytes(n);
            frame(k, 8, r.u32(), 4, &b)
        }
        6 => {
            // unsolicited reply with a sequence number that is never used
            let k = *r.pick(&[EpBlk::RESP_KEY, EpStr::RESP_KEY, EpBig::RESP_KEY, PingEndpoint::RESP_KEY, ERROR_KEY]);
            let n = r.below(9);
            let b = r.bytes(n);
            frame(k, 8, 0x7000_0000 + r.below(1000) as u32, 4, &b)
        }
        7 => {
            // a request key coming back
            let n = r.below(9);
            let b = r.bytes(n);
            frame(EpBlk::REQ_KEY, 8, r.below(10) as u32, 4, &b)
        }
        8 => {
            // nobody's key, in any form and with a body of any length
            let k = key8(r.u64().to_le_bytes());
            let n = if r.chance(1, 2) { r.edge_len(20_000) } else { r.below(9) };
            let b = r.filler(n);
            let (kl, sl) = (*r.pick(&KLENS), *r.pick(&SLENS));
            frame(k, kl, r.below(100) as u32, sl, &b)
        }
        _ => {
            let mut b = frame(EpBlk::RESP_KEY, 8, 0x7100_0000, 4, &[]);
            let n = r.range(200, 1200);
            b.extend(r.bytes(n));
            b
        }
    }
}

/// could this junk frame by chance be addressed to somebody? then it is not sent
fn junk_is_safe(w: &World, f: &[u8]) -> bool {
    match dec(f) {
        None => true,
        Some((h, _)) => {
            if h.key.len() == 8 {
                let t = (0..NTOP).any(|t| topic_key(t).to_bytes()[..] == h.key[..]);
                let r = out_keys(w.err_key).iter().any(|k| k[..] == h.key[..]) && h.seq < 0x7000_0000;
                !t && !r
            } else {
                !out_keys(w.err_key).iter().any(|k| keys_match(k, &h.key))
            }
        }
    }
}

async fn device(w: W) {
    let n = w.k.msgs;
    for idx in 0..n {
        if w.chance(w.k.junk) {
            for _ in 0..1 + w.below(3) {
                let f = junk(&w);
                if junk_is_safe(&w, &f) {
                    w.push_frame(f, What::Junk);
                }
            }
        }
        let t = if w.chance(60) { 0 } else { w.below(NTOP) };
        let ok = !w.chance(w.k.bad_msgs);
        let body = if ok { topic_body(&mut w.rng.borrow_mut(), t, idx as u32) } else { topic_bad(t, idx as u32) };
        let sh = w.below(32);
        let sv = w.rng.borrow_mut().u32() >> sh;
        let sl = w.seq_width(sv);
        let kl = if w.k.reply_w != 0 && w.chance(70) { w.k.reply_w } else { w.topic_width() };
        let f = frame(topic_key(t), kl, sv, sl, &body);
        w.push_frame(f, What::Topic { t, body, ok });
        // bursts, then pauses
        if w.chance(40) {
            for _ in 0..w.below(6) {
                yield_now().await;
            }
            if w.k.timeout_ms > 0 && w.chance(30) {
                let ms = w.below(8) as u64;
                tokio::time::sleep(std::time::Duration::from_micros(ms * 1000 + 300)).await;
            }
        }
    }
    w.device_busy.set(false);
}

enum AnySub {
    A(Subscription<Rs>),
    B(Subscription<String>),
    C(Subscription<u32>),
    D(Subscription<Choice>),
    MA(MultiSubscription<Rs>),
    MB(MultiSubscription<String>),
    MC(MultiSubscription<u32>),
    MD(MultiSubscription<Choice>),
    R(RawSubscription),
    MR(RawMultiSubscription),
}
fn sv<T: serde::Serialize>(x: Option<T>) -> Item {
    match x {
        Some(t) => Item::Got(postcard::to_stdvec(&t).unwrap(), None),
        None => Item::End,
    }
}
fn mv<T: serde::Serialize>(x: Result<T, MultiSubRxError>) -> Item {
    match x {
        Ok(t) => Item::Got(postcard::to_stdvec(&t).unwrap(), None),
        Err(MultiSubRxError::IoClosed) => Item::End,
        Err(MultiSubRxError::Lagged(n)) => Item::Lagged(n),
    }
}
impl AnySub {
    async fn recv(&mut self) -> Item {
        match self {
            AnySub::A(s) => sv(s.recv().await),
            AnySub::B(s) => sv(s.recv().await),
            AnySub::C(s) => sv(s.recv().await),
            AnySub::D(s) => sv(s.recv().await),
            AnySub::MA(s) => mv(s.recv().await),
            AnySub::MB(s) => mv(s.recv().await),
            AnySub::MC(s) => mv(s.recv().await),
            AnySub::MD(s) => mv(s.recv().await),
            AnySub::R(s) => match s.recv().await {
                Some(f) => Item::Got(f.body, Some(rhdr(&f.header))),
                None => Item::End,
            },
            AnySub::MR(s) => match s.recv().await {
                Ok(f) => Item::Got(f.body, Some(rhdr(&f.header))),
                Err(MultiSubRxError::IoClosed) => Item::End,
                Err(MultiSubRxError::Lagged(n)) => Item::Lagged(n),
            },
        }
    }
}
fn xs<T>(r: Result<T, SubscribeError>) -> Result<T, SubRes> {
    r.map_err(|e| match e {
        SubscribeError::AlreadySubscribed => SubRes::Already,
        SubscribeError::IoClosed => SubRes::Closed,
    })
}
fn xi<T>(r: Result<T, IoClosed>) -> Result<T, SubRes> {
    r.map_err(|_| SubRes::Closed)
}
async fn sub_any(c: &Cl, kind: SKind, t: usize, d: usize) -> Result<AnySub, SubRes> {
    Ok(match (kind, t) {
        (SKind::Excl, 0) => AnySub::A(xs(c.subscribe_exclusive::<ToA>(d).await)?),
        (SKind::Excl, 1) => AnySub::B(xs(c.subscribe_exclusive::<ToB>(d).await)?),
        (SKind::Excl, 2) => AnySub::C(xs(c.subscribe_exclusive::<ToC>(d).await)?),
        (SKind::Excl, _) => AnySub::D(xs(c.subscribe_exclusive::<ToD>(d).await)?),
        (SKind::Legacy, 0) => AnySub::A(xi(c.subscribe::<ToA>(d).await)?),
        (SKind::Legacy, 1) => AnySub::B(xi(c.subscribe::<ToB>(d).await)?),
        (SKind::Legacy, 2) => AnySub::C(xi(c.subscribe::<ToC>(d).await)?),
        (SKind::Legacy, _) => AnySub::D(xi(c.subscribe::<ToD>(d).await)?),
        (SKind::Multi, 0) => AnySub::MA(xi(c.subscribe_multi::<ToA>(d).await)?),
        (SKind::Multi, 1) => AnySub::MB(xi(c.subscribe_multi::<ToB>(d).await)?),
        (SKind::Multi, 2) => AnySub::MC(xi(c.subscribe_multi::<ToC>(d).await)?),
        (SKind::Multi, _) => AnySub::MD(xi(c.subscribe_multi::<ToD>(d).await)?),
        (SKind::ExclRaw, _) => AnySub::R(xs(c.subscribe_exclusive_raw(topic_key(t), d).await)?),
        (SKind::LegacyRaw, _) => AnySub::R(xi(c.subscribe_raw(topic_key(t), d).await)?),
        (SKind::MultiRaw, _) => AnySub::MR(xi(c.subscribe_multi_raw(topic_key(t), d).await)?),
    })
}

fn pick_kind(w: &World) -> SKind {
    let mut c = vec![];
    if w.k.multi {
        c.extend([SKind::Multi, SKind::MultiRaw]);
    }
    if w.k.excl {
        c.extend([SKind::Excl, SKind::ExclRaw]);
    }
    if w.k.legacy {
        c.extend([SKind::Legacy, SKind::LegacyRaw]);
    }
    let n = c.len();
    c[w.below(n)]
}

/// one subscription from subscribe to drop; `n` items at most
async fn sub_life(w: &W, c: &Cl, kind: SKind, t: usize, depth: usize, n: usize, ab: Option<usize>, after_close: bool) -> Option<SubRes> {
    let start = w.tick();
    let i = {
        let mut s = w.slogs.borrow_mut();
        s.push(SubLog { kind, topic: t, depth, start, ready: None, items: vec![], dropped: None, abandoned: false, after_close });
        s.len() - 1
    };
    let r = abandon(sub_any(c, kind, t, depth), ab).await;
    let at = w.tick();
    let mut s = match r {
        None => {
            let mut g = w.slogs.borrow_mut();
            g[i].abandoned = true;
            g[i].dropped = Some(at);
            return None;
        }
        Some(Err(e)) => {
            w.slogs.borrow_mut()[i].ready = Some((at, e));
            return Some(e);
        }
        Some(Ok(s)) => {
            w.slogs.borrow_mut()[i].ready = Some((at, SubRes::Ok));
            s
        }
    };
    let log = |it: Item| {
        let (t, now) = {
            let mut g = w.link.lock().unwrap();
            (g.tick(), g.now())
        };
        w.slogs.borrow_mut()[i].items.push((t, now, it));
    };
    for _ in 0..n {
        if w.k.slow && w.chance(60) {
            for _ in 0..w.below(12) {
                yield_now().await;
            }
            if w.k.timeout_ms > 0 && w.chance(60) {
                let ms = w.below(w.k.timeout_ms as usize * 2 + 2) as u64;
                tokio::time::sleep(std::time::Duration::from_micros(ms * 1000 + 700)).await;
            }
        }
        // several polls of one recv future; each Pending poll is evidence that nothing was queued
        let mut f = Box::pin(s.recv());
        let it = std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
            Poll::Ready(x) => {
                log(x.clone());
                Poll::Ready(x)
            }
            Poll::Pending => {
                log(Item::Pending);
                Poll::Pending
            }
        })
        .await;
        drop(f);
        if matches!(it, Item::End) {
            break;
        }
        if w.chance(20) {
            yield_now().await;
        }
    }
    drop(s);
    let t = w.tick();
    w.slogs.borrow_mut()[i].dropped = Some(t);
    Some(SubRes::Ok)
}

async fn sub_actor(w: W, c: Cl) {
    let lives = 1 + w.below(w.k.sub_lives);
    for l in 0..lives {
        let kind = pick_kind(&w);
        let t = if w.chance(65) { 0 } else { w.below(NTOP) };
        let depth = 1 + w.below(w.k.max_depth);
        let n = if l + 1 == lives && w.chance(70) { usize::MAX } else { w.below(12) };
        let ab = if w.chance(w.k.abandon) { Some(w.below(4)) } else { None };
        sub_life(&w, &c, kind, t, depth, n, ab, false).await;
        for _ in 0..w.below(5) {
            yield_now().await;
        }
    }
}

async fn closer(w: W, c: Cl) {
    for _ in 0..w.below(60) {
        yield_now().await;
    }
    if w.k.timeout_ms > 0 && w.chance(50) {
        tokio::time::sleep(std::time::Duration::from_micros(w.below(9000) as u64)).await;
    }
    match w.k.stop {
        Stopper::Close => {
            c.close();
            let t = w.tick();
            w.closed_at.set(Some(t));
            if !c.is_closed() {
                w.v(&["C08"], "is_closed() is false after close()".into());
            }
            // immediately afterwards, before any worker had a chance to run
            match w.below(4) {
                0 => {
                    do_op(&w, &c, 900, Op::PubBlk, None, false, None, true).await;
                }
                1 => {
                    do_op(&w, &c, 900, Op::Blk, None, false, None, true).await;
                }
                2 => {
                    let k = pick_kind(&w);
                    sub_life(&w, &c, k, 1, 2, usize::MAX, None, true).await;
                }
                _ => c.close(),
            }
        }
        Stopper::RxFail => push(&w.link, RxIt::Fail),
        Stopper::TxFail => {
            let mut g = w.link.lock().unwrap();
            let n = g.rng.below(3) + g.tx.len();
            g.tx_fail_at = Some(n);
            g.tx_fail_once = g.rng.chance(1, 2);
        }
        _ => {}
    }
}
async fn staller(w: W) {
    for _ in 0..1 + w.below(4) {
        set_stall(&w.link, true);
        for _ in 0..w.below(40) {
            yield_now().await;
        }
        set_stall(&w.link, false);
        for _ in 0..w.below(20) {
            yield_now().await;
        }
    }
    set_stall(&w.link, false);
}
async fn waiter(w: W, c: Cl) {
    w.wait_closed_n.set(w.wait_closed_n.get() + 1);
    c.wait_closed().await;
    w.wait_closed_done.set(w.wait_closed_done.get() + 1);
    if w.stopped_at().is_none() {
        w.v(&["C07", "C08", "C21", "C04", "C09", "C10", "C11", "C12"], "wait_closed() completed although nothing closed the link".into());
    }
}

const LIVE: &[&str] = &["C04", "C07", "C09", "C10", "C11", "C12", "C21"];

/// Build the world, run it, judge the history. Violations are tagged with the properties they break.
pub fn run_world(case: &mut Case, k: Knobs) -> Result<Vec<(&'static [&'static str], String)>, String> {
    let mut rng = case.rng.fork();
    let err_path = if rng.chance(1, 4) { "my/err" } else { "error" };
    let err_key = Key::for_path::<WireError>(err_path).to_bytes();
    let mut all = out_keys(err_key);
    let wmin_out = min_len(&all).unwrap();
    all.clear();
    let mut ins: Vec<[u8; 8]> = M_EPS.endpoints.iter().map(|e| e.1.to_bytes()).collect();
    ins.extend(M_TIN.topics.iter().map(|t| t.1.to_bytes()));
    let wmin = wmin_out.max(min_len(&ins).unwrap());
    let mut k = k;
    if k.reply_w != 0 && k.reply_w < wmin {
        k.reply_w = wmin;
    }
    let my = rng.below(4);
    let link = clink(rng.fork(), my);
    let mut sched = Sched::new(rng.fork());
    let cfg = HostClientConfig {
        seq_kind: skind(k.seq_w),
        err_uri_path: err_path,
        outgoing_depth: k.out_depth,
        subscriber_timeout_if_full: std::time::Duration::from_millis(k.timeout_ms),
    };
    let sp = sched.spawner();
    let client: Cl = if k.timeout_ms == 0 && rng.chance(1, 3) {
        Cl::new_with_wire(CTx(link.clone()), CRx(link.clone()), CSpawn(sp.clone()), skind(k.seq_w), err_path, k.out_depth)
    } else {
        Cl::new_with_wire_and_config(CTx(link.clone()), CRx(link.clone()), CSpawn(sp.clone()), &cfg)
    };
    let workers: Vec<Join> = sp.joins.lock().unwrap().clone();
    let rt = if k.timeout_ms > 0 { Some(paused_rt()) } else { None };
    if let Some(rt) = &rt {
        let _g = rt.enter();
        link.lock().unwrap().base = Some(tokio::time::Instant::now());
    }
    let w: W = Rc::new(World {
        k: k.clone(),
        link: link.clone(),
        rng: RefCell::new(rng.fork()),
        subs: Default::default(),
        replies: Default::default(),
        frames: Default::default(),
        slogs: Default::default(),
        viol: Default::default(),
        next_id: Cell::new(1),
        replied: Cell::new(false),
        closed_at: Cell::new(None),
        err_key,
        wmin,
        live_raw: Default::default(),
        wait_closed_done: Cell::new(0),
        wait_closed_n: Cell::new(0),
        device_busy: Cell::new(true),
        in_flight_max: Cell::new(0),
        in_flight: Cell::new(0),
        unknown_reqs: Cell::new(0),
        decoys: Cell::new(0),
        used_seqs: Default::default(),
    });
    let mut users: Vec<Join> = vec![];
    let mut chain = client.clone();
    for t in 0..k.tasks {
        // clones of clones
        chain = chain.clone();
        users.push(sched.spawn("caller", actor(w.clone(), chain.clone(), t)));
    }
    let mut sub_joins = vec![];
    for _ in 0..k.sub_tasks {
        sub_joins.push(sched.spawn("subscriber", sub_actor(w.clone(), client.clone())));
    }
    let lazy = 1 + rng.below(6);
    sched.spawn("peer", peer(w.clone(), lazy));
    if k.msgs > 0 {
        sched.spawn("device", device(w.clone()));
    }
    if k.stall {
        sched.spawn("staller", staller(w.clone()));
    }
    let nwait = rng.below(3);
    let mut waiters = vec![];
    for _ in 0..nwait {
        waiters.push(sched.spawn("wait_closed", waiter(w.clone(), client.clone())));
    }
    if !matches!(k.stop, Stopper::None | Stopper::DropClones) {
        sched.spawn("closer", closer(w.clone(), client.clone()));
    }
    drop(chain);
    let max_polls = 400_000;
    let run = |s: &mut Sched| match &rt {
        Some(rt) => s.run_tokio(rt, max_polls),
        None => s.run(max_polls),
    };
    // calls after a transport failure have to learn about it
    let spare = client.clone();
    if k.stop == Stopper::DropClones {
        drop(spare.clone());
    }
    drop(client);
    let st = run(&mut sched);
    if st == Stop::Livelock {
        return Ok(vec![(LIVE, format!("no quiescence after {max_polls} polls: {:?}", sched.unfinished()))]);
    }
    let stopped = w.stopped_at();
    let mut out = vec![];

    // ---- phase 1: at quiescence
    let phase1_end = w.tick();
    if stopped.is_none() {
        // a client nobody closed must be fully usable
        if spare.is_closed() || workers.iter().any(|j| j.done()) || link.lock().unwrap().rx_dropped.is_some() || link.lock().unwrap().tx_dropped.is_some() {
            out.push((LIVE, "a worker stopped or the client closed although nobody closed it and the link is up".to_string()));
        }
    }
    check_calls(&w, phase1_end, &mut out);
    if k.stop == Stopper::TxFail && stopped.is_none() {
        // the failing send was never attempted; nothing more to learn
        link.lock().unwrap().tx_fail_at = None;
    }
    // ---- phase 2: liveness of an open client
    if stopped.is_none() && out.is_empty() && w.viol.borrow().is_empty() {
        let n0 = w.subs.borrow().len();
        {
            let w2 = w.clone();
            let c2 = spare.clone();
            // the peer answers everything from now on
            let j = sched.spawn("final-ping", async move {
                for _ in 0..3 {
                    do_op(&w2, &c2, 800, Op::Ping, None, false, None, false).await;
                }
            });
            users.push(j);
        }
        let st = run(&mut sched);
        if st == Stop::Livelock {
            out.push((LIVE, "no quiescence while pinging".into()));
        }
        let t = w.tick();
        check_calls(&w, t, &mut out);
        let done = w.subs.borrow()[n0..].iter().filter(|s| s.done.is_some()).count();
        case.count("final_pings", done as u64);
    }
    check_wire(&w, &mut out, stopped.is_none());
    // ---- phase 3: the end of the connection
    let drop_variant = stopped.is_none() && (k.stop == Stopper::DropClones || rng.chance(1, 4));
    let mut spare = Some(spare);
    if stopped.is_none() {
        if drop_variant {
            // drop every clone: callers and subscribers are cancelled, subscriptions die with them
            for j in users.iter().chain(&waiters).chain(&sub_joins) {
                j.abort();
            }
            spare = None;
            case.count("dropped_all_clones", 1);
        } else {
            match rng.below(2) {
                0 => {
                    spare.as_ref().unwrap().close();
                    w.closed_at.set(Some(w.tick()));
                }
                _ => push(&link, RxIt::Fail),
            }
        }
        let st = run(&mut sched);
        if st == Stop::Livelock {
            out.push((&["C08"], "no quiescence after the end of the connection".into()));
        }
    }
    // everything has to be over now
    {
        let g = link.lock().unwrap();
        if g.rx_dropped.is_none() || g.tx_dropped.is_none() || workers.iter().any(|j| !j.done()) {
            out.push((
                &["C08"],
                format!(
                    "the connection ended ({}), but workers/transport remain: workers done {:?}, rx dropped {}, tx dropped {}",
                    if drop_variant { "last clone dropped".to_string() } else { format!("{:?}", k.stop) },
                    workers.iter().map(|j| j.done()).collect::<Vec<_>>(),
                    g.rx_dropped.is_some(),
                    g.tx_dropped.is_some()
                ),
            ));
        }
    }
    let mut uf = sched.unfinished();
    uf.retain(|n| matches!(*n, "caller" | "subscriber" | "wait_closed" | "closer" | "final-ping"));
    if !uf.is_empty() {
        out.push((&["C08"], format!("the connection ended but these still wait: {uf:?}")));
    }
    let t_end = w.tick();
    if !drop_variant {
        check_calls(&w, t_end, &mut out);
    }
    // ---- phase 4: later operations
    if let (Some(c), true) = (&spare, k.late_ops) {
        if !c.is_closed() {
            out.push((&["C08"], "is_closed() is false after the connection ended".into()));
        }
        let (w2, c2) = (w.clone(), c.clone());
        sched.spawn("late", async move {
            for op in [Op::PubBlk, Op::Blk, Op::PubRaw, Op::Raw] {
                do_op(&w2, &c2, 901, op, Some(9), false, None, true).await;
            }
            for k in [SKind::Excl, SKind::Multi, SKind::Legacy, SKind::ExclRaw, SKind::MultiRaw, SKind::LegacyRaw] {
                sub_life(&w2, &c2, k, 0, 2, usize::MAX, None, true).await;
            }
            c2.wait_closed().await;
        });
        let st = run(&mut sched);
        if st != Stop::AllDone && sched.unfinished().contains(&"late") {
            out.push((&["C08"], "an operation after the end of the connection never finishes".into()));
        }
        case.count("late_ops", 10);
    }
    let n_tx = w.link.lock().unwrap().tx.len();
    for s in w.subs.borrow().iter().filter(|s| s.after_close) {
        match &s.done {
            Some((_, CallRes::Closed)) => {}
            Some((_, r)) => out.push((&["C08"], format!("{:?} after the client was closed returned {r:?} instead of the closed error", s.op))),
            None => {}
        }
    }
    for s in w.slogs.borrow().iter().filter(|s| s.after_close) {
        if let Some((_, r)) = s.ready {
            if r != SubRes::Closed {
                out.push((&["C08"], format!("{:?} subscription after the client was closed returned {r:?} instead of the closed error", s.kind)));
            }
        }
    }
    sched.drop_all();
    check_subs(&w, &mut out);
    out.extend(w.viol.borrow_mut().drain(..));

    // ---- evidence
    let mut polls = 0;
    polls += sched.polls;
    case.count("polls", polls);
    let subs = w.subs.borrow();
    let slogs = w.slogs.borrow();
    for s in subs.iter() {
        let name = match (&s.done, s.op.is_call()) {
            (Some((_, CallRes::Ok(_))), true) | (Some((_, CallRes::Raw(..))), true) => "call_ok",
            (Some((_, CallRes::Wire(_))), true) => "call_protocol_error",
            (Some((_, CallRes::Postcard)), true) => "call_decode_error",
            (Some((_, CallRes::Bad)), true) => "call_refused_duplicate",
            (Some((_, CallRes::Closed)), true) => "call_closed",
            (Some((_, CallRes::Ok(_))), false) => "publish_ok",
            (Some((_, _)), false) => "publish_closed",
            (None, _) if s.abandoned.is_some() => "abandoned",
            (None, _) => "left_pending",
        };
        case.count(name, 1);
    }
    if w.in_flight_max.get() > 1 {
        case.count("cases_with_overlapping_calls", 1);
    }
    for s in slogs.iter() {
        case.count(
            match s.ready {
                Some((_, SubRes::Ok)) if s.kind.multi() => "sub_multi",
                Some((_, SubRes::Ok)) if s.kind.legacy() => "sub_legacy",
                Some((_, SubRes::Ok)) => "sub_exclusive",
                Some((_, SubRes::Already)) => "sub_refused",
                Some((_, SubRes::Closed)) => "sub_closed",
                None => "sub_abandoned",
            },
            1,
        );
        for (_, _, it) in &s.items {
            match it {
                Item::Got(..) => case.count("sub_messages", 1),
                Item::Lagged(n) => case.count("sub_lagged", *n),
                Item::End => case.count("sub_ended", 1),
                Item::Pending => {}
            }
        }
    }
    let g = link.lock().unwrap();
    case.count("frames_in", g.rx_ev.len() as u64);
    case.count("frames_out", n_tx as u64);
    case.count("frames_in_over_64k", g.rx_ev.iter().filter(|e| w.frames.borrow()[e.id].bytes.len() > 65_600).count() as u64);
    case.count("frames_out_over_64k", g.tx.iter().filter(|t| t.frame.len() > 65_600).count() as u64);
    case.count("decoys", w.decoys.get() as u64);
    case.count("junk_frames", g.rx_ev.iter().filter(|e| matches!(w.frames.borrow()[e.id].what, What::Junk)).count() as u64);
    let widths: HashSet<usize> = g.tx.iter().filter_map(|t| dec(&t.frame)).map(|x| x.0.key.len()).collect();
    if widths.len() > 1 {
        case.count("cases_with_key_length_change", 1);
    }
    for wd in widths {
        case.count(["", "wire_key1", "wire_key2", "", "wire_key4", "", "", "", "wire_key8"][wd], 1);
    }
    if stopped.is_some() {
        case.count(
            match k.stop {
                Stopper::Close => "stopped_by_close",
                Stopper::RxFail => "stopped_by_rx",
                Stopper::TxFail => "stopped_by_tx",
                _ => "stopped_other",
            },
            1,
        );
    }
    case.sig(sched.switch_sig);
    case.sig(g.clock);
    case.nontrivial = !subs.is_empty() || !slogs.is_empty();
    case.note = Some(format!("{} submissions, {} subscriptions, {} frames in, {} out, {} polls, max {} calls in flight", subs.len(), slogs.len(), g.rx_ev.len(), n_tx, sched.polls, w.in_flight_max.get()));
    if case.trace_on {
        let mut ev: Vec<(u64, String)> = vec![];
        for s in subs.iter() {
            ev.push((s.start, format!("task {} begins {:?} id={} seq={:?} body={}", s.task, s.op, s.id, s.seq, hex(&s.body))));
            if let Some((t, r)) = &s.done {
                ev.push((*t, format!("task {} {:?} id={} -> {:?}", s.task, s.op, s.id, r)));
            }
            if let Some(t) = s.abandoned {
                ev.push((t, format!("task {} {:?} id={} abandoned", s.task, s.op, s.id)));
            }
        }
        for r in &g.rx_ev {
            let d = match &w.frames.borrow()[r.id].what {
                What::Reply(id) => format!("reply to id={id} {:?}", w.replies.borrow().get(id).map(|r| r.kind.clone())),
                What::Topic { t, ok, .. } => format!("topic {t} decodable={ok}"),
                What::Junk => "junk".into(),
            };
            ev.push((r.e, format!("client receives frame #{} ({d}) {} t={}us", r.id, hex(&w.frames.borrow()[r.id].bytes), r.te)));
            if let Some(f) = r.f {
                ev.push((f, format!("client asks for the next frame after #{} t={}us", r.id, r.tf)));
            }
        }
        for t in &g.tx {
            ev.push((t.begin, format!("client transmits {}", hex(&t.frame))));
        }
        for (i, s) in slogs.iter().enumerate() {
            ev.push((s.start, format!("sub#{i} {:?} topic {} depth {} attempted", s.kind, s.topic, s.depth)));
            if let Some((t, r)) = s.ready {
                ev.push((t, format!("sub#{i} -> {r:?}")));
            }
            for (t, now, it) in &s.items {
                ev.push((*t, format!("sub#{i} recv {it:?} t={now}us")));
            }
            if let Some(t) = s.dropped {
                ev.push((t, format!("sub#{i} dropped")));
            }
        }
        for (n, t) in [("close()", w.closed_at.get()), ("rx failed", g.rx_failed), ("tx failed", g.tx_failed), ("rx dropped", g.rx_dropped), ("tx dropped", g.tx_dropped)] {
            if let Some(t) = t {
                ev.push((t, n.to_string()));
            }
        }
        ev.sort_by_key(|x| x.0);
        case.log(|| format!("{:?} wmin={wmin}", w.k));
        for (t, s) in ev {
            case.log(|| format!("{t:5} {s}"));
        }
    }
    Ok(out)
}

const CALLS: &[&str] = &["C04", "C07", "C12", "C21"];

/// every call against the reply that was sent for it
fn check_calls(w: &World, now: u64, out: &mut Vec<(&'static [&'static str], String)>) {
    let subs = w.subs.borrow();
    let replies = w.replies.borrow();
    let g = w.link.lock().unwrap();
    let delivered: HashMap<usize, (u64, Option<u64>)> = g.rx_ev.iter().map(|r| (r.id, (r.e, r.f))).collect();
    let stopped = [w.closed_at.get(), g.rx_failed, g.tx_failed].into_iter().flatten().min();
    drop(g);
    for s in subs.iter().filter(|s| s.op.is_call()) {
        let rep = replies.get(&s.id);
        match &s.done {
            Some((t, CallRes::Closed)) => {
                if stopped.map(|x| x > *t).unwrap_or(true) {
                    out.push((&["C04", "C07", "C08", "C12", "C21"], format!("call id={} failed with the closed error although the link was up", s.id)));
                }
            }
            Some((_, CallRes::Bad)) => {
                if !s.dup {
                    out.push((CALLS, format!("call id={} ({:?}, seq {:?}) was refused although its sequence number was not in flight", s.id, s.op, s.seq)));
                }
            }
            Some((t, r)) => {
                if s.dup {
                    out.push((&["C12"], format!("call id={} reusing the in-flight sequence number {:?} was not refused but returned {r:?}", s.id, s.seq)));
                    continue;
                }
                let Some(rep) = rep else {
                    out.push((&["C04", "C07", "C08", "C12", "C21"], format!("call id={} returned {r:?} although no reply was ever sent for it", s.id)));
                    continue;
                };
                let good = match (&rep.kind, r) {
                    (RKind::Ok, CallRes::Ok(b)) => *b == rep.body,
                    (RKind::Ok | RKind::BadBody, CallRes::Raw(h, b)) => *b == rep.body && *h == rep.hdr,
                    (RKind::BadBody, CallRes::Postcard) => s.op != Op::Raw,
                    (RKind::Err, CallRes::Wire(b)) => *b == rep.body,
                    (RKind::BadErr, CallRes::Postcard) => true,
                    _ => false,
                };
                if !good {
                    out.push((CALLS, format!("call id={} ({:?}) returned {r:?}, but the reply sent for it was {rep:?}", s.id, s.op)));
                }
                match delivered.get(&rep.frame) {
                    Some((e, _)) if e < t => {}
                    _ => out.push((CALLS, format!("call id={} completed before its reply was handed to the client", s.id))),
                }
            }
            None => {
                if s.abandoned.is_some() || s.start > now {
                    continue;
                }
                if stopped.is_some() {
                    out.push((&["C08"], format!("call id={} ({:?}) is still pending although the link is down", s.id, s.op)));
                    continue;
                }
                if s.dup {
                    out.push((&["C12"], format!("call id={} reusing an in-flight sequence number was neither refused nor answered", s.id)));
                    continue;
                }
                if let Some(rep) = rep {
                    if delivered.contains_key(&rep.frame) {
                        out.push((CALLS, format!("call id={} ({:?}) is still pending although its reply {rep:?} was received", s.id, s.op)));
                    }
                }
            }
        }
    }
}

/// what was handed to the transport against what was submitted
fn check_wire(w: &World, out: &mut Vec<(&'static [&'static str], String)>, up: bool) {
    let subs = w.subs.borrow();
    let g = w.link.lock().unwrap();
    let mut seen: HashMap<u32, usize> = HashMap::new();
    let mut last_of_task: HashMap<usize, u32> = HashMap::new();
    let mut typed: Vec<(u32, u32)> = vec![];
    for (i, t) in g.tx.iter().enumerate() {
        let Some((h, body)) = dec(&t.frame) else {
            out.push((&["C11"], format!("transmitted frame {} has no decodable header", hex(&t.frame))));
            continue;
        };
        let cands: Vec<&Sub> = subs.iter().filter(|s| s.body == body && keys_match(&s.key, &h.key) && !seen.contains_key(&s.id)).collect();
        let Some(s) = cands.first() else {
            out.push((&["C11"], format!("transmitted frame {} was never submitted (or was transmitted twice)", hex(&t.frame))));
            continue;
        };
        seen.insert(s.id, i);
        if t.begin < s.start {
            out.push((&["C11"], format!("frame of id={} transmitted before it was submitted", s.id)));
        }
        if s.dup {
            out.push((&["C12"], format!("refused duplicate call id={} was transmitted all the same", s.id)));
        }
        if let Some(prev) = last_of_task.insert(s.task, s.id) {
            if prev > s.id {
                out.push((&["C11"], format!("task {} submitted id={} before id={prev} but they were transmitted the other way round", s.task, s.id)));
            }
        }
        if let Some((v, n)) = s.seq {
            if h.seq != v || (!s.op.is_call() && h.slen != n) {
                out.push((&["C11"], format!("id={} was submitted with sequence number {v} ({n} bytes) but transmitted with {} ({} bytes)", s.id, h.seq, h.slen)));
            }
        } else {
            typed.push((s.id, h.seq));
        }
        if s.op.is_call() && h.slen != w.k.seq_w {
            out.push((&["C12"], format!("call id={} transmitted with a {}-byte sequence number, configured {}", s.id, h.slen, w.k.seq_w)));
        }
        // key length
        if w.k.reply_w != 0 {
            let exp = if s.after_reply { w.k.reply_w.min(s.kw) } else { s.kw };
            if h.key.len() != exp {
                out.push((&["C11", "C12"], format!("id={} transmitted with a {}-byte key, negotiated {exp}", s.id, h.key.len())));
            }
        } else if !s.after_reply && h.key.len() != s.kw {
            out.push((&["C11", "C12"], format!("id={} transmitted with a {}-byte key before any reply arrived", s.id, h.key.len())));
        }
    }
    let mut vals = HashSet::new();
    for (id, v) in &typed {
        if !vals.insert(*v) {
            out.push((&["C12"], format!("call id={id} reused sequence number {v} of another recent call")));
        }
    }
    if up {
        for s in subs.iter() {
            let sent = seen.contains_key(&s.id);
            let must = match &s.done {
                Some((_, CallRes::Bad)) => false,
                Some((_, CallRes::Closed)) => false,
                Some(_) => true,
                None => s.abandoned.is_none(),
            };
            if must && !sent {
                out.push((&["C11"], format!("{:?} id={} was accepted (result {:?}) but never handed to the transport", s.op, s.id, s.done.as_ref().map(|x| &x.1))));
            }
            if !s.op.is_call() && s.abandoned.is_none() && !matches!(s.done, Some((_, CallRes::Ok(_)))) {
                out.push((&["C11"], format!("publication id={} did not succeed on a live link: {:?}", s.id, s.done)));
            }
        }
    }
}

struct QEnt {
    body: Vec<u8>,
    hdr: RHdr,
    ok: bool,
    maybe: bool,
}
enum E2 {
    Arr(usize),
    Fin(usize),
    It(usize),
    End,
}
struct Fl {
    ent: QEnt,
    room: bool,
    room_maybe: bool,
    maybe: bool,
    te: u64,
    taken: bool,
}

/// online checker of the subscription specification over the recorded history
fn check_subs(w: &World, out: &mut Vec<(&'static [&'static str], String)>) {
    let slogs = w.slogs.borrow();
    let frames = w.frames.borrow();
    let g = w.link.lock().unwrap();
    let rx = g.rx_ev.clone();
    let stopped = [w.closed_at.get(), g.rx_failed, g.tx_failed, g.rx_dropped, g.tx_dropped].into_iter().flatten().min();
    drop(g);
    let to = w.k.timeout_ms * 1000;
    const X: &[&str] = &["C09", "C07", "C21"];
    const M: &[&str] = &["C10", "C07", "C21"];
    // nothing blocks the receive side longer than the waiting time
    for r in &rx {
        if r.f.is_some() {
            let d = r.tf - r.te;
            let is_topic = matches!(frames[r.id].what, What::Topic { .. });
            if d > if is_topic { to } else { 0 } {
                out.push((&["C09", "C10"], format!("frame #{} blocked reception for {d} us (allowed {})", r.id, if is_topic { to } else { 0 })));
            }
        }
    }
    let alive = |s: &SubLog, at_lo: u64, at_hi: u64| -> bool {
        // definitely alive during [at_lo, at_hi]
        matches!(s.ready, Some((t, SubRes::Ok)) if t <= at_lo) && s.dropped.map(|d| d > at_hi).unwrap_or(true)
    };
    for (i, s) in slogs.iter().enumerate() {
        let Some((ready, res)) = s.ready else { continue };
        // when this one was replaced by a later legacy subscription, if it was
        let repl = slogs
            .iter()
            .enumerate()
            .filter(|(j, o)| *j != i && o.topic == s.topic && !s.kind.multi() && o.kind.legacy() && o.start >= s.start && (o.ready.map(|r| r.1 == SubRes::Ok).unwrap_or(false) || o.abandoned))
            .filter(|(_, o)| o.ready.map(|r| r.0).unwrap_or_else(|| o.dropped.unwrap()) > ready)
            .map(|(_, o)| (o.start, o.ready.map(|r| r.0).unwrap_or_else(|| o.dropped.unwrap())))
            .min();
        match res {
            SubRes::Already => {
                // somebody must have had it at some point of the attempt
                let any = slogs.iter().enumerate().any(|(j, o)| {
                    j != i && o.topic == s.topic && !o.kind.multi() && (matches!(o.ready, Some((_, SubRes::Ok))) || o.abandoned) && o.start <= ready && o.dropped.map(|d| d >= s.start).unwrap_or(true)
                });
                if !any || s.kind.multi() || s.kind.legacy() {
                    out.push((X, format!("sub#{i}: {:?} of topic {} refused as already subscribed, but nobody is", s.kind, s.topic)));
                }
                continue;
            }
            SubRes::Closed => {
                if stopped.map(|x| x > ready).unwrap_or(true) {
                    out.push((&["C09", "C10", "C07", "C08", "C21"], format!("sub#{i}: subscribing failed as closed although the link was up")));
                }
                continue;
            }
            SubRes::Ok => {}
        }
        if !s.kind.multi() && !s.kind.legacy() {
            if let Some((j, _)) = slogs.iter().enumerate().find(|(j, o)| *j != i && o.topic == s.topic && !o.kind.multi() && alive(o, s.start, ready) && !replaced_before(&slogs, *j, s.start)) {
                // an ended one (link down) does not count
                if stopped.map(|x| x > ready).unwrap_or(true) {
                    out.push((X, format!("sub#{i}: exclusive subscription of topic {} granted while sub#{j} holds it", s.topic)));
                }
            }
        }
        // build this subscription's timeline
        let end = s.dropped.unwrap_or(u64::MAX);
        let mut ev: Vec<(u64, E2)> = vec![];
        for (n, r) in rx.iter().enumerate() {
            if let What::Topic { t, .. } = &frames[r.id].what {
                if *t == s.topic && r.f.unwrap_or(u64::MAX) > s.start && r.e < end {
                    ev.push((r.e, E2::Arr(n)));
                    if let Some(f) = r.f {
                        ev.push((f, E2::Fin(n)));
                    }
                }
            }
        }
        for (n, (t, _, _)) in s.items.iter().enumerate() {
            ev.push((*t, E2::It(n)));
        }
        if end != u64::MAX {
            ev.push((end, E2::End));
        }
        ev.sort_by_key(|x| x.0);
        let depth_lb = if s.kind.multi() {
            slogs.iter().filter(|o| o.kind.multi() && o.topic == s.topic && o.start <= ready).map(|o| o.depth).min().unwrap_or(s.depth)
        } else {
            s.depth
        };
        let tags = if s.kind.multi() { M } else { X };
        let mut q: VecDeque<QEnt> = VecDeque::new();
        let mut fl: Option<Fl> = None;
        let mut ended = false;
        let mut fuzzy = false;
        let mut bad: Option<String> = None;
        for (t, e) in &ev {
            match e {
                E2::Arr(n) => {
                    let r = &rx[*n];
                    let What::Topic { body, ok, .. } = &frames[r.id].what else { unreachable!() };
                    let hdr = dec(&frames[r.id].bytes).unwrap().0;
                    let mut maybe = r.e < ready || r.f.is_none();
                    if let Some((rs, rr)) = repl {
                        if r.e > rr {
                            continue;
                        }
                        if r.f.unwrap_or(u64::MAX) > rs {
                            maybe = true;
                        }
                    }
                    let definite = q.iter().filter(|x| !x.maybe).count();
                    fl = Some(Fl { ent: QEnt { body: body.clone(), hdr, ok: *ok, maybe }, room: q.len() < s.depth, room_maybe: definite < s.depth, maybe, te: r.te, taken: false });
                }
                E2::Fin(n) => {
                    if let Some(f) = fl.take() {
                        if f.taken {
                            continue;
                        }
                        let mut ent = f.ent;
                        ent.maybe = f.maybe;
                        if s.kind.multi() {
                            q.push_back(ent);
                        } else if f.room {
                            q.push_back(ent);
                        } else if f.room_maybe {
                            ent.maybe = true;
                            q.push_back(ent);
                        } else {
                            // full all the time: dropped, but only after the waiting time
                            let waited = rx[*n].tf - f.te;
                            if waited < to && end > *t && repl.is_none() {
                                bad = Some(format!("a message was given up after {waited} us, the waiting time is {to} us"));
                            }
                        }
                    }
                }
                E2::It(n) => match &s.items[*n].2 {
                    Item::Got(b, h) => {
                        let mut found = false;
                        while let Some(x) = q.front() {
                            if x.body == *b && h.as_ref().map(|h| *h == x.hdr).unwrap_or(true) && (s.kind.raw() || x.ok) {
                                q.pop_front();
                                found = true;
                                break;
                            }
                            if x.maybe || (!x.ok && !s.kind.raw()) || fuzzy {
                                q.pop_front();
                                continue;
                            }
                            bad = Some(format!("received {} while the next queued message is {} (lost, reordered or altered)", hex(b), hex(&x.body)));
                            break;
                        }
                        if bad.is_none() && !found {
                            if let Some(f) = fl.as_mut() {
                                if !f.taken && f.ent.body == *b {
                                    f.taken = true;
                                    found = true;
                                }
                            }
                        }
                        if bad.is_none() && !found {
                            bad = Some(format!("received {} which did not arrive for it (duplicate or misdelivered)", hex(b)));
                        }
                        if found {
                            fuzzy = false;
                        }
                    }
                    Item::Lagged(nl) => {
                        let unread = q.len() + fl.as_ref().map(|f| !f.taken as usize).unwrap_or(0);
                        let maybes = q.iter().filter(|x| x.maybe).count();
                        if unread < depth_lb {
                            bad = Some(format!("told that {nl} messages were lost while only {unread} were unread (depth {depth_lb})"));
                        } else if maybes > 0 {
                            fuzzy = true;
                        } else if (*nl as usize) > unread {
                            bad = Some(format!("told that {nl} messages were lost but only {unread} were unread"));
                        } else {
                            for _ in 0..*nl {
                                if q.pop_front().is_none() {
                                    if let Some(f) = fl.as_mut() {
                                        f.taken = true;
                                    }
                                }
                            }
                        }
                    }
                    Item::Pending => {
                        if let Some(x) = q.iter().find(|x| !x.maybe && (x.ok || s.kind.raw())) {
                            if !fuzzy {
                                bad = Some(format!("message {} arrived for it but recv() finds nothing", hex(&x.body)));
                            }
                        }
                        q.clear();
                        fuzzy = false;
                        if let Some(f) = fl.as_mut() {
                            // may or may not have been skipped by this poll already
                            if !f.ent.ok && !s.kind.raw() {
                                f.maybe = true;
                            }
                        }
                    }
                    Item::End => {
                        ended = true;
                        if let Some(x) = q.iter().find(|x| !x.maybe && (x.ok || s.kind.raw())) {
                            if !fuzzy {
                                bad = Some(format!("ended without delivering the queued message {}", hex(&x.body)));
                            }
                        }
                        let legit = stopped.map(|x| x < *t).unwrap_or(false) || repl.map(|r| r.0 < *t).unwrap_or(false);
                        if !legit {
                            bad = Some("ended although the link is up and nobody replaced it".into());
                        }
                    }
                },
                E2::End => break,
            }
            // room appearing while a message waits
            if let Some(f) = fl.as_mut() {
                let now = match e {
                    E2::It(n) => s.items[*n].1,
                    _ => f.te,
                };
                let definite = q.iter().filter(|x| !x.maybe).count();
                if q.len() < s.depth {
                    if now < f.te + to || f.room {
                        f.room = true;
                    } else {
                        f.room_maybe = true;
                    }
                } else if definite < s.depth {
                    f.room_maybe = true;
                }
            }
            if let Some(b) = bad.take() {
                out.push((tags, format!("sub#{i} ({:?}, topic {}, depth {}): {b}", s.kind, s.topic, s.depth)));
                break;
            }
        }
        if !ended && s.dropped.is_none() && repl.map(|r| s.items.iter().any(|x| x.0 > r.1 && matches!(x.2, Item::Pending))).unwrap_or(false) {
            out.push((X, format!("sub#{i} was replaced by a legacy subscription but never ended")));
        }
    }
}
fn replaced_before(slogs: &[SubLog], j: usize, at: u64) -> bool {
    let s = &slogs[j];
    slogs.iter().enumerate().any(|(n, o)| n != j && o.topic == s.topic && o.kind.legacy() && (matches!(o.ready, Some((_, SubRes::Ok))) || o.abandoned) && o.start >= s.start && o.start < at)
}

fn judge(id: &str, r: Result<Vec<(&'static [&'static str], String)>, String>) -> Result<(), String> {
    let v = r?;
    match v.iter().find(|(t, _)| t.contains(&id)) {
        Some((_, m)) => Err(m.clone()),
        None => Ok(()),
    }
}

fn base(case: &mut Case) -> Knobs {
    let r = &mut case.rng;
    let seq_w = *r.pick(&[4, 4, 2, 1]);
    Knobs { seq_w, out_depth: *r.pick(&[1, 2, 4, 16]), tasks: r.range(1, 8), ops: r.range(1, 8), ..Default::default() }
}
fn c04_calls(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.reply_w = *case.rng.pick(&[0, 0, 8, 4, 2, 1]);
    k.calls = 95;
    judge("C04", run_world(case, k))
}
fn c04_many(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.tasks = case.rng.range(15, 40);
    k.ops = 3;
    k.calls = 100;
    k.sub_tasks = case.rng.below(2);
    k.msgs = case.rng.below(20);
    judge("C04", run_world(case, k))
}
fn c07_world(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.seq_w = *case.rng.pick(&[4, 2]);
    k.junk = 60;
    k.dup_replies = 30;
    k.msgs = case.rng.range(4, 40);
    k.sub_tasks = case.rng.range(1, 4);
    k.sub_lives = 2;
    k.bad_msgs = 30;
    k.bad = 20;
    k.slow = case.rng.chance(1, 3);
    judge("C07", run_world(case, k))
}
fn c08_world(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.stop = *case.rng.pick(&[Stopper::Close, Stopper::RxFail, Stopper::TxFail, Stopper::Close, Stopper::None, Stopper::DropClones]);
    k.calls = 60;
    k.never = 30;
    k.msgs = case.rng.below(30);
    k.sub_tasks = case.rng.below(4);
    k.sub_lives = 3;
    k.stall = case.rng.chance(1, 3);
    k.slow = case.rng.chance(1, 2);
    k.legacy = case.rng.chance(1, 4);
    judge("C08", run_world(case, k))
}
fn c08_timed(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.stop = *case.rng.pick(&[Stopper::Close, Stopper::RxFail, Stopper::TxFail]);
    k.timeout_ms = if case.rng.chance(1, 6) { *case.rng.pick(&[100, 600, 1500, 5000, 60_000]) } else { case.rng.range(1, 8) as u64 };
    k.slow = true;
    k.max_depth = 2;
    k.never = 30;
    k.msgs = case.rng.range(5, 40);
    k.sub_tasks = case.rng.range(1, 4);
    k.sub_lives = 3;
    judge("C08", run_world(case, k))
}
fn c09_world(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.tasks = case.rng.below(3);
    k.msgs = case.rng.range(5, 60);
    k.sub_tasks = case.rng.range(1, 5);
    k.sub_lives = 4;
    k.multi = case.rng.chance(1, 3);
    k.legacy = case.rng.chance(1, 3);
    k.slow = case.rng.chance(1, 2);
    k.max_depth = *case.rng.pick(&[1, 3, 16]);
    k.stop = *case.rng.pick(&[Stopper::None, Stopper::None, Stopper::Close]);
    judge("C09", run_world(case, k))
}
fn c09_timed(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.tasks = case.rng.below(3);
    k.msgs = case.rng.range(5, 50);
    k.sub_tasks = case.rng.range(1, 4);
    k.sub_lives = 3;
    k.multi = case.rng.chance(1, 3);
    k.legacy = case.rng.chance(1, 4);
    k.slow = true;
    k.max_depth = *case.rng.pick(&[1, 2, 4]);
    k.timeout_ms = if case.rng.chance(1, 6) { *case.rng.pick(&[100, 600, 1500, 5000, 60_000]) } else { case.rng.range(1, 8) as u64 };
    judge("C09", run_world(case, k))
}
fn c10_world(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.tasks = case.rng.below(3);
    k.msgs = case.rng.range(5, 70);
    k.sub_tasks = case.rng.range(1, 6);
    k.sub_lives = 4;
    k.excl = case.rng.chance(1, 3);
    k.slow = case.rng.chance(2, 3);
    k.max_depth = *case.rng.pick(&[1, 3, 8, 32]);
    k.stop = *case.rng.pick(&[Stopper::None, Stopper::None, Stopper::Close, Stopper::RxFail]);
    if case.rng.chance(1, 4) {
        k.timeout_ms = case.rng.range(1, 5) as u64;
    }
    judge("C10", run_world(case, k))
}
fn c11_world(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.calls = *case.rng.pick(&[0, 30, 60]);
    k.ops = case.rng.range(4, 16);
    k.out_depth = *case.rng.pick(&[1, 1, 2, 8]);
    k.stall = case.rng.chance(1, 2);
    k.abandon = *case.rng.pick(&[0, 0, 20]);
    k.reply_w = *case.rng.pick(&[0, 8, 4, 2]);
    k.stop = *case.rng.pick(&[Stopper::None, Stopper::None, Stopper::None, Stopper::Close, Stopper::TxFail]);
    judge("C11", run_world(case, k))
}
fn c12_world(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.reply_w = *case.rng.pick(&[8, 4, 2, 1]);
    k.calls = 80;
    k.dups = true;
    k.abandon = *case.rng.pick(&[0, 0, 15]);
    k.tasks = case.rng.range(2, 10);
    judge("C12", run_world(case, k))
}
fn c21_world(case: &mut Case) -> Result<(), String> {
    let mut k = base(case);
    k.seq_w = *case.rng.pick(&[4, 2]);
    k.abandon = *case.rng.pick(&[20, 50, 80]);
    k.calls = 75;
    k.never = 20;
    k.ops = case.rng.range(3, 12);
    k.msgs = case.rng.below(20);
    k.sub_tasks = case.rng.below(3);
    k.sub_lives = 3;
    k.stall = case.rng.chance(1, 3);
    if case.rng.chance(1, 4) {
        k.timeout_ms = case.rng.range(1, 5) as u64;
    }
    judge("C21", run_world(case, k))
}

/// long runs on one client: wrap-around of narrow sequence numbers, reuse after completion
fn c12_wrap(case: &mut Case) -> Result<(), String> {
    let w = *case.rng.pick(&[1usize, 1, 2]);
    let n = if w == 1 { case.rng.range(260, 700) } else { 300 };
    wrap_run(case, w, n)
}

/// past the wrap-around of two-byte numbers (and as many calls with four-byte ones)
fn c12_wrap_long(case: &mut Case) -> Result<(), String> {
    let n = 65_536 + case.rng.range(10, 600);
    wrap_run(case, 2, n)?;
    case.count("wrap_65536", 1);
    if case.rng.chance(1, 4) {
        wrap_run(case, 4, n)?;
        case.count("calls_over_65536_wide", 1);
    }
    Ok(())
}

/// `n` calls one after another, of which possibly the very first one stays unanswered until the end: the
/// numbers are distinct within the width, and exactly the calls that come round to the number
/// still in flight are refused.
fn wrap_run(case: &mut Case, w: usize, n: usize) -> Result<(), String> {
    let mut rng = case.rng.fork();
    let link = clink(rng.fork(), if n > 10_000 { 0 } else { 1 });
    let mut sched = Sched::new(rng.fork());
    let c: Cl = Cl::new_with_wire(CTx(link.clone()), CRx(link.clone()), CSpawn(sched.spawner()), skind(w), "error", 4);
    let kl = *rng.pick(&[2usize, 4, 8]);
    let hold = rng.chance(2, 3);
    let done = Rc::new(Cell::new(0usize));
    let refused: Rc<RefCell<Vec<usize>>> = Default::default();
    let held: Rc<RefCell<Option<String>>> = Default::default();
    let errs: Rc<RefCell<Vec<String>>> = Default::default();
    {
        let link = link.clone();
        sched.spawn("echo", async move {
            let mut seen = 0;
            loop {
                std::future::poll_fn(|cx| {
                    let mut g = link.lock().unwrap();
                    if g.tx.len() > seen {
                        Poll::Ready(())
                    } else {
                        g.peer_waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                })
                .await;
                let f = link.lock().unwrap().tx[seen].frame.clone();
                seen += 1;
                if hold && seen == 1 {
                    continue;
                }
                let (h, b) = dec(&f).unwrap();
                push(&link, RxIt::Frame(0, frame(PingEndpoint::RESP_KEY, kl, h.seq, h.slen, b)));
            }
        });
    }
    if hold {
        let (c, h) = (c.clone(), held.clone());
        sched.spawn("held", async move {
            let r = c.send_resp::<PingEndpoint>(&4_000_000_000).await;
            *h.borrow_mut() = Some(format!("{r:?}"));
        });
        if sched.run(100_000) == Stop::Livelock {
            return Err("livelock".into());
        }
        if held.borrow().is_some() || link.lock().unwrap().tx.len() != 1 {
            return Err(format!("an unanswered call: {:?}, {} frames sent", held.borrow(), link.lock().unwrap().tx.len()));
        }
    }
    {
        let (c, d, e, rf) = (c.clone(), done.clone(), errs.clone(), refused.clone());
        sched.spawn("caller", async move {
            for i in 0..n as u32 {
                match c.send_resp::<PingEndpoint>(&i).await {
                    Ok(x) if x == i => d.set(d.get() + 1),
                    Err(HostErr::BadResponse) if hold && rf.borrow().len() < 8 => rf.borrow_mut().push(i as usize),
                    r => {
                        e.borrow_mut().push(format!("ping {i} of {n} with {w}-byte sequence numbers returned {r:?}"));
                        break;
                    }
                }
            }
        });
    }
    if sched.run(4_000_000) == Stop::Livelock {
        return Err("livelock".into());
    }
    if let Some(e) = errs.borrow().first() {
        return Err(e.clone());
    }
    let refused = refused.borrow();
    if done.get() + refused.len() != n {
        return Err(format!("only {} of {n} sequential pings completed", done.get()));
    }
    if held.borrow().is_some() {
        return Err(format!("the unanswered call finished: {:?}", held.borrow()));
    }
    let m = 1u64 << (8 * w);
    // what each call was numbered: the refused ones were never sent
    let seqs: Vec<u32> = {
        let g = link.lock().unwrap();
        for t in &g.tx {
            if dec(&t.frame).unwrap().0.slen != w {
                return Err(format!("{}-byte sequence number on the wire, configured {w}", dec(&t.frame).unwrap().0.slen));
            }
        }
        g.tx.iter().map(|t| dec(&t.frame).unwrap().0.seq).collect()
    };
    let mut last: HashMap<u32, u64> = HashMap::new();
    let mut pos = 0u64;
    let mut it = refused.iter().peekable();
    for (k, s) in seqs.iter().enumerate() {
        // position in the series of all calls, refused ones included
        while it.peek().is_some_and(|r| **r as u64 + hold as u64 == pos) {
            pos += 1;
            it.next();
        }
        if let Some(l) = last.insert(*s, pos) {
            if pos - l < m {
                return Err(format!("call {k} reuses sequence number {s} within {} calls, {m} numbers are available", pos - l));
            }
        }
        pos += 1;
    }
    if hold {
        // at most one call in every round of all numbers can come to the held one
        for (k, r) in refused.iter().enumerate() {
            let prev = if k == 0 { 0 } else { refused[k - 1] as u64 + 1 };
            if *r as u64 + 1 - prev < m {
                return Err(format!("call {r} was refused, {} calls after the number in flight was last met; {m} numbers are available", *r as u64 + 1 - prev));
            }
        }
        case.count("refused_at_wrap", refused.len() as u64);
        push(&link, RxIt::Frame(0, frame(PingEndpoint::RESP_KEY, kl, seqs[0], w, &postcard::to_stdvec(&4_000_000_000u32).unwrap())));
        if sched.run(100_000) == Stop::Livelock {
            return Err("livelock".into());
        }
        if held.borrow().as_deref() != Some("Ok(4000000000)") {
            return Err(format!("the call held for {n} calls returned {:?}", held.borrow()));
        }
    }
    case.count("wrap_calls", n as u64);
    case.sig(sched.switch_sig);
    case.nontrivial = true;
    Ok(())
}

/// the server changes its key length again and again while nothing is in flight
fn c12_changes(case: &mut Case) -> Result<(), String> {
    let mut rng = case.rng.fork();
    let link = clink(rng.fork(), 2);
    let mut sched = Sched::new(rng.fork());
    let sw = *rng.pick(&[1usize, 2, 4]);
    let c: Cl = Cl::new_with_wire(CTx(link.clone()), CRx(link.clone()), CSpawn(sched.spawner()), skind(sw), "error", 4);
    let wmin = min_len(&out_keys(ERROR_KEY.to_bytes())).unwrap();
    let widths: Vec<usize> = KLENS.into_iter().filter(|n| *n >= wmin).collect();
    let n = rng.range(4, 30);
    let errs: Rc<RefCell<Vec<String>>> = Default::default();
    let fin = Rc::new(Cell::new(0usize));
    let changes = Rc::new(Cell::new(0u64));
    let (e2, f2, l2, ch, mut rr) = (errs.clone(), fin.clone(), link.clone(), changes.clone(), rng.fork());
    sched.spawn("caller", async move {
        let mut cur = 8usize;
        for i in 0..n as u32 {
            let before = l2.lock().unwrap().tx.len();
            let next = *rr.pick(&widths);
            let is_err = rr.chance(1, 3);
            let raw = rr.chance(1, 3);
            // answered as soon as it is on the wire
            let l3 = l2.clone();
            let answer = async {
                loop {
                    let f = l3.lock().unwrap().tx.get(before).map(|t| t.frame.clone());
                    if let Some(f) = f {
                        return f;
                    }
                    yield_now().await;
                }
            };
            let call = async {
                if raw {
                    let f = RpcFrame { header: VarHeader { key: VarKey::Key8(PingEndpoint::REQ_KEY), seq_no: vseq(i, sw) }, body: postcard::to_stdvec(&i).unwrap() };
                    c.send_resp_raw(f, PingEndpoint::RESP_KEY).await.map(|f| postcard::from_bytes::<u32>(&f.body).unwrap_or(u32::MAX))
                } else {
                    c.send_resp::<PingEndpoint>(&i).await
                }
            };
            let mut call = Box::pin(call);
            let mut answer = Box::pin(answer);
            let mut sent: Option<Vec<u8>> = None;
            let r = std::future::poll_fn(|cx| {
                let p = call.as_mut().poll(cx);
                if p.is_ready() {
                    return p;
                }
                if sent.is_none() {
                    if let Poll::Ready(f) = answer.as_mut().poll(cx) {
                        let Some((h, b)) = dec(&f) else { return Poll::Pending };
                        let (k, body) = if is_err { (ERROR_KEY, postcard::to_stdvec(&WireError::UnknownKey).unwrap()) } else { (PingEndpoint::RESP_KEY, b.to_vec()) };
                        push(&l2, RxIt::Frame(0, frame(k, next, h.seq, h.slen, &body)));
                        sent = Some(f);
                    }
                }
                Poll::Pending
            })
            .await;
            let good = match &r {
                Ok(x) => !is_err && *x == i,
                Err(HostErr::Wire(WireError::UnknownKey)) => is_err,
                _ => false,
            };
            if !good {
                e2.borrow_mut().push(format!("call {i} returned {r:?} (is_err {is_err}) after key lengths changed, current {cur}, reply {next}"));
                return;
            }
            let h = dec(sent.as_ref().unwrap()).map(|x| x.0.key.len()).unwrap_or(0);
            if h != cur {
                e2.borrow_mut().push(format!("request {i} used {h}-byte keys, the last reply had {cur}"));
                return;
            }
            if next != cur {
                ch.set(ch.get() + 1);
            }
            cur = next;
            f2.set(f2.get() + 1);
            if rr.chance(1, 3) {
                let at = l2.lock().unwrap().tx.len();
                if c.publish::<TiStr>(vseq(3, 1), &"t".to_string()).await.is_err() {
                    e2.borrow_mut().push("publish failed".into());
                    return;
                }
                while l2.lock().unwrap().tx.len() == at {
                    yield_now().await;
                }
                let k = dec(&l2.lock().unwrap().tx[at].frame).map(|x| x.0.key.len()).unwrap_or(0);
                if k != cur {
                    e2.borrow_mut().push(format!("message published with a {k}-byte key, the last reply had {cur}"));
                    return;
                }
            }
        }
    });
    let st = sched.run(400_000);
    if let Some(e) = errs.borrow().first() {
        return Err(e.clone());
    }
    if fin.get() != n {
        return Err(format!("only {} of {n} calls completed while the server changed its key length ({st:?})", fin.get()));
    }
    case.count("length_changes", changes.get());
    case.sig(rng.u64());
    case.nontrivial = true;
    Ok(())
}

/// every kind of subscription and typed call survives bodies that do not decode: each proper prefix
/// of a message including the empty one, and damaged ones
fn c07_undecodable(case: &mut Case) -> Result<(), String> {
    let mut rng = case.rng.fork();
    let link = clink(rng.fork(), 2);
    let mut sched = Sched::new(rng.fork());
    let c: Cl = Cl::new_with_wire(CTx(link.clone()), CRx(link.clone()), CSpawn(sched.spawner()), skind(4), "error", 4);
    let errs: Rc<RefCell<Vec<String>>> = Default::default();
    let fin = Rc::new(Cell::new(false));
    let (e2, f2, l2, mut rr) = (errs.clone(), fin.clone(), link.clone(), rng.fork());
    let (bad_n, good_n) = (Rc::new(Cell::new(0u64)), Rc::new(Cell::new(0u64)));
    let (b2, g2) = (bad_n.clone(), good_n.clone());
    let which = rng.below(3);
    sched.spawn("app", async move {
        macro_rules! bail { ($($t:tt)*) => {{ e2.borrow_mut().push(format!($($t)*)); return; }} }
        let msg = |i: u32| Rs { who: i, id: i ^ 0x5555, data: vec![i as u8; 3] };
        let mk_bad = |rr: &mut Rng, i: u32| -> Vec<u8> {
            let b = postcard::to_stdvec(&msg(i)).unwrap();
            match rr.below(4) {
                0 => vec![],
                1 | 2 => {
                    let n = rr.below(b.len());
                    b[..n].to_vec()
                }
                _ => vec![0xff; rr.range(1, 20)],
            }
        };
        let mut at = 0u32;
        match which {
            // typed exclusive subscription
            0 => {
                let Ok(mut s) = c.subscribe_exclusive::<ToA>(16).await else { bail!("subscribe failed") };
                let raw = c.subscribe_multi_raw(ToA::TOPIC_KEY, 64).await;
                for _ in 0..12 {
                    let nb = rr.below(4);
                    for _ in 0..nb {
                        let b = mk_bad(&mut rr, at);
                        push(&l2, RxIt::Frame(0, frame(ToA::TOPIC_KEY, 8, at, 4, &b)));
                        b2.set(b2.get() + 1);
                    }
                    at += 1;
                    push(&l2, RxIt::Frame(0, frame(ToA::TOPIC_KEY, 8, at, 4, &postcard::to_stdvec(&msg(at)).unwrap())));
                    match s.recv().await {
                        Some(m) if m == msg(at) => g2.set(g2.get() + 1),
                        r => bail!("exclusive subscriber got {r:?} instead of message {at} after {nb} undecodable ones"),
                    }
                }
                drop(raw);
            }
            // typed broadcast subscription: the deserialisation error is not specified to be silent
            // here, only that the next good message is still delivered
            1 => {
                let Ok(mut s) = c.subscribe_multi::<ToA>(64).await else { bail!("subscribe failed") };
                for _ in 0..12 {
                    let nb = rr.below(4);
                    for _ in 0..nb {
                        let b = mk_bad(&mut rr, at);
                        push(&l2, RxIt::Frame(0, frame(ToA::TOPIC_KEY, 8, at, 4, &b)));
                        b2.set(b2.get() + 1);
                    }
                    at += 1;
                    push(&l2, RxIt::Frame(0, frame(ToA::TOPIC_KEY, 8, at, 4, &postcard::to_stdvec(&msg(at)).unwrap())));
                    match s.recv().await {
                        Ok(m) if m == msg(at) => g2.set(g2.get() + 1),
                        r => bail!("broadcast subscriber got {:?} instead of message {at} after {nb} undecodable ones", r.map_err(|_| "an error")),
                    }
                }
            }
            // typed calls
            _ => {
                for i in 0..12u32 {
                    let rq = Rq { id: i, data: vec![] };
                    let before = l2.lock().unwrap().tx.len();
                    let mut call = Box::pin(c.send_resp::<EpBlk>(&rq));
                    let bad = rr.chance(1, 2);
                    let as_err = bad && rr.chance(1, 3);
                    let mut body = if bad { mk_bad(&mut rr, i) } else { postcard::to_stdvec(&msg(i)).unwrap() };
                    if as_err && rr.chance(1, 2) {
                        body.clear();
                    } else if as_err {
                        body = vec![0xff; 3];
                    }
                    let mut pushed = false;
                    let r = std::future::poll_fn(|cx| {
                        let p = call.as_mut().poll(cx);
                        if p.is_pending() && !pushed {
                            let f = l2.lock().unwrap().tx.get(before).map(|t| t.frame.clone());
                            if let Some((h, _)) = f.as_ref().and_then(|f| dec(f)) {
                                pushed = true;
                                let k = if as_err { ERROR_KEY } else { EpBlk::RESP_KEY };
                                push(&l2, RxIt::Frame(0, frame(k, 8, h.seq, h.slen, &body)));
                            } else {
                                cx.waker().wake_by_ref();
                            }
                        }
                        p
                    })
                    .await;
                    match (bad, &r) {
                        (true, Err(HostErr::Postcard(_))) => b2.set(b2.get() + 1),
                        (false, Ok(m)) if *m == msg(i) => g2.set(g2.get() + 1),
                        _ => bail!("call {i} with reply body {} (error key: {as_err}) returned {r:?}", hex(&body)),
                    }
                }
            }
        }
        if c.is_closed() {
            bail!("the client closed itself after undecodable bodies");
        }
        f2.set(true);
    });
    let st = sched.run(400_000);
    if let Some(e) = errs.borrow().first() {
        return Err(e.clone());
    }
    if !fin.get() {
        return Err(format!("scenario {which}: an operation never completed after an undecodable body ({st:?})"));
    }
    case.count("undecodable", bad_n.get());
    case.count("good_after_bad", good_n.get());
    case.sig(rng.u64() ^ which as u64);
    case.nontrivial = true;
    Ok(())
}

/// a very long run of frames the client cannot use, of one kind or of all: a call pending all along
/// and the subscriptions still work afterwards
fn c07_long(case: &mut Case) -> Result<(), String> {
    let mut rng = case.rng.fork();
    let link = clink(rng.fork(), 0);
    let mut sched = Sched::new(rng.fork());
    let depth = 8;
    let c: Cl = Cl::new_with_wire(CTx(link.clone()), CRx(link.clone()), CSpawn(sched.spawner()), skind(4), "error", depth);
    let n = *rng.pick(&[40usize, 130, 260, 700, 1500, 4100]);
    let n = if rng.chance(1, 60) { 66_000 } else { n };
    let kind = rng.below(9);
    let errs: Rc<RefCell<Vec<String>>> = Default::default();
    let fin = Rc::new(Cell::new(false));
    let (e2, f2, l2, mut rr) = (errs.clone(), fin.clone(), link.clone(), rng.fork());
    let c2 = c.clone();
    sched.spawn("app", async move {
        macro_rules! bail { ($($t:tt)*) => {{ e2.borrow_mut().push(format!($($t)*)); return; }} }
        let msg = |i: u32| Rs { who: i, id: i ^ 0x5555, data: vec![i as u8; 3] };
        let Ok(mut ex) = c2.subscribe_exclusive::<ToA>(4).await else { bail!("subscribe failed") };
        let Ok(mut mu) = c2.subscribe_multi::<ToC>(4).await else { bail!("subscribe failed") };
        // a call that stays pending throughout
        let rq = Rq { id: 1, data: vec![] };
        let mut call = Box::pin(c2.send_resp::<EpBlk>(&rq));
        let mut spins = 0;
        let h = loop {
            let p = std::future::poll_fn(|cx| Poll::Ready(call.as_mut().poll(cx).is_ready())).await;
            if p {
                bail!("the call ended before any reply");
            }
            if let Some((h, _)) = l2.lock().unwrap().tx.first().and_then(|t| dec(&t.frame)) {
                break h;
            }
            spins += 1;
            if spins > 10_000 {
                bail!("the call was never transmitted");
            }
            yield_now().await;
        };
        for i in 0..n {
            let k = if kind == 8 { rr.below(8) } else { kind };
            let s = h.seq.wrapping_add(1 + rr.below(1000) as u32);
            let kl = *rr.pick(&[8usize, 4, 2]);
            let f = match k {
                // no header at all
                0 => vec![],
                // a header cut short
                1 => {
                    let mut f = frame(EpBlk::RESP_KEY, kl, s, 4, &[]);
                    let m = rr.below(f.len());
                    f.truncate(m);
                    f
                }
                // a reply nobody waits for
                2 => frame(EpBlk::RESP_KEY, kl, s, 4, &postcard::to_stdvec(&msg(i as u32)).unwrap()),
                3 => frame(ERROR_KEY, kl, s, 4, &[0]),
                // a topic nobody subscribed
                4 => frame(TcX::TOPIC_KEY, kl, i as u32, 4, &postcard::to_stdvec(&(i as u32)).unwrap()),
                // a request: not something a device sends
                5 => frame(EpBlk::REQ_KEY, kl, h.seq, 4, &[1, 0]),
                // a message the typed subscription cannot decode
                6 => frame(ToA::TOPIC_KEY, kl, i as u32, 4, &[]),
                // noise
                _ => {
                    let m = rr.below(24);
                    let mut b = rr.bytes(m);
                    if let Some(x) = b.first_mut() {
                        // an unassigned key-length code
                        *x |= 0xf0;
                    }
                    b
                }
            };
            push(&l2, RxIt::Frame(0, f));
            if i % 64 == 63 {
                for _ in 0..4 {
                    yield_now().await;
                }
                if k == 6 || kind == 8 {
                    // this subscriber is kept drained
                    if let Poll::Ready(r) = std::future::poll_fn(|cx| Poll::Ready(std::pin::pin!(ex.recv()).poll(cx))).await {
                        bail!("exclusive subscriber got {r:?} although nothing decodable was sent to it");
                    }
                }
            }
        }
        let mut spins = 0;
        while l2.lock().unwrap().rx.iter().len() > 0 && spins < 200_000 {
            spins += 1;
            yield_now().await;
        }
        for _ in 0..50 {
            yield_now().await;
        }
        if let Poll::Ready(r) = std::future::poll_fn(|cx| Poll::Ready(std::pin::pin!(ex.recv()).poll(cx))).await {
            bail!("exclusive subscriber got {r:?} although nothing decodable was sent to it (after {n} frames of kind {kind})");
        }
        push(&l2, RxIt::Frame(0, frame(ToA::TOPIC_KEY, 8, 1, 4, &postcard::to_stdvec(&msg(3)).unwrap())));
        push(&l2, RxIt::Frame(0, frame(ToC::TOPIC_KEY, 8, 1, 4, &postcard::to_stdvec(&77u32).unwrap())));
        push(&l2, RxIt::Frame(0, frame(EpBlk::RESP_KEY, 8, h.seq, h.slen, &postcard::to_stdvec(&msg(9)).unwrap())));
        match call.await {
            Ok(m) if m == msg(9) => {}
            r => bail!("the pending call returned {r:?} after {n} useless frames of kind {kind}"),
        }
        match ex.recv().await {
            Some(m) if m == msg(3) => {}
            r => bail!("exclusive subscriber got {r:?} after {n} useless frames of kind {kind}"),
        }
        match mu.recv().await {
            Ok(77) => {}
            r => bail!("broadcast subscriber got {:?} after {n} useless frames of kind {kind}", r.map_err(|_| "an error")),
        }
        if c2.is_closed() {
            bail!("the client closed itself after {n} useless frames of kind {kind}");
        }
        f2.set(true);
    });
    let st = sched.run(3_000_000);
    if let Some(e) = errs.borrow().first() {
        return Err(e.clone());
    }
    if !fin.get() {
        return Err(format!("an operation never completed after {n} useless frames of kind {kind} ({st:?})"));
    }
    case.count("long_junk_frames", n as u64);
    case.sig(rng.u64() ^ (kind as u64) << 32 ^ n as u64);
    case.nontrivial = true;
    Ok(())
}

/// repeated abandonment with one fixed sequence number: no registration may be left behind
fn c21_reuse(case: &mut Case) -> Result<(), String> {
    let mut rng = case.rng.fork();
    let link = clink(rng.fork(), 2);
    let mut sched = Sched::new(rng.fork());
    let depth = rng.range(1, 3);
    let c: Cl = Cl::new_with_wire(CTx(link.clone()), CRx(link.clone()), CSpawn(sched.spawner()), skind(4), "error", depth);
    let res: Rc<RefCell<Vec<String>>> = Default::default();
    let fin = Rc::new(Cell::new(false));
    let n = rng.range(3, 25);
    let (r2, f2, mut rr) = (res.clone(), fin.clone(), rng.fork());
    let tolink = link.clone();
    sched.spawn("abandoner", async move {
        let mk = |i: u32| RpcFrame { header: VarHeader { key: VarKey::Key8(EpBlk::REQ_KEY), seq_no: vseq(7, 4) }, body: postcard::to_stdvec(&Rq { id: i, data: vec![] }).unwrap() };
        for i in 0..n as u32 {
            let k = rr.below(8);
            if let Some(r) = abandon(c.send_resp_raw(mk(i), EpBlk::RESP_KEY), Some(k)).await {
                r2.borrow_mut().push(format!("call {i} on sequence number 7 after {i} abandoned ones ended with {:?}", r.map(|f| f.body)));
                return;
            }
        }
        // now one that is answered
        let mut f = Box::pin(c.send_resp_raw(mk(9999), EpBlk::RESP_KEY));
        let mut pushed = false;
        let r = std::future::poll_fn(|cx| {
            let p = f.as_mut().poll(cx);
            if p.is_pending() && !pushed {
                pushed = true;
                push(&tolink, RxIt::Frame(0, frame(EpBlk::RESP_KEY, 8, 7, 4, b"hello")));
            }
            p
        })
        .await;
        match r {
            Ok(f) if f.body == b"hello" => f2.set(true),
            r => r2.borrow_mut().push(format!("final call ended with {:?}", r.map(|f| f.body))),
        }
    });
    let st = sched.run(200_000);
    if let Some(e) = res.borrow().first() {
        return Err(e.clone());
    }
    if !fin.get() {
        return Err(format!("call reusing an abandoned sequence number never completed ({st:?})"));
    }
    case.count("reused_after_abandon", n as u64);
    case.sig(sched.switch_sig);
    case.nontrivial = true;
    Ok(())
}

postcard_rpc::topics! {
    list = FLOOD_OUT;
    direction = postcard_rpc::TopicDirection::ToClient;
    omit_std = true;
    | TopicTy | MessageTy | Path         |
    | ------- | --------- | ----         |
    | TcX     | u32       | "flood/more" |
}
/// long bursts into deep and shallow queues: exact queue contents and exact loss counts
fn flood(case: &mut Case, multi_only: bool) -> Result<(), String> {
    enum S {
        M(MultiSubscription<u32>),
        MR(RawMultiSubscription),
        E(Subscription<u32>),
        ER(RawSubscription),
    }
    struct St {
        s: S,
        topic: usize,
        depth: usize,
        /// first message number not yet accounted for (broadcast)
        pos: u32,
        /// modelled queue (exclusive)
        q: VecDeque<u32>,
        lost: u64,
    }
    let mut rng = case.rng.fork();
    let link = clink(rng.fork(), 0);
    let mut sched = Sched::new(rng.fork());
    let cfg = HostClientConfig { seq_kind: skind(4), err_uri_path: "error", outgoing_depth: 4, subscriber_timeout_if_full: std::time::Duration::ZERO };
    let c: Cl = Cl::new_with_wire_and_config(CTx(link.clone()), CRx(link.clone()), CSpawn(sched.spawner()), &cfg);
    let keys = [ToC::TOPIC_KEY, TcX::TOPIC_KEY];
    macro_rules! now {
        ($e:expr) => {{
            let mut f = std::pin::pin!($e);
            let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
            match std::future::Future::poll(f.as_mut(), &mut cx) {
                Poll::Ready(x) => Some(x),
                Poll::Pending => None,
            }
        }};
    }
    sched.run(1000);
    let mut arrived = [0u32; 2];
    let mut subs: Vec<St> = vec![];
    // the broadcast queue depth of a topic is set by whoever created its queue, and lives as long
    // as it has a subscriber; none is dropped before the end here
    let mut bdepth = [0usize; 2];
    let mut excl = [false; 2];
    let n_sub = rng.range(1, 7);
    let phases = rng.range(2, 8);
    let big = rng.chance(1, 40);
    // the second topic's messages may have no payload; then only their sequence numbers tell them apart
    let unit = rng.chance(1, 3);
    for ph in 0..phases {
        while subs.len() < n_sub && (ph == 0 || rng.chance(1, 2)) {
            let t = rng.below(2);
            let depth = *rng.pick(&[1usize, 2, 3, 5, 8, 16, 100, 255, 256, 257, 1000, 1024]);
            let e = !multi_only && !excl[t] && rng.chance(1, 2);
            let r: Option<Result<S, String>> = match (e, t, rng.chance(1, 2) || (unit && t == 1)) {
                (true, 0, false) => now!(c.subscribe_exclusive::<ToC>(depth)).map(|r| r.map(S::E).map_err(|e| format!("{e:?}"))),
                (true, _, false) => now!(c.subscribe_exclusive::<TcX>(depth)).map(|r| r.map(S::E).map_err(|e| format!("{e:?}"))),
                (true, t, true) => now!(c.subscribe_exclusive_raw(keys[t], depth)).map(|r| r.map(S::ER).map_err(|e| format!("{e:?}"))),
                (false, 0, false) => now!(c.subscribe_multi::<ToC>(depth)).map(|r| r.map(S::M).map_err(|e| format!("{e:?}"))),
                (false, _, false) => now!(c.subscribe_multi::<TcX>(depth)).map(|r| r.map(S::M).map_err(|e| format!("{e:?}"))),
                (false, t, true) => now!(c.subscribe_multi_raw(keys[t], depth)).map(|r| r.map(S::MR).map_err(|e| format!("{e:?}"))),
            };
            let s = match r {
                Some(Ok(s)) => s,
                Some(Err(e)) => return Err(format!("subscription on an idle client refused: {e}")),
                None => return Err("subscription on an idle client does not finish".into()),
            };
            if e {
                excl[t] = true;
            } else if bdepth[t] == 0 {
                bdepth[t] = depth;
            }
            let depth = if e { depth } else { bdepth[t] };
            subs.push(St { s, topic: t, depth, pos: arrived[t], q: VecDeque::new(), lost: 0 });
        }
        let burst = if big && ph == 1 { rng.range(65_000, 67_000) } else { *rng.pick(&[1usize, 3, 17, 255, 256, 257, 300, 600, 1030]) };
        let both = rng.chance(1, 3);
        let t0 = rng.below(2);
        for i in 0..burst {
            let t = if both { i % 2 } else { t0 };
            push(&link, RxIt::Frame(0, frame(keys[t], *rng.pick(&[8usize, 4, 2]), arrived[t], 4, &if unit && t == 1 { vec![] } else { postcard::to_stdvec(&arrived[t]).unwrap() })));
            for s in subs.iter_mut().filter(|s| s.topic == t && matches!(s.s, S::E(_) | S::ER(_))) {
                if s.q.len() < s.depth {
                    s.q.push_back(arrived[t]);
                }
            }
            arrived[t] += 1;
        }
        if sched.run(2_000_000) == Stop::Livelock {
            return Err("the client never finishes handling a burst".into());
        }
        let last = ph + 1 == phases;
        if last {
            if rng.chance(1, 2) {
                c.close();
            } else {
                push(&link, RxIt::Fail);
            }
            sched.run(100_000);
        }
        for (i, s) in subs.iter_mut().enumerate() {
            let take = if last { usize::MAX } else { *rng.pick(&[0usize, 0, 1, 10, 2000]) };
            for _ in 0..take {
                // what the subscriber sees next: a message, a loss, the end, or nothing
                enum Saw {
                    Msg(u32),
                    Lag(u64),
                    End,
                    Nothing,
                }
                let empty = unit && s.topic == 1;
                let num = |f: &RpcFrame| match empty {
                    true if f.body.is_empty() => seq_parts(&f.header.seq_no).0,
                    true => u32::MAX,
                    false => postcard::from_bytes::<u32>(&f.body).unwrap_or(u32::MAX),
                };
                let saw = match &mut s.s {
                    S::E(r) => match now!(r.recv()) {
                        Some(Some(v)) => Saw::Msg(v),
                        Some(None) => Saw::End,
                        None => Saw::Nothing,
                    },
                    S::ER(r) => match now!(r.recv()) {
                        Some(Some(f)) => Saw::Msg(num(&f)),
                        Some(None) => Saw::End,
                        None => Saw::Nothing,
                    },
                    S::M(r) => match now!(r.recv()) {
                        Some(Ok(v)) => Saw::Msg(v),
                        Some(Err(MultiSubRxError::Lagged(n))) => Saw::Lag(n),
                        Some(Err(MultiSubRxError::IoClosed)) => Saw::End,
                        None => Saw::Nothing,
                    },
                    S::MR(r) => match now!(r.recv()) {
                        Some(Ok(f)) => Saw::Msg(num(&f)),
                        Some(Err(MultiSubRxError::Lagged(n))) => Saw::Lag(n),
                        Some(Err(MultiSubRxError::IoClosed)) => Saw::End,
                        None => Saw::Nothing,
                    },
                };
                let ex = matches!(s.s, S::E(_) | S::ER(_));
                match saw {
                    Saw::Msg(v) if ex => {
                        let want = s.q.pop_front();
                        if want != Some(v) {
                            return Err(format!("exclusive subscriber {i} (depth {}) received message {v}, expected {want:?}", s.depth));
                        }
                        case.count("flood_excl", 1);
                        case.count("empty_messages", empty as u64);
                    }
                    Saw::Msg(v) => {
                        if v != s.pos {
                            return Err(format!("broadcast subscriber {i} (depth {}) received message {v} but {} messages were accounted for (losses reported: {})", s.depth, s.pos, s.lost));
                        }
                        s.pos += 1;
                        case.count("flood_multi", 1);
                        case.count("empty_messages", empty as u64);
                    }
                    Saw::Lag(n) => {
                        let behind = arrived[s.topic] - s.pos;
                        if (behind as usize) < s.depth || n == 0 || n > behind as u64 {
                            return Err(format!("broadcast subscriber {i} (depth {}) was told it lost {n} while it was {behind} behind", s.depth));
                        }
                        if behind as u64 - n < s.depth as u64 {
                            return Err(format!("broadcast subscriber {i} lost {n} of {behind} queued messages, the queue holds {}", s.depth));
                        }
                        s.lost += n;
                        s.pos += n as u32;
                        case.count("flood_lost", n);
                        if n > 255 {
                            case.count("flood_lag_over_255", 1);
                        }
                        if n > 65535 {
                            case.count("flood_lag_over_65535", 1);
                        }
                    }
                    Saw::End | Saw::Nothing => {
                        let end = matches!(saw, Saw::End);
                        if end != last {
                            return Err(format!("subscriber {i}: {} while the link is {}", if end { "ended" } else { "still waits" }, if last { "down" } else { "up" }));
                        }
                        if ex && !s.q.is_empty() {
                            return Err(format!("exclusive subscriber {i} (depth {}): {} queued messages are missing", s.depth, s.q.len()));
                        }
                        if !ex && s.pos != arrived[s.topic] {
                            return Err(format!("broadcast subscriber {i} (depth {}): accounts for {} of {} messages", s.depth, s.pos, arrived[s.topic]));
                        }
                        break;
                    }
                }
            }
        }
    }
    case.sig(arrived[0] as u64);
    case.sig(arrived[1] as u64);
    for s in &subs {
        case.sig(s.depth as u64);
        case.sig(s.lost);
    }
    case.nontrivial = true;
    sched.drop_all();
    Ok(())
}
/// many topics at once: every subscriber gets all messages of its topic and no other, whatever the
/// number of other subscriptions and however many of them have come and gone
fn many(case: &mut Case, multi_only: bool) -> Result<(), String> {
    enum S {
        E(RawSubscription),
        M(RawMultiSubscription),
    }
    struct St {
        s: S,
        topic: usize,
        q: VecDeque<u32>,
    }
    macro_rules! now {
        ($e:expr) => {{
            let mut f = std::pin::pin!($e);
            let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
            match std::future::Future::poll(f.as_mut(), &mut cx) {
                Poll::Ready(x) => Some(x),
                Poll::Pending => None,
            }
        }};
    }
    let mut rng = case.rng.fork();
    let link = clink(rng.fork(), 0);
    let mut sched = Sched::new(rng.fork());
    let cfg = HostClientConfig { seq_kind: skind(4), err_uri_path: "error", outgoing_depth: 4, subscriber_timeout_if_full: std::time::Duration::ZERO };
    let c: Cl = Cl::new_with_wire_and_config(CTx(link.clone()), CRx(link.clone()), CSpawn(sched.spawner()), &cfg);
    sched.run(1000);
    // random keys, distinct at the lengths used on the wire here
    let kl = *rng.pick(&[8usize, 4]);
    let nt = *rng.pick(&[3usize, 9, 17, 20, 33, 40, 65, 70, 130, 260]);
    let mut keys: Vec<Key> = vec![];
    while keys.len() < nt {
        let k = key8(rng.filler(8).try_into().unwrap());
        if !keys.iter().any(|x| fold(&x.to_bytes(), kl) == fold(&k.to_bytes(), kl)) {
            keys.push(k);
        }
    }
    let mut subs: Vec<St> = vec![];
    let mut next = 0u32;
    let mut most = [0usize; 2];
    for _ in 0..rng.range(2, 6) {
        // some leave, some come
        let leave = rng.below(subs.len() + 1) * rng.below(2);
        for _ in 0..leave {
            let i = rng.below(subs.len());
            subs.swap_remove(i);
        }
        let want = rng.range(1, nt);
        let mut order: Vec<usize> = (0..nt).collect();
        rng.shuffle(&mut order);
        for t in order.into_iter().take(want) {
            let have_e = subs.iter().any(|s| s.topic == t && matches!(s.s, S::E(_)));
            let e = !multi_only && rng.chance(2, 3);
            if subs.len() > 400 || (multi_only && subs.iter().any(|s| s.topic == t) && rng.chance(1, 2)) {
                continue;
            }
            let s = if e {
                match now!(c.subscribe_exclusive_raw(keys[t], 40)) {
                    Some(Ok(s)) if !have_e => S::E(s),
                    Some(Err(SubscribeError::AlreadySubscribed)) if have_e => {
                        case.count("many_refused", 1);
                        continue;
                    }
                    Some(Ok(_)) => return Err(format!("a second exclusive subscription to topic {t} was granted among {} subscriptions", subs.len())),
                    Some(Err(e)) => return Err(format!("exclusive subscription to the free topic {t} among {} subscriptions failed: {e:?}", subs.len())),
                    None => return Err("subscription on an idle client does not finish".into()),
                }
            } else {
                match now!(c.subscribe_multi_raw(keys[t], 40)) {
                    Some(Ok(s)) => S::M(s),
                    Some(Err(e)) => return Err(format!("subscription on an idle client refused: {e:?}")),
                    None => return Err("subscription on an idle client does not finish".into()),
                }
            };
            subs.push(St { s, topic: t, q: VecDeque::new() });
        }
        let ne = subs.iter().filter(|s| matches!(s.s, S::E(_))).count();
        most = [most[0].max(ne), most[1].max(subs.len() - ne)];
        // at most 20 unread messages per topic and round: no queue fills
        let mut left = vec![20usize; nt];
        for _ in 0..rng.range(nt, 3 * nt) {
            let t = rng.below(nt);
            if left[t] == 0 {
                continue;
            }
            left[t] -= 1;
            push(&link, RxIt::Frame(0, frame(keys[t], kl, next, 4, &postcard::to_stdvec(&next).unwrap())));
            for s in subs.iter_mut().filter(|s| s.topic == t) {
                s.q.push_back(next);
            }
            next += 1;
        }
        if sched.run(2_000_000) == Stop::Livelock {
            return Err("the client never finishes handling its messages".into());
        }
        for s in subs.iter_mut() {
            // all of it, or a part now and the rest later
            if rng.chance(1, 8) && s.q.len() < 20 {
                continue;
            }
            loop {
                let got = match &mut s.s {
                    S::E(x) => now!(x.recv()).map(|r| r.ok_or("ended".to_string())),
                    S::M(x) => now!(x.recv()).map(|r| r.map_err(|e| format!("{e:?}"))),
                };
                let kind = if matches!(s.s, S::E(_)) { "exclusive" } else { "broadcast" };
                match (got, s.q.pop_front()) {
                    (None, None) => break,
                    (Some(Ok(f)), Some(m)) if f.body == postcard::to_stdvec(&m).unwrap() => case.count(if kind == "exclusive" { "many_exclusive" } else { "many_broadcast" }, 1),
                    (g, m) => {
                        return Err(format!("{kind} subscriber of topic {} among {ne} exclusive and {} broadcast subscriptions received {:?}, expected {m:?}", s.topic, most[1], g.map(|r| r.map(|f| hex(&f.body)))));
                    }
                }
            }
        }
    }
    if c.is_closed() {
        return Err("the client closed itself".into());
    }
    case.count("many_most_exclusive_over_32", (most[0] > 32) as u64);
    case.count("many_most_broadcast_over_32", (most[1] > 32) as u64);
    case.sig(rng.u64());
    case.nontrivial = true;
    drop(subs);
    drop(c);
    sched.drop_all();
    Ok(())
}
fn c09_many(case: &mut Case) -> Result<(), String> {
    many(case, false)
}
fn c10_many(case: &mut Case) -> Result<(), String> {
    many(case, true)
}
fn c09_flood(case: &mut Case) -> Result<(), String> {
    flood(case, false)
}
fn c10_flood(case: &mut Case) -> Result<(), String> {
    flood(case, true)
}

pub fn checks() -> Vec<Check> {
    let rule = "a distinct case is a distinct (client configuration, operation mix, peer behaviour, schedule) world, identified by its task-switch sequence and event count; every event of its history is judged by the oracles";
    let asm: &[&str] = &["the peer uses key lengths at which its own messages do not collide", "one scheduler thread interleaves all tasks at await points (true parallelism is C20's part)"];
    vec![
        Check {
            id: "C04",
            rule,
            scenarios: vec![
                Scenario { name: "calls", f: c04_calls, quick: 3000, weight: 3, serial: false },
                Scenario { name: "many", f: c04_many, quick: 600, weight: 2, serial: false },
            ],
            assumptions: asm,
            must_see: &["frames_in_over_64k", "frames_out_over_64k", "call_ok", "call_protocol_error", "call_decode_error", "cases_with_overlapping_calls", "left_pending", "cases_with_key_length_change"],
        },
        Check {
            id: "C07",
            rule,
            scenarios: vec![
                Scenario { name: "hostile", f: c07_world, quick: 3000, weight: 4, serial: false },
                Scenario { name: "undecodable", f: c07_undecodable, quick: 1000, weight: 1, serial: false },
                Scenario { name: "long_junk", f: c07_long, quick: 120, weight: 1, serial: false },
            ],
            assumptions: asm,
            must_see: &["frames_in_over_64k", "junk_frames", "call_ok", "call_decode_error", "sub_messages", "final_pings", "long_junk_frames"],
        },
        Check {
            id: "C08",
            rule,
            scenarios: vec![
                Scenario { name: "end", f: c08_world, quick: 3000, weight: 3, serial: false },
                Scenario { name: "end_full_queue", f: c08_timed, quick: 800, weight: 2, serial: false },
            ],
            assumptions: asm,
            must_see: &["stopped_by_close", "stopped_by_rx", "stopped_by_tx", "dropped_all_clones", "call_closed", "publish_closed", "sub_closed", "sub_ended", "late_ops"],
        },
        Check {
            id: "C09",
            rule,
            scenarios: vec![
                Scenario { name: "exclusive", f: c09_world, quick: 3000, weight: 3, serial: false },
                Scenario { name: "waiting_time", f: c09_timed, quick: 1000, weight: 2, serial: false },
                Scenario { name: "flood", f: c09_flood, quick: 200, weight: 1, serial: false },
                Scenario { name: "many_topics", f: c09_many, quick: 150, weight: 1, serial: false },
            ],
            assumptions: asm,
            must_see: &["frames_in_over_64k", "many_exclusive", "sub_exclusive", "sub_refused", "sub_legacy", "sub_multi", "sub_messages", "sub_ended", "flood_excl", "empty_messages"],
        },
        Check {
            id: "C10",
            rule,
            scenarios: vec![
                Scenario { name: "broadcast", f: c10_world, quick: 3000, weight: 3, serial: false },
                Scenario { name: "flood", f: c10_flood, quick: 300, weight: 1, serial: false },
                Scenario { name: "many_topics", f: c10_many, quick: 150, weight: 1, serial: false },
            ],
            assumptions: asm,
            must_see: &["frames_in_over_64k", "many_broadcast", "flood_lag_over_255", "empty_messages", "sub_multi", "sub_lagged", "sub_exclusive", "sub_messages", "sub_ended"],
        },
        Check {
            id: "C11",
            rule,
            scenarios: vec![
                Scenario { name: "outgoing", f: c11_world, quick: 3000, weight: 3, serial: false },
                Scenario { name: "device", f: crate::pubs::c11_device, quick: 1000, weight: 1, serial: false },
                Scenario { name: "device_channels", f: crate::pubs::c11_channels, quick: 600, weight: 1, serial: false },
                Scenario { name: "empty", f: crate::pubs::c11_empty, quick: 1000, weight: 1, serial: false },
            ],
            assumptions: asm,
            must_see: &["frames_out_over_64k", "publish_ok", "call_ok", "abandoned", "frames_out", "cases_with_key_length_change", "device_frames", "device_key_length_overridden", "channel_frames", "channel_logs", "channel_send_failed", "empty_frames"],
        },
        Check {
            id: "C12",
            rule,
            scenarios: vec![
                Scenario { name: "negotiation", f: c12_world, quick: 3000, weight: 3, serial: false },
                Scenario { name: "changes", f: c12_changes, quick: 600, weight: 1, serial: false },
                Scenario { name: "wrap", f: c12_wrap, quick: 60, weight: 1, serial: false },
                Scenario { name: "wrap_long", f: c12_wrap_long, quick: 6, weight: 1, serial: false },
            ],
            assumptions: asm,
            must_see: &["call_refused_duplicate", "cases_with_key_length_change", "wire_key2", "wire_key4", "wire_key8", "wrap_calls", "wrap_65536", "refused_at_wrap", "call_ok"],
        },
        Check {
            id: "C21",
            rule,
            scenarios: vec![
                Scenario { name: "abandon", f: c21_world, quick: 3000, weight: 3, serial: false },
                Scenario { name: "reuse", f: c21_reuse, quick: 500, weight: 1, serial: false },
            ],
            assumptions: asm,
            must_see: &["abandoned", "call_ok", "final_pings", "reused_after_abandon", "sub_abandoned"],
        },
    ]
}
#[allow(unused)]
fn _t<T: Schema>() {}
