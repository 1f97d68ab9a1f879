use crate::bad;
use crate::link::*;
use crate::rng::Rng;
use crate::Stats;
use postcard_rpc::header::*;
use postcard_rpc::host_client::*;
use postcard_rpc::standard_icd::{WireError, ERROR_KEY};
use postcard_rpc::{endpoints, topics, Endpoint, Topic, TopicDirection};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Barrier, Mutex};
use std::thread::{self, JoinHandle};
use std::time::Duration;

endpoints! {
    list = EPS;
    omit_std = true;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | Inc        | u32       | u32        | "mt/inc" |
    | Dbl        | u32       | u64        | "mt/dbl" |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    omit_std = true;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | Out1    | u32       | "mt/out1" |
    | Out2    | u32       | "mt/out2" |
    | In1     | u32       | "mt/in1" |
    | Out3    | u32       | "mt/out3" |
    | Out4    | u32       | "mt/out4" |
}
type Cl = HostClient<WireError>;
pub struct L {
    cl: Cl,
    sent: Arc<Q<Vec<u8>>>,
    inject: Arc<Q<Vec<u8>>>,
    tx_fail: Arc<Mutex<bool>>,
    rx_gone: Arc<Mutex<bool>>,
    workers: Arc<Mutex<Vec<JoinHandle<()>>>>,
}
fn link(depth: usize, seq_kind: VarSeqKind) -> L {
    let (sent, inject) = (Q::new(), Q::new());
    let (tx_fail, rx_gone) = (Arc::new(Mutex::new(false)), Arc::new(Mutex::new(false)));
    let workers = Arc::new(Mutex::new(vec![]));
    let cl = HostClient::new_with_wire_and_config(
        LTx(sent.clone(), tx_fail.clone()),
        LRx(inject.clone(), rx_gone.clone()),
        TSpawn(workers.clone()),
        &HostClientConfig { seq_kind, err_uri_path: "error", outgoing_depth: depth, subscriber_timeout_if_full: Duration::ZERO },
    );
    L { cl, sent, inject, tx_fail, rx_gone, workers }
}
impl L {
    fn join(&self) {
        join(&self.workers, &self.rx_gone, &self.sent)
    }
}
fn join(workers: &Mutex<Vec<JoinHandle<()>>>, rx_gone: &Mutex<bool>, sent: &Q<Vec<u8>>) {
    let v: Vec<_> = std::mem::take(&mut *workers.lock().unwrap());
    for h in v {
        h.join().unwrap();
    }
    if !*rx_gone.lock().unwrap() || !sent.is_closed() {
        bad!("the workers ended without dropping the transport");
    }
}
fn fr(key: VarKey, seq_no: VarSeq, body: Vec<u8>) -> Vec<u8> {
    let mut v = VarHeader { key, seq_no }.write_to_vec();
    v.extend(body);
    v
}
fn ser<T: serde::Serialize>(t: &T) -> Vec<u8> {
    postcard::to_stdvec(t).unwrap()
}
fn num(s: VarSeq) -> u32 {
    s.into()
}
fn shrunk(k: postcard_rpc::Key, kk: VarKeyKind) -> VarKey {
    let mut v = VarKey::Key8(k);
    v.shrink_to(kk);
    v
}
const KK: [VarKeyKind; 4] = [VarKeyKind::Key8, VarKeyKind::Key4, VarKeyKind::Key2, VarKeyKind::Key1];

/// Answers every request (x -> 3x+1 / 2x, or an error when x % 5 == 4), in a scrambled order.
/// Returns how often each request value was seen.
fn peer(mut rng: Rng, sent: Arc<Q<Vec<u8>>>, inject: Arc<Q<Vec<u8>>>) -> BTreeMap<u32, u32> {
    // the three possible answers are told apart at every length
    debug_assert!({
        let k: BTreeSet<_> = [Inc::RESP_KEY, Dbl::RESP_KEY, ERROR_KEY].iter().map(|k| postcard_rpc::Key1::from_key8(*k).to_bytes()).collect();
        k.len() == 3
    });
    let kk = KK[rng.below(4)];
    let mut held: Vec<Vec<u8>> = vec![];
    let mut old: Vec<Vec<u8>> = vec![];
    let mut seen = BTreeMap::new();
    let mut hold = rng.below(3);
    loop {
        let Some(f) = block_on(sent.pop()) else { break };
        let Some((h, body)) = VarHeader::take_from_slice(&f) else { bad!("undecodable frame on the wire: {f:?}") };
        let Ok(x) = postcard::from_bytes::<u32>(body) else { bad!("undecodable body on the wire: {f:?}") };
        *seen.entry(x).or_insert(0) += 1;
        if x >= 1 << 30 {
            // nobody waits for the answer for long: it comes late, or never
            if rng.chance(1, 2) {
                held.push(fr(shrunk(Inc::RESP_KEY, kk), h.seq_no, ser(&77u32)));
            }
            continue;
        }
        let inc = h.key == shrunk(Inc::REQ_KEY, h.key.kind());
        let r = if x % 5 == 4 {
            fr(shrunk(ERROR_KEY, kk), h.seq_no, ser(&WireError::FrameTooShort(postcard_rpc::standard_icd::FrameTooShort { len: x })))
        } else if inc {
            fr(shrunk(Inc::RESP_KEY, kk), h.seq_no, ser(&(3 * x + 1)))
        } else {
            fr(shrunk(Dbl::RESP_KEY, kk), h.seq_no, ser(&(x as u64 * 2)))
        };
        held.push(r);
        if hold == 0 {
            // everything: callers may all be waiting for us
            while !held.is_empty() {
                let f = held.swap_remove(rng.below(held.len()));
                inject.push(f.clone());
                if rng.chance(1, 4) {
                    old.push(f);
                }
            }
            // replies nobody asked for (again)
            if rng.chance(1, 4) {
                for f in old.drain(..) {
                    inject.push(f);
                }
            }
            if rng.chance(1, 4) {
                inject.push(vec![0xFF, 1, 2]);
            }
        } else {
            hold -= 1;
        }
    }
    seen
}

/// C04 C12 C21: calls from several threads, some of them abandoned
pub fn calls(mut rng: Rng, st: &mut Stats) {
    let l = link(1 + rng.below(3), [VarSeqKind::Seq2, VarSeqKind::Seq4, VarSeqKind::Seq1][rng.below(3)]);
    let (s, i, pr) = (l.sent.clone(), l.inject.clone(), rng.fork());
    // the peer may hold back up to two answers, so there are at least three callers
    let n = 3 + rng.below(2);
    let per = 2 + rng.below(3);
    let p = thread::spawn(move || peer(pr, s, i));
    let bar = Arc::new(Barrier::new(n));
    let mut hs = vec![];
    let abandon = rng.chance(1, 2);
    for t in 0..n {
        let cl = l.cl.clone();
        let mut r = rng.fork();
        let bar = bar.clone();
        hs.push(thread::spawn(move || {
            let mut gone = 0u64;
            let mut errs = 0u64;
            bar.wait();
            for k in 0..per {
                let x = ((t * 100 + k) * 5) as u32 + r.below(5) as u32;
                if abandon && r.chance(1, 3) {
                    let y = x + (1 << 30);
                    match poll_some(cl.send_resp::<Inc>(&y), r.below(3)) {
                        None => gone += 1,
                        Some(Ok(77)) => {}
                        Some(o) => bad!("an early abandoned call returned {o:?}"),
                    }
                }
                if r.chance(1, 2) {
                    match block_on(cl.send_resp::<Inc>(&x)) {
                        Ok(v) if x % 5 != 4 && v == 3 * x + 1 => {}
                        Err(HostErr::Wire(WireError::FrameTooShort(e))) if x % 5 == 4 && e.len == x => errs += 1,
                        o => bad!("call {x} of thread {t} returned {o:?}"),
                    }
                } else {
                    match block_on(cl.send_resp::<Dbl>(&x)) {
                        Ok(v) if x % 5 != 4 && v == x as u64 * 2 => {}
                        Err(HostErr::Wire(WireError::FrameTooShort(e))) if x % 5 == 4 && e.len == x => errs += 1,
                        o => bad!("call {x} of thread {t} returned {o:?}"),
                    }
                }
                crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            (gone, errs)
        }));
    }
    for h in hs {
        let (g, e) = h.join().unwrap();
        st.add("abandoned", g);
        st.add("error_replies", e);
    }
    l.cl.close();
    l.join();
    let seen = p.join().unwrap();
    for (x, c) in &seen {
        if *c != 1 {
            bad!("request {x} was transmitted {c} times");
        }
    }
    st.add("calls", (n * per) as u64);
}

/// C08: everything in progress ends when the client closes or the link fails
pub fn close(mut rng: Rng, st: &mut Stats) {
    let l = link(1 + rng.below(3), VarSeqKind::Seq2);
    let mut hs: Vec<JoinHandle<()>> = vec![];
    let n = 2 + rng.below(3);
    let bar = Arc::new(Barrier::new(n + 1));
    let how = rng.below(4);
    for t in 0..n {
        let cl = l.cl.clone();
        let bar = bar.clone();
        let kind = rng.below(6);
        let pre = rng.chance(1, 2);
        hs.push(thread::spawn(move || {
            match kind {
                0 => {
                    bar.wait();
                    if how == 3 {
                        return;
                    }
                    match block_on(cl.send_resp::<Inc>(&(t as u32))) {
                        Err(HostErr::Closed) => {}
                        o => bad!("a call that nobody answers returned {o:?}"),
                    }
                }
                1 => {
                    let mut s = None;
                    if pre {
                        s = block_on(cl.subscribe_multi::<Out1>(2)).ok();
                    }
                    bar.wait();
                    if s.is_none() {
                        s = block_on(cl.subscribe_multi::<Out1>(2)).ok();
                    }
                    drop(cl);
                    if let Some(mut s) = s {
                        match block_on(s.recv()) {
                            Err(MultiSubRxError::IoClosed) => {}
                            o => bad!("broadcast subscriber got {o:?}"),
                        }
                    }
                }
                2 => {
                    let mut s = None;
                    if pre {
                        s = block_on(cl.subscribe_exclusive::<Out2>(2)).ok();
                    }
                    bar.wait();
                    if s.is_none() {
                        s = match block_on(cl.subscribe_exclusive::<Out2>(2)) {
                            Ok(s) => Some(s),
                            Err(_) => None,
                        };
                    }
                    drop(cl);
                    if let Some(mut s) = s {
                        if let Some(v) = block_on(s.recv()) {
                            bad!("subscriber got {v}");
                        }
                    }
                }
                3 => {
                    bar.wait();
                    if how == 3 {
                        return;
                    }
                    block_on(cl.wait_closed());
                    if !cl.is_closed() {
                        bad!("wait_closed returned although the client is not closed");
                    }
                }
                4 => {
                    bar.wait();
                    if how == 3 {
                        return;
                    }
                    // nobody reads a failed link for ever
                    while block_on(cl.publish::<In1>(VarSeq::Seq2(1), &3)).is_ok() {
                        thread::yield_now();
                    }
                }
                _ => {
                    bar.wait();
                    // the deprecated form takes the topic over
                    #[allow(deprecated)]
                    let s = block_on(cl.subscribe::<Out1>(1));
                    drop(cl);
                    if let Ok(mut s) = s {
                        if let Some(v) = block_on(s.recv()) {
                            bad!("subscriber got {v}");
                        }
                    }
                }
            }
            crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }));
    }
    bar.wait();
    for _ in 0..rng.below(4) {
        thread::yield_now();
    }
    let mut keep = None;
    match how {
        0 => {
            l.cl.close();
            keep = Some(l.cl.clone());
        }
        1 => {
            l.inject.close();
            keep = Some(l.cl.clone());
        }
        2 => {
            *l.tx_fail.lock().unwrap() = true;
            let _ = block_on(l.cl.publish::<In1>(VarSeq::Seq2(1), &3));
            keep = Some(l.cl.clone());
        }
        _ => {}
    }
    let L { cl, sent, inject: _inject, tx_fail: _, rx_gone, workers } = l;
    drop(cl);
    for h in hs {
        h.join().unwrap();
    }
    if let Some(k) = keep.as_ref() {
        block_on(k.wait_closed());
        match block_on(k.send_resp::<Inc>(&1)) {
            Err(HostErr::Closed) => {}
            o => bad!("call on a closed client returned {o:?}"),
        }
    }
    join(&workers, &rx_gone, &sent);
    drop(keep);
    st.add(["closed", "rx_failed", "tx_failed", "all_dropped"][how], 1);
    st.add("threads", n as u64);
}

/// keep subscribing, alternately to two topics, until the client refuses; the last subscription
/// that was granted has to end
fn churn<A: Topic<Message = u32>, B: Topic<Message = u32>>(cl: &Cl, form: usize) -> u64 {
    let mut granted = 0;
    macro_rules! turns {
        ($ty:ty, $a:expr, $b:expr, $closed:pat, $fin:expr) => {{
            let mut last: Option<$ty> = None;
            loop {
                let r = if granted % 2 == 0 { block_on($a) } else { block_on($b) };
                match r {
                    Ok(s) => last = Some(s),
                    Err($closed) => break,
                    #[allow(unreachable_patterns)]
                    Err(e) => bad!("subscription attempt refused with {e:?} although nobody holds the topic"),
                }
                granted += 1;
            }
            if let Some(s) = last {
                #[allow(clippy::redundant_closure_call)]
                ($fin)(s);
            }
        }};
    }
    let (ka, kb) = (A::TOPIC_KEY, B::TOPIC_KEY);
    macro_rules! fin_excl {
        () => {
            |mut s: Subscription<u32>| {
                if let Some(v) = block_on(s.recv()) {
                    bad!("subscriber got {v}")
                }
            }
        };
    }
    macro_rules! fin_raw {
        () => {
            |mut s: RawSubscription| {
                if block_on(s.recv()).is_some() {
                    bad!("raw subscriber got a frame")
                }
            }
        };
    }
    #[allow(deprecated)]
    match form {
        0 => turns!(MultiSubscription<u32>, cl.subscribe_multi::<A>(2), cl.subscribe_multi::<A>(2), IoClosed, |mut s: MultiSubscription<u32>| match block_on(s.recv()) {
            Err(MultiSubRxError::IoClosed) => {}
            o => bad!("broadcast subscriber got {o:?}"),
        }),
        1 => turns!(RawMultiSubscription, cl.subscribe_multi_raw(ka, 2), cl.subscribe_multi_raw(kb, 2), IoClosed, |mut s: RawMultiSubscription| match block_on(s.recv()) {
            Err(MultiSubRxError::IoClosed) => {}
            _ => bad!("broadcast subscriber got a frame"),
        }),
        2 => turns!(Subscription<u32>, cl.subscribe::<A>(2), cl.subscribe::<A>(2), IoClosed, fin_excl!()),
        3 => turns!(RawSubscription, cl.subscribe_raw(ka, 2), cl.subscribe_raw(kb, 2), IoClosed, fin_raw!()),
        4 => turns!(Subscription<u32>, cl.subscribe_exclusive::<A>(2), cl.subscribe_exclusive::<B>(2), SubscribeError::IoClosed, fin_excl!()),
        _ => turns!(RawSubscription, cl.subscribe_exclusive_raw(ka, 2), cl.subscribe_exclusive_raw(kb, 2), SubscribeError::IoClosed, fin_raw!()),
    }
    granted
}

/// C08: subscriptions of every form are being made all the time while the client closes
pub fn closesub(mut rng: Rng, st: &mut Stats) {
    let l = link(1, VarSeqKind::Seq2);
    let n = 1 + rng.below(2);
    let bar = Arc::new(Barrier::new(n + 1));
    let mut hs = vec![];
    for t in 0..n {
        let cl = l.cl.clone();
        let bar = bar.clone();
        let form = rng.below(6);
        hs.push(thread::spawn(move || {
            bar.wait();
            if t == 0 {
                churn::<Out1, Out2>(&cl, form)
            } else {
                churn::<Out3, Out4>(&cl, form)
            }
        }));
    }
    bar.wait();
    for _ in 0..rng.below(200) {
        std::hint::black_box(0);
    }
    if rng.chance(2, 3) {
        l.cl.close();
    } else {
        l.inject.close();
    }
    for h in hs {
        st.add("granted", h.join().unwrap());
    }
    l.join();
    st.add("closes", 1);
    crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

/// C09 C10: subscriptions made, used and dropped by several threads while messages arrive
pub fn subs(mut rng: Rng, st: &mut Stats) {
    let l = link(2, VarSeqKind::Seq2);
    let total = 4 + rng.below(6) as u32;
    let n = 2 + rng.below(2);
    let kk = KK[rng.below(4)];
    // one of these lives through everything
    let mut base_x = block_on(l.cl.subscribe_exclusive::<Out1>(64)).ok().unwrap();
    let mut base_m = block_on(l.cl.subscribe_multi::<Out2>(64)).unwrap();
    let bar = Arc::new(Barrier::new(n + 1));
    let holders = Arc::new(Mutex::new(0i32));
    let mut hs = vec![];
    for _ in 0..n {
        let cl = l.cl.clone();
        let mut r = rng.fork();
        let bar = bar.clone();
        let holders = holders.clone();
        hs.push(thread::spawn(move || {
            bar.wait();
            let (mut won, mut lost, mut got) = (0u64, 0u64, 0u64);
            for _ in 0..2 {
                if block_on(cl.subscribe_exclusive::<Out1>(1)).is_ok() {
                    bad!("a second exclusive subscription to a topic was accepted");
                }
                // a topic the threads fight over
                match block_on(cl.subscribe_exclusive::<In1>(2)) {
                    Ok(s) => {
                        let mut g = holders.lock().unwrap();
                        *g += 1;
                        if *g != 1 {
                            bad!("{} exclusive subscribers of one topic at once", *g);
                        }
                        drop(g);
                        won += 1;
                        thread::yield_now();
                        *holders.lock().unwrap() -= 1;
                        drop(s);
                    }
                    Err(_) => lost += 1,
                }
                let mut s = match block_on(cl.subscribe_multi::<Out2>(64)) {
                    Ok(s) => s,
                    Err(e) => bad!("subscribe_multi failed: {e:?}"),
                };
                // messages come in order without gaps
                let mut last = None;
                for _ in 0..r.below(3) {
                    match poll_some(s.recv(), 3) {
                        Some(Ok(v)) => {
                            if last.is_some_and(|l| v != l + 1) {
                                bad!("broadcast subscriber got {v} after {last:?}");
                            }
                            last = Some(v);
                            got += 1;
                        }
                        Some(o) => bad!("broadcast subscriber got {o:?}"),
                        None => {}
                    }
                }
            }
            (won, lost, got)
        }));
    }
    bar.wait();
    for i in 0..total {
        l.inject.push(fr(shrunk(Out1::TOPIC_KEY, kk), VarSeq::Seq2(i as u16), ser(&i)));
        l.inject.push(fr(shrunk(Out2::TOPIC_KEY, kk), VarSeq::Seq2(i as u16), ser(&i)));
        if rng.chance(1, 3) {
            l.inject.push(fr(shrunk(In1::TOPIC_KEY, kk), VarSeq::Seq2(i as u16), ser(&i)));
        }
        if rng.chance(1, 3) {
            thread::yield_now();
        }
    }
    for i in 0..total {
        match block_on(base_x.recv()) {
            Some(v) if v == i => {}
            o => bad!("exclusive subscriber got {o:?} instead of message {i}"),
        }
        match block_on(base_m.recv()) {
            Ok(v) if v == i => {}
            o => bad!("broadcast subscriber got {o:?} instead of message {i}"),
        }
        crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    for h in hs {
        let (w, lo, g) = h.join().unwrap();
        st.add("exclusive_won", w);
        st.add("exclusive_refused", lo);
        st.add("broadcast_seen", g);
    }
    l.cl.close();
    l.join();
    if let Some(v) = block_on(base_x.recv()) {
        bad!("message {v} after the last one");
    }
    st.add("messages", 2 * total as u64);
}

/// C11: publications from several threads
pub fn publish(mut rng: Rng, st: &mut Stats) {
    let l = link(1 + rng.below(3), VarSeqKind::Seq2);
    let n = 2 + rng.below(3);
    let per = 2 + rng.below(4);
    let bar = Arc::new(Barrier::new(n));
    let mut hs = vec![];
    for t in 0..n {
        let cl = l.cl.clone();
        let bar = bar.clone();
        hs.push(thread::spawn(move || {
            bar.wait();
            for k in 0..per {
                let x = (t * 1000 + k) as u32;
                if block_on(cl.publish::<In1>(VarSeq::Seq2(x as u16), &x)).is_err() {
                    bad!("publishing failed although the link is up");
                }
            }
        }));
    }
    let mut next = vec![0usize; n];
    let mut all = BTreeSet::new();
    for _ in 0..n * per {
        let Some(f) = block_on(l.sent.pop()) else { bad!("the transport was dropped") };
        let Some((h, body)) = VarHeader::take_from_slice(&f) else { bad!("undecodable frame {f:?}") };
        let Ok((x, rest)) = postcard::take_from_bytes::<u32>(body) else { bad!("undecodable body {f:?}") };
        let (t, k) = ((x / 1000) as usize, (x % 1000) as usize);
        if h.key != VarKey::Key8(In1::TOPIC_KEY) || h.key.kind() != VarKeyKind::Key8 || num(h.seq_no) != x || !rest.is_empty() || t >= n || !all.insert(x) {
            bad!("unexpected frame {f:?}");
        }
        if k != next[t] {
            bad!("thread {t}: publication {k} transmitted where {} was due", next[t]);
        }
        next[t] += 1;
        crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    for h in hs {
        h.join().unwrap();
    }
    l.cl.close();
    l.join();
    if let Some(f) = block_on(l.sent.pop()) {
        bad!("extra frame {f:?}");
    }
    st.add("published", (n * per) as u64);
}
