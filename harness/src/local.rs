//! C28: the in-memory test peer (test_utils) as a link and as a failure injector.
use crate::exec::*;
use crate::icd::*;
use crate::refc::*;
use crate::report::*;
use postcard_rpc::header::*;
use postcard_rpc::host_client::HostErr;
use postcard_rpc::standard_icd::WireError;
use postcard_rpc::test_utils::{local_setup, LocalError};
use postcard_rpc::{Endpoint, Topic};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    /// everything is answered, the peer stays
    Clean,
    /// the peer injects the fatal error and goes on reading and writing
    Fatal,
    /// the peer goes away
    Gone,
    /// the client closes
    Close,
}
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Ok(u32, Vec<u8>),
    Closed,
    Other(String),
}
#[derive(Clone, Debug)]
struct Call {
    ep: usize,
    data: Vec<u8>,
    got: Option<Got>,
}
#[derive(Default)]
struct St {
    calls: BTreeMap<u32, Call>,
    /// publications of the client: (publisher, seq, data, ok)
    pubs: BTreeMap<u32, (usize, VarSeq, Vec<u8>, Option<bool>)>,
    /// ids as the peer received them
    peer_saw: Vec<u32>,
    replied: BTreeMap<u32, bool>,
    /// topic messages the peer published, in order, with result
    sent_a: Vec<(u32, bool)>,
    sent_c: Vec<(u32, bool)>,
    recv_a: Vec<u32>,
    recv_c: Vec<u32>,
    end_a: bool,
    end_c: bool,
    bad: Vec<String>,
    peer_end: Option<LocalError>,
    failed: bool,
}

fn resp_data(id: u32, d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    v.reverse();
    v.push(id as u8);
    v
}

/// contents of the peer's message m
fn msg_data(m: u32) -> Vec<u8> {
    let n = match m % 29 {
        0 => 0,
        7 => if cfg!(miri) { 100 } else { 1000 + m * 97 },
        11 => if cfg!(miri) { 300 } else { 70_000 },
        x => x,
    };
    (0..n).map(|i| (i ^ m) as u8).collect()
}

fn local(c: &mut Case) -> Result<(), String> {
    let rt = paused_rt();
    let _g = rt.enter();
    let mut sched = Sched::new(c.rng.fork());
    let bound = *c.rng.pick(&[1usize, 1, 2, 3, 8, 64]);
    let end = *c.rng.pick(&[End::Clean, End::Clean, End::Fatal, End::Gone, End::Close]);
    let (mut peer, cl) = local_setup::<WireError>(bound, "error");
    let st = Arc::new(Mutex::new(St::default()));
    let mut next = 1u32;
    c.sig(bound as u64 * 8 + end as u64);
    // subscribers, before anything is published
    let depth = 400;
    let (sub_a, sub_c) = {
        let cl = cl.clone();
        let out = Arc::new(Mutex::new(None));
        let o = out.clone();
        sched.spawn("subscribe", async move {
            let a = cl.subscribe_exclusive::<ToA>(depth).await;
            let b = cl.subscribe_multi::<ToC>(depth).await;
            *o.lock().unwrap() = Some((a, b));
        });
        sched.run_tokio(&rt, 10_000);
        let x = out.lock().unwrap().take();
        match x {
            Some((Ok(a), Ok(b))) => (a, b),
            _ => return Err("subscribing to a fresh client failed".into()),
        }
    };
    let mut total_reqs = 0;
    let mut total_pubs = 0;
    for k in 0..c.rng.range(1, 5) {
        let n = c.rng.range(1, 12);
        let mut plan = vec![];
        for _ in 0..n {
            let id = next;
            next += 1;
            let n = if c.rng.chance(1, 40) { c.rng.below(if cfg!(miri) { 700 } else { 70_000 }) } else { c.rng.edge_len(40) };
            let d = c.rng.bytes(n);
            let call = c.rng.chance(2, 3);
            let w = c.rng.below(3);
            plan.push((id, d, call, w, c.rng.below(3)));
            if call {
                total_reqs += 1;
            } else {
                total_pubs += 1;
            }
        }
        let cl = cl.clone();
        let st = st.clone();
        sched.spawn("caller", async move {
            for (id, data, call, w, y) in plan {
                for _ in 0..y {
                    yield_now().await;
                }
                let rq = Rq { id, data: data.clone() };
                if call {
                    let ep = w % 2;
                    st.lock().unwrap().calls.insert(id, Call { ep, data, got: None });
                    let r = if ep == 0 { cl.send_resp::<EpBlk>(&rq).await } else { cl.send_resp::<EpAsy>(&rq).await };
                    let g = match r {
                        Ok(r) => Got::Ok(r.id, r.data),
                        Err(HostErr::Closed) => Got::Closed,
                        Err(e) => Got::Other(format!("{e:?}")),
                    };
                    st.lock().unwrap().calls.get_mut(&id).unwrap().got = Some(g);
                } else {
                    let s = match w {
                        0 => VarSeq::Seq1(id as u8),
                        1 => VarSeq::Seq2(id as u16 ^ 0x5500),
                        _ => VarSeq::Seq4(id | 0x7700_0000),
                    };
                    st.lock().unwrap().pubs.insert(id, (k, s, data, None));
                    let r = cl.publish::<TiBlk>(s, &rq).await;
                    st.lock().unwrap().pubs.get_mut(&id).unwrap().3 = Some(r.is_ok());
                }
            }
        });
    }
    {
        let st = st.clone();
        let mut s = sub_a;
        sched.spawn("subscriber-a", async move {
            while let Some(m) = s.recv().await {
                let mut s = st.lock().unwrap();
                if m.data != msg_data(m.id) {
                    s.bad.push(format!("message {} arrived with {} bytes, it has {}", m.id, m.data.len(), msg_data(m.id).len()));
                }
                s.recv_a.push(m.id);
            }
            st.lock().unwrap().end_a = true;
        });
    }
    {
        let st = st.clone();
        let mut s = sub_c;
        sched.spawn("subscriber-c", async move {
            loop {
                match s.recv().await {
                    Ok(m) => st.lock().unwrap().recv_c.push(m),
                    Err(postcard_rpc::host_client::MultiSubRxError::IoClosed) => break,
                    Err(e) => st.lock().unwrap().bad.push(format!("{e:?} reported to a subscriber whose queue has room")),
                }
            }
            st.lock().unwrap().end_c = true;
        });
    }
    // the peer
    let hold = c.rng.range(1, 6);
    let fail_after = c.rng.below(total_reqs + total_pubs + 1);
    let cl2 = cl.clone();
    let ps = st.clone();
    let back = Arc::new(Mutex::new(None));
    let back_w = back.clone();
    let mut rng = c.rng.fork();
    let peer_j = sched.spawn("peer", async move {
        let mut held: Vec<(u32, u32, usize, Vec<u8>)> = vec![];
        let mut msg = 1u32;
        let mut seen = 0usize;
        let all = total_reqs + total_pubs;
        let mut failed = false;
        loop {
            if end != End::Clean && !failed && seen >= fail_after {
                failed = true;
                ps.lock().unwrap().failed = true;
                match end {
                    End::Fatal => peer.cause_fatal_error(),
                    End::Gone => return,
                    _ => cl2.close(),
                }
            }
            if end == End::Clean && seen == all && held.is_empty() {
                break;
            }
            while rng.chance(1, 3) && msg < 150 {
                let m = msg;
                msg += 1;
                if rng.chance(1, 2) {
                    let r = peer.publish::<ToA>(rng.u64() as u32, &Rs { who: 0, id: m, data: msg_data(m) }).await;
                    let mut s = ps.lock().unwrap();
                    s.sent_a.push((m, r.is_ok()));
                    if r.is_err() && !failed {
                        s.bad.push(format!("the peer could not publish: {r:?}"));
                    }
                } else {
                    let r = peer.publish::<ToC>(m, &m).await;
                    let mut s = ps.lock().unwrap();
                    s.sent_c.push((m, r.is_ok()));
                    if r.is_err() && !failed {
                        s.bad.push(format!("the peer could not publish: {r:?}"));
                    }
                }
            }
            let must_read = held.len() < hold && seen < all;
            if must_read {
                let r = if held.is_empty() {
                    Ok(peer.recv_from_client().await)
                } else {
                    // the callers may all be waiting for what is held back
                    tokio::time::timeout(std::time::Duration::from_millis(1), peer.recv_from_client()).await
                };
                match r {
                    Err(_) => {}
                    Ok(Ok(f)) => {
                        seen += 1;
                        let mut s = ps.lock().unwrap();
                        let keys = [(EpBlk::REQ_KEY, 0usize), (EpAsy::REQ_KEY, 1), (TiBlk::TOPIC_KEY, 2)];
                        let Some(k) = keys.iter().find(|k| VarKey::Key8(k.0) == f.header.key && f.header.key.kind() == VarKeyKind::Key8) else {
                            s.bad.push(format!("frame with key {:?}", f.header.key));
                            continue;
                        };
                        let Ok(rq) = postcard::from_bytes::<Rq>(&f.body) else {
                            s.bad.push(format!("frame with body {}", hex(&f.body)));
                            continue;
                        };
                        s.peer_saw.push(rq.id);
                        if k.1 == 2 {
                            let ok = s.pubs.get(&rq.id).is_some_and(|p| same_seq(p.1, f.header.seq_no) && p.2 == rq.data);
                            if !ok {
                                s.bad.push(format!("publication {} arrived as {:?} {}", rq.id, f.header.seq_no, hex(&rq.data)));
                            }
                        } else {
                            let ok = s.calls.get(&rq.id).is_some_and(|p| p.ep == k.1 && p.data == rq.data);
                            let VarSeq::Seq2(n) = f.header.seq_no else {
                                s.bad.push(format!("request with sequence number {:?}", f.header.seq_no));
                                continue;
                            };
                            if !ok {
                                s.bad.push(format!("request {} arrived altered: {}", rq.id, hex(&rq.data)));
                            }
                            held.push((n as u32, rq.id, k.1, rq.data));
                        }
                    }
                    Ok(Err(e)) => {
                        let mut s = ps.lock().unwrap();
                        if !failed {
                            s.bad.push(format!("the peer was told {e:?} although the client is alive"));
                        }
                        s.peer_end = Some(e);
                        drop(s);
                        *back_w.lock().unwrap() = Some(peer);
                        return;
                    }
                }
            }
            if !held.is_empty() && (held.len() >= hold || seen == all || rng.chance(1, 2)) {
                let (n, id, ep, data) = held.remove(rng.below(held.len()));
                let rs = Rs { who: ep as u32, id, data: resp_data(id, &data) };
                ps.lock().unwrap().replied.insert(id, true);
                let r = if ep == 0 { peer.reply::<EpBlk>(n, &rs).await } else { peer.reply::<EpAsy>(n, &rs).await };
                if r.is_err() {
                    let mut s = ps.lock().unwrap();
                    if !failed {
                        s.bad.push(format!("the peer could not reply: {r:?}"));
                    }
                    s.replied.insert(id, false);
                }
            }
            if failed && seen == all && held.is_empty() {
                // nothing left to serve: the peer must be told that the client is gone
                let e = peer.recv_from_client().await;
                let mut s = ps.lock().unwrap();
                match e {
                    Ok(f) => s.bad.push(format!("one more frame than was sent: {:?}", f.header)),
                    Err(e) => s.peer_end = Some(e),
                }
                drop(s);
                *back_w.lock().unwrap() = Some(peer);
                return;
            }
        }
        // keep the link up
        std::future::pending::<()>().await;
    });
    let stop = sched.run_tokio(&rt, 300_000);
    if stop == Stop::Livelock {
        return Err("busy loop: client and peer never settle".into());
    }
    c.sig(sched.switch_sig);
    let s = st.lock().unwrap();
    if let Some(b) = s.bad.first() {
        return Err(b.clone());
    }
    c.nontrivial = true;
    c.evals = (s.calls.len() + s.pubs.len() + s.recv_a.len() + s.recv_c.len()) as u64;
    c.count("frames_at_peer", s.peer_saw.len() as u64);
    c.count("messages_received", (s.recv_a.len() + s.recv_c.len()) as u64);
    let failed = s.failed;
    // exactly once, in order per publisher
    let mut seen = std::collections::BTreeSet::new();
    for id in &s.peer_saw {
        if !seen.insert(*id) {
            return Err(format!("frame {id} reached the peer twice"));
        }
    }
    let mut last: BTreeMap<usize, u32> = BTreeMap::new();
    for id in &s.peer_saw {
        if let Some(p) = s.pubs.get(id) {
            if last.get(&p.0).is_some_and(|l| l > id) {
                return Err(format!("publications of one task reached the peer out of order: {id} after {}", last[&p.0]));
            }
            last.insert(p.0, *id);
        }
    }
    for (id, p) in &s.pubs {
        match p.3 {
            None => return Err(format!("publication {id} never finishes (bound {bound}, {end:?})")),
            Some(false) if !failed => return Err(format!("publication {id} refused although the link is up")),
            Some(true) if !failed && !seen.contains(id) => return Err(format!("publication {id} was accepted but never reached the peer")),
            _ => {}
        }
    }
    for (id, k) in &s.calls {
        match &k.got {
            None => return Err(format!("call {id} never finishes (bound {bound}, {end:?}, failed {failed})")),
            Some(Got::Other(e)) => return Err(format!("call {id} returned {e}")),
            Some(Got::Closed) if !failed => return Err(format!("call {id} was told the link is closed, it is up")),
            Some(Got::Closed) => c.count("calls_closed", 1),
            Some(Got::Ok(i, d)) => {
                if !s.replied.contains_key(id) {
                    return Err(format!("call {id} got a reply the peer never made"));
                }
                if i != id || *d != resp_data(*id, &k.data) {
                    return Err(format!("call {id} got the reply for {i}: {}", hex(d)));
                }
                c.count("calls_answered", 1);
            }
        }
    }
    let streams = [(&s.sent_a, &s.recv_a, s.end_a, "exclusive"), (&s.sent_c, &s.recv_c, s.end_c, "broadcast")];
    for (sent, recv, ended, name) in streams {
        let all: Vec<u32> = sent.iter().map(|x| x.0).collect();
        if recv.len() > all.len() || recv[..] != all[..recv.len()] {
            return Err(format!("{name} subscriber received {recv:?}, the peer published {all:?}"));
        }
        if !failed {
            if recv.len() != all.len() {
                return Err(format!("{name} subscriber received {} of {} messages on a working link", recv.len(), all.len()));
            }
            if ended {
                return Err(format!("{name} subscription ended although the link is up"));
            }
        } else if !ended {
            return Err(format!("{name} subscription still open after {end:?}"));
        }
    }
    drop(s);
    if failed != (end != End::Clean) {
        return Err(format!("the peer stopped before its turn ({end:?})"));
    }
    if cl.is_closed() != failed {
        return Err(format!("is_closed() = {} after {end:?}", cl.is_closed()));
    }
    match end {
        End::Clean => c.count("clean_runs", 1),
        End::Fatal => c.count("fatal_runs", 1),
        End::Gone => c.count("gone_runs", 1),
        End::Close => c.count("close_runs", 1),
    }
    if failed {
        if !peer_j.done() {
            return Err(format!("the peer is never told that the client is gone ({end:?})"));
        }
        match (&st.lock().unwrap().peer_end, end) {
            (None, End::Gone) | (Some(_), _) => {}
            (e, _) => return Err(format!("after {end:?} the peer was told {e:?}")),
        }
        // the peer can no longer send anything either
        if let Some(mut peer) = back.lock().unwrap().take() {
            let told = Arc::new(Mutex::new(vec![]));
            let t = told.clone();
            let j = sched.spawn("late-peer", async move {
                let rs = Rs { who: 0, id: 1, data: vec![] };
                let a = peer.publish::<ToA>(1, &rs).await;
                let b = peer.reply::<EpBlk>(1, &rs).await;
                let d = peer.recv_from_client().await.map(|_| ());
                t.lock().unwrap().extend([a, b, d]);
            });
            sched.run_tokio(&rt, 100_000);
            if !j.done() {
                return Err(format!("the peer hangs when it sends after {end:?}"));
            }
            let told = told.lock().unwrap();
            if told.iter().any(|x| x.is_ok()) {
                return Err(format!("after {end:?} the peer's publish, reply and receive returned {told:?}"));
            }
            c.count("late_peer_operations", 3);
        }
        // and nothing hangs afterwards
        let late = Arc::new(Mutex::new(vec![]));
        let l = late.clone();
        let c3 = cl.clone();
        let j = sched.spawn("late", async move {
            let a = c3.send_resp::<EpBlk>(&Rq { id: 0, data: vec![] }).await;
            let b = c3.publish::<TiBlk>(VarSeq::Seq1(0), &Rq { id: 0, data: vec![] }).await;
            let d = c3.subscribe_multi::<ToC>(4).await;
            c3.wait_closed().await;
            l.lock().unwrap().extend([matches!(a, Err(HostErr::Closed)), b.is_err(), d.is_err()]);
        });
        sched.run_tokio(&rt, 100_000);
        if !j.done() {
            return Err(format!("a call, publication or subscription made after {end:?} hangs"));
        }
        if late.lock().unwrap().iter().any(|x| !x) {
            return Err(format!("after {end:?}: call refused, publication refused, subscription refused = {:?}", late.lock().unwrap()));
        }
        c.count("late_operations", 3);
    }
    drop(cl);
    sched.drop_all();
    Ok(())
}
fn same_seq(a: VarSeq, b: VarSeq) -> bool {
    seq_parts(&a) == seq_parts(&b)
}

/// frames put on the link by hand
fn raw(c: &mut Case) -> Result<(), String> {
    let rt = paused_rt();
    let _g = rt.enter();
    let (mut peer, cl) = local_setup::<WireError>(8, "error");
    let mut sched = Sched::new(c.rng.fork());
    // the peer's own channel ends are public: what is put in is what arrives
    let bodies: Vec<Vec<u8>> = (0..c.rng.range(1, 8))
        .map(|_| {
            let n = if c.rng.chance(1, 30) { c.rng.below(if cfg!(miri) { 700 } else { 70_000 }) } else { c.rng.edge_len(300) };
            c.rng.bytes(n)
        })
        .collect();
    let key = *c.rng.pick(&[EpStr::REQ_KEY, TiStr::TOPIC_KEY]);
    let seq = c.rng.u64() as u32;
    let want = bodies.clone();
    let got = Arc::new(Mutex::new(vec![]));
    let g = got.clone();
    let cl2 = cl.clone();
    let b2 = bodies.clone();
    sched.spawn("publisher", async move {
        for b in b2 {
            let f = postcard_rpc::host_client::RpcFrame { header: VarHeader { key: VarKey::Key8(key), seq_no: VarSeq::Seq4(seq) }, body: b };
            let _ = cl2.publish_raw(f).await;
        }
    });
    let n = bodies.len();
    sched.spawn("peer", async move {
        for _ in 0..n {
            let r = peer.recv_from_client().await;
            g.lock().unwrap().push(r.map(|f| (f.header, f.body)));
        }
        std::future::pending::<()>().await;
        drop(peer);
    });
    sched.run_tokio(&rt, 50_000);
    let got = got.lock().unwrap();
    c.evals = n as u64;
    c.nontrivial = true;
    c.sig(seq as u64);
    c.sig(sched.switch_sig);
    if got.len() != n {
        return Err(format!("{} of {n} raw publications reached the peer", got.len()));
    }
    for (g, w) in got.iter().zip(&want) {
        match g {
            Ok((h, b)) if h.key == VarKey::Key8(key) && same_seq(h.seq_no, VarSeq::Seq4(seq)) && b == w => {}
            x => return Err(format!("raw publication of {} arrived as {x:?}", hex(w))),
        }
    }
    c.count("raw_frames", n as u64);
    drop(cl);
    sched.drop_all();
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C28",
        rule: "a distinct case is a distinct (operations, peer decisions, schedule, ending) run of a client against the in-memory test peer",
        scenarios: vec![
            Scenario { name: "local", f: local, quick: 2500, weight: 3, serial: false },
            Scenario { name: "raw", f: raw, quick: 800, weight: 1, serial: false },
        ],
        assumptions: &["a subscriber's queue has room for everything sent to it"],
        must_see: &["frames_at_peer", "messages_received", "calls_answered", "calls_closed", "clean_runs", "fatal_runs", "gone_runs", "close_runs", "late_operations", "late_peer_operations", "raw_frames"],
    }]
}
