//! C11, device side: everything sent through `Sender` clones reaches the transport once, intact
//! and in order, over a recording transport and over the library's own channel transport.
use crate::exec::*;
use crate::icd::*;
use crate::refc::*;
use crate::report::*;
use crate::rng::Rng;
use crate::ssim::*;
use postcard_rpc::header::VarKeyKind;
use postcard_rpc::server::{Sender, Server, ServerError, WireTx};
use postcard_rpc::standard_icd::{LoggingTopic, PingEndpoint, WireError, ERROR_KEY};
use postcard_rpc::{Endpoint, Key, Topic};
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

enum Op {
    PubA(Rs),
    PubB(String),
    PubC(u32),
    PubD(Choice),
    Reply(Rs),
    Keyed(Key, String),
    Error(fn() -> WireError),
    LogStr(String),
    LogFmt(String, u32),
}
struct Rec {
    task: usize,
    key: Key,
    seq: Option<(u32, usize)>,
    body: Vec<u8>,
    what: &'static str,
    /// position in the transport's record when the call began / ended
    begun: bool,
    res: Option<bool>,
}
type Recs = Arc<Mutex<Vec<Rec>>>;

fn b<T: serde::Serialize + ?Sized>(t: &T) -> Vec<u8> {
    postcard::to_stdvec(t).unwrap()
}
fn text(r: &mut Rng, uid: u32) -> String {
    let n = *r.pick(&[0usize, 1, 5, 30, 127, 128, 300]);
    let mut s = format!("{uid}:");
    for i in 0..n {
        s.push(*r.pick(&['a', 'é', '\u{0}', '{', '\n', '\u{1F600}']));
        if i % 7 == 0 {
            s.push('.');
        }
    }
    s
}
fn gen_op(r: &mut Rng, uid: u32) -> Op {
    let n = if r.chance(1, 80) { r.edge_len(100_000) } else { r.below(40) };
    let data: Vec<u8> = r.filler(n);
    match r.below(9) {
        0 => Op::PubA(Rs { who: 9, id: uid, data }),
        1 => Op::PubB(text(r, uid)),
        2 => Op::PubC(uid),
        3 => Op::PubD(Choice::Struct { a: uid as i64, b: None }),
        4 => Op::Reply(Rs { who: 1, id: uid, data }),
        5 => Op::Keyed(*r.pick(&[EpStr::RESP_KEY, ToA::TOPIC_KEY, PingEndpoint::RESP_KEY, EpUnit::REQ_KEY]), text(r, uid)),
        6 => Op::Error(match r.below(4) {
            0 => || WireError::UnknownKey,
            1 => || WireError::SerFailed,
            2 => || WireError::DeserFailed,
            _ => || WireError::FailedToSpawn,
        }),
        7 => Op::LogStr(text(r, uid)),
        _ => Op::LogFmt(text(r, uid), uid),
    }
}
fn describe(op: &Op) -> (Key, Vec<u8>, &'static str, bool) {
    match op {
        Op::PubA(m) => (ToA::TOPIC_KEY, b(m), "publish", false),
        Op::PubB(m) => (ToB::TOPIC_KEY, b(m), "publish", false),
        Op::PubC(m) => (ToC::TOPIC_KEY, b(m), "publish", false),
        Op::PubD(m) => (ToD::TOPIC_KEY, b(m), "publish", false),
        Op::Reply(m) => (EpBlk::RESP_KEY, b(m), "reply", false),
        Op::Keyed(k, m) => (*k, b(m), "reply_keyed", false),
        Op::Error(e) => (ERROR_KEY, b(&e()), "error", false),
        Op::LogStr(s) => (LoggingTopic::TOPIC_KEY, b(s), "log_str", true),
        Op::LogFmt(s, n) => (LoggingTopic::TOPIC_KEY, b(&format!("{s}|{n:>6}|{s:?}")), "log_fmt", true),
    }
}
async fn perform<Tx: WireTx>(s: &Sender<Tx>, op: &Op, seq: (u32, usize)) -> bool {
    let q = vseq(seq.0, seq.1);
    match op {
        Op::PubA(m) => s.publish::<ToA>(q, m).await.is_ok(),
        Op::PubB(m) => s.publish::<ToB>(q, m).await.is_ok(),
        Op::PubC(m) => s.publish::<ToC>(q, m).await.is_ok(),
        Op::PubD(m) => s.publish::<ToD>(q, m).await.is_ok(),
        Op::Reply(m) => s.reply::<EpBlk>(q, m).await.is_ok(),
        Op::Keyed(k, m) => s.reply_keyed::<str>(q, *k, m.as_str()).await.is_ok(),
        Op::Error(e) => s.error(q, e()).await.is_ok(),
        Op::LogStr(t) => s.log_str(t).await.is_ok(),
        Op::LogFmt(t, n) => s.log_fmt(format_args!("{t}|{n:>6}|{t:?}")).await.is_ok(),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    None,
    Stopper,
    Gone,
}

/// judge the frames seen by the transport (in order, with success of each send) against the calls
fn judge(recs: &[Rec], frames: &[(Vec<u8>, bool)], kk: usize, pings: u32, log_consecutive: bool) -> Result<u64, String> {
    let mut used = vec![false; recs.len()];
    let mut last: std::collections::HashMap<usize, usize> = Default::default();
    let mut logs = vec![];
    let mut ping_next = 0u32;
    let mut n = 0;
    for (f, ok) in frames {
        let Some((h, body)) = dec(f) else {
            return Err(format!("device transmitted {} which has no decodable header", hex(f)));
        };
        if h.key.len() != kk {
            return Err(format!("device transmitted {} with a {}-byte key, its key length is {kk}", hex(f), h.key.len()));
        }
        if ping_next < pings && *f == [frame(PingEndpoint::RESP_KEY, kk, 5000 + ping_next, 4, &[]), b(&(ping_next * 3))].concat() {
            ping_next += 1;
            continue;
        }
        let pick = |seqs: bool| {
            (0..recs.len()).find(|&i| {
                let r = &recs[i];
                !used[i]
                    && r.begun
                    && r.body == body
                    && fold(&r.key.to_bytes(), kk) == h.key
                    && (!seqs || r.seq.is_none_or(|q| q == (h.seq, h.slen)))
                    && (!seqs || r.res != Some(!ok))
            })
        };
        let Some(i) = pick(true) else {
            return Err(match pick(false) {
                Some(i) => format!("{} with sequence number {:?} was transmitted as {} (sequence number {} in {} bytes, accepted: {ok}, call result {:?})", recs[i].what, recs[i].seq, hex(f), h.seq, h.slen, recs[i].res),
                None => format!("device transmitted {} which nobody sent (or sent once only)", hex(f)),
            });
        };
        used[i] = true;
        n += 1;
        if let Some(p) = last.insert(recs[i].task, i) {
            if p > i {
                return Err(format!("task {} sent #{i} before #{p}, but they were transmitted the other way round", recs[i].task));
            }
        }
        if recs[i].seq.is_none() && *ok {
            logs.push(h.seq);
        }
    }
    for (i, r) in recs.iter().enumerate() {
        if r.res == Some(true) && !used[i] {
            return Err(format!("{} #{i} reported success but was never handed to the transport", r.what));
        }
    }
    if log_consecutive {
        let mut s = logs.clone();
        s.sort();
        s.dedup();
        if s.len() != logs.len() {
            return Err(format!("log frames repeat a sequence number: {logs:?}"));
        }
        let total = recs.iter().filter(|r| r.seq.is_none() && r.begun).count() as u32;
        let failed = recs.iter().filter(|r| r.seq.is_none() && r.begun && r.res != Some(true)).count();
        if failed == 0 && s.iter().copied().ne(0..total) {
            return Err(format!("log frames of one device carry sequence numbers {s:?}, not 0..{total}"));
        }
    }
    Ok(n)
}

fn spawn_senders<Tx: WireTx + Clone + 'static>(c: &mut Case, sched: &mut Sched, sender: &Sender<Tx>, recs: &Recs, raw: impl Fn(VarKeyKind) -> Option<Sender<Tx>>, kk: usize) -> Vec<Join> {
    let tasks = c.rng.range(1, 6);
    let mut uid = 0;
    let mut js = vec![];
    for t in 0..tasks {
        let mut r = c.rng.fork();
        let s = match r.below(4) {
            0 => raw(kkind(kk)).unwrap_or_else(|| sender.clone()),
            1 => sender.clone().clone(),
            _ => sender.clone(),
        };
        let nops = r.range(1, 12);
        let ops: Vec<Op> = (0..nops)
            .map(|_| {
                uid += 1;
                gen_op(&mut r, uid)
            })
            .collect();
        let recs = recs.clone();
        let mut next_seq = 10_000 * (t as u32 + 1);
        js.push(sched.spawn("sender", async move {
            for op in ops {
                // error bodies repeat, so only the sequence number tells two of them apart
                let slen = if matches!(op, Op::Error(_)) { 4 } else { *r.pick(&SLENS) };
                next_seq += 1 + r.below(3) as u32;
                let seq = if slen == 4 { next_seq } else { next_seq & ((1 << (8 * slen)) - 1) };
                let (key, body, what, log) = describe(&op);
                let i = {
                    let mut g = recs.lock().unwrap();
                    g.push(Rec { task: t, key, seq: if log { None } else { Some((seq, slen)) }, body, what, begun: true, res: None });
                    g.len() - 1
                };
                let ok = perform(&s, &op, (seq, slen)).await;
                recs.lock().unwrap()[i].res = Some(ok);
                for _ in 0..r.below(3) {
                    yield_now().await;
                }
            }
        }));
    }
    js
}

/// recording transport with injected recoverable failures
pub fn c11_device(c: &mut Case) -> Result<(), String> {
    vt_reset();
    let n = *c.rng.pick(&KLENS);
    let kk = *c.rng.pick(&KLENS);
    let mut sched = Sched::new(c.rng.fork());
    let link = slink(c.rng.fork());
    {
        let mut g = link.lock().unwrap();
        g.max_yields = c.rng.below(4);
        g.fail_1_in = *c.rng.pick(&[0, 0, 0, 6]);
    }
    let recs: Recs = Default::default();
    let ctx = Ctx { link: link.clone() };
    let sp = SSpawn { sp: sched.spawner(), link: link.clone() };
    let (tx, rx) = (STx { link: link.clone() }, SRx { link: link.clone() });
    let buf = vec![0u8; 256].into_boxed_slice();
    let sender;
    macro_rules! go {
        ($app:ty) => {{
            let mut s = Server::new(tx, rx, buf, <$app>::new(ctx, sp), kkind(kk));
            sender = s.sender();
            sched.spawn("server", async move {
                loop {
                    let _ = s.run().await;
                }
            });
        }};
    }
    match n {
        1 => go!(st::App1),
        2 => go!(st::App2),
        4 => go!(st::App4),
        _ => go!(st::App8),
    }
    let l2 = link.clone();
    spawn_senders(c, &mut sched, &sender, &recs, |k| Some(Sender::new(STx { link: l2.clone() }, k)), kk);
    let pings = c.rng.below(4) as u32;
    for i in 0..pings {
        push_rx(&link, i as usize, RxItem::Frame([frame(PingEndpoint::REQ_KEY, 8, 5000 + i, 4, &[]), b(&(i * 3))].concat()));
    }
    if sched.run(200_000) == Stop::Livelock {
        return Err("device senders never finish".into());
    }
    let g = link.lock().unwrap();
    let mut order: Vec<(u32, Vec<u8>)> = vec![];
    let mut res: std::collections::HashMap<u32, bool> = Default::default();
    for e in &g.log {
        match e {
            Ev::SendBegin { id, frame } => order.push((*id, frame.clone())),
            Ev::SendEnd { id, err } => {
                res.insert(*id, err.is_none());
            }
            _ => {}
        }
    }
    let failures = g.fail_1_in != 0;
    let frames: Vec<(Vec<u8>, bool)> = order.into_iter().map(|(i, f)| (f, res.get(&i).copied().unwrap_or(false))).collect();
    let rs = recs.lock().unwrap();
    if let Some(r) = rs.iter().find(|r| r.begun && r.res.is_none()) {
        return Err(format!("{} through a server sender never finished", r.what));
    }
    // a failed ping answer is replaced by an error answer, which is C05's part
    let frames: Vec<_> = if failures {
        frames.into_iter().filter(|(f, _)| !dec(f).is_some_and(|(h, _)| (5000..5010).contains(&h.seq) && h.slen == 4)).collect()
    } else {
        frames
    };
    let k = judge(&rs, &frames, kk, if failures { 0 } else { pings }, false)?;
    c.count("device_frames", k);
    c.count(if kk != n { "device_key_length_overridden" } else { "device_key_length_minimal" }, 1);
    c.sig(sched.switch_sig);
    for (f, _) in &frames {
        c.sig_bytes(f);
    }
    c.nontrivial = k > 1;
    drop((g, rs));
    sched.drop_all();
    Ok(())
}

/// the library's own channel transport: bounded channel, slow consumer, stop or loss in between
pub fn c11_channels(c: &mut Case) -> Result<(), String> {
    use chd::{new_server, new_server_stoppable, Settings};
    use postcard_rpc::server::impls::test_channels::*;
    let rt = paused_rt();
    let kk = *c.rng.pick(&KLENS);
    let mut sched = Sched::new(c.rng.fork());
    let (in_tx, in_rx) = tokio::sync::mpsc::channel::<Vec<u8>>(64);
    let (out_tx, mut out_rx) = tokio::sync::mpsc::channel::<Vec<u8>>(c.rng.range(1, 5));
    let wtx = ChannelWireTx::new(out_tx);
    let wtx2 = wtx.clone();
    let app = ch::App8::new(Ctx { link: slink(c.rng.fork()) }, ChannelWireSpawn);
    let set = Settings { tx: wtx, rx: ChannelWireRx::new(in_rx), buf: 64, kkind: kkind(kk) };
    let end = *c.rng.pick(&[End::None, End::None, End::Stopper, End::Gone]);
    let (mut srv, stopper) = if end == End::Stopper {
        let (s, st) = new_server_stoppable(app, set);
        (s, Some(st))
    } else {
        (new_server(app, set), None)
    };
    let sender = srv.sender();
    let recs: Recs = Default::default();
    let stoppable = stopper.is_some();
    let js = spawn_senders(c, &mut sched, &sender, &recs, |k| if stoppable { None } else { Some(Sender::new(wtx2.clone(), k)) }, kk);
    let ret = Arc::new(Mutex::new(None::<&'static str>));
    let r2 = ret.clone();
    let sj = sched.spawn("server", async move {
        let e = srv.run().await;
        *r2.lock().unwrap() = Some(match e {
            ServerError::TxFatal(_) => "tx",
            ServerError::RxFatal(_) => "rx",
        });
    });
    let pings = c.rng.below(4) as u32;
    for i in 0..pings {
        let _ = in_tx.try_send([frame(PingEndpoint::REQ_KEY, 8, 5000 + i, 4, &[]), b(&(i * 3))].concat());
    }
    let got: Arc<Mutex<Vec<(Vec<u8>, bool)>>> = Default::default();
    let g2 = got.clone();
    let mut cr = c.rng.fork();
    let quit: Arc<Mutex<(bool, Option<Waker>)>> = Default::default();
    let q2 = quit.clone();
    let slow = cr.below(6);
    sched.spawn("consumer", async move {
        loop {
            for _ in 0..cr.below(slow + 1) {
                yield_now().await;
            }
            let f = std::future::poll_fn(|cx| {
                let mut q = q2.lock().unwrap();
                if q.0 {
                    return Poll::Ready(None);
                }
                q.1 = Some(cx.waker().clone());
                drop(q);
                out_rx.poll_recv(cx)
            })
            .await;
            match f {
                Some(f) => g2.lock().unwrap().push((f, true)),
                None => break,
            }
        }
        if q2.lock().unwrap().0 && end == End::Gone {
            // the receiving side goes away: what had been queued is still accounted for
            out_rx.close();
            while let Ok(f) = out_rx.try_recv() {
                g2.lock().unwrap().push((f, true));
            }
        } else if end == End::Stopper {
            while let Ok(f) = out_rx.try_recv() {
                g2.lock().unwrap().push((f, true));
            }
        }
    });
    if end != End::None {
        for _ in 0..c.rng.below(120) {
            sched.step();
        }
        match &stopper {
            Some(s) => s.stop(),
            None => {
                let mut q = quit.lock().unwrap();
                q.0 = true;
                if let Some(w) = q.1.take() {
                    drop(q);
                    w.wake();
                }
            }
        }
        if end == End::Gone && c.rng.chance(1, 2) {
            let _ = in_tx.try_send([frame(PingEndpoint::REQ_KEY, 8, 5000 + pings, 4, &[]), b(&(pings * 3))].concat());
        }
    }
    if sched.run_tokio(&rt, 200_000) == Stop::Livelock {
        return Err("device senders never finish".into());
    }
    if end == End::Stopper {
        let mut q = quit.lock().unwrap();
        q.0 = true;
        if let Some(w) = q.1.take() {
            drop(q);
            w.wake();
        } else {
            drop(q);
        }
        sched.run_tokio(&rt, 100_000);
        if !sj.done() {
            return Err("the stopped channel server is still running".into());
        }
    }
    if end == End::None && sj.done() {
        return Err(format!("channel server ended ({:?}) although its link is up", ret.lock().unwrap()));
    }
    if js.iter().any(|j| !j.done()) {
        return Err(format!("a server sender hangs (end: {end:?})"));
    }
    let rs = recs.lock().unwrap();
    if end == End::None {
        if let Some(r) = rs.iter().find(|r| r.res != Some(true)) {
            return Err(format!("{} through a channel server sender failed on a live link", r.what));
        }
        let pongs = got.lock().unwrap().iter().filter(|(f, _)| dec(f).is_some_and(|(h, _)| (5000..5010).contains(&h.seq) && h.slen == 4)).count();
        if pongs != pings as usize {
            return Err(format!("{pongs} of {pings} pings answered"));
        }
    }
    let frames = got.lock().unwrap();
    let k = judge(&rs, &frames, kk, pings + 1, true)?;
    c.count("channel_frames", k);
    c.count("channel_logs", rs.iter().filter(|r| r.seq.is_none()).count() as u64);
    c.count("channel_send_failed", rs.iter().filter(|r| r.res == Some(false)).count() as u64);
    c.sig(sched.switch_sig);
    for (f, _) in frames.iter() {
        c.sig_bytes(f);
    }
    c.nontrivial = k > 1;
    drop((frames, rs));
    drop(in_tx);
    sched.drop_all();
    Ok(())
}

/// client messages whose payload is empty are messages like any other
pub fn c11_empty(c: &mut Case) -> Result<(), String> {
    use crate::csim::*;
    use crate::icd_e2e::{PUnit, QUnit};
    use postcard_rpc::header::{VarHeader, VarKey};
    use postcard_rpc::host_client::{HostClient, HostClientConfig, RpcFrame};
    let rt = paused_rt();
    let mut sched = Sched::new(c.rng.fork());
    let yl = c.rng.below(4);
    let link = clink(c.rng.fork(), yl);
    let seq_w = *c.rng.pick(&SLENS);
    let cfg = HostClientConfig {
        seq_kind: skind(seq_w),
        err_uri_path: "error",
        outgoing_depth: c.rng.range(1, 6),
        subscriber_timeout_if_full: std::time::Duration::ZERO,
    };
    let cl = HostClient::<WireError>::new_with_wire_and_config(CTx(link.clone()), CRx(link.clone()), CSpawn(sched.spawner()), &cfg);
    // (task, key, sequence number if chosen here); a message is recorded before it is submitted
    let sent: Arc<Mutex<Vec<(usize, Key, Option<(u32, usize)>)>>> = Default::default();
    let mut js = vec![];
    let mut calls = 0;
    for task in 0..c.rng.range(1, 5) {
        let (cl, sent, mut r) = (cl.clone(), sent.clone(), c.rng.fork());
        let n = r.range(1, 8);
        // the last operation may be a call, which nobody answers
        let call = r.chance(1, 2);
        calls += call as usize;
        let j = sched.spawn("publisher", async move {
            for i in 0..n {
                let w = *r.pick(&SLENS);
                let seq = (task as u32 * 32 + i as u32, w);
                let key = key8(r.u64().to_le_bytes());
                let raw = r.chance(1, 3);
                sent.lock().unwrap().push((task, if raw { key } else { PUnit::TOPIC_KEY }, Some(seq)));
                let ok = if raw {
                    cl.publish_raw(RpcFrame { header: VarHeader { key: VarKey::Key8(key), seq_no: vseq(seq.0, seq.1) }, body: vec![] }).await
                } else {
                    cl.publish::<PUnit>(vseq(seq.0, seq.1), &()).await
                };
                if ok.is_err() {
                    sent.lock().unwrap().push((usize::MAX, key, None));
                }
                for _ in 0..r.below(3) {
                    yield_now().await;
                }
            }
            if call {
                sent.lock().unwrap().push((task, QUnit::REQ_KEY, None));
                let _ = cl.send_resp::<QUnit>(&()).await;
            }
        });
        js.push((j, call));
    }
    if sched.run_tokio(&rt, 100_000) == Stop::Livelock {
        return Err("publishing never finishes".into());
    }
    if js.iter().any(|(j, call)| j.done() == *call) {
        return Err("publishing empty messages hangs, or an unanswered call returned".into());
    }
    let sent = sent.lock().unwrap();
    if sent.iter().any(|s| s.0 == usize::MAX) {
        return Err("publishing was refused on a live link".into());
    }
    let frames: Vec<Vec<u8>> = link.lock().unwrap().tx.iter().map(|t| t.frame.clone()).collect();
    if frames.len() != sent.len() {
        return Err(format!("{} frames were transmitted for {} messages with empty payload", frames.len(), sent.len()));
    }
    let mut left: Vec<usize> = (0..sent.len()).collect();
    let mut last: std::collections::HashMap<usize, usize> = Default::default();
    for f in &frames {
        let Some((h, body)) = dec(f) else { return Err(format!("transmitted {} which has no header", hex(f))) };
        let Some(p) = left.iter().position(|&i| keys_match(&h.key, &sent[i].1.to_bytes()) && sent[i].2.is_none_or(|q| q == (h.seq, h.slen)) && (sent[i].2.is_some() || h.slen == seq_w)) else {
            return Err(format!("transmitted {} which nobody sent", hex(f)));
        };
        let i = left.remove(p);
        if !body.is_empty() {
            return Err(format!("an empty message was transmitted as {}", hex(f)));
        }
        // calls look alike, so only publications have a known task
        if sent[i].2.is_some() && last.insert(sent[i].0, i).is_some_and(|o| o > i) {
            return Err(format!("task {}'s empty messages were transmitted out of order", sent[i].0));
        }
    }
    c.count("empty_frames", frames.len() as u64);
    c.nontrivial = frames.len() > 1;
    c.sig(sched.switch_sig);
    c.sig(frames.len() as u64 * 16 + calls as u64);
    drop(sent);
    drop(cl);
    sched.drop_all();
    Ok(())
}
