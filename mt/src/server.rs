use crate::bad;
use crate::link::*;
use crate::rng::Rng;
use crate::Stats;
use postcard_rpc::header::*;
use postcard_rpc::server::impls::test_channels::{
    dispatch_impl::{new_server, Settings, WireSpawnImpl, WireTxImpl},
    ChannelWireRx, ChannelWireSpawn, ChannelWireTx,
};
use postcard_rpc::server::{Dispatch, Sender, SpawnContext};
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Topic, TopicDirection};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::thread::{self, JoinHandle};
use tokio::sync::mpsc;

endpoints! {
    list = SEPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | SpA        | u32       | u32        | "mts/spawn" |
    | AsA        | u32       | u32        | "mts/async" |
    | BlA        | u32       | u32        | "mts/blocking" |
}
topics! {
    list = STIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | SIn     | u32       | "mts/in" |
}
topics! {
    list = STOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | SOut    | u32       | "mts/out" |
}
pub struct Ctx {
    n: u32,
}
pub struct SCtx;
impl SpawnContext for Ctx {
    type SpawnCtxt = SCtx;
    fn spawn_ctxt(&mut self) -> SCtx {
        SCtx
    }
}
static THREADS: Mutex<Vec<JoinHandle<()>>> = Mutex::new(vec![]);
fn on_thread(_: &ChannelWireSpawn, f: impl std::future::Future<Output = ()> + Send + 'static) -> Result<(), ()> {
    THREADS.lock().unwrap().push(thread::spawn(move || block_on(f)));
    Ok(())
}
define_dispatch! {
    app: App;
    spawn_fn: on_thread;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: Ctx;
    endpoints: {
        list: SEPS;
        | EndpointTy | kind     | handler |
        | ---------- | ----     | ------- |
        | SpA        | spawn    | sp |
        | AsA        | async    | asy |
        | BlA        | blocking | bl |
    };
    topics_in: {
        list: STIN;
        | TopicTy | kind | handler |
        | ------- | ---- | ------- |
        | SIn     | spawn | sin |
    };
    topics_out: { list: STOUT; };
}
async fn sp(_c: SCtx, h: VarHeader, r: u32, s: Sender<ChannelWireTx>) {
    let _ = s.reply::<SpA>(h.seq_no, &(r + 1)).await;
}
async fn asy(c: &mut Ctx, _h: VarHeader, r: u32) -> u32 {
    c.n += 1;
    r + 2
}
fn bl(c: &mut Ctx, _h: VarHeader, r: u32) -> u32 {
    c.n += 1;
    r + 3
}
async fn sin(_c: SCtx, h: VarHeader, m: u32, s: Sender<ChannelWireTx>) {
    let _ = s.publish::<SOut>(h.seq_no, &m).await;
}

/// C05 C11: a channel server whose spawned handlers and application threads use the sender at once
pub fn senders(mut rng: Rng, st: &mut Stats) {
    let (ctx, crx) = mpsc::channel::<Vec<u8>>(1 + rng.below(4));
    let (stx, mut srx) = mpsc::channel::<Vec<u8>>(1 + rng.below(4));
    let app = App::new(Ctx { n: 0 }, ChannelWireSpawn {});
    let kk = app.min_key_len();
    let mut server = new_server(app, Settings { tx: ChannelWireTx::new(stx), rx: ChannelWireRx::new(crx), buf: 256, kkind: kk });
    let sender = server.sender();
    let srv = thread::spawn(move || {
        let _ = block_on(server.run());
    });
    let pubs = 1 + rng.below(2);
    let per = 1 + rng.below(3);
    let mut hs = vec![];
    for t in 0..pubs {
        let s = sender.clone();
        hs.push(thread::spawn(move || {
            for k in 0..per {
                let x = (t * 1000 + k) as u32;
                if block_on(s.publish::<SOut>(VarSeq::Seq4(x), &x)).is_err() {
                    bad!("the server could not publish");
                }
                if block_on(s.log_str("hello")).is_err() {
                    bad!("the server could not log");
                }
            }
        }));
    }
    drop(sender);
    let reqs = 3 + rng.below(4);
    let mut r2 = rng.fork();
    let feeder = thread::spawn(move || {
        let mut want: BTreeMap<(u32, u8), u32> = BTreeMap::new();
        let mut nt = 0;
        for i in 0..reqs as u32 {
            let x = 100 + i;
            let (key, add, kind) = match r2.below(4) {
                0 => (SpA::REQ_KEY, 1, 0u8),
                1 => (AsA::REQ_KEY, 2, 1),
                2 => (BlA::REQ_KEY, 3, 2),
                _ => (SIn::TOPIC_KEY, 0, 3),
            };
            let mut f = VarHeader { key: VarKey::Key8(key), seq_no: VarSeq::Seq2(500 + i as u16) }.write_to_vec();
            f.extend(postcard::to_stdvec(&x).unwrap());
            want.insert((500 + i, kind), x + add);
            nt += 1;
            if block_on(ctx.send(f)).is_err() {
                bad!("the server went away");
            }
        }
        (want, nt, ctx)
    });
    let expect = reqs + pubs * per * 2;
    let mut got = vec![];
    for _ in 0..expect {
        let Some(f) = block_on(srx.recv()) else { bad!("the server closed its link") };
        got.push(f);
        crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    let (mut want, _, ctx) = feeder.join().unwrap();
    drop(ctx);
    srv.join().unwrap();
    for h in hs {
        h.join().unwrap();
    }
    for h in std::mem::take(&mut *THREADS.lock().unwrap()) {
        h.join().unwrap();
    }
    if let Some(f) = block_on(srx.recv()) {
        bad!("extra frame {f:?}");
    }
    let mut next = vec![0usize; pubs];
    let mut logs = 0;
    for f in got {
        let Some((h, body)) = VarHeader::take_from_slice(&f) else { bad!("undecodable frame {f:?}") };
        if h.key.kind() != kk {
            bad!("frame with a key of another length {f:?}");
        }
        let n: u32 = h.seq_no.into();
        let log = h.key == VarKey::Key8(postcard_rpc::standard_icd::LoggingTopic::TOPIC_KEY);
        if log {
            if postcard::from_bytes::<String>(body).ok().as_deref() != Some("hello") {
                bad!("log frame {f:?}");
            }
            logs += 1;
            continue;
        }
        let Ok(v) = postcard::from_bytes::<u32>(body) else { bad!("undecodable body {f:?}") };
        let kind = if h.key == VarKey::Key8(SpA::RESP_KEY) {
            0
        } else if h.key == VarKey::Key8(AsA::RESP_KEY) {
            1
        } else if h.key == VarKey::Key8(BlA::RESP_KEY) {
            2
        } else if h.key == VarKey::Key8(SOut::TOPIC_KEY) {
            3
        } else {
            bad!("frame with an unknown key {f:?}")
        };
        if kind == 3 && v < 100_000 && (v >= 1000 || n == v) && n == v {
            let (t, k) = ((v / 1000) as usize, (v % 1000) as usize);
            if t >= pubs || next[t] != k {
                bad!("publication {v} out of order");
            }
            next[t] += 1;
            continue;
        }
        if want.remove(&(n, kind)) != Some(v) {
            bad!("unexpected frame {f:?}");
        }
    }
    if !want.is_empty() || logs != pubs * per || next.iter().any(|x| *x != per) {
        bad!("missing frames: {want:?}, {logs} logs, {next:?}");
    }
    st.add("requests", reqs as u64);
    st.add("published", (pubs * per) as u64);
    st.add("logged", logs as u64);
}

/// C18: several threads log at once: every log frame arrives once, intact, with a number of its own
pub fn logs(mut rng: Rng, st: &mut Stats) {
    let (stx, mut srx) = mpsc::channel::<Vec<u8>>(1 + rng.below(8));
    let kk = [VarKeyKind::Key1, VarKeyKind::Key2, VarKeyKind::Key4, VarKeyKind::Key8][rng.below(4)];
    let sender = Sender::new(ChannelWireTx::new(stx), kk);
    let (threads, per) = (2 + rng.below(3), 2 + rng.below(if cfg!(miri) { 3 } else { 12 }));
    let mut hs = vec![];
    for t in 0..threads {
        let s = sender.clone();
        let mut r = rng.fork();
        hs.push(thread::spawn(move || {
            for k in 0..per {
                let res = if r.chance(1, 2) {
                    let m = format!("{t}:{k}");
                    block_on(s.log_str(&m))
                } else {
                    block_on(s.log_fmt(format_args!("{t}:{k}")))
                };
                if res.is_err() {
                    bad!("a log message was refused");
                }
            }
        }));
    }
    drop(sender);
    let mut next = vec![(0usize, None::<u32>); threads];
    let mut nums = std::collections::BTreeSet::new();
    while let Some(f) = block_on(srx.recv()) {
        crate::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let Some((h, body)) = VarHeader::take_from_slice(&f) else { bad!("undecodable frame {f:?}") };
        if h.key.kind() != kk || h.key != VarKey::Key8(postcard_rpc::standard_icd::LoggingTopic::TOPIC_KEY) {
            bad!("log frame under another key {f:?}");
        }
        let Ok(m) = postcard::from_bytes::<String>(body) else { bad!("undecodable log {f:?}") };
        let Some((t, k)) = m.split_once(':').and_then(|(t, k)| Some((t.parse::<usize>().ok()?, k.parse::<usize>().ok()?))) else { bad!("log text {m:?}") };
        let n: u32 = h.seq_no.into();
        if t >= threads || next[t].0 != k || next[t].1.is_some_and(|p| p >= n) {
            bad!("log {m:?} (number {n}) out of order: {next:?}");
        }
        next[t] = (k + 1, Some(n));
        if !nums.insert(n) {
            bad!("two log frames carry the number {n}");
        }
    }
    for h in hs {
        h.join().unwrap();
    }
    let total = threads * per;
    if next.iter().any(|x| x.0 != per) || !nums.iter().copied().eq(0..total as u32) {
        bad!("{total} logs, numbers {nums:?}, per thread {next:?}");
    }
    st.add("logged", total as u64);
}
