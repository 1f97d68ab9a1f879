import os
P = open(os.path.join(os.path.dirname(__file__), "prelude.rs")).read()
U = "host_client/util.rs"; H = "host_client/mod.rs"; SV = "server/mod.rs"; D = "server/dispatch_macro.rs"
def m(body, **k): return {"prelude.rs": P, "main.rs": "mod prelude;\nuse prelude::*;\nuse postcard_rpc::header::*;\nuse postcard_rpc::host_client::*;\nuse postcard_rpc::{Endpoint, Topic};\nuse std::time::Duration;\n" + body, **k}
SEEDS = [
 dict(id="close-keeps-broadcast-list", property="C08",
  needs="a broadcast subscriber that is waiting (with another clone of the client still alive) when the link ends",
  breaks="the receive worker ends without dropping the broadcast queues, so broadcast subscribers wait forever after the link is gone",
  edits=[(U, "    guard.exclusive_list.clear();\n    guard.broadcast_list.clear();\n", "    guard.exclusive_list.clear();\n    if guard.exclusive_list.capacity() > 0 {\n        guard.broadcast_list.clear();\n    }\n")],
  files=m('''
#[tokio::main]
async fn main() {
    let l = link();
    let mut s = l.client.subscribe_multi::<Out1>(4).await.unwrap();
    let c2 = l.client.clone();
    tokio::spawn(async move {
        tokio::time::sleep(Duration::from_millis(50)).await;
        c2.close();
        tokio::time::sleep(Duration::from_secs(60)).await;
    });
    match within("receiving on a closed client", s.recv()).await {
        Err(_) => {}
        Ok(v) => fail(&format!("received {v}")),
    }
    println!("ok");
}
''')),
 dict(id="full-queue-ends-subscription", property="C09",
  needs="an exclusive subscriber configured with a non-zero waiting time whose queue stays full longer than that time, and which then reads on",
  breaks="dropping one message because the queue stayed full also ends the subscription; later messages are lost",
  edits=[(U, '''                            _ = tokio::time::sleep(host_ctx.subscription_timeout) => {
                                tracing::error!("Subscription channel full! Message dropped.");
                                false
                            }''', '''                            _ = tokio::time::sleep(host_ctx.subscription_timeout) => {
                                tracing::error!("Subscription channel full! Message dropped.");
                                m.max_capacity() == 1
                            }''')],
  files=m('''
#[tokio::main]
async fn main() {
    let l = link_with(VarSeqKind::Seq2, Duration::from_millis(20));
    let mut s = l.client.subscribe_exclusive::<Out1>(1).await.unwrap();
    l.inject.send(topic::<Out1>(0, &10)).unwrap();
    l.inject.send(topic::<Out1>(1, &11)).unwrap();
    tokio::time::sleep(Duration::from_millis(300)).await;
    if within("first", s.recv()).await != Some(10) { fail("first message") }
    l.inject.send(topic::<Out1>(2, &12)).unwrap();
    match within("third", s.recv()).await {
        Some(12) => println!("ok"),
        o => fail(&format!("after a dropped message the subscriber got {o:?} instead of the next message")),
    }
}
''')),
 dict(id="lagged-by-one-hidden", property="C10",
  needs="a broadcast subscriber that falls behind its queue by exactly one message",
  breaks="a loss of one message is not reported to the subscriber",
  edits=[(H, '''                Err(broadcast::error::RecvError::Lagged(n)) => {
                    return Err(MultiSubRxError::Lagged(n))
                }''', '''                Err(broadcast::error::RecvError::Lagged(n)) => {
                    if n == 1 {
                        continue;
                    }
                    return Err(MultiSubRxError::Lagged(n));
                }''')],
  files=m('''
#[tokio::main]
async fn main() {
    let l = link();
    let mut s = l.client.subscribe_multi::<Out1>(4).await.unwrap();
    for i in 0..5u32 { l.inject.send(topic::<Out1>(i as u16, &i)).unwrap(); }
    tokio::time::sleep(Duration::from_millis(100)).await;
    let mut got = 0u64;
    let mut lost = 0u64;
    while got + lost < 5 {
        match tokio::time::timeout(Duration::from_secs(3), s.recv()).await {
            Ok(Ok(_)) => got += 1,
            Ok(Err(MultiSubRxError::Lagged(n))) => lost += n,
            o => fail(&format!("{got} received, {lost} reported lost of 5, then {o:?}")),
        }
    }
    println!("ok");
}
''')),
 dict(id="spawn-failure-unanswered", property="C05",
  needs="a spawn handler whose spawn function refuses the task",
  breaks="a request whose handler could not be spawned gets no answer at all",
  edits=[(D, '''            if $spawn_fn($spawner, $handler(context, $header.clone(), $req, $outputter.clone())).is_err() {
                let err = $crate::standard_icd::WireError::FailedToSpawn;
                $outputter.error($header.seq_no, err).await
            }''', '''            if $spawn_fn($spawner, $handler(context, $header.clone(), $req, $outputter.clone())).is_err() {
                let _err = $crate::standard_icd::WireError::FailedToSpawn;
                Ok(())
            }''')],
  files=m('''
use postcard_rpc::define_dispatch;
use postcard_rpc::server::impls::test_channels::{dispatch_impl::{new_server, Settings, WireSpawnImpl, WireTxImpl}, ChannelWireRx, ChannelWireSpawn, ChannelWireTx};
use postcard_rpc::server::{Dispatch, Sender, SpawnContext};
pub struct Ctx;
pub struct SCtx;
impl SpawnContext for Ctx {
    type SpawnCtxt = SCtx;
    fn spawn_ctxt(&mut self) -> SCtx { SCtx }
}
fn full(_: &ChannelWireSpawn, _f: impl std::future::Future<Output = ()> + Send + 'static) -> Result<(), ()> { Err(()) }
define_dispatch! {
    app: App;
    spawn_fn: full;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind | handler |
        | ---------- | ---- | ------- |
        | Inc | spawn | inc |
        | Dbl | async | dbl |
    };
    topics_in: {
        list: TIN;
        | TopicTy | kind | handler |
        | ------- | ---- | ------- |
        | In1 | async | in1 |
    };
    topics_out: { list: TOUT; };
}
async fn inc(_c: SCtx, _h: VarHeader, _r: u32, _s: Sender<ChannelWireTx>) {}
async fn dbl(_c: &mut Ctx, _h: VarHeader, r: u32) -> u64 { r as u64 * 2 }
async fn in1(_c: &mut Ctx, _h: VarHeader, _m: u32, _s: &Sender<ChannelWireTx>) {}
#[tokio::main]
async fn main() {
    let (ctx, crx) = tokio::sync::mpsc::channel(8);
    let (stx, srx) = tokio::sync::mpsc::channel(8);
    let app = App::new(Ctx, ChannelWireSpawn {});
    let kk = app.min_key_len();
    let cwrx = ChannelWireRx::new(crx);
    let cwtx = ChannelWireTx::new(stx);
    let mut server = new_server(app, Settings { tx: cwtx, rx: cwrx, buf: 1024, kkind: kk });
    tokio::spawn(async move { server.run().await; });
    let cl: HostClient<WErr> = test_channels::new_from_channels(ctx, srx, VarSeqKind::Seq1);
    if within("async call", cl.send_resp::<Dbl>(&4)).await.unwrap() != 8 { fail("dbl") }
    match within("a call that cannot be spawned", cl.send_resp::<Inc>(&4)).await {
        Err(HostErr::Wire(WErr::FailedToSpawn)) => println!("ok"),
        o => fail(&format!("{o:?}")),
    }
}
''')),
 dict(id="cobs-error-keeps-old-bytes", property="C13", features=["cobs-serial"],
  needs="a malformed segment followed by a good one in the same stream",
  breaks="after a malformed segment the decoder keeps its bytes, so the following good frame is lost or altered",
  edits=[("accumulator.rs", '''                        Err(_) => FeedResult::DeserError(release),
                    };''', '''                        Err(_) if release.is_empty() => FeedResult::DeserError(release),
                        Err(_) => return FeedResult::DeserError(release),
                    };''')],
  files=m('''
use postcard_rpc::accumulator::raw::*;
fn main() {
    for cut in 0..6 {
        let mut acc = CobsAccumulator::<32>::new();
        let s = [5u8, 1, 0, 2, 7, 0];
        let mut got = vec![];
        for part in [&s[..cut], &s[cut..]] {
            let mut w = part;
            while !w.is_empty() {
                w = match acc.feed(w) {
                    FeedResult::Consumed => break,
                    FeedResult::OverFull(r) | FeedResult::DeserError(r) => r,
                    FeedResult::Success { data, remaining } => { got.push(data.to_vec()); remaining }
                };
            }
        }
        if got != vec![vec![7u8]] { fail(&format!("cut at {cut}: frames {got:?}")) }
    }
    println!("ok");
}
''')),
 dict(id="key-compare-4-2", property="C02",
  needs="a 4-byte and a 2-byte key whose folded bytes differ but have the same combined parity",
  breaks="a 4-byte key equals a 2-byte key that it does not shorten to",
  edits=[("header.rs", '''            (VarKey::Key4(this), VarKey::Key2(other)) => {
                let this = Key2::from_key4(*this);
                this.0.eq(&other.0)''', '''            (VarKey::Key4(this), VarKey::Key2(other)) => {
                let [a, b] = Key2::from_key4(*this).0;
                let [c, d] = other.0;
                a ^ b == c ^ d''')],
  files=m('''
fn main() {
    use postcard_rpc::{Key2, Key4, Key};
    let k = Key::for_path::<u32>("demo/x");
    let k4 = Key4::from_key8(k);
    let [a, b] = Key2::from_key4(k4).to_bytes();
    for x in 0..=255u8 {
        let other = Key2::try_from_bytes2([a ^ x, b ^ x]);
        let eq = VarKey::Key4(k4) == VarKey::Key2(other);
        let eq2 = VarKey::Key2(other) == VarKey::Key4(k4);
        if eq != (x == 0) || eq2 != (x == 0) { fail(&format!("x={x} {eq} {eq2}")) }
    }
    println!("ok");
}
trait FromB { fn try_from_bytes2(b: [u8; 2]) -> Self; }
impl FromB for postcard_rpc::Key2 { fn try_from_bytes2(b: [u8; 2]) -> Self { 
    // through the wire, the only public way
    let f = [0b0100_0000u8, b[0], b[1], 0];
    match VarHeader::take_from_slice(&f).unwrap().0.key { VarKey::Key2(k) => k, _ => unreachable!() }
} }
''')),
 dict(id="discovery-lost-in-topic", property="C14",
  needs="a discovery in which the announcement of an incoming topic is lost on the way",
  breaks="a report that misses an incoming topic is returned as success",
  edits=[(H, '''        data_matches &= resp.topics_in_sent as usize == rpt.topics_in.len();
''', '''        data_matches &= resp.topics_in_sent as usize >= rpt.topics_in.len();
''')],
  files=m('''
use postcard_rpc::standard_icd::*;
#[tokio::main]
async fn main() {
    let mut l = link();
    let inject = l.inject.clone();
    let dev = tokio::spawn(async move {
        while let Some(f) = l.sent.recv().await {
            let (h, _) = VarHeader::take_from_slice(&f).unwrap();
            let k = VarKey::Key8(GetAllSchemaDataTopic::TOPIC_KEY);
            let mut n = 0u16;
            let mut tx = |d: OwnedSchemaData| { inject.send(frame(k, VarSeq::Seq2(n), &d)).unwrap(); n += 1; };
            tx(OwnedSchemaData::Endpoint { path: "demo/inc".into(), request_key: Inc::REQ_KEY, response_key: Inc::RESP_KEY });
            // the announcement of In1 is lost
            tokio::time::sleep(Duration::from_millis(5)).await;
            let rep = SchemaTotals { types_sent: 0, endpoints_sent: 1, topics_in_sent: 1, topics_out_sent: 0, errors: 0 };
            inject.send(frame(VarKey::Key8(GetAllSchemasEndpoint::RESP_KEY), h.seq_no, &rep)).unwrap();
        }
    });
    match within("discovery", l.client.get_schema_report()).await {
        Err(_) => println!("ok"),
        Ok(r) => fail(&format!("incomplete report returned as success: {} incoming topics", r.topics_in.len())),
    }
    dev.abort();
}
''')),
 dict(id="type-list-ignores-field-names", property="C15",
  needs="two types of the same name and field types that differ only in field names, in one interface",
  breaks="two structurally different types are taken for the same, so one of them disappears from the type list",
  edits=[("uniques.rs", '''    while i < a.len() {
        if !str_eq(a[i].name, b[i].name) {
            return false;
        }
        if !nty_eq(a[i].ty, b[i].ty) {
            return false;
        }
''', '''    while i < a.len() {
        if a[i].name.len() != b[i].name.len() {
            return false;
        }
        if !nty_eq(a[i].ty, b[i].ty) {
            return false;
        }
''')],
  files=m('''
use postcard_schema::{schema::NamedType, Schema};
mod a { use postcard_schema::Schema; #[derive(Schema)] pub struct P { pub lat: u32, pub len: u8 } }
mod b { use postcard_schema::Schema; #[derive(Schema)] pub struct P { pub lon: u32, pub len: u8 } }
#[derive(Schema)] pub struct Both { pub a: a::P, pub b: b::P }
const TYS: &[&NamedType] = postcard_rpc::unique_types![Both];
fn main() {
    for want in [a::P::SCHEMA, b::P::SCHEMA, Both::SCHEMA] {
        if !TYS.iter().any(|t| **t == *want) { fail(&format!("{want:?} is missing from the list of {} types", TYS.len())) }
    }
    println!("ok");
}
''')),
]
