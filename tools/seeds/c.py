import os, re
P = open(os.path.join(os.path.dirname(__file__), "prelude.rs")).read()
D = "server/dispatch_macro.rs"; H = "host_client/util.rs"
def m(body, **k): return {"prelude.rs": P, "main.rs": "mod prelude;\nuse prelude::*;\nuse postcard_rpc::header::*;\nuse postcard_rpc::host_client::*;\nuse postcard_rpc::{Endpoint, Topic};\nuse std::time::Duration;\n" + body, **k}
def prog(extra):
    return '''
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection};
use postcard_rpc::header::VarHeader;
use postcard_rpc::server::impls::test_channels::dispatch_impl::{WireSpawnImpl, WireTxImpl, spawn_fn};
use postcard_rpc::server::SpawnContext;
endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | Inc        | u32       | u32        | "demo/inc" |
    | Dbl        | u32       | u64        | "demo/dbl" |
}
endpoints! {
    list = OTHER;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | Neg        | i32       | i32        | "demo/neg" |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
}
pub struct Ctx;
pub struct SCtx;
impl SpawnContext for Ctx {
    type SpawnCtxt = SCtx;
    fn spawn_ctxt(&mut self) -> SCtx { SCtx }
}
define_dispatch! {
    app: App;
    spawn_fn: spawn_fn;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind | handler |
        | ---------- | ---- | ------- |
        | Inc | async | inc |
        | Dbl | async | dbl |
%s    };
    topics_in: {
        list: TIN;
        | TopicTy | kind | handler |
        | ------- | ---- | ------- |
    };
    topics_out: { list: TOUT; };
}
async fn inc(_c: &mut Ctx, _h: VarHeader, r: u32) -> u32 { r.wrapping_add(1) }
async fn dbl(_c: &mut Ctx, _h: VarHeader, r: u32) -> u64 { r as u64 * 2 }
#[allow(dead_code)]
async fn neg(_c: &mut Ctx, _h: VarHeader, r: i32) -> i32 { -r }
fn main() {
    let _ = OTHER;
    let _a = App::new(Ctx, WireSpawnImpl {});
}
''' % extra
SEEDS = [
 dict(id="unlisted-handler-accepted", property="C27",
  needs="a dispatcher whose handler table names an endpoint that the interface list does not contain, after one that it does contain",
  breaks="the definition builds, and the device serves an endpoint that it neither announces nor took into account when choosing the key length",
  edits=[(D, '''                let mut i = 0;
                while i < a.len() {
                    let x = u64::from_le_bytes(a[i].to_bytes());
                    let mut matched = false;
                    let mut j = 0;
''', '''                let mut i = 0;
                let mut matched = false;
                while i < a.len() {
                    let x = u64::from_le_bytes(a[i].to_bytes());
                    let mut j = 0;
''')],
  pre='''export RUSTUP_TOOLCHAIN=${DEMO_TOOLCHAIN:-1.99.1-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target
unset RUSTFLAGS
mv "$d/src/unsound.rs" "$d/unsound.rs"
(cd "$d" && cargo build -q --offline && timeout 60 "$d/target/debug/demo") || exit 3
# the same program with a handler for an endpoint that is not in the list has to be refused
mkdir "$d/src/bin"
mv "$d/unsound.rs" "$d/src/bin/unsound.rs"
if (cd "$d" && cargo build -q --offline --bin unsound) > "$d/log" 2>&1; then
  echo "BROKEN: a handler for an endpoint outside the interface list was accepted"
  exit 1
fi
exit 0
''',
  files={"main.rs": prog(""), "unsound.rs": prog("        | Neg | async | neg |\n")}),
 dict(id="peer-publish-drops-when-full", property="C28",
  needs="an in-memory test peer that publishes more messages than the link holds before the client gets to read them",
  breaks="the peer's publications beyond the link's capacity are silently lost although the peer was told they were sent",
  edits=[("test_utils.rs", '''                key: VarKey::Key8(T::TOPIC_KEY),
                seq_no: VarSeq::Seq4(seq_no),
            },
            body: postcard::to_stdvec(data).unwrap(),
        };
        self.to_client
            .send(frame.to_bytes())
            .await
            .map_err(|_| LocalError::RxClosed)
''', '''                key: VarKey::Key8(T::TOPIC_KEY),
                seq_no: VarSeq::Seq4(seq_no),
            },
            body: postcard::to_stdvec(data).unwrap(),
        };
        match self.to_client.try_send(frame.to_bytes()) {
            Err(tokio::sync::mpsc::error::TrySendError::Closed(_)) => Err(LocalError::RxClosed),
            _ => Ok(()),
        }
''')],
  files=m('''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (mut peer, client) = postcard_rpc::test_utils::local_setup::<WErr>(2, "error");
    let mut sub = client.subscribe_multi::<Out1>(64).await.unwrap();
    for i in 0..20u32 {
        if within("publishing", peer.publish::<Out1>(i, &i)).await.is_err() {
            fail("the peer cannot publish");
        }
    }
    for i in 0..20u32 {
        match within("a message", sub.recv()).await {
            Ok(v) if v == i => {}
            x => fail(&format!("message {i} of 20 published came as {x:?}")),
        }
    }
}
''')),
]
