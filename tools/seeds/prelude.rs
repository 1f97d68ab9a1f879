// in-memory link: what the client sends comes out of `sent`, what is put in `inject` it receives
#![allow(dead_code, unused_imports, deprecated)]
use postcard_rpc::header::*;
use postcard_rpc::host_client::{HostClient, HostClientConfig, HostErr, WireRx, WireSpawn, WireTx};
use postcard_rpc::{endpoints, topics, Endpoint, Topic, TopicDirection};
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::time::Duration;
use tokio::sync::mpsc;
pub type WErr = postcard_rpc::standard_icd::WireError;
#[derive(Debug)]
pub struct Gone;
impl std::fmt::Display for Gone {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "gone")
    }
}
impl std::error::Error for Gone {}
pub struct T(mpsc::UnboundedSender<Vec<u8>>);
pub struct R(mpsc::UnboundedReceiver<Vec<u8>>);
pub struct Sp;
impl WireTx for T {
    type Error = Gone;
    async fn send(&mut self, d: Vec<u8>) -> Result<(), Gone> {
        self.0.send(d).map_err(|_| Gone)
    }
}
impl WireRx for R {
    type Error = Gone;
    async fn receive(&mut self) -> Result<Vec<u8>, Gone> {
        self.0.recv().await.ok_or(Gone)
    }
}
impl WireSpawn for Sp {
    fn spawn(&mut self, f: impl Future<Output = ()> + Send + 'static) {
        tokio::task::spawn(f);
    }
}
pub struct Link {
    pub client: HostClient<WErr>,
    pub sent: mpsc::UnboundedReceiver<Vec<u8>>,
    pub inject: mpsc::UnboundedSender<Vec<u8>>,
}
pub fn link_with(seq_kind: VarSeqKind, full_wait: Duration) -> Link {
    let (t, sent) = mpsc::unbounded_channel();
    let (inject, r) = mpsc::unbounded_channel();
    let client = HostClient::new_with_wire_and_config(
        T(t),
        R(r),
        Sp,
        &HostClientConfig { seq_kind, err_uri_path: "error", outgoing_depth: 8, subscriber_timeout_if_full: full_wait },
    );
    Link { client, sent, inject }
}
pub fn link() -> Link {
    link_with(VarSeqKind::Seq2, Duration::ZERO)
}
pub fn frame<M: Serialize>(key: VarKey, seq: VarSeq, m: &M) -> Vec<u8> {
    let mut v = VarHeader { key, seq_no: seq }.write_to_vec();
    v.extend(postcard::to_stdvec(m).unwrap());
    v
}
pub fn topic<TP: Topic>(seq: u16, m: &TP::Message) -> Vec<u8>
where
    TP::Message: Serialize + Sized,
{
    frame(VarKey::Key8(TP::TOPIC_KEY), VarSeq::Seq2(seq), m)
}
pub async fn within<F: Future>(what: &str, f: F) -> F::Output {
    match tokio::time::timeout(Duration::from_secs(10), f).await {
        Ok(v) => v,
        Err(_) => fail(&format!("{what} never finished")),
    }
}
pub fn fail(m: &str) -> ! {
    println!("BROKEN: {m}");
    std::process::exit(1)
}
endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | Inc        | u32       | u32        | "demo/inc" |
    | Dbl        | u32       | u64        | "demo/dbl" |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | In1     | u32       | "demo/in1" |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | Out1    | u32       | "demo/out1" |
    | Out2    | u32       | "demo/out2" |
}
