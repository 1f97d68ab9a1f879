//! The device side: postcard-rpc built without `use-std`.
//!   probe constants | probe vectors SEED N | probe types | probe serve
#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;
#[path = "../../shared/probe_common.rs"]
#[allow(unused)]
mod probe_common;

mod probe_side {
    use crate::probe_common::ser;
    use postcard_rpc::standard_icd::*;
    use postcard_rpc::{Key, Topic, TopicDirection};
    use postcard_schema::schema::NamedType;
    pub fn sd_type(t: &'static NamedType) -> Vec<u8> {
        ser::<<GetAllSchemaDataTopic as Topic>::Message>(&SchemaData::Type(t))
    }
    pub fn sd_ep(path: &str, a: Key, b: Key) -> Vec<u8> {
        ser::<<GetAllSchemaDataTopic as Topic>::Message>(&SchemaData::Endpoint { path, request_key: a, response_key: b })
    }
    pub fn sd_tp(path: &str, key: Key, direction: TopicDirection) -> Vec<u8> {
        ser::<<GetAllSchemaDataTopic as Topic>::Message>(&SchemaData::Topic { path, key, direction })
    }
    pub fn log_bytes(s: &str) -> Vec<u8> {
        ser::<<LoggingTopic as Topic>::Message>(s)
    }
}

use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use postcard_rpc::server::*;
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::Topic;
use probe_common::*;
use std::cell::Cell;
use std::fmt::Arguments;
use std::future::Future;
use std::io::{Read, Write};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

#[derive(Clone)]
pub struct PipeTx {
    logs: Rc<Cell<u32>>,
}
impl PipeTx {
    fn put(&self, b: &[u8]) -> Result<(), WireTxErrorKind> {
        let mut o = std::io::stdout().lock();
        o.write_all(&(b.len() as u32).to_le_bytes()).and_then(|_| o.write_all(b)).and_then(|_| o.flush()).map_err(|_| WireTxErrorKind::ConnectionClosed)
    }
    fn log_hdr(&self, kk: VarKeyKind) -> VarHeader {
        let mut key = VarKey::Key8(LoggingTopic::TOPIC_KEY);
        key.shrink_to(kk);
        let n = self.logs.get();
        self.logs.set(n + 1);
        VarHeader { key, seq_no: VarSeq::Seq4(n) }
    }
}
impl WireTx for PipeTx {
    type Error = WireTxErrorKind;
    async fn send<T: serde::Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), Self::Error> {
        let mut buf = vec![0u8; 70_000];
        let used = {
            let (h, rest) = hdr.write_to_slice(&mut buf).ok_or(WireTxErrorKind::Other)?;
            h.len() + postcard::to_slice(msg, rest).map_err(|_| WireTxErrorKind::Other)?.len()
        };
        self.put(&buf[..used])
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), Self::Error> {
        self.put(buf)
    }
    async fn send_log_str(&self, kk: VarKeyKind, s: &str) -> Result<(), Self::Error> {
        let h = self.log_hdr(kk);
        self.send::<<LoggingTopic as Topic>::Message>(h, s).await
    }
    async fn send_log_fmt<'a>(&self, kk: VarKeyKind, a: Arguments<'a>) -> Result<(), Self::Error> {
        let h = self.log_hdr(kk);
        self.send::<<LoggingTopic as Topic>::Message>(h, format!("{a}").as_str()).await
    }
}
struct PipeRx;
impl WireRx for PipeRx {
    type Error = WireRxErrorKind;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
        let mut i = std::io::stdin().lock();
        let mut l = [0u8; 4];
        i.read_exact(&mut l).map_err(|_| WireRxErrorKind::ConnectionClosed)?;
        let n = u32::from_le_bytes(l) as usize;
        let mut v = vec![0u8; n];
        i.read_exact(&mut v).map_err(|_| WireRxErrorKind::ConnectionClosed)?;
        let out = buf.get_mut(..n).ok_or(WireRxErrorKind::ReceivedMessageTooLarge)?;
        out.copy_from_slice(&v);
        Ok(out)
    }
}
#[derive(Clone)]
pub struct PSpawn;
impl WireSpawn for PSpawn {
    type Error = ();
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}
fn run_now(_: &PSpawn, f: impl Future<Output = ()>) -> Result<(), ()> {
    block_on(f);
    Ok(())
}

probe_app!(PipeTx, PSpawn, run_now);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let app = PApp::new(PCtx { n: 0 }, PSpawn);
    match a.get(1).map(|s| s.as_str()) {
        Some("constants") => {
            for l in constants(app.device_map) {
                println!("{}", l.replace('\n', "\\n"));
            }
        }
        Some("vectors") => {
            for l in vectors(u64::from_str_radix(&a[2], 16).unwrap(), a[3].parse().unwrap()) {
                println!("{}", l.replace('\n', "\\n"));
            }
        }
        Some("types") => {
            for t in app.device_map.types {
                println!("{}", hx(&ser(*t)));
            }
        }
        Some("serve") => {
            let kk = app.min_key_len();
            let mut s = Server::new(PipeTx { logs: Rc::new(Cell::new(0)) }, PipeRx, vec![0u8; 4096].into_boxed_slice(), app, kk);
            block_on(s.run());
        }
        _ => std::process::exit(2),
    }
}
