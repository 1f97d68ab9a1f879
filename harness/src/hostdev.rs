//! C19: host build (this program, with `use-std`) against the device build (nostd-probe).
use crate::probe_common::*;
use crate::report::*;
use crate::ssim::*;
use postcard_rpc::header::VarSeqKind;
use postcard_rpc::host_client::{HostClient, HostErr, WireRx, WireSpawn, WireTx};
use postcard_rpc::standard_icd::*;
use postcard_rpc::{Endpoint, Topic};
use postcard_schema::schema::owned::{OwnedDataModelType, OwnedDataModelVariant, OwnedNamedType, OwnedNamedValue};
use postcard_schema::Schema;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub mod side {
    use crate::probe_common::ser;
    use postcard_rpc::standard_icd::*;
    use postcard_rpc::{Key, Topic, TopicDirection};
    use postcard_schema::schema::NamedType;
    pub fn sd_type(t: &'static NamedType) -> Vec<u8> {
        ser::<<GetAllSchemaDataTopic as Topic>::Message>(&OwnedSchemaData::Type(t.into()))
    }
    pub fn sd_ep(path: &str, a: Key, b: Key) -> Vec<u8> {
        ser::<<GetAllSchemaDataTopic as Topic>::Message>(&OwnedSchemaData::Endpoint { path: path.into(), request_key: a, response_key: b })
    }
    pub fn sd_tp(path: &str, key: Key, direction: TopicDirection) -> Vec<u8> {
        ser::<<GetAllSchemaDataTopic as Topic>::Message>(&OwnedSchemaData::Topic { path: path.into(), key, direction })
    }
    pub fn log_bytes(s: &str) -> Vec<u8> {
        ser::<<LoggingTopic as Topic>::Message>(&s.to_string())
    }
}

crate::probe_app!(STx, SSpawn, s_spawn);
fn host_map() -> &'static postcard_rpc::DeviceMap {
    let sched = crate::exec::Sched::new(crate::rng::Rng::new(1));
    PApp::new(PCtx { n: 0 }, SSpawn { sp: sched.spawner(), link: slink(crate::rng::Rng::new(1)) }).device_map
}

fn bin() -> String {
    std::env::var("PROBE_BIN").expect("PROBE_BIN")
}
/// run the device program; its death is a finding
fn probe(args: &[&str]) -> Result<Vec<String>, String> {
    let mut c = Command::new(bin());
    let out = c.args(args).stdin(Stdio::null()).output().expect("probe does not start");
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr);
        let at = e.lines().find(|l| l.contains("panicked")).unwrap_or("").to_string();
        return Err(format!("the device build died on {args:?} ({}) {at}", out.status));
    }
    Ok(String::from_utf8(out.stdout).expect("utf8").lines().map(|s| s.to_string()).collect())
}
fn compare(case: &mut Case, host: Vec<String>, dev: Vec<String>) -> Result<(), String> {
    for (i, h) in host.iter().enumerate() {
        let h = h.replace('\n', "\\n");
        case.sig_bytes(h.as_bytes());
        let d = dev.get(i).map(|s| s.as_str()).unwrap_or("<nothing>");
        if h != d {
            return Err(format!("host and device builds differ: host '{}' device '{}'", cut(&h), cut(d)));
        }
    }
    if dev.len() != host.len() {
        return Err(format!("device build has {} facts, host build {}", dev.len(), host.len()));
    }
    case.evals = host.len() as u64;
    Ok(())
}
fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// the structure of a type without the type names (keys do not depend on them)
fn strip(t: &OwnedNamedType) -> String {
    use OwnedDataModelType as D;
    let list = |v: &[OwnedNamedType]| v.iter().map(strip).collect::<Vec<_>>().join(",");
    let vals = |v: &[OwnedNamedValue]| v.iter().map(|x| format!("{}:{}", x.name, strip(&x.ty))).collect::<Vec<_>>().join(",");
    match &t.ty {
        D::Option(n) => format!("opt({})", strip(n)),
        D::NewtypeStruct(n) => format!("nt({})", strip(n)),
        D::Seq(n) => format!("seq({})", strip(n)),
        D::Tuple(n) => format!("tup({})", list(n)),
        D::TupleStruct(n) => format!("ts({})", list(n)),
        D::Map { key, val } => format!("map({},{})", strip(key), strip(val)),
        D::Struct(n) => format!("st({})", vals(n)),
        D::Enum(n) => format!(
            "en({})",
            n.iter()
                .map(|v| format!(
                    "{}={}",
                    v.name,
                    match &v.ty {
                        OwnedDataModelVariant::UnitVariant => "u".to_string(),
                        OwnedDataModelVariant::NewtypeVariant(n) => format!("n({})", strip(n)),
                        OwnedDataModelVariant::TupleVariant(n) => format!("t({})", list(n)),
                        OwnedDataModelVariant::StructVariant(n) => format!("s({})", vals(n)),
                    }
                ))
                .collect::<Vec<_>>()
                .join(",")
        ),
        o => format!("{o:?}"),
    }
}

fn c19_constants(case: &mut Case) -> Result<(), String> {
    let dev = probe(&["constants"])?;
    compare(case, constants(host_map()), dev.clone())?;
    // every type the device announces decodes on the host to the same schema
    for t in TYPES {
        let b = unhex(dev.iter().find_map(|l| l.strip_prefix(&format!("type {} ", t.name))).unwrap_or(""));
        // names may repeat: only the first is looked up here, compare() saw all of them
        if postcard::from_bytes::<OwnedSchemaData>(&b).is_err() {
            return Err(format!("the host cannot decode the device's announcement of type {}", t.name));
        }
        case.count("types", 1);
    }
    let mut d: Vec<String> = vec![];
    for l in probe(&["types"])? {
        let t: OwnedNamedType = postcard::from_bytes(&unhex(&l)).map_err(|_| format!("the host cannot decode the device's type {l}"))?;
        d.push(strip(&t));
    }
    let mut h: Vec<String> = host_map().types.iter().map(|t| strip(&OwnedNamedType::from(*t))).collect();
    d.sort();
    h.sort();
    if d != h {
        return Err(format!("the device's type list differs from the host's: device {d:?} host {h:?}"));
    }
    case.nontrivial = true;
    Ok(())
}

fn c19_vectors(case: &mut Case) -> Result<(), String> {
    let seed = case.rng.u64();
    let n = 60;
    let dev = probe(&["vectors", &format!("{seed:x}"), &n.to_string()])?;
    // what the device encoded decodes on the host to what was meant
    let host = vectors(seed, n);
    compare(case, host, dev.clone())?;
    for l in &dev {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "log" => {
                let s: <LoggingTopic as Topic>::Message = postcard::from_bytes(&unhex(w[2])).map_err(|_| format!("log text does not decode: {l}"))?;
                if s.as_bytes() != unhex(w[1]) {
                    return Err(format!("log text decodes to something else: {l}"));
                }
                case.count("logs", 1);
            }
            "sdep" | "sdtp" => {
                let ok = match postcard::from_bytes::<OwnedSchemaData>(&unhex(w[1])) {
                    Ok(OwnedSchemaData::Endpoint { .. }) => w[0] == "sdep",
                    Ok(OwnedSchemaData::Topic { .. }) => w[0] == "sdtp",
                    _ => false,
                };
                if !ok {
                    return Err(format!("discovery data does not decode on the host: {l}"));
                }
                case.count("discovery", 1);
            }
            "take" => {
                case.count(if l.ends_with("None") { "headers_refused" } else { "headers_taken" }, 1);
            }
            "write" => case.count("headers_written", 1),
            "werr" => case.count("errors", 1),
            "dwerr" => case.count(if l.ends_with("refused") { "decode_refused" } else { "decode_ok" }, 1),
            "eq" => case.count(if l.ends_with("true") { "keys_equal" } else { "keys_differ" }, 1),
            _ => {}
        }
    }
    case.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ live exchange

#[derive(Debug)]
struct PErr;
impl std::fmt::Display for PErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "pipe")
    }
}
impl std::error::Error for PErr {}
struct PTx(ChildStdin);
struct PRx(tokio::sync::mpsc::UnboundedReceiver<Vec<u8>>);
struct PSp;
impl WireTx for PTx {
    type Error = PErr;
    async fn send(&mut self, d: Vec<u8>) -> Result<(), PErr> {
        self.0.write_all(&(d.len() as u32).to_le_bytes()).and_then(|_| self.0.write_all(&d)).and_then(|_| self.0.flush()).map_err(|_| PErr)
    }
}
impl WireRx for PRx {
    type Error = PErr;
    async fn receive(&mut self) -> Result<Vec<u8>, PErr> {
        self.0.recv().await.ok_or(PErr)
    }
}
impl WireSpawn for PSp {
    fn spawn(&mut self, fut: impl std::future::Future<Output = ()> + Send + 'static) {
        tokio::spawn(fut);
    }
}
postcard_rpc::endpoint!(EpNone, P1, P2, "p/none");
postcard_rpc::endpoint!(EpBadBody, (), P2, "p/a");

struct Kill(Child);
impl Drop for Kill {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn c19_live(case: &mut Case) -> Result<(), String> {
    let mut child = Command::new(bin()).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("probe");
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let mut so = child.stdout.take().unwrap();
    let frames = Arc::new(Mutex::new(vec![]));
    let f2 = frames.clone();
    let th = std::thread::spawn(move || loop {
        let mut l = [0u8; 4];
        if so.read_exact(&mut l).is_err() {
            return;
        }
        let mut v = vec![0u8; u32::from_le_bytes(l) as usize];
        if so.read_exact(&mut v).is_err() {
            return;
        }
        f2.lock().unwrap().push(v.clone());
        if tx.send(v).is_err() {
            return;
        }
    });
    let stdin = child.stdin.take().unwrap();
    let kill = Kill(child);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let kind = *case.rng.pick(&[VarSeqKind::Seq1, VarSeqKind::Seq2, VarSeqKind::Seq4]);
    let res: Result<(), String> = rt.block_on(async {
        let cl = HostClient::<WireError>::new_with_wire(PTx(stdin), PRx(rx), PSp, kind, ERROR_PATH, 8);
        let r = live(case, &cl).await;
        cl.close();
        r
    });
    drop(rt);
    drop(kill);
    let _ = th.join();
    for f in frames.lock().unwrap().iter() {
        case.sig_bytes(f);
    }
    case.nontrivial = true;
    res
}

async fn within<T>(what: &str, f: impl std::future::Future<Output = T>) -> Result<T, String> {
    tokio::time::timeout(Duration::from_secs(30), f).await.map_err(|_| format!("{what} with the device build did not finish"))
}
async fn live(case: &mut Case, cl: &HostClient<WireError>) -> Result<(), String> {
    let mut sub = within("subscribing", cl.subscribe_multi::<ToP>(64)).await?.map_err(|_| "client closed")?;
    let mut logs = within("subscribing", cl.subscribe_multi::<LoggingTopic>(64)).await?.map_err(|_| "client closed")?;
    let mut cnt = 0u64;
    let steps = case.rng.range(10, 40);
    for _ in 0..steps {
        macro_rules! call {
            ($e:ty, $req:expr, $want:expr) => {{
                let req = $req;
                let got = within(<$e as Endpoint>::PATH, cl.send_resp::<$e>(&req)).await?;
                match got {
                    Ok(v) if v == $want => {}
                    o => return Err(format!("{} with {req:?}: got {o:?}, expected {:?}", <$e as Endpoint>::PATH, $want)),
                }
                case.count("calls", 1);
            }};
        }
        macro_rules! fails {
            ($e:ty, $req:expr, $want:pat) => {{
                let req = $req;
                let got = within(<$e as Endpoint>::PATH, cl.send_resp::<$e>(&req)).await?;
                if !matches!(got, Err(HostErr::Wire($want))) {
                    return Err(format!("{} with {req:?}: got {got:?}, expected the error {}", <$e as Endpoint>::PATH, stringify!($want)));
                }
                case.count("wire_errors", 1);
            }};
        }
        let r = &mut case.rng;
        match r.below(12) {
            0 | 1 => {
                let v = edge(r);
                call!(PingEndpoint, v, v)
            }
            2 | 3 => {
                let v = p1(r);
                let w = f_a(&v);
                call!(EpPA, v, w)
            }
            4 | 5 => {
                let v = p2(r);
                let w = f_b(&v);
                call!(EpPB, v, w)
            }
            6 => {
                cnt += 1;
                call!(EpPC, (), cnt)
            }
            7 => {
                let v = p5(r);
                let w = f_d(&v);
                call!(EpPD, v, w)
            }
            8 => {
                let v = p1(r);
                fails!(EpNone, v, WireError::UnknownKey)
            }
            9 => {
                // declared in the list but not handled
                let v = r.u8();
                fails!(EpPX, v, WireError::UnknownKey)
            }
            10 => {
                let frame = postcard_rpc::host_client::RpcFrame {
                    header: postcard_rpc::header::VarHeader {
                        key: postcard_rpc::header::VarKey::Key8(EpPA::REQ_KEY),
                        seq_no: postcard_rpc::header::VarSeq::Seq4(0x80 + r.below(16) as u32),
                    },
                    body: vec![0xFF; r.below(4)],
                };
                match within("a bad request", cl.send_resp_raw(frame, EpPA::RESP_KEY)).await? {
                    Err(HostErr::Wire(WireError::DeserFailed)) => case.count("wire_errors", 1),
                    Err(o) => return Err(format!("an undecodable request gave {o:?} instead of the decode error")),
                    Ok(_) => return Err("an undecodable request was answered".into()),
                }
            }
            _ => {
                let v = p1(r);
                within("publish", cl.publish::<TiP>(postcard_rpc::header::VarSeq::Seq2(r.u32() as u16), &v)).await?.map_err(|_| "client closed")?;
                match within("receiving a topic message", sub.recv()).await? {
                    Ok(m) if m == f_a(&v) => {}
                    o => return Err(format!("topic message after {v:?}: got {o:?}, expected {:?}", f_a(&v))),
                }
                for want in [log_text(&v).to_string(), format!("fmt {} {:?}", v.a, v.c)] {
                    match within("receiving a log message", logs.recv()).await? {
                        Ok(m) if m == want => {}
                        o => return Err(format!("log message: got {o:?}, expected {want:?}")),
                    }
                }
                case.count("topics_and_logs", 1);
            }
        }
    }
    if case.rng.chance(1, 2) {
        // discovery relies on 100 ms of silence; a busy machine may break that, so try repeatedly
        let map = host_map();
        let mut last = String::new();
        let mut rpt = None;
        for _ in 0..6 {
            match within("discovery", cl.get_schema_report()).await? {
                Ok(r) => {
                    rpt = Some(r);
                    break;
                }
                Err(e) => last = format!("{e:?}"),
            }
        }
        let Some(rpt) = rpt else { return Err(format!("discovery of the device build keeps failing: {last}")) };
        let eps: Vec<_> = rpt.endpoints.iter().map(|e| (e.path.clone(), e.req_key, e.resp_key)).collect();
        let want: Vec<_> = map.endpoints.iter().map(|e| (e.0.to_string(), e.1, e.2)).collect();
        if !same(&eps, &want) {
            return Err(format!("discovery lists endpoints {eps:?}, expected {want:?}"));
        }
        for (got, want) in [(&rpt.topics_in, map.topics_in), (&rpt.topics_out, map.topics_out)] {
            let g: Vec<_> = got.iter().map(|t| (t.path.clone(), t.key)).collect();
            let w: Vec<_> = want.iter().map(|t| (t.0.to_string(), t.1)).collect();
            if !same(&g, &w) {
                return Err(format!("discovery lists topics {g:?}, expected {w:?}"));
            }
        }
        let want_ty = strip(&OwnedNamedType::from(<OwnedSchemaData as Schema>::SCHEMA));
        if !rpt.types.iter().any(|t| strip(t) == want_ty) {
            return Err("discovery does not list the discovery message type".into());
        }
        case.count("reports", 1);
    }
    Ok(())
}
fn same<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.contains(x))
}

/// The device build interpreted for other kinds of machine (32-bit; big endian): checks/C19.sh has
/// run it and left its answers in CROSS_DIR as <target>.constants / <target>.vectors (+ .status).
fn c19_cross(case: &mut Case) -> Result<(), String> {
    let Ok(dir) = std::env::var("CROSS_DIR") else { return Ok(()) };
    let seed = u64::from_str_radix(&std::env::var("CROSS_SEED").unwrap(), 16).unwrap();
    let n: u64 = std::env::var("CROSS_N").unwrap().parse().unwrap();
    let read = |f: String| std::fs::read_to_string(format!("{dir}/{f}")).unwrap_or_else(|e| panic!("{f}: {e}"));
    let mut evals = 0;
    for t in std::env::var("CROSS_TARGETS").unwrap().split(' ') {
        for kind in ["constants", "vectors"] {
            if read(format!("{t}.{kind}.status")).trim() != "0" {
                return Err(format!("the device build for {t} died on '{kind}': {}", cut(&read(format!("{t}.{kind}.err")))));
            }
            let dev: Vec<String> = read(format!("{t}.{kind}")).lines().map(|s| s.to_string()).collect();
            let host = if kind == "constants" { constants(host_map()) } else { vectors(seed, n) };
            compare(case, host, dev).map_err(|e| format!("device build for {t}: {e}"))?;
            evals += case.evals;
            case.count("cross_facts", case.evals);
        }
    }
    case.evals = evals;
    case.nontrivial = true;
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C19",
        scenarios: vec![
            Scenario { name: "constants", f: c19_constants, quick: 1, weight: 0, serial: true },
            Scenario { name: "cross", f: c19_cross, quick: 1, weight: 0, serial: true },
            Scenario { name: "vectors", f: c19_vectors, quick: 40, weight: 3, serial: false },
            Scenario { name: "live", f: c19_live, quick: 20, weight: 2, serial: false },
        ],
        must_see: &["types", "logs", "discovery", "headers_refused", "headers_taken", "decode_refused", "decode_ok", "keys_equal", "calls", "wire_errors", "topics_and_logs", "reports"],
        rule: "a distinct case is a distinct set of answers (or frames) produced by the device build and compared with the host build",
        assumptions: &["the device build is the library without use-std, compiled for this machine and, for constants and codec vectors, interpreted for a 32-bit and a big-endian machine"],
    }]
}
