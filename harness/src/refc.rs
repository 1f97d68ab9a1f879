//! Reference model of the wire format, written from the documentation alone.
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq, VarSeqKind};
use postcard_rpc::{Key, Key1, Key2, Key4};

pub const KLENS: [usize; 4] = [1, 2, 4, 8];
pub const SLENS: [usize; 3] = [1, 2, 4];

/// header as plain data: key bytes, sequence number, sequence width
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RHdr {
    pub key: Vec<u8>,
    pub seq: u32,
    pub slen: usize,
}

pub fn enc(h: &RHdr) -> Vec<u8> {
    let n = match h.key.len() {
        1 => 0u8,
        2 => 1,
        4 => 2,
        8 => 3,
        _ => unreachable!(),
    };
    let m = match h.slen {
        1 => 0u8,
        2 => 1,
        4 => 2,
        _ => unreachable!(),
    };
    let mut v = vec![(n << 6) | (m << 4)];
    v.extend_from_slice(&h.key);
    v.extend_from_slice(&h.seq.to_le_bytes()[..h.slen]);
    v
}

pub fn dec(b: &[u8]) -> Option<(RHdr, &[u8])> {
    let d = *b.first()?;
    if d & 0x0f != 0 {
        return None;
    }
    let kl = 1usize << (d >> 6);
    let sl = match (d >> 4) & 3 {
        0 => 1usize,
        1 => 2,
        2 => 4,
        _ => return None,
    };
    if b.len() < 1 + kl + sl {
        return None;
    }
    let key = b[1..1 + kl].to_vec();
    let mut s = [0u8; 4];
    s[..sl].copy_from_slice(&b[1 + kl..1 + kl + sl]);
    Some((RHdr { key, seq: u32::from_le_bytes(s), slen: sl }, &b[1 + kl + sl..]))
}

/// fold key bytes to n bytes (n <= len): each output byte is the xor of the bytes it stands for
pub fn fold(k: &[u8], n: usize) -> Vec<u8> {
    let per = k.len() / n;
    k.chunks(per).map(|c| c.iter().fold(0, |a, b| a ^ b)).collect()
}

pub fn keys_match(a: &[u8], b: &[u8]) -> bool {
    let n = a.len().min(b.len());
    fold(a, n) == fold(b, n)
}

pub fn kbytes(k: &VarKey) -> Vec<u8> {
    match k {
        VarKey::Key1(k) => vec![k.to_bytes()],
        VarKey::Key2(k) => k.to_bytes().to_vec(),
        VarKey::Key4(k) => k.to_bytes().to_vec(),
        VarKey::Key8(k) => k.to_bytes().to_vec(),
    }
}
pub fn klen(k: VarKeyKind) -> usize {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}
pub fn kkind(n: usize) -> VarKeyKind {
    match n {
        1 => VarKeyKind::Key1,
        2 => VarKeyKind::Key2,
        4 => VarKeyKind::Key4,
        8 => VarKeyKind::Key8,
        _ => unreachable!(),
    }
}
pub fn skind(n: usize) -> VarSeqKind {
    match n {
        1 => VarSeqKind::Seq1,
        2 => VarSeqKind::Seq2,
        4 => VarSeqKind::Seq4,
        _ => unreachable!(),
    }
}
pub fn key8(b: [u8; 8]) -> Key {
    unsafe { Key::from_bytes(b) }
}
/// a VarKey holding exactly these bytes
pub fn vkey(b: &[u8]) -> VarKey {
    match b.len() {
        1 => VarKey::Key1(Key1::from_key8(key8([b[0], 0, 0, 0, 0, 0, 0, 0]))),
        2 => VarKey::Key2(Key2::from_key8(key8([b[0], 0, 0, 0, b[1], 0, 0, 0]))),
        4 => VarKey::Key4(Key4::from_key8(key8([b[0], 0, b[1], 0, b[2], 0, b[3], 0]))),
        8 => VarKey::Key8(key8(b.try_into().unwrap())),
        _ => unreachable!(),
    }
}
pub fn vseq(v: u32, n: usize) -> VarSeq {
    match n {
        1 => VarSeq::Seq1(v as u8),
        2 => VarSeq::Seq2(v as u16),
        4 => VarSeq::Seq4(v),
        _ => unreachable!(),
    }
}
pub fn seq_parts(s: &VarSeq) -> (u32, usize) {
    match s {
        VarSeq::Seq1(v) => (*v as u32, 1),
        VarSeq::Seq2(v) => (*v as u32, 2),
        VarSeq::Seq4(v) => (*v, 4),
    }
}
pub fn rhdr(h: &VarHeader) -> RHdr {
    let (seq, slen) = seq_parts(&h.seq_no);
    RHdr { key: kbytes(&h.key), seq, slen }
}
pub fn vhdr(h: &RHdr) -> VarHeader {
    VarHeader { key: vkey(&h.key), seq_no: vseq(h.seq, h.slen) }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(80) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 80 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
/// build a frame from a full key folded to klen, a sequence number and a body
pub fn frame(key: Key, klen: usize, seq: u32, slen: usize, body: &[u8]) -> Vec<u8> {
    let mut v = enc(&RHdr { key: fold(&key.to_bytes(), klen), seq, slen });
    v.extend_from_slice(body);
    v
}
/// reference: smallest collision free key length
pub fn min_len(keys: &[[u8; 8]]) -> Option<usize> {
    KLENS.into_iter().find(|&n| {
        let mut seen = std::collections::HashSet::new();
        keys.iter().all(|k| seen.insert(fold(k, n)))
    })
}
