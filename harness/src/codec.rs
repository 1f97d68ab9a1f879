//! C01, C02: header codec and key folding.
use crate::refc::*;
use crate::report::*;
use postcard_rpc::header::{VarHeader, VarKey, VarSeq};
use postcard_rpc::{Key, Key1, Key2, Key4};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "a distinct case is a distinct (direction, discriminant, length, contents) tuple fed to the real encoder or decoder with a non-empty header; each is compared with an independent reference codec",
            scenarios: vec![
                Scenario { name: "encode", f: c01_encode, quick: 3000, weight: 3, serial: false },
                Scenario { name: "decode_exhaustive_short", f: c01_decode_exh, quick: 64, weight: 1, serial: false },
                Scenario { name: "decode_random", f: c01_decode_rand, quick: 3000, weight: 3, serial: false },
                Scenario { name: "frame_bytes", f: c01_frame, quick: 500, weight: 1, serial: false },
            ],
            assumptions: &["the reference codec was written from the module documentation of header.rs"],
            must_see: &["decoded_ok", "refused_version", "refused_seqcode", "refused_truncated", "slice_too_small", "slice_exact"],
        },
        Check {
            id: "C02",
            rule: "a distinct case is a distinct set of key bytes / sequence values; all pairs of widths are folded along every path and compared both ways",
            scenarios: vec![
                Scenario { name: "fold", f: c02_fold, quick: 4000, weight: 3, serial: false },
                Scenario { name: "compare", f: c02_compare, quick: 4000, weight: 3, serial: false },
                Scenario { name: "seq", f: c02_seq, quick: 2000, weight: 1, serial: false },
                Scenario { name: "const_vs_run", f: crate::icd::c02_const_vs_run, quick: 8, weight: 1, serial: false },
            ],
            assumptions: &["folding is specified by the module documentation of header.rs"],
            must_see: &["eq_true_cross", "eq_false_cross", "refused_short", "folds"],
        },
    ]
}

fn rand_hdr(c: &mut Case) -> RHdr {
    let kl = *c.rng.pick(&KLENS);
    let sl = *c.rng.pick(&SLENS);
    let key = match c.rng.below(4) {
        0 => vec![*c.rng.pick(&[0u8, 0xff, 0x80, 1]); kl],
        1 => (0..kl).map(|i| i as u8 + 1).collect(),
        _ => c.rng.bytes(kl),
    };
    let full = c.rng.u32();
    let seq = match c.rng.below(6) {
        0 => 0,
        1 => u32::MAX,
        2 => 0x0102_0304,
        3 => 1 << c.rng.below(32),
        _ => full,
    };
    let seq = if sl == 4 { seq } else { seq & ((1u32 << (8 * sl)) - 1) };
    RHdr { key, seq, slen: sl }
}

fn c01_encode(c: &mut Case) -> Result<(), String> {
    let h = rand_hdr(c);
    let want = enc(&h);
    let vh = vhdr(&h);
    // the header the library holds must carry our bytes (reads of the public accessors)
    if rhdr(&vh) != h {
        return Err(format!("key/seq accessors do not return what was put in: {:?} vs {:?}", rhdr(&vh), h));
    }
    let v = vh.write_to_vec();
    if v != want {
        return Err(format!("write_to_vec({h:?}) = {} expected {}", hex(&v), hex(&want)));
    }
    c.nontrivial = true;
    c.sig_bytes(&want);
    c.evals = 0;
    for len in 0..=want.len() + 4 {
        c.evals += 1;
        let fill = c.rng.bytes(len);
        let mut buf = fill.clone();
        match vh.write_to_slice(&mut buf) {
            None => {
                if len >= want.len() {
                    return Err(format!("write_to_slice refused a {len}-byte buffer for a {}-byte header {h:?}", want.len()));
                }
                c.count("slice_too_small", 1);
            }
            Some((used, rest)) => {
                if len < want.len() {
                    return Err(format!("write_to_slice claims success in {len} bytes for a {}-byte header", want.len()));
                }
                if used != &want[..] {
                    return Err(format!("write_to_slice({h:?}) = {} expected {}", hex(used), hex(&want)));
                }
                if rest != &fill[want.len()..] {
                    return Err("write_to_slice modified or misreported the bytes after the header".into());
                }
                if len == want.len() {
                    c.count("slice_exact", 1);
                }
                if buf[want.len()..] != fill[want.len()..] {
                    return Err("write_to_slice modified bytes after the header".into());
                }
            }
        }
    }
    // decode it again with a payload
    let pl = c.rng.below(40);
    let pay = c.rng.bytes(pl);
    let mut f = want.clone();
    f.extend_from_slice(&pay);
    match VarHeader::take_from_slice(&f) {
        None => return Err(format!("decoder refuses {} which the encoder produced", hex(&f))),
        Some((got, rest)) => {
            if rhdr(&got) != h {
                return Err(format!("decode({}) = {:?} expected {:?}", hex(&f), rhdr(&got), h));
            }
            if rest != &pay[..] {
                return Err(format!("payload changed: {} expected {}", hex(rest), hex(&pay)));
            }
            if !std::ptr::eq(rest.as_ptr(), f[want.len()..].as_ptr()) {
                return Err("payload is not the tail of the input".into());
            }
            c.count("decoded_ok", 1);
        }
    }
    c.note = Some(format!("{h:?} -> {}", hex(&want)));
    Ok(())
}

fn check_decode(c: &mut Case, b: &[u8]) -> Result<(), String> {
    let want = dec(b);
    let got = VarHeader::take_from_slice(b);
    match (&want, &got) {
        (None, None) => {
            if b.is_empty() {
                c.count("refused_empty", 1);
            } else if b[0] & 0xf != 0 {
                c.count("refused_version", 1);
            } else if (b[0] >> 4) & 3 == 3 {
                c.count("refused_seqcode", 1);
            } else {
                c.count("refused_truncated", 1);
            }
        }
        (Some((w, wr)), Some((g, gr))) => {
            if rhdr(g) != *w || wr != gr {
                return Err(format!("decode({}) = {:?} rest {} expected {:?} rest {}", hex(b), rhdr(g), hex(gr), w, hex(wr)));
            }
            let e = g.write_to_vec();
            if e != b[..b.len() - gr.len()] {
                return Err(format!("re-encoding of decoded header differs from consumed prefix: {} vs {}", hex(&e), hex(b)));
            }
            c.count("decoded_ok", 1);
        }
        (None, Some((g, _))) => return Err(format!("decoder accepts {} as {:?}; it must refuse it", hex(b), rhdr(g))),
        (Some((w, _)), None) => return Err(format!("decoder refuses {} which is {:?}", hex(b), w)),
    }
    Ok(())
}

fn c01_decode_exh(c: &mut Case) -> Result<(), String> {
    // every discriminant x every length 0..=16, several fillings
    c.evals = 0;
    c.nontrivial = true;
    check_decode(c, &[])?;
    for d in 0..=255u8 {
        for len in 1..=16usize {
            let mut b = c.rng.bytes(len);
            b[0] = d;
            check_decode(c, &b)?;
            c.evals += 1;
        }
    }
    let r = c.rng.u64();
    c.sig(r);
    Ok(())
}

fn c01_decode_rand(c: &mut Case) -> Result<(), String> {
    let n = c.rng.below(40);
    let mut b = c.rng.bytes(n);
    if !b.is_empty() && c.rng.chance(2, 3) {
        b[0] &= 0xf0;
    }
    c.nontrivial = n > 0;
    c.sig_bytes(&b);
    check_decode(c, &b)
}

fn c01_frame(c: &mut Case) -> Result<(), String> {
    let h = rand_hdr(c);
    let n = if c.rng.chance(1, 20) { c.rng.edge_len(140_000) } else { c.rng.below(100) };
    let body = c.rng.filler(n);
    let f = postcard_rpc::host_client::RpcFrame { header: vhdr(&h), body: body.clone() };
    let mut want = enc(&h);
    want.extend_from_slice(&body);
    c.sig_bytes(&want);
    c.nontrivial = true;
    if f.to_bytes() != want {
        return Err(format!("RpcFrame::to_bytes differs: {} expected {}", hex(&f.to_bytes()), hex(&want)));
    }
    check_decode(c, &want)
}

fn rand_key8(c: &mut Case) -> [u8; 8] {
    let mut b: [u8; 8] = c.rng.bytes(8).try_into().unwrap();
    match c.rng.below(5) {
        0 => {
            // only one byte set: shows which byte goes where
            let i = c.rng.below(8);
            let v = c.rng.u8() | 1;
            b = [0; 8];
            b[i] = v;
        }
        1 => b = [c.rng.u8(); 8],
        _ => {}
    }
    b
}

fn c02_fold(c: &mut Case) -> Result<(), String> {
    let b = rand_key8(c);
    c.sig_bytes(&b);
    c.nontrivial = true;
    let k = key8(b);
    let f4 = fold(&b, 4);
    let f2 = fold(&b, 2);
    let f1 = fold(&b, 1);
    let k4 = Key4::from_key8(k);
    let k2 = Key2::from_key8(k);
    let k1 = Key1::from_key8(k);
    let mut all: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![
        ("Key4::from_key8", k4.to_bytes().to_vec(), f4.clone()),
        ("Key2::from_key8", k2.to_bytes().to_vec(), f2.clone()),
        ("Key1::from_key8", vec![k1.to_bytes()], f1.clone()),
        ("Key2::from_key4", Key2::from_key4(k4).to_bytes().to_vec(), f2.clone()),
        ("Key1::from_key4", vec![Key1::from_key4(k4).to_bytes()], f1.clone()),
        ("Key1::from_key2", vec![Key1::from_key2(k2).to_bytes()], f1.clone()),
        ("Key1::from_key2(from_key4)", vec![Key1::from_key2(Key2::from_key4(k4)).to_bytes()], f1.clone()),
        ("From<Key> for Key4", Key4::from(k).to_bytes().to_vec(), f4.clone()),
        ("From<Key> for Key2", Key2::from(k).to_bytes().to_vec(), f2.clone()),
        ("From<Key> for Key1", vec![Key1::from(k).to_bytes()], f1.clone()),
        ("From<Key4> for Key2", Key2::from(k4).to_bytes().to_vec(), f2.clone()),
        ("From<Key4> for Key1", vec![Key1::from(k4).to_bytes()], f1.clone()),
        ("From<Key2> for Key1", vec![Key1::from(k2).to_bytes()], f1.clone()),
    ];
    // shrink_to from every width to every width, one step or several
    for from in KLENS {
        let src = fold(&b, from);
        for to in KLENS {
            let mut v = vkey(&src);
            v.shrink_to(kkind(to));
            let n = to.min(from);
            all.push(("shrink_to", kbytes(&v), fold(&b, n)));
            if klen(v.kind()) != n {
                return Err(format!("shrink_to({to}) of a {from}-byte key has kind {:?}", v.kind()));
            }
            for to2 in KLENS {
                let mut w = v;
                w.shrink_to(kkind(to2));
                all.push(("shrink_to twice", kbytes(&w), fold(&b, n.min(to2))));
            }
            // conversions that must refuse instead of padding
            let vk = vkey(&src);
            let (r, r2): (Option<Vec<u8>>, Option<Vec<u8>>) = match to {
                1 => (Key1::try_from_varkey(&vk).map(|k| vec![k.to_bytes()]), Key1::try_from(&vk).ok().map(|k| vec![k.to_bytes()])),
                2 => (Key2::try_from_varkey(&vk).map(|k| k.to_bytes().to_vec()), Key2::try_from(&vk).ok().map(|k| k.to_bytes().to_vec())),
                4 => (Key4::try_from_varkey(&vk).map(|k| k.to_bytes().to_vec()), Key4::try_from(&vk).ok().map(|k| k.to_bytes().to_vec())),
                _ => {
                    let k = Key::try_from(&vk).ok().map(|k| k.to_bytes().to_vec());
                    (k.clone(), k)
                }
            };
            let want = if to <= from { Some(fold(&b, to)) } else { None };
            if want.is_none() {
                c.count("refused_short", 1);
            }
            if r != want || r2 != want {
                return Err(format!("converting a {from}-byte key {} to {to} bytes gives {r:?}/{r2:?}, expected {want:?}", hex(&src)));
            }
        }
    }
    for (name, got, want) in &all {
        if got != want {
            return Err(format!("{name}: folding {} gives {} expected {}", hex(&b), hex(got), hex(want)));
        }
    }
    c.count("folds", all.len() as u64);
    c.evals = all.len() as u64;
    Ok(())
}

fn c02_compare(c: &mut Case) -> Result<(), String> {
    let a8 = rand_key8(c);
    let mut b8 = a8;
    match c.rng.below(7) {
        0 => b8 = rand_key8(c),
        1 => {
            // differ but agree when folded: flip the same bits in two bytes
            let (i, j) = (c.rng.below(8), c.rng.below(8));
            let v = c.rng.u8();
            b8[i] ^= v;
            b8[j] ^= v;
        }
        2 => {
            let i = c.rng.below(8);
            b8[i] ^= 1 << c.rng.below(8);
        }
        3 => b8.reverse(),
        4 => b8.rotate_left(4),
        5 => {
            let i = c.rng.below(4) * 2;
            b8.swap(i, i + 1);
        }
        _ => {}
    }
    c.sig_bytes(&a8);
    c.sig_bytes(&b8);
    c.nontrivial = true;
    c.evals = 0;
    for ka in KLENS {
        for kb in KLENS {
            let a = fold(&a8, ka);
            let mut b = fold(&b8, kb);
            if c.rng.chance(1, 4) {
                let i = c.rng.below(kb);
                b[i] ^= c.rng.u8();
            }
            let want = keys_match(&a, &b);
            let (va, vb) = (vkey(&a), vkey(&b));
            let (s, t) = (c.rng.u32(), c.rng.u32());
            let (sla, slb) = (*c.rng.pick(&SLENS), *c.rng.pick(&SLENS));
            let t = if c.rng.chance(1, 2) { s } else { t };
            let (sa, sb) = (vseq(s, sla), vseq(t, slb));
            c.evals += 1;
            if ka != kb {
                c.count(if want { "eq_true_cross" } else { "eq_false_cross" }, 1);
            }
            if (va == vb) != want || (vb == va) != want || (va != vb) == want {
                return Err(format!("keys {} and {} compare {} / {}, expected {want}", hex(&a), hex(&b), va == vb, vb == va));
            }
            let wseq = seq_parts(&sa).0 == seq_parts(&sb).0;
            if (sa == sb) != wseq || (sb == sa) != wseq {
                return Err(format!("sequence numbers {sa:?} and {sb:?} compare {}", sa == sb));
            }
            let (ha, hb) = (VarHeader { key: va, seq_no: sa }, VarHeader { key: vb, seq_no: sb });
            if (ha == hb) != (want && wseq) || (hb == ha) != (want && wseq) {
                return Err(format!("headers {ha:?} and {hb:?} compare {}", ha == hb));
            }
        }
    }
    Ok(())
}

fn c02_seq(c: &mut Case) -> Result<(), String> {
    let v = match c.rng.below(3) {
        0 => c.rng.u32(),
        1 => 1 << c.rng.below(32),
        _ => c.rng.u32() >> c.rng.below(32),
    };
    c.sig(v as u64);
    c.nontrivial = true;
    c.evals = 0;
    for from in SLENS {
        let s = vseq(v, from);
        let (sv, _) = seq_parts(&s);
        for to in SLENS {
            c.evals += 1;
            let mut r = s;
            r.resize(skind(to));
            let m = if to == 4 { sv } else { sv & ((1u32 << (8 * to)) - 1) };
            if seq_parts(&r) != (m, to) {
                return Err(format!("resize({s:?} -> {to}) = {r:?}, expected value {m}"));
            }
        }
        let a: u8 = s.into();
        let b: u16 = s.into();
        let d: u32 = s.into();
        if a != sv as u8 || b != sv as u16 || d != sv {
            return Err(format!("integer conversion of {s:?} gives {a} {b} {d}"));
        }
    }
    if seq_parts(&VarSeq::from(v as u8)) != (v as u8 as u32, 1)
        || seq_parts(&VarSeq::from(v as u16)) != (v as u16 as u32, 2)
        || seq_parts(&VarSeq::from(v)) != (v, 4)
    {
        return Err("From<int> for VarSeq".into());
    }
    let _: Option<VarKey> = None;
    Ok(())
}
