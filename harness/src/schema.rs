//! Discovery: reference of what a device must send.
use crate::refc::*;
use postcard_rpc::standard_icd::*;
use postcard_rpc::{DeviceMap, Topic, TopicDirection};
use postcard_schema::schema::owned::OwnedNamedType;

/// frames a discovery request must produce, plus the body of the totals as a function of the errors
pub fn expected_discovery(map: &'static DeviceMap, kk: usize) -> (Vec<Vec<u8>>, impl Fn(u32) -> Vec<u8>) {
    let mut v: Vec<OwnedSchemaData> = vec![];
    for t in map.types {
        v.push(OwnedSchemaData::Type(OwnedNamedType::from(*t)));
    }
    for e in map.endpoints {
        v.push(OwnedSchemaData::Endpoint { path: e.0.into(), request_key: e.1, response_key: e.2 });
    }
    for t in map.topics_out {
        v.push(OwnedSchemaData::Topic { path: t.0.into(), key: t.1, direction: TopicDirection::ToClient });
    }
    for t in map.topics_in {
        v.push(OwnedSchemaData::Topic { path: t.0.into(), key: t.1, direction: TopicDirection::ToServer });
    }
    let frames = v
        .iter()
        .enumerate()
        .map(|(i, d)| {
            let mut f = enc(&RHdr { key: fold(&GetAllSchemaDataTopic::TOPIC_KEY.to_bytes(), kk), seq: i as u32, slen: 2 });
            f.extend(postcard::to_stdvec(d).unwrap());
            f
        })
        .collect();
    (frames, move |errors| {
        postcard::to_stdvec(&SchemaTotals {
            types_sent: map.types.len() as u32,
            endpoints_sent: map.endpoints.len() as u32,
            topics_in_sent: map.topics_in.len() as u32,
            topics_out_sent: map.topics_out.len() as u32,
            errors,
        })
        .unwrap()
    })
}

// ------------------------------------------------------------------ random schemas

use crate::csim::{clink, push, CLink, CRx, CSpawn, CTx, RxIt};
use crate::exec::*;
use crate::icd::{self, Ctx};
use crate::icd_zoo as zoo;
use crate::report::*;
use crate::rng::Rng;
use crate::ssim::*;
use postcard_rpc::host_client::{HostClient, HostClientConfig, SchemaError, SchemaReport};
use postcard_rpc::server::{Dispatch, Server};
use postcard_rpc::uniques::*;
use postcard_rpc::{Endpoint, Key};
use postcard_schema::schema::owned::OwnedDataModelType;
use postcard_schema::schema::{DataModelType as D, DataModelVariant as V, NamedType, NamedValue, NamedVariant};
use postcard_schema::Schema;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

type Nt = &'static NamedType;

/// memory of one case's schemas, released when the case ends
#[derive(Default)]
pub struct Arena {
    keep: Vec<(*mut (), unsafe fn(*mut ()))>,
}
unsafe fn free<T>(p: *mut ()) {
    drop(unsafe { Box::from_raw(p as *mut T) });
}
impl Arena {
    fn put<T: 'static>(&mut self, t: T) -> &'static T {
        let p = Box::into_raw(Box::new(t));
        self.keep.push((p as *mut (), free::<T>));
        unsafe { &*p }
    }
    fn nt(&mut self, name: &'static str, d: D) -> Nt {
        let ty = self.put(d);
        self.put(NamedType { name, ty })
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        for (p, f) in self.keep.drain(..) {
            unsafe { f(p) }
        }
    }
}

const NAMES: &[&str] = &["A", "B", "C", "AB", "AC", "BA", "", "Option", "Sensor", "sensor", "Sensos", "é", "è", "u8"];
const PRIMS: &[D] = &[
    D::Bool, D::I8, D::U8, D::I16, D::I32, D::I64, D::I128, D::U16, D::U32, D::U64, D::U128, D::Usize, D::Isize, D::F32, D::F64,
    D::Char, D::String, D::ByteArray, D::Unit, D::Schema,
];

fn prim(d: &D) -> bool {
    PRIMS.contains(d)
}
fn name(r: &mut Rng) -> &'static str {
    if r.chance(1, 3) {
        NAMES[r.below(3)]
    } else {
        *r.pick(NAMES)
    }
}
fn kids(r: &mut Rng, a: &mut Arena, pool: &mut Vec<Nt>, depth: usize) -> Vec<Nt> {
    if r.chance(1, 8) {
        // many members, most of them simple
        let n = r.range(5, 20);
        return (0..n).map(|_| gen(r, a, pool, 0)).collect();
    }
    (0..r.below(4)).map(|_| gen(r, a, pool, depth)).collect()
}
/// `x` with one member, often a late one, replaced
fn one_off(r: &mut Rng, a: &mut Arena, pool: &mut Vec<Nt>, x: &[Nt]) -> &'static [Nt] {
    let mut x = x.to_vec();
    let i = if r.chance(1, 2) { x.len() - 1 } else { r.below(x.len()) };
    x[i] = gen(r, a, pool, 0);
    a.put(x)
}
fn vals(r: &mut Rng, a: &mut Arena, nts: Vec<Nt>) -> &'static [&'static NamedValue] {
    let v: Vec<&'static NamedValue> = nts
        .into_iter()
        .map(|ty| {
            let name = name(r);
            &*a.put(NamedValue { name, ty })
        })
        .collect();
    a.put(v)
}
fn variant(r: &mut Rng, a: &mut Arena, pool: &mut Vec<Nt>, depth: usize) -> &'static NamedVariant {
    let v = match r.below(5) {
        0 => V::UnitVariant,
        1 | 2 => V::NewtypeVariant(gen(r, a, pool, depth)),
        3 => {
            let k = kids(r, a, pool, depth);
            V::TupleVariant(a.put(k))
        }
        _ => {
            let k = kids(r, a, pool, depth);
            V::StructVariant(vals(r, a, k))
        }
    };
    let ty = a.put(v);
    let name = name(r);
    a.put(NamedVariant { name, ty })
}
/// something that differs from `t` in one place near its root
fn tweak(r: &mut Rng, a: &mut Arena, pool: &mut Vec<Nt>, t: Nt) -> Nt {
    if r.chance(1, 3) {
        let n = name(r);
        return a.put(NamedType { name: n, ty: t.ty });
    }
    let d = match t.ty {
        D::Option(x) => *r.pick(&[D::Seq(x), D::NewtypeStruct(x)]),
        D::Seq(x) => *r.pick(&[D::Option(x), D::NewtypeStruct(x)]),
        D::NewtypeStruct(x) => D::TupleStruct(a.put(vec![*x])),
        D::Tuple(x) if !x.is_empty() && r.chance(2, 3) => D::Tuple(one_off(r, a, pool, x)),
        D::TupleStruct(x) if !x.is_empty() && r.chance(2, 3) => D::TupleStruct(one_off(r, a, pool, x)),
        D::Tuple(x) => D::TupleStruct(x),
        D::TupleStruct(x) => D::Tuple(x),
        D::Map { key, val } => D::Map { key: val, val: key },
        D::Struct(f) if !f.is_empty() => {
            let mut f = f.to_vec();
            match r.below(4) {
                0 => f.reverse(),
                1 => {
                    f.pop();
                }
                2 => {
                    let i = r.below(f.len());
                    let n = name(r);
                    f[i] = a.put(NamedValue { name: n, ty: f[i].ty });
                }
                _ => {
                    let i = r.below(f.len());
                    let ty = gen(r, a, pool, 0);
                    f[i] = a.put(NamedValue { name: f[i].name, ty });
                }
            }
            D::Struct(a.put(f))
        }
        D::Enum(v) if !v.is_empty() => {
            let mut v = v.to_vec();
            let i = r.below(v.len());
            match r.below(3) {
                0 => v.reverse(),
                1 => {
                    let n = name(r);
                    v[i] = a.put(NamedVariant { name: n, ty: v[i].ty });
                }
                _ => {
                    let ty = match v[i].ty {
                        V::UnitVariant => V::TupleVariant(&[]),
                        V::NewtypeVariant(x) => V::TupleVariant(a.put(vec![*x])),
                        V::TupleVariant(x) if !x.is_empty() && r.chance(1, 2) => V::TupleVariant(one_off(r, a, pool, x)),
                        V::TupleVariant(x) if x.len() == 1 => V::NewtypeVariant(x[0]),
                        V::StructVariant(x) if !x.is_empty() && r.chance(1, 2) => {
                            let mut x = x.to_vec();
                            let i = if r.chance(1, 2) { x.len() - 1 } else { r.below(x.len()) };
                            let ty = gen(r, a, pool, 0);
                            x[i] = a.put(NamedValue { name: x[i].name, ty });
                            V::StructVariant(a.put(x))
                        }
                        V::TupleVariant(x) => {
                            let x = x.to_vec();
                            V::StructVariant(vals(r, a, x))
                        }
                        V::StructVariant(x) => {
                            let x: Vec<Nt> = x.iter().map(|v| v.ty).collect();
                            V::TupleVariant(a.put(x))
                        }
                    };
                    let ty = a.put(ty);
                    v[i] = a.put(NamedVariant { name: v[i].name, ty });
                }
            }
            D::Enum(a.put(v))
        }
        D::UnitStruct => D::Unit,
        _ => *r.pick(PRIMS),
    };
    a.nt(t.name, d)
}
fn gen(r: &mut Rng, a: &mut Arena, pool: &mut Vec<Nt>, depth: usize) -> Nt {
    if !pool.is_empty() && r.chance(1, 4) {
        let t = *r.pick(pool);
        return if r.chance(1, 2) {
            t
        } else {
            let t = tweak(r, a, pool, t);
            pool.push(t);
            t
        };
    }
    let n = name(r);
    if depth == 0 || r.chance(1, 4) {
        let d = if r.chance(1, 5) { D::UnitStruct } else { *r.pick(PRIMS) };
        return a.nt(n, d);
    }
    let d = match r.below(9) {
        0 => D::Option(gen(r, a, pool, depth - 1)),
        1 => D::NewtypeStruct(gen(r, a, pool, depth - 1)),
        2 => D::Seq(gen(r, a, pool, depth - 1)),
        3 => {
            let k = kids(r, a, pool, depth - 1);
            D::Tuple(a.put(k))
        }
        4 => {
            let k = kids(r, a, pool, depth - 1);
            D::TupleStruct(a.put(k))
        }
        5 => D::Map { key: gen(r, a, pool, depth - 1), val: gen(r, a, pool, depth - 1) },
        6 => {
            let k = kids(r, a, pool, depth - 1);
            D::Struct(vals(r, a, k))
        }
        _ => {
            let v: Vec<&'static NamedVariant> = if r.chance(1, 8) {
                (0..r.range(5, 20)).map(|_| variant(r, a, pool, 0)).collect()
            } else {
                (0..r.below(4)).map(|_| variant(r, a, pool, depth - 1)).collect()
            };
            D::Enum(a.put(v))
        }
    };
    let t = a.nt(n, d);
    pool.push(t);
    t
}
fn children(t: Nt, f: &mut dyn FnMut(Nt)) {
    match t.ty {
        D::Option(x) | D::NewtypeStruct(x) | D::Seq(x) => f(x),
        D::Tuple(x) | D::TupleStruct(x) => x.iter().for_each(|x| f(x)),
        D::Map { key, val } => {
            f(key);
            f(val);
        }
        D::Struct(x) => x.iter().for_each(|x| f(x.ty)),
        D::Enum(x) => {
            for v in x.iter() {
                match v.ty {
                    V::UnitVariant => {}
                    V::NewtypeVariant(x) => f(x),
                    V::TupleVariant(x) => x.iter().for_each(|x| f(x)),
                    V::StructVariant(x) => x.iter().for_each(|x| f(x.ty)),
                }
            }
        }
        _ => {}
    }
}
fn nodes(t: Nt) -> usize {
    let mut n = 1;
    children(t, &mut |c| n += nodes(c));
    n
}
/// everything non-primitive reachable from t, t included
pub fn closure(t: Nt, out: &mut HashSet<NamedType>) {
    if !prim(t.ty) {
        out.insert(*t);
    }
    children(t, &mut |c| closure(c, out));
}
fn show(t: Nt) -> String {
    format!("{:?}", t)
}
fn same_set(what: &str, got: &[Nt], want: &HashSet<NamedType>) -> Result<(), String> {
    let mut seen = HashSet::new();
    for t in got {
        if prim(t.ty) {
            return Err(format!("{what}: lists the primitive {}", show(t)));
        }
        if !seen.insert(**t) {
            return Err(format!("{what}: lists {} twice", show(t)));
        }
        if !want.contains(*t) {
            return Err(format!("{what}: lists {} which is not used", show(t)));
        }
    }
    for t in want {
        if !seen.contains(t) {
            return Err(format!("{what}: misses {t:?}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15

macro_rules! table {
    ($n:expr, $f:ident, $args:tt, $def:expr, $($k:literal)*) => {
        match $n {
            $( $k => Some({ let (a, u) = $f::<$k> $args; (a.to_vec(), u) }), )*
            _ => $def,
        }
    };
}
macro_rules! table1 {
    ($n:expr, $f:ident, $args:tt, $def:expr, $($k:literal)*) => {
        match $n {
            $( $k => Some($f::<$k> $args.to_vec()), )*
            _ => $def,
        }
    };
}
macro_rules! combine_table {
    ($n:expr, $args:tt, $($k:literal)*) => {
        match $n {
            $( $k => Some(combine_with_copy::<u32, $k> $args.to_vec()), )*
            _ => None,
        }
    };
}

fn chew(max: usize, t: Nt) -> Option<(Vec<Option<Nt>>, usize)> {
    table!(max, type_chewer_nty, (t), match max {
        0..=63 => Some({ let (a, u) = type_chewer_nty::<63>(t); (a.to_vec(), u) }),
        64..=160 => Some({ let (a, u) = type_chewer_nty::<160>(t); (a.to_vec(), u) }),
        _ => None,
    }, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24)
}
fn merge(max: usize, l: &[&[Nt]]) -> Option<(Vec<Option<Nt>>, usize)> {
    table!(max, merge_nty_lists, (l), None, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}
fn crunch(n: usize, l: &[Option<Nt>]) -> Option<Vec<Nt>> {
    table1!(n, cruncher, (l), None, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}

fn c15_derive(c: &mut Case) -> Result<(), String> {
    let mut a = Arena::default();
    let mut pool = vec![];
    let r = &mut c.rng;
    let depth = r.range(1, 5);
    let mut t = gen(r, &mut a, &mut pool, depth);
    let mut tries = 0;
    while nodes(t) > 150 && tries < 10 {
        pool.clear();
        t = gen(r, &mut a, &mut pool, 2);
        tries += 1;
    }
    if nodes(t) > 150 {
        return Ok(());
    }
    c.log(|| show(t));
    let mut want = HashSet::new();
    closure(t, &mut want);
    let up = unique_types_nty_upper(t);
    if up < want.len() {
        return Err(format!("upper bound {up} for a type that uses {} types: {}", want.len(), show(t)));
    }
    let Some((arr, used)) = chew(up, t) else { return Ok(()) };
    if used > arr.len() || arr[..used].iter().any(|x| x.is_none()) || arr[used..].iter().any(|x| x.is_some()) {
        return Err(format!("type list of {} is not filled as reported ({used})", show(t)));
    }
    let got: Vec<Nt> = arr[..used].iter().map(|x| x.unwrap()).collect();
    same_set("derived list", &got, &want).map_err(|e| format!("{e}\n  of {}", show(t)))?;
    if let Some(v) = crunch(used, &arr) {
        if v != got {
            return Err("reducing the list changed it".into());
        }
    }
    let mut h = 0u64;
    for t in &want {
        let mut e = 0;
        for b in format!("{t:?}").bytes() {
            e = crate::rng::mix(e ^ b as u64);
        }
        h ^= e;
        match t.ty {
            D::Enum(v) => v.iter().for_each(|v| match v.ty {
                V::NewtypeVariant(_) => c.count("newtype_variants", 1),
                V::TupleVariant(_) => c.count("tuple_variants", 1),
                V::StructVariant(_) => c.count("struct_variants", 1),
                _ => {}
            }),
            D::Map { .. } => c.count("maps", 1),
            D::Struct(_) => c.count("structs", 1),
            _ => {}
        }
    }
    c.sig(h);
    c.count("types_listed", used as u64);
    c.count("duplicates_removed", (up - used) as u64);
    c.nontrivial = used > 1;
    c.note = Some(format!("{} nodes, bound {up}, {used} unique types", nodes(t)));
    Ok(())
}

fn c15_merge(c: &mut Case) -> Result<(), String> {
    let mut a = Arena::default();
    let mut pool = vec![];
    let r = &mut c.rng;
    let mut lists: Vec<Vec<Nt>> = vec![];
    let mut total = 0;
    for _ in 0..r.below(6) {
        let n = r.below(8);
        let l: Vec<Nt> = (0..n)
            .map(|_| {
                if !pool.is_empty() && r.chance(1, 2) {
                    *r.pick(&pool)
                } else {
                    gen(r, &mut a, &mut pool, 2)
                }
            })
            .collect();
        if total + l.len() > 32 {
            break;
        }
        total += l.len();
        lists.push(l);
    }
    let refs: Vec<&[Nt]> = lists.iter().map(|l| &l[..]).collect();
    if total_len(&refs) != total {
        return Err(format!("total_len says {} for {total} entries", total_len(&refs)));
    }
    let want: HashSet<NamedType> = lists.iter().flatten().filter(|t| !prim(t.ty)).map(|t| **t).collect();
    let (arr, used) = merge(total, &refs).unwrap();
    if used > arr.len() || arr[..used].iter().any(|x| x.is_none()) || arr[used..].iter().any(|x| x.is_some()) {
        return Err(format!("merged list is not filled as reported ({used})"));
    }
    let got: Vec<Nt> = arr[..used].iter().map(|x| x.unwrap()).collect();
    same_set("merged list", &got, &want)?;
    match crunch(used, &arr) {
        Some(v) if v == got => {}
        v => return Err(format!("reducing the merged list gave {v:?}")),
    }
    // concatenation keeps everything in order
    let nums: Vec<Vec<u32>> = lists.iter().map(|l| l.iter().map(|_| r.u32()).collect()).collect();
    let nrefs: Vec<&[u32]> = nums.iter().map(|l| &l[..]).collect();
    let flat: Vec<u32> = nums.iter().flatten().copied().collect();
    let got = combine_table!(total, (&nrefs, 0xdead_beef), 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    if got.as_ref() != Some(&flat) {
        return Err(format!("concatenating {nums:?} gave {got:?}"));
    }
    c.nontrivial = used > 0 && lists.len() > 1;
    c.sig(flat.iter().fold(0, |a, b| a ^ *b as u64));
    c.count("merged_types", used as u64);
    c.count("merge_duplicates", (total - used) as u64);
    c.note = Some(format!("{} lists, {total} entries, {used} kept", lists.len()));
    Ok(())
}

fn check_eps(what: &str, got: &[(&'static str, Key, Key)], want: &[(&'static str, Nt, Nt)]) -> Result<(), String> {
    let mut g: Vec<_> = got.iter().map(|e| (e.0, e.1.to_bytes(), e.2.to_bytes())).collect();
    let mut w: Vec<_> = want.iter().map(|e| (e.0, zoo::run_key(e.0, e.1).to_bytes(), zoo::run_key(e.0, e.2).to_bytes())).collect();
    g.sort();
    w.sort();
    if g != w {
        return Err(format!("{what} lists {g:?}, declared {w:?}"));
    }
    Ok(())
}
fn check_tps(what: &str, got: &[(&'static str, Key)], want: &[(&'static str, Nt)]) -> Result<(), String> {
    let mut g: Vec<_> = got.iter().map(|e| (e.0, e.1.to_bytes())).collect();
    let mut w: Vec<_> = want.iter().map(|e| (e.0, zoo::run_key(e.0, e.1).to_bytes())).collect();
    g.sort();
    w.sort();
    if g != w {
        return Err(format!("{what} lists {g:?}, declared {w:?}"));
    }
    Ok(())
}
fn close_all<'a>(it: impl Iterator<Item = &'a Nt>) -> HashSet<NamedType> {
    let mut s = HashSet::new();
    for t in it {
        closure(t, &mut s);
    }
    s
}

/// the lists the macros computed while this program was compiled
fn c15_macros(c: &mut Case) -> Result<(), String> {
    for (n, got, roots) in zoo::derived() {
        same_set(&format!("unique_types of {n}"), got, &close_all(roots.iter()))?;
        c.count("macro_lists", 1);
    }
    let ety = |v: &[(&'static str, Nt, Nt)]| -> Vec<Nt> { v.iter().flat_map(|e| [e.1, e.2]).collect() };
    let tty = |v: &[(&'static str, Nt)]| -> Vec<Nt> { v.iter().map(|e| e.1).collect() };
    let cat = |mut a: Vec<(&'static str, Nt, Nt)>, b| {
        a.extend(b);
        a
    };
    let cat2 = |mut a: Vec<(&'static str, Nt)>, b| {
        a.extend(b);
        a
    };
    use postcard_rpc::standard_icd::*;
    for (n, l, want) in [
        ("standard endpoints", STANDARD_ICD_ENDPOINTS, zoo::std_eps()),
        ("endpoints!", zoo::Z_EPS, cat(zoo::z_eps(), zoo::std_eps())),
        ("endpoints! omit_std, Cfg", zoo::O_EPS, zoo::o_eps()),
        ("endpoints! empty", zoo::E_EPS, zoo::std_eps()),
    ] {
        check_eps(n, l.endpoints, &want)?;
        same_set(&format!("types of {n}"), l.types, &close_all(ety(&want).iter()))?;
        c.count("macro_lists", 1);
    }
    for (n, l, want) in [
        ("standard topics in", STANDARD_ICD_TOPICS_IN, vec![]),
        ("standard topics out", STANDARD_ICD_TOPICS_OUT, zoo::std_tout()),
        ("topics! in", zoo::Z_TIN, zoo::z_tin()),
        ("topics! out", zoo::Z_TOUT, cat2(zoo::z_tout(), zoo::std_tout())),
        ("topics! in omit_std, Cfg", zoo::O_TIN, zoo::o_tin()),
        ("topics! out omit_std empty", zoo::O_TOUT, vec![]),
        ("topics! in empty", zoo::E_TIN, vec![]),
    ] {
        check_tps(n, l.topics, &want)?;
        same_set(&format!("types of {n}"), l.types, &close_all(tty(&want).iter()))?;
        c.count("macro_lists", 1);
    }
    if zoo::Z_TIN.direction != TopicDirection::ToServer || zoo::Z_TOUT.direction != TopicDirection::ToClient {
        return Err("topic list has the wrong direction".into());
    }
    let link = slink(c.rng.fork());
    let sched = Sched::new(c.rng.fork());
    let d = zoo::zapp::App8::new(Ctx { link: link.clone() }, SSpawn { sp: sched.spawner(), link });
    let m = d.device_map;
    let (e, i, o) = (cat(zoo::z_eps(), zoo::std_eps()), zoo::z_tin(), cat2(zoo::z_tout(), zoo::std_tout()));
    check_eps("device map", m.endpoints, &e)?;
    check_tps("device map", m.topics_in, &i)?;
    check_tps("device map", m.topics_out, &o)?;
    same_set("types of the device map", m.types, &close_all(ety(&e).iter().chain(tty(&i).iter()).chain(tty(&o).iter())))?;
    c.count("device_maps", 1);
    let r = c.rng.below(2);
    c.sig(r as u64);
    c.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C14

type Cl = HostClient<WireError>;

/// an interface as data
#[derive(Clone, Default)]
struct Iface {
    types: Vec<OwnedNamedType>,
    eps: Vec<(String, Key, Key)>,
    tin: Vec<(String, Key)>,
    tout: Vec<(String, Key)>,
}
impl Iface {
    fn msgs(&self) -> Vec<OwnedSchemaData> {
        let mut v: Vec<OwnedSchemaData> = self.types.iter().cloned().map(OwnedSchemaData::Type).collect();
        for e in &self.eps {
            v.push(OwnedSchemaData::Endpoint { path: e.0.clone(), request_key: e.1, response_key: e.2 });
        }
        for t in &self.tout {
            v.push(OwnedSchemaData::Topic { path: t.0.clone(), key: t.1, direction: TopicDirection::ToClient });
        }
        for t in &self.tin {
            v.push(OwnedSchemaData::Topic { path: t.0.clone(), key: t.1, direction: TopicDirection::ToServer });
        }
        v
    }
    fn from_map(m: &DeviceMap) -> Iface {
        Iface {
            types: m.types.iter().map(|t| OwnedNamedType::from(*t)).collect(),
            eps: m.endpoints.iter().map(|e| (e.0.to_string(), e.1, e.2)).collect(),
            tin: m.topics_in.iter().map(|e| (e.0.to_string(), e.1)).collect(),
            tout: m.topics_out.iter().map(|e| (e.0.to_string(), e.1)).collect(),
        }
    }
    /// is this report exactly this interface?
    fn matches(&self, r: &SchemaReport) -> Result<(), String> {
        let sk = |v: &mut Vec<(String, [u8; 8])>| v.sort();
        let mut ge: Vec<_> = r.endpoints.iter().map(|e| (e.path.clone(), e.req_key.to_bytes(), e.resp_key.to_bytes())).collect();
        let mut we: Vec<_> = self.eps.iter().map(|e| (e.0.clone(), e.1.to_bytes(), e.2.to_bytes())).collect();
        ge.sort();
        we.sort();
        if ge != we {
            return Err(format!("report lists endpoints {ge:?}, the device has {we:?}"));
        }
        for (n, g, w) in [("incoming", &r.topics_in, &self.tin), ("outgoing", &r.topics_out, &self.tout)] {
            let mut g2: Vec<_> = g.iter().map(|t| (t.path.clone(), t.key.to_bytes())).collect();
            let mut w2: Vec<_> = w.iter().map(|t| (t.0.clone(), t.1.to_bytes())).collect();
            sk(&mut g2);
            sk(&mut w2);
            if g2 != w2 {
                return Err(format!("report lists {n} topics {g2:?}, the device has {w2:?}"));
            }
            for t in g {
                if Key::for_owned_schema_path(&t.path, &t.ty) != t.key {
                    return Err(format!("topic {} resolved to {:?} which does not have its key", t.path, t.ty));
                }
            }
        }
        for e in &r.endpoints {
            if Key::for_owned_schema_path(&e.path, &e.req_ty) != e.req_key || Key::for_owned_schema_path(&e.path, &e.resp_ty) != e.resp_key {
                return Err(format!("endpoint {} resolved to types that do not have its keys", e.path));
            }
        }
        for t in &self.types {
            if !r.types.contains(t) {
                return Err(format!("report misses the type {t:?}"));
            }
        }
        let dev: HashSet<&OwnedNamedType> = self.types.iter().collect();
        let bytes = OwnedNamedType::from(<Vec<u8> as Schema>::SCHEMA);
        for t in &r.types {
            let is_prim = PRIMS.iter().any(|p| OwnedDataModelType::from(p) == t.ty);
            if !dev.contains(t) && !is_prim && *t != bytes {
                return Err(format!("report contains {t:?} which the device does not use"));
            }
        }
        Ok(())
    }
}
fn std_iface() -> (Vec<(String, Nt, Nt)>, Vec<(String, Nt)>) {
    (
        zoo::std_eps().into_iter().map(|e| (e.0.to_string(), e.1, e.2)).collect(),
        zoo::std_tout().into_iter().map(|e| (e.0.to_string(), e.1)).collect(),
    )
}
/// short and long paths, shared between lists, with characters of every width
fn rand_path(r: &mut Rng, pre: &str, i: usize) -> String {
    match r.below(12) {
        0 => format!("{pre}{i}/{}", "x".repeat(r.edge_len(2000))),
        1 => {
            let n = r.range(1, 90);
            let mut s = format!("{pre}{i}:");
            for _ in 0..n {
                s.push(*r.pick(&['é', '\u{1F600}', '/', ' ', 'Z', '\u{0}', '_']));
            }
            s
        }
        // the same in every list
        2 => format!("shared/{i}"),
        3 => format!("{i}"),
        _ => format!("r/{pre}{i}"),
    }
}
fn rand_iface(r: &mut Rng, a: &mut Arena, big: bool) -> Iface {
    let mut pool = vec![];
    let (mut eps, mut tout) = if r.chance(1, 2) { std_iface() } else { (vec![], vec![]) };
    let mut tin = vec![];
    let m = if big { 40 } else { 4 };
    let pick = |r: &mut Rng, a: &mut Arena, pool: &mut Vec<Nt>| -> Nt {
        loop {
            let t = if r.chance(1, 3) {
                let p = *r.pick(PRIMS);
                let n = name(r);
                a.nt(n, p)
            } else {
                gen(r, a, pool, 2)
            };
            if nodes(t) < 24 {
                return t;
            }
        }
    };
    for i in 0..r.below(m) {
        let (q, s) = (pick(r, a, &mut pool), pick(r, a, &mut pool));
        let p = rand_path(r, "ep", i);
        eps.push((p, q, s));
    }
    for i in 0..r.below(m) {
        let p = rand_path(r, "in", i);
        tin.push((p, pick(r, a, &mut pool)));
    }
    for i in 0..r.below(m) {
        let p = rand_path(r, "out", i);
        tout.push((p, pick(r, a, &mut pool)));
    }
    // the same path several times in one list, with different types (so different keys)
    if r.chance(1, 3) {
        let fresh = |r: &mut Rng, v: &[String]| -> Option<String> { (!v.is_empty()).then(|| r.pick(v).clone()) };
        for _ in 0..r.range(1, 4) {
            let ps: Vec<String> = eps.iter().map(|e| e.0.clone()).collect();
            let (q, s) = (pick(r, a, &mut pool), pick(r, a, &mut pool));
            if let Some(p) = fresh(r, &ps).filter(|p| eps.iter().all(|e| e.0 != *p || (zoo::run_key(p, e.1) != zoo::run_key(p, q) && zoo::run_key(p, e.2) != zoo::run_key(p, s)))) {
                let at = r.below(eps.len() + 1);
                eps.insert(at, (p, q, s));
            }
            for l in [&mut tin, &mut tout] {
                let ps: Vec<String> = l.iter().map(|e: &(String, Nt)| e.0.clone()).collect();
                let t = pick(r, a, &mut pool);
                if let Some(p) = fresh(r, &ps).filter(|p| l.iter().all(|e| e.0 != *p || zoo::run_key(p, e.1) != zoo::run_key(p, t))) {
                    let at = r.below(l.len() + 1);
                    l.insert(at, (p, t));
                }
            }
        }
    }
    let mut set = HashSet::new();
    eps.iter().for_each(|e| {
        closure(e.1, &mut set);
        closure(e.2, &mut set);
    });
    tin.iter().chain(tout.iter()).for_each(|e| closure(e.1, &mut set));
    let mut types: Vec<OwnedNamedType> = set.iter().map(OwnedNamedType::from).collect();
    types.sort_by_key(|t| format!("{t:?}"));
    r.shuffle(&mut types);
    let k = |p: &str, t: Nt| zoo::run_key(p, t);
    Iface {
        types,
        eps: eps.iter().map(|e| (e.0.clone(), k(&e.0, e.1), k(&e.0, e.2))).collect(),
        tin: tin.iter().map(|e| (e.0.clone(), k(&e.0, e.1))).collect(),
        tout: tout.iter().map(|e| (e.0.clone(), k(&e.0, e.1))).collect(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    Lose,
    Errors,
    Unresolvable,
    CloseDuring,
    ErrorReply,
    BadReply,
    Corrupt,
    WrongTotals,
    LongPause,
}
const FAULTS: [Fault; 10] = [
    Fault::None,
    Fault::Lose,
    Fault::Errors,
    Fault::Unresolvable,
    Fault::CloseDuring,
    Fault::ErrorReply,
    Fault::BadReply,
    Fault::Corrupt,
    Fault::WrongTotals,
    Fault::LongPause,
];

fn mk_client(link: &CLink, sched: &Sched, rng: &mut Rng) -> Cl {
    let cfg = HostClientConfig {
        seq_kind: skind(*rng.pick(&SLENS)),
        err_uri_path: "error",
        outgoing_depth: rng.range(1, 8),
        subscriber_timeout_if_full: std::time::Duration::ZERO,
    };
    Cl::new_with_wire_and_config(CTx(link.clone()), CRx(link.clone()), CSpawn(sched.spawner()), &cfg)
}
fn serr(e: &SchemaError<WireError>) -> String {
    format!("{e:?}")
}
type Results = Arc<Mutex<Vec<Result<SchemaReport, String>>>>;

/// simulated devices with random interfaces and injected faults
fn c14_device(c: &mut Case) -> Result<(), String> {
    let mut a = Arena::default();
    let rng = &mut c.rng;
    let big = rng.chance(1, 8);
    let mut iface = rand_iface(rng, &mut a, big);
    let fault = if rng.chance(1, 3) { Fault::None } else { *rng.pick(&FAULTS) };
    if fault == Fault::Unresolvable {
        let bad = key8(rng.u64().to_le_bytes());
        let mut slots: Vec<&mut Key> = vec![];
        for e in iface.eps.iter_mut() {
            slots.push(&mut e.1);
            slots.push(&mut e.2);
        }
        slots.extend(iface.tin.iter_mut().map(|t| &mut t.1));
        slots.extend(iface.tout.iter_mut().map(|t| &mut t.1));
        if slots.is_empty() {
            return Ok(());
        }
        let i = rng.below(slots.len());
        *slots[i] = bad;
    }
    let msgs = iface.msgs();
    if fault != Fault::None && msgs.is_empty() {
        return Ok(());
    }
    // the client's own queue for discovery holds 64 messages: beyond that the device paces itself
    let paced = msgs.len() > 60 || rng.chance(1, 4);
    let burst_big = msgs.len() > 60 && rng.chance(1, 4);
    // a slow device: discovery as a whole takes many seconds although no single pause is long
    let slow = rng.chance(1, 3);
    let std_keys = [
        PingEndpoint::RESP_KEY.to_bytes(),
        GetAllSchemasEndpoint::RESP_KEY.to_bytes(),
        GetAllSchemaDataTopic::TOPIC_KEY.to_bytes(),
        LoggingTopic::TOPIC_KEY.to_bytes(),
        ERROR_KEY.to_bytes(),
    ];
    let kmin = min_len(&std_keys).unwrap();
    let kk = *rng.pick(&KLENS.iter().copied().filter(|k| *k >= kmin).collect::<Vec<_>>());
    let yl = rng.below(4);
    let link = clink(rng.fork(), yl);
    let rt = paused_rt();
    let mut sched = Sched::new(rng.fork());
    let client = mk_client(&link, &sched, rng);
    let mut lost: HashSet<usize> = HashSet::new();
    let mut corrupt: HashSet<usize> = HashSet::new();
    let n = msgs.len();
    let mut errors = 0u32;
    let mut totals = SchemaTotals {
        types_sent: iface.types.len() as u32,
        endpoints_sent: iface.eps.len() as u32,
        topics_in_sent: iface.tin.len() as u32,
        topics_out_sent: iface.tout.len() as u32,
        errors: 0,
    };
    let mut pause_at = usize::MAX;
    let mut close_at = usize::MAX;
    match fault {
        Fault::Lose => {
            let k = if rng.chance(1, 2) { 1 } else { rng.range(1, n) };
            // often aim at one kind of message only
            let nt = iface.types.len();
            for _ in 0..k {
                let i = if nt > 0 && rng.chance(1, 2) { rng.below(nt) } else { rng.below(n) };
                lost.insert(i);
            }
        }
        Fault::Errors => {
            errors = if rng.chance(1, 2) { 1 } else { rng.range(1, n) as u32 };
            if rng.chance(1, 8) {
                // counters that wrap in fewer than 32 bits
                errors = 1 << rng.range(8, 31);
            } else if rng.chance(1, 2) {
                while lost.len() < errors as usize {
                    let i = rng.below(n);
                    lost.insert(i);
                }
            }
        }
        Fault::Corrupt => {
            let i = rng.below(n);
            corrupt.insert(i);
        }
        Fault::WrongTotals => {
            // small differences, and ones invisible to a narrower counter
            let d = if rng.chance(1, 4) { 1 << rng.range(8, 31) } else { rng.range(1, 3) as u32 };
            let f = match rng.below(4) {
                0 => &mut totals.types_sent,
                1 => &mut totals.endpoints_sent,
                2 => &mut totals.topics_in_sent,
                _ => &mut totals.topics_out_sent,
            };
            *f = if rng.chance(1, 2) && *f >= d { *f - d } else { *f + d };
        }
        Fault::CloseDuring => close_at = rng.below(n + 1),
        Fault::LongPause => pause_at = rng.below(n + 1),
        _ => {}
    }
    totals.errors = errors;
    let rounds = rng.range(1, 2);
    let again = rng.chance(1, 3);
    // --- device
    let (l2, mut drng) = (link.clone(), rng.fork());
    sched.spawn("device", async move {
        let mut at = 0;
        let mut served = 0;
        let mut pub_seq = 0u16;
        let mut id = 0;
        loop {
            let f = std::future::poll_fn(|cx| {
                let mut g = l2.lock().unwrap();
                match g.tx.get(at) {
                    Some(t) if t.end.is_some() => std::task::Poll::Ready(t.frame.clone()),
                    _ => {
                        g.peer_waker = Some(cx.waker().clone());
                        std::task::Poll::Pending
                    }
                }
            })
            .await;
            at += 1;
            let Some((h, body)) = dec(&f) else { continue };
            if keys_match(&h.key, &PingEndpoint::REQ_KEY.to_bytes()) {
                id += 1;
                push(&l2, RxIt::Frame(id, frame(PingEndpoint::RESP_KEY, kk, h.seq, h.slen, body)));
                continue;
            }
            if !keys_match(&h.key, &GetAllSchemasEndpoint::REQ_KEY.to_bytes()) {
                continue;
            }
            // faults hit the first discovery only
            let fault = if served == 0 { fault } else { Fault::None };
            served += 1;
            let t = if served == 1 { totals } else { SchemaTotals { types_sent: 0, ..totals } };
            let _ = t;
            for (i, m) in msgs.iter().enumerate() {
                if fault == Fault::CloseDuring && i == close_at {
                    push(&l2, RxIt::Fail);
                    return;
                }
                if fault == Fault::LongPause && i == pause_at {
                    tokio::time::sleep(std::time::Duration::from_millis(101 + drng.below(200) as u64)).await;
                }
                if (paced && !burst_big) || drng.chance(1, 20) {
                    let ms = if msgs.len() > 60 && !slow { 1 } else { drng.below(80) as u64 };
                    tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
                }
                let mut b = postcard::to_stdvec(m).unwrap();
                if fault != Fault::None && lost.contains(&i) {
                    pub_seq = pub_seq.wrapping_add(1);
                    continue;
                }
                if fault != Fault::None && corrupt.contains(&i) {
                    b = vec![7; 1];
                }
                id += 1;
                push(&l2, RxIt::Frame(id, frame(GetAllSchemaDataTopic::TOPIC_KEY, kk, pub_seq as u32, 2, &b)));
                pub_seq = pub_seq.wrapping_add(1);
                // other traffic in between
                if drng.chance(1, 12) {
                    id += 1;
                    let b = postcard::to_stdvec("log line").unwrap();
                    push(&l2, RxIt::Frame(id, frame(LoggingTopic::TOPIC_KEY, kk, 9, 2, &b)));
                }
                if drng.chance(1, 3) {
                    yield_now().await;
                }
            }
            if fault == Fault::CloseDuring {
                push(&l2, RxIt::Fail);
                return;
            }
            id += 1;
            let clean = SchemaTotals {
                types_sent: msgs.iter().filter(|m| matches!(m, OwnedSchemaData::Type(_))).count() as u32,
                endpoints_sent: msgs.iter().filter(|m| matches!(m, OwnedSchemaData::Endpoint { .. })).count() as u32,
                topics_in_sent: msgs.iter().filter(|m| matches!(m, OwnedSchemaData::Topic { direction: TopicDirection::ToServer, .. })).count() as u32,
                topics_out_sent: msgs.iter().filter(|m| matches!(m, OwnedSchemaData::Topic { direction: TopicDirection::ToClient, .. })).count() as u32,
                errors: 0,
            };
            let (key, b) = match fault {
                Fault::ErrorReply => (ERROR_KEY, postcard::to_stdvec(&WireError::DeserFailed).unwrap()),
                Fault::BadReply => (GetAllSchemasEndpoint::RESP_KEY, vec![0x80; 3]),
                Fault::None => (GetAllSchemasEndpoint::RESP_KEY, postcard::to_stdvec(&clean).unwrap()),
                _ => (GetAllSchemasEndpoint::RESP_KEY, postcard::to_stdvec(&totals).unwrap()),
            };
            push(&l2, RxIt::Frame(id, frame(key, kk, h.seq, h.slen, &b)));
        }
    });
    // --- user
    let res: Results = Default::default();
    let r2 = res.clone();
    let c2 = client.clone();
    let pings = rng.below(3);
    sched.spawn("user", async move {
        for _ in 0..pings {
            let _ = c2.send_resp::<PingEndpoint>(&5).await;
        }
        for _ in 0..rounds {
            let r = c2.get_schema_report().await.map_err(|e| serr(&e));
            r2.lock().unwrap().push(r);
        }
    });
    // the clients of the same device may discover at the same time; both may fail, neither may lie
    let res_b: Results = Default::default();
    let concurrent = again && fault == Fault::None;
    if concurrent {
        let (r3, c3) = (res_b.clone(), client.clone());
        let d = rng.below(30);
        sched.spawn("user2", async move {
            for _ in 0..d {
                yield_now().await;
            }
            let r = c3.get_schema_report().await.map_err(|e| serr(&e));
            r3.lock().unwrap().push(r);
        });
    }
    let stop = {
        // only the two users have to finish
        sched.run_tokio(&rt, 400_000)
    };
    c.log(|| format!("fault {fault:?} lost {n} messages, key length {kk}, stop {stop:?}"));
    if stop == Stop::Livelock {
        return Err("discovery keeps the client busy for ever".into());
    }
    let got = std::mem::take(&mut *res.lock().unwrap());
    let got_b = std::mem::take(&mut *res_b.lock().unwrap());
    if got.len() != rounds || (concurrent && got_b.len() != 1) {
        return Err(format!("discovery did not finish (fault {fault:?}, {} of {rounds} done)", got.len()));
    }
    let unresolvable = fault == Fault::Unresolvable;
    for (i, r) in got.iter().enumerate() {
        let f = if i == 0 { fault } else { Fault::None };
        match r {
            Ok(rep) => {
                c.count("reports", 1);
                if !matches!(f, Fault::None | Fault::LongPause) || (i > 0 && (fault == Fault::CloseDuring || unresolvable)) {
                    return Err(format!("discovery {i} succeeded although fault {fault:?} was injected"));
                }
                iface.matches(rep)?;
            }
            Err(e) => {
                c.count("refused", 1);
                let excused = burst_big || concurrent || f != Fault::None || unresolvable || fault == Fault::CloseDuring || (i > 0 && fault == Fault::LongPause);
                if !excused {
                    return Err(format!("discovery {i} failed with {e} against a device that answered completely ({n} messages, paced {paced})"));
                }
            }
        }
    }
    for r in &got_b {
        if let Ok(rep) = r {
            iface.matches(rep)?;
        }
    }
    match fault {
        Fault::Lose => c.count("fault_lost_message", 1),
        Fault::Errors => c.count("fault_send_errors", 1),
        Fault::Unresolvable => c.count("fault_unresolvable", 1),
        Fault::CloseDuring => c.count("fault_link_closed", 1),
        Fault::Corrupt => c.count("fault_corrupt", 1),
        Fault::WrongTotals => c.count("fault_totals", 1),
        Fault::ErrorReply | Fault::BadReply => c.count("fault_reply", 1),
        Fault::LongPause => c.count("fault_pause", 1),
        Fault::None => {}
    }
    c.sig(sched.switch_sig);
    c.sig(n as u64);
    c.nontrivial = n > 0;
    c.count("messages", n as u64);
    c.note = Some(format!("{n} messages, fault {fault:?}, {rounds} rounds, key length {kk}"));
    drop(client);
    sched.drop_all();
    Ok(())
}

fn real<Dp: Dispatch<Tx = STx> + 'static>(
    c: &mut Case,
    map: impl FnOnce(&Dp) -> &'static DeviceMap,
    n: usize,
    zoo: bool,
    mk: impl FnOnce(Ctx, SSpawn) -> Dp,
) -> Result<(), String> {
    let rng = &mut c.rng;
    let rt = paused_rt();
    let mut sched = Sched::new(rng.fork());
    let slk = slink(rng.fork());
    let yl = rng.below(4);
    let clk = clink(rng.fork(), yl);
    let d = mk(Ctx { link: slk.clone() }, SSpawn { sp: sched.spawner(), link: slk.clone() });
    let m = map(&d);
    let mut iface = Iface::from_map(m);
    if zoo {
        // independently of the lists the macros computed
        let mut set = HashSet::new();
        for e in zoo::z_eps().into_iter().chain(zoo::std_eps()) {
            closure(e.1, &mut set);
            closure(e.2, &mut set);
        }
        zoo::z_tin().into_iter().chain(zoo::z_tout()).chain(zoo::std_tout()).for_each(|t| closure(t.1, &mut set));
        let mut want: Vec<OwnedNamedType> = set.iter().map(OwnedNamedType::from).collect();
        let key = |t: &OwnedNamedType| format!("{t:?}");
        want.sort_by_key(key);
        let mut have = iface.types.clone();
        have.sort_by_key(key);
        if have != want {
            return Err("the device does not announce exactly the types its interface uses".to_string());
        }
        iface.types = want;
    }
    let total = iface.msgs().len();
    let kks: Vec<usize> = KLENS.iter().copied().filter(|k| *k >= n).collect();
    let kk = *rng.pick(&kks);
    let mode = rng.below(4);
    let victim = rng.below(total);
    let (mut lost, mut failed) = (false, 0u32);
    {
        let mut g = slk.lock().unwrap();
        g.max_yields = rng.below(4);
        // sequence numbers 8.. are publications only: the client has made fewer calls than that
        if mode == 1 && victim >= 8 {
            g.faults.insert((victim as u32, false), (TxK::Other, 1));
            failed = 1;
            // several may fail; each one is counted
            let den = *rng.pick(&[2usize, 5, 1000]);
            for i in 8..total {
                if i != victim && rng.chance(1, den) {
                    g.faults.insert((i as u32, false), (TxK::Other, 1));
                    failed += 1;
                }
            }
        }
        let cl = clk.clone();
        let drop_pub = if mode == 2 {
            lost = true;
            Some(victim)
        } else {
            None
        };
        let mut seen = 0;
        let mut id = 0;
        g.forward = Some(Box::new(move |f: &[u8]| {
            let (h, _) = dec(f).unwrap();
            if keys_match(&h.key, &GetAllSchemaDataTopic::TOPIC_KEY.to_bytes()) {
                seen += 1;
                if drop_pub == Some(seen - 1) {
                    return;
                }
            }
            id += 1;
            push(&cl, RxIt::Frame(id, f.to_vec()));
        }));
        let sl = slk.clone();
        let mut nrx = 0;
        clk.lock().unwrap().on_tx = Some(Box::new(move |f: &[u8]| {
            push_rx(&sl, nrx, RxItem::Frame(f.to_vec()));
            nrx += 1;
        }));
    }
    let mut server = Server::new(STx { link: slk.clone() }, SRx { link: slk.clone() }, vec![0u8; 1024].into_boxed_slice(), d, kkind(kk));
    sched.spawn("server", async move {
        let _ = server.run().await;
    });
    let client = mk_client(&clk, &sched, rng);
    let res: Results = Default::default();
    let (r2, c2) = (res.clone(), client.clone());
    sched.spawn("user", async move {
        for _ in 0..2 {
            let r = c2.get_schema_report().await.map_err(|e| serr(&e));
            r2.lock().unwrap().push(r);
        }
    });
    let stop = sched.run_tokio(&rt, 400_000);
    if stop == Stop::Livelock {
        return Err("discovery against a real server keeps it busy for ever".into());
    }
    let got = std::mem::take(&mut *res.lock().unwrap());
    if got.len() != 2 {
        return Err(format!("discovery against a real server did not finish ({} of 2)", got.len()));
    }
    // a failing publication repeats in the second round, a lost frame does not
    for (i, r) in got.iter().enumerate() {
        let bad = failed > 0 || (lost && i == 0);
        match r {
            Ok(rep) => {
                if bad {
                    return Err(format!("discovery {i} succeeded although message {victim} of {total} was {}", if lost { "lost" } else { "not sent" }));
                }
                iface.matches(rep)?;
                c.count("real_reports", 1);
            }
            Err(e) => {
                if !bad && total <= 64 {
                    return Err(format!("discovery {i} against a real server failed with {e}"));
                }
                c.count("real_refused", 1);
            }
        }
    }
    // what the device sent: one message per item, then matching totals
    let (want, totals) = expected_discovery(m, kk);
    let log = slk.lock().unwrap().log.clone();
    let sent: Vec<Vec<u8>> = log.iter().filter_map(|e| if let Ev::SendBegin { frame, .. } = e { Some(frame.clone()) } else { None }).collect();
    for round in 0..2 {
        let part = &sent[round * (total + 1)..(round + 1) * (total + 1)];
        if part[..total] != want[..] {
            let i = (0..total).find(|&i| part[i] != want[i]).unwrap();
            return Err(format!("discovery message {i}: sent {}, expected {}", hex(&part[i]), hex(&want[i])));
        }
        let (_, b) = dec(&part[total]).unwrap();
        if b != &totals(failed)[..] {
            return Err(format!("discovery totals {}, expected {}", hex(b), hex(&totals(failed))));
        }
    }
    c.sig(sched.switch_sig);
    c.sig(mode as u64 * 1000 + victim as u64);
    c.nontrivial = true;
    c.count("messages", 2 * total as u64);
    c.note = Some(format!("real server, {total} messages, mode {mode}, key length {kk}"));
    drop(client);
    clk.lock().unwrap().on_tx = None;
    slk.lock().unwrap().forward = None;
    sched.drop_all();
    Ok(())
}

/// answers discovery only, with any interface
struct MapOnly {
    map: &'static DeviceMap,
}
impl Dispatch for MapOnly {
    type Tx = STx;
    fn min_key_len(&self) -> postcard_rpc::header::VarKeyKind {
        self.map.min_key_len
    }
    async fn handle(&mut self, tx: &postcard_rpc::server::Sender<STx>, hdr: &postcard_rpc::header::VarHeader, _body: &[u8]) -> Result<(), STxErr> {
        tx.send_all_schemas(hdr, self.map).await
    }
}
/// interfaces of hundreds of entries, announced by the real sender
fn c14_large(c: &mut Case) -> Result<(), String> {
    let mut a = Arena::default();
    let r = &mut c.rng;
    let mut n = [0usize; 4];
    for x in n.iter_mut() {
        *x = if r.chance(1, 2) { r.below(4) } else { *r.pick(&[127, 128, 200, 255, 256, 257, 300]) };
    }
    if n.iter().sum::<usize>() < 9 {
        n[r.below(4)] = 256;
    }
    // types that are their own entries of the list, so that every key can be resolved
    let types: Vec<Nt> = (0..n[0].max(1))
        .map(|i| {
            let nm: &'static str = a.put(format!("T{i}")).as_str();
            a.nt(nm, D::UnitStruct)
        })
        .collect();
    let path = |a: &mut Arena, p: &str, i: usize| -> &'static str { a.put(format!("{p}/{i}")).as_str() };
    let mut eps = vec![];
    for i in 0..n[1] {
        let p = path(&mut a, "e", i);
        let (q, s) = (types[r.below(types.len())], types[r.below(types.len())]);
        eps.push((p, zoo::run_key(p, q), zoo::run_key(p, s)));
    }
    let mut tops = [vec![], vec![]];
    for (k, v) in tops.iter_mut().enumerate() {
        for i in 0..n[2 + k] {
            let p = path(&mut a, if k == 0 { "i" } else { "o" }, i);
            v.push((p, zoo::run_key(p, types[r.below(types.len())])));
        }
    }
    let [tin, tout] = tops;
    let map = DeviceMap {
        types: a.put(types).as_slice(),
        endpoints: a.put(eps).as_slice(),
        topics_in: a.put(tin).as_slice(),
        topics_out: a.put(tout).as_slice(),
        min_key_len: kkind(8),
    };
    let map: &'static DeviceMap = a.put(map);
    let out = real(c, |d: &MapOnly| d.map, 8, false, |_, _| MapOnly { map });
    c.count("large_interfaces", 1);
    out
}

fn c14_real(c: &mut Case) -> Result<(), String> {
    match c.rng.below(5) {
        0 => real(c, |d: &icd::st::App8| d.device_map, 8, false, icd::st::App8::new),
        1 => real(c, |d: &icd::st::App4| d.device_map, 4, false, icd::st::App4::new),
        2 => real(c, |d: &zoo::zapp::App4| d.device_map, 4, true, zoo::zapp::App4::new),
        3 => real(c, |d: &zoo::zapp::App8| d.device_map, 8, true, zoo::zapp::App8::new),
        _ => real(c, |d: &icd::none::App| d.device_map, 8, false, icd::none::App::new),
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C14",
            rule: "a distinct case is a distinct (interface, injected fault, schedule) discovery against a simulated or real device, judged on the returned report and on every message the device sent",
            scenarios: vec![
                Scenario { name: "device", f: c14_device, quick: 1500, weight: 3, serial: false },
                Scenario { name: "real", f: c14_real, quick: 400, weight: 1, serial: false },
                Scenario { name: "large", f: c14_large, quick: 60, weight: 1, serial: false },
            ],
            assumptions: &["a device pauses less than 100 ms between two discovery messages and the client is never 64 of them behind", "key hashing of postcard-schema (a dependency) is trusted"],
            must_see: &["reports", "refused", "real_reports", "real_refused", "large_interfaces", "fault_lost_message", "fault_send_errors", "fault_unresolvable", "fault_link_closed", "fault_corrupt", "fault_totals", "fault_reply"],
        },
        Check {
            id: "C15",
            rule: "a distinct case is a distinct schema (or list of schemas), compared with an independent reachability computation; macro-generated lists of this program are compared with the declarations",
            scenarios: vec![
                Scenario { name: "macros", f: c15_macros, quick: 4, weight: 0, serial: false },
                Scenario { name: "derive", f: c15_derive, quick: 4000, weight: 3, serial: false },
                Scenario { name: "merge", f: c15_merge, quick: 4000, weight: 1, serial: false },
            ],
            assumptions: &["the const functions behind the macros behave the same when evaluated at run time and by rustc at compile time"],
            must_see: &["types_listed", "duplicates_removed", "newtype_variants", "tuple_variants", "struct_variants", "maps", "merged_types", "merge_duplicates", "macro_lists", "device_maps"],
        },
    ]
}
#[allow(unused)]
fn _unused(_: BTreeMap<u8, u8>) {}
