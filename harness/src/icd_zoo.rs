//! Interfaces whose types use every construct the type lists have to walk through.
use crate::icd::{Ctx, started};
use crate::ssim::*;
use postcard_rpc::header::VarHeader;
use postcard_rpc::server::Sender;
use postcard_rpc::{define_dispatch, endpoints, merge_unique_types, topics, unique_types, Key, TopicDirection};
use postcard_schema::schema::{DataModelType, NamedType};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct L0;
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct L1 {
    pub a: u8,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct L2(pub i64);
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct L3(pub L1, pub char);
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct Deep {
    pub x: Option<L3>,
    pub y: Vec<L2>,
    pub z: BTreeMap<u32, L4>,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct L4 {
    pub t: (u8, L5, [L6; 2]),
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct L5;
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct L6 {
    pub f: f32,
    pub g: f64,
    pub h: i128,
    pub u: u128,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct InNew {
    pub inner: InNew2,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct InNew2 {
    pub s: String,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct InTup(pub InTup2);
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct InTup2 {
    pub b: bool,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct InStr {
    pub v: Vec<InStr2>,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub enum InStr2 {
    P,
    Q(i8),
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub enum Zoo {
    Unit,
    New(InNew),
    NewPrim(u16),
    Tup(InTup, u8, L0),
    Struct { a: InStr, b: Option<Deep> },
    Again(InTup),
}
/// same shape as L1 under another name and another field name: distinct types
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct L1b {
    pub a: u8,
}
#[derive(Serialize, Deserialize, Schema, Clone, Debug, PartialEq)]
pub struct Pair {
    pub p: L1,
    pub q: L1b,
    pub r: L1,
    pub s: Option<L1>,
    pub t: Option<L1b>,
}
pub type Res = Result<Deep, Zoo>;
pub type Tup2 = (L1, L2);
pub type Arr = [L2; 3];
pub type OptS = Option<String>;
pub type Bytes = Vec<u8>;
pub type MapT = BTreeMap<String, InNew>;
pub type SetT = BTreeSet<u16>;
pub type Nz = core::num::NonZeroU32;
pub type Unit = ();

macro_rules! raw_schema {
    ($($n:ident $k:ident;)*) => { $(
        #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
        pub struct $n(pub u8);
        impl Schema for $n {
            const SCHEMA: &'static NamedType = &NamedType { name: stringify!($n), ty: &DataModelType::$k };
        }
    )* };
}
raw_schema! { RawBytes ByteArray; RawUsize Usize; RawIsize Isize; }

endpoints! {
    list = Z_EPS;
    | EndpointTy | RequestTy | ResponseTy | Path      |
    | ---------- | --------- | ---------- | ----      |
    | ZDeep      | Deep      | Zoo        | "z/deep"  |
    | ZRes       | Tup2      | Res        | "z/res"   |
    | ZArr       | Arr       | OptS       | "z/arr"   |
    | ZMap       | MapT      | SetT       | "z/map"   |
    | ZPrim1     | u8        | i8         | "z/p1"    |
    | ZPrim2     | u16       | i16        | "z/p2"    |
    | ZPrim3     | u32       | i32        | "z/p3"    |
    | ZPrim4     | u64       | i64        | "z/p4"    |
    | ZPrim5     | u128      | i128       | "z/p5"    |
    | ZPrim6     | f32       | f64        | "z/p6"    |
    | ZPrim7     | bool      | char       | "z/p7"    |
    | ZPrim8     | String    | Unit       | "z/p8"    |
    | ZPrim9     | RawBytes  | RawUsize   | "z/p9"    |
    | ZPrimA     | RawIsize  | Nz         | "z/pa"    |
}
topics! {
    list = Z_TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path       |
    | ------- | --------- | ----       |
    | ZtA     | Pair      | "z/t/a"    |
    | ZtB     | Bytes     | "z/t/b"    |
    | ZtC     | L0        | "z/t/c"    |
}
topics! {
    list = Z_TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path       |
    | ------- | --------- | ----       |
    | ZoA     | Pair      | "z/o/a"    |
    | ZoB     | L3        | "z/o/b"    |
    | ZoC     | u8        | "z/o/c"    |
}
// without the standard entries, and with entries switched on and off by configuration
endpoints! {
    list = O_EPS;
    omit_std = true;
    | EndpointTy | RequestTy | ResponseTy | Path     | Cfg                             |
    | ---------- | --------- | ---------- | ----     | ---                             |
    | OA         | L1        | L2         | "o/a"    | cfg(not(feature = "no-such"))   |
    | OB         | L3        | Zoo        | "o/b"    | cfg(feature = "no-such")        |
    | OC         | Pair      | L1         | "o/c"    |                                 |
}
topics! {
    list = O_TIN;
    direction = TopicDirection::ToServer;
    omit_std = true;
    | TopicTy | MessageTy | Path      | Cfg                           |
    | ------- | --------- | ----      | ---                           |
    | OtA     | L4        | "o/t/a"   | cfg(not(feature = "no-such")) |
    | OtB     | Deep      | "o/t/b"   | cfg(feature = "no-such")      |
}
topics! {
    list = O_TOUT;
    direction = TopicDirection::ToClient;
    omit_std = true;
    | TopicTy | MessageTy | Path    |
    | ------- | --------- | ----    |
}
topics! {
    list = E_TIN;
    direction = TopicDirection::ToServer;
    omit_std = false;
    | TopicTy | MessageTy | Path    |
    | ------- | --------- | ----    |
}
endpoints! {
    list = E_EPS;
    omit_std = false;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
}

pub const U_ZOO: &[&NamedType] = unique_types!(Zoo);
pub const U_DEEP: &[&NamedType] = unique_types!(Deep);
pub const U_RES: &[&NamedType] = unique_types!(Res);
pub const U_PAIR: &[&NamedType] = unique_types!(Pair);
pub const U_U8: &[&NamedType] = unique_types!(u8);
pub const U_ARR: &[&NamedType] = unique_types!(Arr);
pub const M_ALL: &[&NamedType] = merge_unique_types![Zoo, Deep, Pair, u8, Res, Arr, L1, L1b, Zoo,];

pub fn derived() -> Vec<(&'static str, &'static [&'static NamedType], Vec<&'static NamedType>)> {
    vec![
        ("Zoo", U_ZOO, vec![Zoo::SCHEMA]),
        ("Deep", U_DEEP, vec![Deep::SCHEMA]),
        ("Result", U_RES, vec![Res::SCHEMA]),
        ("Pair", U_PAIR, vec![Pair::SCHEMA]),
        ("u8", U_U8, vec![u8::SCHEMA]),
        ("array", U_ARR, vec![Arr::SCHEMA]),
        ("merged", M_ALL, vec![Zoo::SCHEMA, Deep::SCHEMA, Pair::SCHEMA, Res::SCHEMA, Arr::SCHEMA, L1::SCHEMA, L1b::SCHEMA]),
    ]
}

pub type Sch = &'static NamedType;
/// what was declared above, by hand
pub fn z_eps() -> Vec<(&'static str, Sch, Sch)> {
    vec![
        ("z/deep", Deep::SCHEMA, Zoo::SCHEMA),
        ("z/res", Tup2::SCHEMA, Res::SCHEMA),
        ("z/arr", Arr::SCHEMA, OptS::SCHEMA),
        ("z/map", MapT::SCHEMA, SetT::SCHEMA),
        ("z/p1", u8::SCHEMA, i8::SCHEMA),
        ("z/p2", u16::SCHEMA, i16::SCHEMA),
        ("z/p3", u32::SCHEMA, i32::SCHEMA),
        ("z/p4", u64::SCHEMA, i64::SCHEMA),
        ("z/p5", u128::SCHEMA, i128::SCHEMA),
        ("z/p6", f32::SCHEMA, f64::SCHEMA),
        ("z/p7", bool::SCHEMA, char::SCHEMA),
        ("z/p8", String::SCHEMA, <()>::SCHEMA),
        ("z/p9", RawBytes::SCHEMA, RawUsize::SCHEMA),
        ("z/pa", RawIsize::SCHEMA, Nz::SCHEMA),
    ]
}
pub fn z_tin() -> Vec<(&'static str, Sch)> {
    vec![("z/t/a", Pair::SCHEMA), ("z/t/b", Bytes::SCHEMA), ("z/t/c", L0::SCHEMA)]
}
pub fn z_tout() -> Vec<(&'static str, Sch)> {
    vec![("z/o/a", Pair::SCHEMA), ("z/o/b", L3::SCHEMA), ("z/o/c", u8::SCHEMA)]
}
pub fn std_eps() -> Vec<(&'static str, Sch, Sch)> {
    use postcard_rpc::standard_icd::*;
    vec![("postcard-rpc/ping", u32::SCHEMA, u32::SCHEMA), ("postcard-rpc/schemas/get", <()>::SCHEMA, SchemaTotals::SCHEMA)]
}
pub fn std_tout() -> Vec<(&'static str, Sch)> {
    use postcard_rpc::standard_icd::*;
    vec![("postcard-rpc/schema/data", OwnedSchemaData::SCHEMA), ("postcard-rpc/logging", String::SCHEMA)]
}
pub fn o_eps() -> Vec<(&'static str, Sch, Sch)> {
    vec![("o/a", L1::SCHEMA, L2::SCHEMA), ("o/c", Pair::SCHEMA, L1::SCHEMA)]
}
pub fn o_tin() -> Vec<(&'static str, Sch)> {
    vec![("o/t/a", L4::SCHEMA)]
}
pub fn run_key(path: &str, s: Sch) -> Key {
    Key::for_owned_schema_path(path, &s.into())
}

macro_rules! hs {
    ($($n:ident $e:ident;)*) => { $(
        pub fn $n(_c: &mut Ctx, _h: VarHeader, _r: <$e as postcard_rpc::Endpoint>::Request) -> <$e as postcard_rpc::Endpoint>::Response {
            unreachable!("not called by discovery")
        }
    )* };
}
hs! { zh_deep ZDeep; zh_res ZRes; zh_arr ZArr; zh_map ZMap; zh1 ZPrim1; zh2 ZPrim2; zh3 ZPrim3; zh4 ZPrim4; zh5 ZPrim5; zh6 ZPrim6; zh7 ZPrim7; zh8 ZPrim8; zh9 ZPrim9; zha ZPrimA; }
pub fn zt_a(c: &mut Ctx, h: VarHeader, r: Pair, _s: &Sender<STx>) {
    started(&c.link, 100, &h, &r);
}
pub fn zt_b(c: &mut Ctx, h: VarHeader, r: Bytes, _s: &Sender<STx>) {
    started(&c.link, 101, &h, &r);
}
pub fn zt_c(c: &mut Ctx, h: VarHeader, r: L0, _s: &Sender<STx>) {
    started(&c.link, 102, &h, &r);
}
pub mod zapp {
    use super::*;
    define_dispatch! {
        app: App;
        spawn_fn: s_spawn;
        tx_impl: STx;
        spawn_impl: SSpawn;
        context: Ctx;
        endpoints: {
            list: Z_EPS;
            | EndpointTy | kind | handler |
            | ---------- | ---- | ------- |
            | ZDeep | blocking | zh_deep |
            | ZRes | blocking | zh_res |
            | ZArr | blocking | zh_arr |
            | ZMap | blocking | zh_map |
            | ZPrim1 | blocking | zh1 |
            | ZPrim2 | blocking | zh2 |
            | ZPrim3 | blocking | zh3 |
            | ZPrim4 | blocking | zh4 |
            | ZPrim5 | blocking | zh5 |
            | ZPrim6 | blocking | zh6 |
            | ZPrim7 | blocking | zh7 |
            | ZPrim8 | blocking | zh8 |
            | ZPrim9 | blocking | zh9 |
            | ZPrimA | blocking | zha |
        };
        topics_in: {
            list: Z_TIN;
            | TopicTy | kind | handler |
            | ------- | ---- | ------- |
            | ZtA | blocking | zt_a |
            | ZtB | blocking | zt_b |
            | ZtC | blocking | zt_c |
        };
        topics_out: {
            list: Z_TOUT;
        };
    }
    pub type App4 = impls::App<4>;
    pub type App8 = impls::App<8>;
}
