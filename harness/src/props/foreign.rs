//! Values, Mappings, Numbers and the `with` forms in other serde formats:
//! a recorder and a player stand for any format.

use super::calls::{same_f32, Expect};
use super::enums::{self, Mode, Shape};
use crate::engine::*;
use crate::gen::{self, VOpts};
use crate::model::*;
use crate::ty::l2::{Seed, TV};
use crate::ty::{self, intern, show_ty, show_val, veq, Ty, Var};
use crate::{ensure, fail, near};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde_yaml::value::TaggedValue;
use serde_yaml::{Mapping, Number, Sequence, Value};
use std::cell::Cell;
use std::fmt;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        level: "exploration",
        rule: "A case is data of some other serde format, played to Value, Mapping, Sequence, Number or TaggedValue; a Value recorded by another format's serializer, which may fail; a typed value through the singleton_map forms recorded and played back; or a document read into another format's data and written again. Non-trivial = at least three nodes.",
        assumptions: &["Other formats are represented by a recorder and a player that make every kind of serde call."],
        subs: vec![
            Sub { name: "read", quick: 1_200_000, thorough: 20_000_000, f: c30_read },
            Sub { name: "write", quick: 800_000, thorough: 14_000_000, f: c30_write },
            Sub { name: "forms", quick: 800_000, thorough: 14_000_000, f: c30_forms },
            Sub { name: "clear", quick: 500_000, thorough: 9_000_000, f: super::clear::c30_clear },
            Sub { name: "readable", quick: 100_000, thorough: 3_000_000, f: c30_readable },
            Sub { name: "transcode", quick: 600_000, thorough: 10_000_000, f: c30_transcode },
        ],
    }]
}

/// Data of some other format: a tree of serde calls.
#[derive(Clone, Debug)]
pub enum FV {
    Unit,
    UnitStruct,
    None,
    Some(Box<FV>),
    Bool(bool),
    /// bits, value
    I(u8, i128),
    U(u8, u128),
    F32(f32),
    F64(f64),
    Char(char),
    /// handed out as: &str, borrowed, owned
    Str(String, u8),
    Bytes(Vec<u8>),
    /// with what is said of its length
    Seq(Option<usize>, Vec<FV>),
    Tuple(Vec<FV>),
    TupStruct(Vec<FV>),
    Map(Option<usize>, Vec<(FV, FV)>),
    Struct(Vec<(&'static str, FV)>),
    Newtype(Box<FV>),
    UnitVar(&'static str),
    NewVar(&'static str, Box<FV>),
    TupVar(&'static str, Vec<FV>),
    StructVar(&'static str, Vec<(&'static str, FV)>),
    /// The format fails here.
    Fail(u32),
}

#[derive(Debug, Clone, PartialEq)]
pub enum FErr {
    Fail(u32),
    Custom(String),
}
impl fmt::Display for FErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            FErr::Fail(n) => write!(f, "failure {n} of the format"),
            FErr::Custom(m) => f.write_str(m),
        }
    }
}
impl std::error::Error for FErr {}
impl de::Error for FErr {
    fn custom<T: fmt::Display>(m: T) -> FErr {
        FErr::Custom(m.to_string())
    }
}
impl ser::Error for FErr {
    fn custom<T: fmt::Display>(m: T) -> FErr {
        FErr::Custom(m.to_string())
    }
}

// --------------------------------------------------------------- recorder

#[derive(Default)]
pub struct Tape {
    /// Calls left before one fails, if one does.
    pub fuse: Cell<Option<u32>>,
    pub failed: Cell<bool>,
    pub after: Cell<bool>,
    pub binary: bool,
}
impl Tape {
    fn tick(&self) -> Result<(), FErr> {
        if self.failed.get() {
            self.after.set(true);
        }
        match self.fuse.get() {
            Some(0) => {
                self.failed.set(true);
                Err(FErr::Fail(0))
            }
            Some(n) => {
                self.fuse.set(Some(n - 1));
                Ok(())
            }
            None => Ok(()),
        }
    }
}

#[derive(Copy, Clone)]
struct Rec<'a>(&'a Tape);
struct RecSeq<'a> {
    t: Rec<'a>,
    out: Vec<FV>,
    len: Option<usize>,
    name: &'static str,
    kind: u8,
}
struct RecMap<'a> {
    t: Rec<'a>,
    out: Vec<(FV, FV)>,
    key: Option<FV>,
    len: Option<usize>,
}
struct RecStruct<'a> {
    t: Rec<'a>,
    out: Vec<(&'static str, FV)>,
    name: Option<&'static str>,
}

macro_rules! rec {
    ($($f:ident($($a:ident: $t:ty),*) => $e:expr;)*) => {$(
        fn $f(self, $($a: $t),*) -> Result<FV, FErr> {
            self.0.tick()?;
            Ok($e)
        }
    )*};
}
impl<'a> Serializer for Rec<'a> {
    type Ok = FV;
    type Error = FErr;
    type SerializeSeq = RecSeq<'a>;
    type SerializeTuple = RecSeq<'a>;
    type SerializeTupleStruct = RecSeq<'a>;
    type SerializeTupleVariant = RecSeq<'a>;
    type SerializeMap = RecMap<'a>;
    type SerializeStruct = RecStruct<'a>;
    type SerializeStructVariant = RecStruct<'a>;
    rec! {
        serialize_bool(v: bool) => FV::Bool(v);
        serialize_i8(v: i8) => FV::I(8, v.into());
        serialize_i16(v: i16) => FV::I(16, v.into());
        serialize_i32(v: i32) => FV::I(32, v.into());
        serialize_i64(v: i64) => FV::I(64, v.into());
        serialize_i128(v: i128) => FV::I(128, v);
        serialize_u8(v: u8) => FV::U(8, v.into());
        serialize_u16(v: u16) => FV::U(16, v.into());
        serialize_u32(v: u32) => FV::U(32, v.into());
        serialize_u64(v: u64) => FV::U(64, v.into());
        serialize_u128(v: u128) => FV::U(128, v);
        serialize_f32(v: f32) => FV::F32(v);
        serialize_f64(v: f64) => FV::F64(v);
        serialize_char(v: char) => FV::Char(v);
        serialize_str(v: &str) => FV::Str(v.to_string(), 0);
        serialize_bytes(v: &[u8]) => FV::Bytes(v.to_vec());
        serialize_none() => FV::None;
        serialize_unit() => FV::Unit;
        serialize_unit_struct(_n: &'static str) => FV::UnitStruct;
        serialize_unit_variant(_n: &'static str, _i: u32, v: &'static str) => FV::UnitVar(v);
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<FV, FErr> {
        self.0.tick()?;
        Ok(FV::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _n: &'static str, v: &T) -> Result<FV, FErr> {
        self.0.tick()?;
        Ok(FV::Newtype(Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _n: &'static str, _i: u32, var: &'static str, v: &T) -> Result<FV, FErr> {
        self.0.tick()?;
        Ok(FV::NewVar(var, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<RecSeq<'a>, FErr> {
        self.0.tick()?;
        Ok(RecSeq { t: self, out: vec![], len, name: "", kind: 0 })
    }
    fn serialize_tuple(self, len: usize) -> Result<RecSeq<'a>, FErr> {
        self.0.tick()?;
        Ok(RecSeq { t: self, out: vec![], len: Some(len), name: "", kind: 1 })
    }
    fn serialize_tuple_struct(self, _n: &'static str, len: usize) -> Result<RecSeq<'a>, FErr> {
        self.0.tick()?;
        Ok(RecSeq { t: self, out: vec![], len: Some(len), name: "", kind: 2 })
    }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, name: &'static str, len: usize) -> Result<RecSeq<'a>, FErr> {
        self.0.tick()?;
        Ok(RecSeq { t: self, out: vec![], len: Some(len), name, kind: 3 })
    }
    fn serialize_map(self, len: Option<usize>) -> Result<RecMap<'a>, FErr> {
        self.0.tick()?;
        Ok(RecMap { t: self, out: vec![], key: None, len })
    }
    fn serialize_struct(self, _n: &'static str, _len: usize) -> Result<RecStruct<'a>, FErr> {
        self.0.tick()?;
        Ok(RecStruct { t: self, out: vec![], name: None })
    }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, name: &'static str, _len: usize) -> Result<RecStruct<'a>, FErr> {
        self.0.tick()?;
        Ok(RecStruct { t: self, out: vec![], name: Some(name) })
    }
    fn is_human_readable(&self) -> bool {
        !self.0.binary
    }
}
impl RecSeq<'_> {
    fn add<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), FErr> {
        self.t.0.tick()?;
        self.out.push(v.serialize(self.t)?);
        Ok(())
    }
    fn done(self) -> Result<FV, FErr> {
        self.t.0.tick()?;
        Ok(match self.kind {
            0 => FV::Seq(self.len, self.out),
            1 => FV::Tuple(self.out),
            2 => FV::TupStruct(self.out),
            _ => FV::TupVar(self.name, self.out),
        })
    }
}
macro_rules! rec_seq {
    ($($t:ident $f:ident)*) => {$(
        impl ser::$t for RecSeq<'_> {
            type Ok = FV;
            type Error = FErr;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), FErr> {
                self.add(v)
            }
            fn end(self) -> Result<FV, FErr> {
                self.done()
            }
        }
    )*};
}
rec_seq! { SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field }
impl ser::SerializeMap for RecMap<'_> {
    type Ok = FV;
    type Error = FErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), FErr> {
        self.t.0.tick()?;
        if self.key.is_some() {
            return Err(FErr::Custom("recorder: two keys in a row".into()));
        }
        self.key = Some(v.serialize(self.t)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), FErr> {
        self.t.0.tick()?;
        let Some(k) = self.key.take() else {
            return Err(FErr::Custom("recorder: a value without key".into()));
        };
        self.out.push((k, v.serialize(self.t)?));
        Ok(())
    }
    fn end(self) -> Result<FV, FErr> {
        self.t.0.tick()?;
        if self.key.is_some() {
            return Err(FErr::Custom("recorder: a key without value".into()));
        }
        Ok(FV::Map(self.len, self.out))
    }
}
impl RecStruct<'_> {
    fn done(self) -> Result<FV, FErr> {
        self.t.0.tick()?;
        Ok(match self.name {
            None => FV::Struct(self.out),
            Some(n) => FV::StructVar(n, self.out),
        })
    }
}
macro_rules! rec_struct {
    ($($t:ident)*) => {$(
        impl ser::$t for RecStruct<'_> {
            type Ok = FV;
            type Error = FErr;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), FErr> {
                self.t.0.tick()?;
                let x = v.serialize(self.t)?;
                self.out.push((n, x));
                Ok(())
            }
            fn end(self) -> Result<FV, FErr> {
                self.done()
            }
        }
    )*};
}
rec_struct! { SerializeStruct SerializeStructVariant }

pub fn record<T: Serialize + ?Sized>(v: &T, tape: &Tape) -> Result<FV, FErr> {
    v.serialize(Rec(tape))
}

// ----------------------------------------------------------------- player

#[derive(Default)]
struct Play {
    failed: Cell<bool>,
    after: Cell<bool>,
    binary: bool,
    /// Variants are told apart from other data only where an enum is asked for.
    json: bool,
}
#[derive(Copy, Clone)]
struct P<'a>(&'a FV, &'a Play);

impl<'de> P<'de> {
    fn with(self, v: &'de FV) -> P<'de> {
        P(v, self.1)
    }
    fn begin(self) {
        if self.1.failed.get() {
            self.1.after.set(true);
        }
    }
}
impl<'de> Deserializer<'de> for P<'de> {
    type Error = FErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, FErr> {
        self.begin();
        match self.0 {
            FV::Unit | FV::UnitStruct => v.visit_unit(),
            FV::None => v.visit_none(),
            FV::Some(x) => v.visit_some(self.with(x)),
            FV::Bool(b) => v.visit_bool(*b),
            FV::I(8, i) => v.visit_i8(*i as i8),
            FV::I(16, i) => v.visit_i16(*i as i16),
            FV::I(32, i) => v.visit_i32(*i as i32),
            FV::I(64, i) => v.visit_i64(*i as i64),
            FV::I(_, i) => v.visit_i128(*i),
            FV::U(8, i) => v.visit_u8(*i as u8),
            FV::U(16, i) => v.visit_u16(*i as u16),
            FV::U(32, i) => v.visit_u32(*i as u32),
            FV::U(64, i) => v.visit_u64(*i as u64),
            FV::U(_, i) => v.visit_u128(*i),
            FV::F32(f) => v.visit_f32(*f),
            FV::F64(f) => v.visit_f64(*f),
            FV::Char(c) => v.visit_char(*c),
            FV::Str(t, 0) => v.visit_str(t),
            FV::Str(t, 1) => v.visit_borrowed_str(t),
            FV::Str(t, _) => v.visit_string(t.clone()),
            FV::Bytes(b) => v.visit_bytes(b),
            FV::Seq(h, x) => v.visit_seq(PSeq(self, *h, x.iter())),
            FV::Tuple(x) | FV::TupStruct(x) => v.visit_seq(PSeq(self, Some(x.len()), x.iter())),
            FV::Map(h, x) => v.visit_map(PMap(self, *h, x.iter(), None)),
            FV::Struct(x) => v.visit_map(PStruct(self, x.iter(), None)),
            FV::Newtype(x) => v.visit_newtype_struct(self.with(x)),
            FV::UnitVar(n) if self.1.json => v.visit_str(n),
            FV::UnitVar(_) | FV::NewVar(..) | FV::TupVar(..) | FV::StructVar(..) => v.visit_enum(self),
            FV::Fail(n) => {
                self.1.failed.set(true);
                Err(FErr::Fail(*n))
            }
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, FErr> {
        match self.0 {
            FV::None | FV::Some(_) => self.deserialize_any(v),
            FV::Unit => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, FErr> {
        match self.0 {
            FV::Newtype(_) => self.deserialize_any(v),
            _ => v.visit_newtype_struct(self),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _n: &'static str, _v: &'static [&'static str], v: V) -> Result<V::Value, FErr> {
        match self.0 {
            FV::UnitVar(_) => v.visit_enum(self),
            _ => self.deserialize_any(v),
        }
    }
    fn is_human_readable(&self) -> bool {
        !self.1.binary
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
struct PSeq<'de>(P<'de>, Option<usize>, std::slice::Iter<'de, FV>);
impl<'de> SeqAccess<'de> for PSeq<'de> {
    type Error = FErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, FErr> {
        self.0.begin();
        self.2.next().map(|x| s.deserialize(self.0.with(x))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        self.1
    }
}
struct PMap<'de>(P<'de>, Option<usize>, std::slice::Iter<'de, (FV, FV)>, Option<&'de FV>);
impl<'de> MapAccess<'de> for PMap<'de> {
    type Error = FErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, FErr> {
        self.0.begin();
        match self.2.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.3 = Some(v);
                s.deserialize(self.0.with(k)).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, FErr> {
        self.0.begin();
        match self.3.take() {
            Some(v) => s.deserialize(self.0.with(v)),
            None => Err(FErr::Custom("player: no value here".into())),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.1
    }
}
struct PStruct<'de>(P<'de>, std::slice::Iter<'de, (&'static str, FV)>, Option<&'de FV>);
impl<'de> MapAccess<'de> for PStruct<'de> {
    type Error = FErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, FErr> {
        match self.1.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.2 = Some(v);
                s.deserialize(de::value::StrDeserializer::new(k)).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, FErr> {
        match self.2.take() {
            Some(v) => s.deserialize(self.0.with(v)),
            None => Err(FErr::Custom("player: no value here".into())),
        }
    }
}
impl<'de> EnumAccess<'de> for P<'de> {
    type Error = FErr;
    type Variant = P<'de>;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, P<'de>), FErr> {
        let (FV::UnitVar(n) | FV::NewVar(n, _) | FV::TupVar(n, _) | FV::StructVar(n, _)) = self.0 else { unreachable!() };
        Ok((s.deserialize(de::value::StrDeserializer::new(n))?, self))
    }
}
impl<'de> VariantAccess<'de> for P<'de> {
    type Error = FErr;
    fn unit_variant(self) -> Result<(), FErr> {
        match self.0 {
            FV::UnitVar(_) => Ok(()),
            _ => Err(FErr::Custom("player: the variant has content".into())),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, FErr> {
        match self.0 {
            FV::NewVar(_, x) => s.deserialize(self.with(x)),
            _ => Err(FErr::Custom("player: no newtype variant".into())),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _n: usize, v: V) -> Result<V::Value, FErr> {
        match self.0 {
            FV::TupVar(_, x) => v.visit_seq(PSeq(self, Some(x.len()), x.iter())),
            _ => Err(FErr::Custom("player: no tuple variant".into())),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, _f: &'static [&'static str], v: V) -> Result<V::Value, FErr> {
        match self.0 {
            FV::StructVar(_, x) => v.visit_map(PStruct(self, x.iter(), None)),
            _ => Err(FErr::Custom("player: no struct variant".into())),
        }
    }
}

// ------------------------------------------------------------------ read

fn string_fv(s: &mut Source, t: String) -> FV {
    FV::Str(t, s.below(3) as u8)
}
pub fn gen_fv(s: &mut Source, depth: usize) -> FV {
    let deep = if depth > 0 { 6 } else { 0 };
    match s.weighted(&[2, 2, 2, 4, 2, 8, 1, deep, deep, 2, 1, 1]) {
        0 => FV::Unit,
        1 => FV::None,
        2 => FV::Bool(s.bool()),
        3 => {
            let bits = *s.pick(&[8u8, 16, 32, 64, 64, 128]);
            if s.bool() {
                let (lo, hi) = (i128::MIN >> (128 - bits), (i128::MAX >> (128 - bits)) as u128);
                let (n, m) = gen::int_in(s, lo, hi);
                FV::I(bits, if n { (m as i128).wrapping_neg() } else { m as i128 })
            } else {
                FV::U(bits, gen::int_in(s, 0, u128::MAX >> (128 - bits)).1)
            }
        }
        4 => {
            let f = gen::f64s(s);
            if s.bool() {
                FV::F32(f as f32)
            } else {
                FV::F64(f)
            }
        }
        5 => {
            let t = if s.bool() { gen::word(s) } else { gen::string(s) };
            string_fv(s, t)
        }
        6 => FV::Char(gen::any_char(s)),
        7 => {
            let mut v = vec![];
            while s.more(v.len(), 2, 6) {
                v.push(gen_fv(s, depth - 1));
            }
            FV::Seq(hint(s, v.len()), v)
        }
        8 => {
            let mut v = vec![];
            while s.more(v.len(), 2, 6) {
                let kd = if s.chance(1, 8) { depth - 1 } else { 0 };
                let k = gen_fv(s, kd);
                v.push((k, gen_fv(s, depth - 1)));
            }
            FV::Map(hint(s, v.len()), v)
        }
        9 => {
            if s.bool() {
                let d = depth.saturating_sub(1);
                return FV::Some(Box::new(gen_fv(s, d)));
            }
            let n = if s.chance(1, 12) { String::new() } else { gen::tag(s) };
            let n = intern(&n);
            let x = gen_fv(s, depth.saturating_sub(1));
            if s.chance(1, 10) {
                FV::UnitVar(n)
            } else {
                FV::NewVar(n, Box::new(x))
            }
        }
        10 => match s.below(3) {
            0 => FV::Bytes(gen::word(s).into_bytes()),
            1 => FV::UnitStruct,
            _ => FV::Newtype(Box::new(gen_fv(s, 0))),
        },
        _ => FV::Fail(s.below(1000) as u32),
    }
}
fn hint(s: &mut Source, n: usize) -> Option<usize> {
    *s.pick(&[Some(n), Some(n), None, Some(0), Some(n + 1), Some(usize::MAX), Some(1 << 40)])
}

#[derive(Debug)]
enum Why {
    /// The format's own failure.
    Fail(u32),
    /// A key twice.
    Dup,
    /// Nothing a Value can be.
    Unfit,
}

fn value_of(f: &FV) -> Result<MV, Why> {
    Ok(match f {
        FV::Unit | FV::UnitStruct | FV::None => MV::Null,
        FV::Some(x) => value_of(x)?,
        FV::Bool(b) => MV::Bool(*b),
        FV::I(128, _) | FV::U(128, _) => return Err(Why::Unfit),
        FV::I(_, i) => MV::Int(*i),
        FV::U(_, i) => MV::Int(*i as i128),
        FV::F32(x) => MV::Float(f64::from(*x)),
        FV::F64(x) => MV::Float(*x),
        FV::Char(c) => MV::Str(c.to_string()),
        FV::Str(t, _) => MV::Str(t.clone()),
        FV::Seq(_, v) => MV::Seq(v.iter().map(value_of).collect::<Result<_, _>>()?),
        FV::Map(_, v) => map_of(v)?,
        FV::NewVar(n, x) => {
            if n.is_empty() {
                return Err(Why::Unfit);
            }
            let n = n.strip_prefix('!').filter(|x| !x.is_empty()).unwrap_or(n);
            MV::Tag(n.to_string(), Box::new(value_of(x)?))
        }
        FV::Fail(n) => return Err(Why::Fail(*n)),
        _ => return Err(Why::Unfit),
    })
}
fn map_of(v: &[(FV, FV)]) -> Result<MV, Why> {
    let mut m: Vec<(MV, MV)> = vec![];
    for (k, x) in v {
        let k = value_of(k)?;
        if m.iter().any(|e| loosely(&e.0, &k)) {
            return Err(Why::Dup);
        }
        m.push((k, value_of(x)?));
    }
    Ok(MV::Map(m))
}

pub fn nodes(f: &FV) -> usize {
    1 + match f {
        FV::Some(x) | FV::Newtype(x) | FV::NewVar(_, x) => nodes(x),
        FV::Seq(_, v) => v.iter().map(nodes).sum(),
        FV::Map(_, v) => v.iter().map(|(a, b)| nodes(a) + nodes(b)).sum(),
        _ => 0,
    }
}

fn c30_read(s: &mut Source, c: &mut Ctx) -> PResult {
    let depth = 1 + (s.size / 30) as usize;
    let f = match s.below(8) {
        0..=2 => gen_fv(s, depth),
        3 | 4 => {
            let mut v = vec![];
            while s.more(v.len(), 3, 8) {
                v.push(gen_fv(s, depth));
            }
            FV::Seq(hint(s, v.len()), v)
        }
        _ => {
            let mut v = vec![];
            while s.more(v.len(), 3, 8) {
                let k = gen_fv(s, 0);
                v.push((k, gen_fv(s, depth)));
            }
            if v.len() > 1 && s.chance(1, 6) {
                let i = s.below(v.len() - 1);
                let k = v[i].0.clone();
                v.last_mut().unwrap().0 = k;
            }
            FV::Map(hint(s, v.len()), v)
        }
    };
    let play = Play { binary: s.chance(1, 3), ..Play::default() };
    let p = P(&f, &play);
    let value = |v: Value| MV::of(&v);
    let target = s.weighted(&[8, 3, 2, 2, 2, 1]);
    c.input(&format!("{} from {f:?}", ["Value", "Mapping", "Sequence", "Number", "TaggedValue", "Option<Value>"][target]));
    c.nt_if(nodes(&f) >= 3);
    let want = match (target, &f) {
        (0, _) => value_of(&f),
        (1, FV::Unit | FV::UnitStruct) => Ok(MV::Map(vec![])),
        (1, FV::Map(_, v)) => map_of(v),
        (2, FV::Seq(..)) => value_of(&f),
        (3, FV::I(..) | FV::U(..) | FV::F32(_) | FV::F64(_)) => value_of(&f),
        (4, FV::NewVar(..)) => value_of(&f),
        (5, FV::Newtype(_)) => Err(Why::Unfit),
        (5, _) => value_of(&f),
        (_, FV::Fail(n)) => Err(Why::Fail(*n)),
        _ => Err(Why::Unfit),
    };
    let got = match target {
        0 => Value::deserialize(p).map(value),
        1 => Mapping::deserialize(p).map(|m| value(Value::Mapping(m))),
        2 => Sequence::deserialize(p).map(|m| value(Value::Sequence(m))),
        3 => Number::deserialize(p).map(|n| num(&n)),
        4 => TaggedValue::deserialize(p).map(|t| value(Value::Tagged(Box::new(t)))),
        _ => Option::<Value>::deserialize(p).map(|o| o.map_or(MV::Null, value)),
    };
    ensure!(c, !play.after.get(), "reads-after-failure", "the format was asked for more after it had failed");
    match (want, got) {
        (Ok(w), Ok(g)) => {
            c.label("read");
            ensure!(c, same(&g, &w), "foreign-data", "read as {}\ninstead of {}", show(&g), show(&w));
        }
        (Err(w), Ok(g)) => fail!("foreign-accepted", "read as {} although {w:?}", show(&g)),
        (Ok(w), Err(e)) => fail!("foreign-refused", "{e} instead of {}", show(&w)),
        (Err(Why::Fail(n)), Err(e)) => {
            c.label("failed");
            ensure!(c, e == FErr::Fail(n), "failure-altered", "the format failed with {n}, reported is {e:?}");
        }
        (Err(w), Err(e)) => {
            c.label("refused");
            let FErr::Custom(m) = &e else { fail!("failure-invented", "{e:?} instead of {w:?}") };
            ensure!(c, !matches!(w, Why::Dup) || m.contains("duplicate"), "duplicate-message", "{m}");
        }
    }
    Ok(())
}

// ----------------------------------------------------------------- write

/// What a Value says to any format.
fn said(v: &MV) -> FV {
    match v {
        MV::Null => FV::Unit,
        MV::Bool(b) => FV::Bool(*b),
        MV::Int(i) if *i < 0 => FV::I(64, *i),
        MV::Int(i) => FV::U(64, *i as u128),
        MV::Float(f) => FV::F64(*f),
        MV::Str(t) => FV::Str(t.clone(), 0),
        MV::Seq(v) => FV::Seq(Some(v.len()), v.iter().map(said).collect()),
        MV::Map(v) => FV::Map(Some(v.len()), v.iter().map(|(a, b)| (said(a), said(b))).collect()),
        MV::Tag(t, x) => FV::Map(Some(1), vec![(FV::Str(format!("!{t}"), 0), said(x))]),
    }
}
/// Equal calls, floats by their bits.
fn equal(a: &FV, b: &FV) -> bool {
    match (a, b) {
        (FV::F64(x), FV::F64(y)) => feq(*x, *y),
        (FV::Seq(h, x), FV::Seq(i, y)) => h == i && x.len() == y.len() && x.iter().zip(y).all(|(a, b)| equal(a, b)),
        (FV::Map(h, x), FV::Map(i, y)) => h == i && x.len() == y.len() && x.iter().zip(y).all(|(a, b)| equal(&a.0, &b.0) && equal(&a.1, &b.1)),
        (FV::Seq(..) | FV::Map(..), _) => false,
        _ => format!("{a:?}") == format!("{b:?}"),
    }
}
fn calls_of(f: &FV) -> u32 {
    match f {
        FV::Seq(_, v) => 2 + v.iter().map(|x| 1 + calls_of(x)).sum::<u32>(),
        FV::Map(_, v) => 2 + v.iter().map(|(a, b)| 2 + calls_of(a) + calls_of(b)).sum::<u32>(),
        _ => 1,
    }
}

fn c30_write(s: &mut Source, c: &mut Ctx) -> PResult {
    let o = VOpts { nest: true, ..VOpts::full(s) };
    let m = gen::value(s, &o);
    let v = m.to_value();
    c.input(&show(&m));
    c.nt_if(m.nodes() >= 3);
    let m = MV::of(&v);
    let want = said(&m);
    let tape = Tape { binary: s.chance(1, 3), ..Tape::default() };
    let got = match (&v, s.bool()) {
        (Value::Mapping(x), true) => record(x, &tape),
        (Value::Sequence(x), true) => record(x, &tape),
        (Value::Number(x), true) => record(x, &tape),
        (Value::Tagged(x), true) => record(x, &tape),
        _ => record(&v, &tape),
    };
    match &got {
        Ok(g) => ensure!(c, equal(g, &want), "foreign-calls", "{v:?} says {g:?}\ninstead of {want:?}"),
        Err(e) => fail!("foreign-write-error", "{e:?}"),
    }
    // And back, where nothing is tagged.
    if !m.any(&mut |x| matches!(x, MV::Tag(..))) {
        let play = Play { binary: tape.binary, ..Play::default() };
        match Value::deserialize(P(&want, &play)) {
            Ok(b) => ensure!(c, same(&MV::of(&b), &m), "foreign-roundtrip", "{v:?} comes back as {b:?}"),
            Err(e) => fail!("foreign-roundtrip-error", "{e}"),
        }
        c.label("roundtrip");
    }
    // A format that fails.
    let n = calls_of(&want);
    let at = s.below(n as usize) as u32;
    let tape = Tape { fuse: Cell::new(Some(at)), ..Tape::default() };
    let got = record(&v, &tape);
    ensure!(c, got.as_ref().is_err_and(|e| *e == FErr::Fail(0)), "write-failure-lost", "call {at} of {n} fails, the outcome is {got:?}");
    ensure!(c, !tape.after.get(), "writes-after-failure", "more was written after call {at} of {n} failed");
    Ok(())
}

// ----------------------------------------------------------------- forms

/// The data that recorded calls hold.
fn data(f: &FV) -> MV {
    let fields = |v: &[(&'static str, FV)]| MV::Map(v.iter().map(|(n, x)| (MV::str(n), data(x))).collect());
    match f {
        FV::Unit | FV::UnitStruct | FV::None => MV::Null,
        FV::Some(x) | FV::Newtype(x) => data(x),
        FV::Bool(b) => MV::Bool(*b),
        FV::I(_, i) => MV::Int(*i),
        FV::U(_, i) => i128::try_from(*i).map_or_else(|_| MV::Str(i.to_string()), MV::Int),
        FV::F32(x) => MV::Float(f64::from(*x)),
        FV::F64(x) => MV::Float(*x),
        FV::Char(c) => MV::Str(c.to_string()),
        FV::Str(t, _) => MV::Str(t.clone()),
        FV::Bytes(b) => MV::Seq(b.iter().map(|x| MV::Int((*x).into())).collect()),
        FV::Seq(_, v) | FV::Tuple(v) | FV::TupStruct(v) => MV::Seq(v.iter().map(data).collect()),
        FV::Map(_, v) => MV::Map(v.iter().map(|(a, b)| (data(a), data(b))).collect()),
        FV::Struct(v) => fields(v),
        FV::UnitVar(n) => MV::str(n),
        FV::NewVar(n, x) => MV::Tag(n.to_string(), Box::new(data(x))),
        FV::TupVar(n, v) => MV::Tag(n.to_string(), Box::new(MV::Seq(v.iter().map(data).collect()))),
        FV::StructVar(n, v) => MV::Tag(n.to_string(), Box::new(fields(v))),
        FV::Fail(_) => MV::Null,
    }
}

/// An enum in its default form within the fields of a tuple or struct variant
/// that goes through singleton_map: these are made into Values first, and a
/// tagged Value is nothing other formats have.
fn tag_in_fields(t: &Ty, m: Mode, made: bool) -> bool {
    match t {
        Ty::With(r, t) => tag_in_fields(t, m.with(*r), made),
        Ty::Opt(t) => tag_in_fields(t, m, made),
        Ty::Enum(vs) => {
            (made && !m.map())
                || vs.iter().any(|(_, k)| match k {
                    Var::Unit => false,
                    Var::New(t) => tag_in_fields(t, m.below(), made),
                    Var::Tuple(v) => v.iter().any(|t| tag_in_fields(t, m.below(), made || m.map())),
                    Var::Struct(v) => v.iter().any(|t| tag_in_fields(&t.1, m.below(), made || m.map())),
                })
        }
        _ => {
            let mut hit = false;
            enums::each_mut(&mut t.clone(), &mut |x| hit |= tag_in_fields(x, m.below(), made));
            hit
        }
    }
}

fn true_lengths(f: &FV) -> bool {
    match f {
        FV::Some(x) | FV::Newtype(x) | FV::NewVar(_, x) => true_lengths(x),
        FV::Seq(h, v) => *h == Some(v.len()) && v.iter().all(true_lengths),
        FV::Tuple(v) | FV::TupStruct(v) | FV::TupVar(_, v) => v.iter().all(true_lengths),
        FV::Map(h, v) => *h == Some(v.len()) && v.iter().all(|(a, b)| true_lengths(a) && true_lengths(b)),
        FV::Struct(v) | FV::StructVar(_, v) => v.iter().all(|x| true_lengths(&x.1)),
        _ => true,
    }
}

fn c30_forms(s: &mut Source, c: &mut Ctx) -> PResult {
    let (t, v) = enums::typed(s);
    if ty::any_ty(&t, &mut |x| matches!(x, Ty::Any | Ty::Int(128, _))) || enums::site_in_rec(&t, Mode::default()) || tag_in_fields(&t, Mode::default(), false) {
        c.label("left-out");
        c.discard = true;
        return Ok(());
    }
    c.input(&format!("{} = {}", show_ty(&t), show_val(&v)));
    let mut sh = Shape::default();
    let call = sh.of(&t, &v, Mode::default());
    let with = ty::any_ty(&t, &mut |x| matches!(x, Ty::With(..)));
    c.nt_if(with && sh.content > 0);
    let tape = Tape { binary: s.chance(1, 3), ..Tape::default() };
    let f = match record(&TV(&t, &v), &tape) {
        Ok(f) => f,
        Err(e) => fail!("forms-write-error", "{e}"),
    };
    ensure!(c, true_lengths(&f), "forms-length", "a length is not what was announced, or not announced: {f:?}");
    let mut e = Expect { text: false, huge: false, dup: false };
    let want = e.of(&call, false).unwrap_or(MV::Null);
    let g = data(&f);
    ensure!(c, e.dup || same_f32(&g, &want), "forms-shape", "written is {}\ninstead of {}", show(&g), show(&want));
    if e.dup {
        return Ok(());
    }
    let play = Play { binary: tape.binary, json: true, ..Play::default() };
    match Seed(&t).deserialize(P(&f, &play)) {
        Ok(b) => ensure!(c, veq(&b, &v), "forms-roundtrip", "{f:?}\ncomes back as {}", show_val(&b)),
        Err(e) => fail!("forms-roundtrip-error", "{e}\n{f:?}"),
    }
    Ok(())
}

// ------------------------------------------------------------- transcode

impl Serialize for FV {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            FV::Unit => s.serialize_unit(),
            FV::None => s.serialize_none(),
            FV::Bool(b) => s.serialize_bool(*b),
            FV::I(_, i) => s.serialize_i128(*i),
            FV::U(_, i) => s.serialize_u128(*i),
            FV::F64(f) => s.serialize_f64(*f),
            FV::Str(t, _) => s.serialize_str(t),
            FV::Seq(_, v) => s.collect_seq(v),
            FV::Map(_, v) => s.collect_map(v.iter().map(|(a, b)| (a, b))),
            FV::NewVar(n, x) => s.serialize_newtype_variant("E", 0, n, x),
            x => Err(ser::Error::custom(format!("harness: {x:?}"))),
        }
    }
}
impl<'de> Deserialize<'de> for FV {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<FV, D::Error> {
        struct V;
        macro_rules! put {
            ($($f:ident $t:ty, |$v:ident| $e:expr;)*) => {$(
                fn $f<E: de::Error>(self, $v: $t) -> Result<FV, E> {
                    Ok($e)
                }
            )*};
        }
        impl<'de> Visitor<'de> for V {
            type Value = FV;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("data")
            }
            put! {
                visit_bool bool, |v| FV::Bool(v);
                visit_i64 i64, |v| FV::I(64, v.into());
                visit_u64 u64, |v| FV::U(64, v.into());
                visit_i128 i128, |v| FV::I(128, v);
                visit_u128 u128, |v| FV::U(128, v);
                visit_f64 f64, |v| FV::F64(v);
                visit_str &str, |v| FV::Str(v.to_string(), 0);
            }
            fn visit_unit<E: de::Error>(self) -> Result<FV, E> {
                Ok(FV::Unit)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<FV, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(FV::Seq(None, v))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<FV, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(FV::Map(None, v))
            }
            fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<FV, A::Error> {
                let (n, x) = a.variant::<String>()?;
                Ok(FV::NewVar(intern(&n), Box::new(x.newtype_variant()?)))
            }
        }
        d.deserialize_any(V)
    }
}

fn has_wide(f: &FV) -> bool {
    match f {
        FV::I(_, i) => i64::try_from(*i).is_err(),
        FV::U(_, i) => u64::try_from(*i).is_err(),
        FV::Some(x) | FV::Newtype(x) | FV::NewVar(_, x) => has_wide(x),
        FV::Seq(_, v) => v.iter().any(has_wide),
        FV::Map(_, v) => v.iter().any(|(a, b)| has_wide(a) || has_wide(b)),
        _ => false,
    }
}
fn repeats(m: &MV) -> bool {
    m.any(&mut |x| matches!(x, MV::Map(v) if has_dup(v)))
}

fn c30_transcode(s: &mut Source, c: &mut Ctx) -> PResult {
    let depth = 1 + (s.size / 25) as usize;
    let mut n = near::Near::new(0, *s.pick(&[0, 100]));
    let root = if s.chance(1, 3) { n.node(s, &Ty::Any) } else { near::any_node(s, depth) };
    let text = near::document(s, &root);
    c.input(&format!("{text:?}"));
    let f = serde_yaml::from_str::<FV>(&text);
    let v = serde_yaml::from_str::<Value>(&text);
    match (f, v) {
        (Ok(f), Ok(v)) => {
            c.label("read");
            c.nt_if(nodes(&f) >= 3);
            let m = data(&f);
            let m = retag(&m);
            ensure!(c, same(&m, &MV::of(&v)), "other-data", "read into another format's data: {}\nas a Value: {v:?}\n{text}", show(&m));
            let (a, b) = (serde_yaml::to_string(&f), serde_yaml::to_string(&v));
            match (a, b) {
                (Ok(a), Ok(b)) => ensure!(c, a == b, "other-text", "written as\n{a}\nand as Value\n{b}"),
                (Err(a), Err(b)) => ensure!(c, a.to_string() == b.to_string(), "other-write-error", "{a} against {b}"),
                (Ok(a), Err(e)) => fail!("value-write-error", "the Value is refused ({e}), the data written as\n{a}"),
                (Err(e), Ok(b)) => fail!("data-write-error", "the data is refused ({e}), the Value written as\n{b}"),
            }
            // Into a Value by way of the data.
            match serde_yaml::to_value(&f) {
                Ok(w) => ensure!(c, same(&MV::of(&w), &MV::of(&v)), "other-value", "{w:?} instead of {v:?}"),
                Err(e) => fail!("other-value-error", "{e}"),
            }
        }
        (Err(_), Err(_)) => c.checked(),
        (Ok(f), Err(e)) => {
            // A Value holds no key twice, no integer beyond 64 bits, no empty tag.
            ensure!(c, has_wide(&f) || repeats(&retag(&data(&f))), "value-refused", "{e}, but read into another format's data: {f:?}\n{text}");
        }
        (Err(e), Ok(v)) => fail!("data-refused", "{e}, but read as {v:?}\n{text}"),
    }
    Ok(())
}
fn retag(m: &MV) -> MV {
    match m {
        MV::Seq(v) => MV::Seq(v.iter().map(retag).collect()),
        MV::Map(v) => MV::Map(v.iter().map(|(a, b)| (retag(a), retag(b))).collect()),
        MV::Tag(t, x) => MV::Tag(t.strip_prefix('!').filter(|x| !x.is_empty()).unwrap_or(t).to_string(), Box::new(retag(x))),
        x => x.clone(),
    }
}

// -------------------------------------------------------------- readable

/// Writes and remembers whether the format says that it is human readable.
#[derive(Clone, Copy, Debug)]
struct Probe {
    wrote: bool,
    read: bool,
}
impl Serialize for Probe {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let h = s.is_human_readable();
        s.serialize_bool(h)
    }
}
impl<'de> Deserialize<'de> for Probe {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Probe, D::Error> {
        let read = d.is_human_readable();
        Ok(Probe { wrote: bool::deserialize(d)?, read })
    }
}
#[derive(serde::Serialize, serde::Deserialize, Debug)]
enum Told {
    Unit,
    New(Probe),
    Opt(Option<Probe>),
    Seq(Vec<Probe>),
    Map(std::collections::BTreeMap<String, Probe>),
    Pair((Probe, Probe)),
    Tuple(Probe, Probe),
    Struct { a: Probe, b: Option<Probe> },
    Wrap(ToldIn),
}
#[derive(serde::Serialize, serde::Deserialize, Debug)]
struct ToldIn {
    p: Probe,
    q: Option<Box<Told>>,
    r: Vec<Told>,
}
#[derive(serde::Serialize, serde::Deserialize, Debug)]
struct ToldMap {
    before: Probe,
    #[serde(with = "serde_yaml::with::singleton_map")]
    e: Told,
    #[serde(with = "serde_yaml::with::singleton_map")]
    after: Probe,
}
#[derive(serde::Serialize, serde::Deserialize, Debug)]
struct ToldRec {
    before: Probe,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    e: ToldIn,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    after: Probe,
}
fn told(s: &mut Source, depth: usize) -> Told {
    let p = Probe { wrote: true, read: true };
    match s.below(if depth == 0 { 8 } else { 11 }) {
        0 => Told::Unit,
        1 => Told::New(p),
        2 => Told::Opt(if s.bool() { Some(p) } else { None }),
        3 => Told::Seq(vec![p; s.below(3)]),
        4 => Told::Map((0..s.below(3)).map(|i| (format!("k{i}"), p)).collect()),
        5 => Told::Pair((p, p)),
        6 => Told::Tuple(p, p),
        7 => Told::Struct { a: p, b: if s.bool() { Some(p) } else { None } },
        _ => Told::Wrap(told_in(s, depth - 1)),
    }
}
fn told_in(s: &mut Source, depth: usize) -> ToldIn {
    let mut r = vec![];
    while s.more(r.len(), 1, 3) {
        r.push(told(s, depth));
    }
    let q = if s.bool() { Some(Box::new(told(s, depth))) } else { None };
    ToldIn { p: Probe { wrote: true, read: true }, q, r }
}
/// All probes, with whether they are in a field that becomes a Value first.
fn probes(t: &Told, map: bool, rec: bool, made: bool, out: &mut Vec<(bool, Probe)>) {
    match t {
        Told::Unit => {}
        Told::New(p) => out.push((made, *p)),
        Told::Opt(p) => out.extend(p.iter().map(|p| (made, *p))),
        Told::Seq(v) => out.extend(v.iter().map(|p| (made, *p))),
        Told::Map(m) => out.extend(m.values().map(|p| (made, *p))),
        Told::Pair((p, q)) => out.extend([(made, *p), (made, *q)]),
        Told::Tuple(p, q) => out.extend([(made || map, *p), (made || map, *q)]),
        Told::Struct { a, b } => {
            out.push((made || map, *a));
            out.extend(b.iter().map(|p| (made || map, *p)));
        }
        Told::Wrap(w) => probes_in(w, rec, made, out),
    }
}
fn probes_in(w: &ToldIn, rec: bool, made: bool, out: &mut Vec<(bool, Probe)>) {
    out.push((made, w.p));
    for t in w.q.iter().map(|q| &**q).chain(&w.r) {
        probes(t, rec, rec, made, out);
    }
}

fn c30_readable(s: &mut Source, c: &mut Ctx) -> PResult {
    fn go<T: Serialize + serde::de::DeserializeOwned + fmt::Debug>(s: &mut Source, c: &mut Ctx, x: &T, list: impl Fn(&T) -> Vec<(bool, Probe)>) -> PResult {
        let binary = s.bool();
        c.input(&format!("{x:?} for {}", if binary { "machines" } else { "humans" }));
        c.nt_if(list(x).len() >= 3);
        let tape = Tape { binary, ..Tape::default() };
        let f = match record(x, &tape) {
            Ok(f) => f,
            Err(e) => fail!("readable-write-error", "{e}"),
        };
        let play = Play { binary, json: true, ..Play::default() };
        let y = match T::deserialize(P(&f, &play)) {
            Ok(y) => y,
            Err(e) => fail!("readable-read-error", "{e}: {f:?}"),
        };
        let got = list(&y);
        ensure!(c, got.len() == list(x).len(), "readable-other", "{x:?} comes back as {y:?}");
        for (made, p) in got {
            ensure!(c, p.read != binary, "reading-not-told-format", "asked for is_human_readable while reading, {} is answered: {f:?}", p.read);
            ensure!(c, p.wrote != binary, if made { "fields-not-told-format" } else { "writing-not-told-format" }, "asked for is_human_readable while writing, {} is answered: {f:?}", p.wrote);
        }
        // YAML is for humans, and so are Values.
        let mut back = vec![];
        match serde_yaml::to_string(x).and_then(|t| serde_yaml::from_str::<T>(&t)) {
            Ok(y) => back.push(y),
            Err(e) => fail!("readable-text-error", "{e}"),
        }
        match serde_yaml::to_value(x).and_then(|v| Ok((T::deserialize(&v)?, serde_yaml::from_value::<T>(v)?))) {
            Ok((a, b)) => back.extend([a, b]),
            Err(e) => fail!("readable-value-error", "{e}"),
        }
        for y in &back {
            ensure!(c, list(y).len() == list(x).len() && list(y).iter().all(|(_, p)| p.read && p.wrote), "yaml-not-readable", "{y:?}");
        }
        Ok(())
    }
    let p = Probe { wrote: true, read: true };
    if s.bool() {
        let x = ToldMap { before: p, e: told(s, 2), after: p };
        go(s, c, &x, |x| {
            let mut out = vec![(false, x.before), (false, x.after)];
            probes(&x.e, true, false, false, &mut out);
            out
        })
    } else {
        let x = ToldRec { before: p, e: told_in(s, 2), after: p };
        go(s, c, &x, |x| {
            let mut out = vec![(false, x.before), (false, x.after)];
            probes_in(&x.e, true, false, &mut out);
            out
        })
    }
}
