//! What is no enum goes through the `singleton_map` forms as if they were not
//! there: the same calls, the same answers, the same failures.

use super::foreign::{gen_fv, nodes, record, FErr, Tape, FV};
use crate::engine::*;
use crate::ensure;
use crate::ty::intern;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, SerializeTupleStruct, Serializer};
use serde_yaml::with::{singleton_map, singleton_map_recursive};
use std::cell::{Cell, RefCell};
use std::fmt;

// ---------------------------------------------------------------- writing

/// A tree that makes exactly its own calls.
struct Say<'a>(&'a FV);
impl Serialize for Say<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            FV::Unit => s.serialize_unit(),
            FV::UnitStruct => s.serialize_unit_struct("U"),
            FV::None => s.serialize_none(),
            FV::Some(x) => s.serialize_some(&Say(x)),
            FV::Bool(b) => s.serialize_bool(*b),
            FV::I(8, i) => s.serialize_i8(*i as i8),
            FV::I(16, i) => s.serialize_i16(*i as i16),
            FV::I(32, i) => s.serialize_i32(*i as i32),
            FV::I(64, i) => s.serialize_i64(*i as i64),
            FV::I(_, i) => s.serialize_i128(*i),
            FV::U(8, i) => s.serialize_u8(*i as u8),
            FV::U(16, i) => s.serialize_u16(*i as u16),
            FV::U(32, i) => s.serialize_u32(*i as u32),
            FV::U(64, i) => s.serialize_u64(*i as u64),
            FV::U(_, i) => s.serialize_u128(*i),
            FV::F32(f) => s.serialize_f32(*f),
            FV::F64(f) => s.serialize_f64(*f),
            FV::Char(c) => s.serialize_char(*c),
            FV::Str(t, 2) => s.collect_str(t),
            FV::Str(t, _) => s.serialize_str(t),
            FV::Bytes(b) => s.serialize_bytes(b),
            FV::Seq(h, v) => {
                let mut q = s.serialize_seq(*h)?;
                for x in v {
                    q.serialize_element(&Say(x))?;
                }
                q.end()
            }
            FV::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(&Say(x))?;
                }
                q.end()
            }
            FV::TupStruct(v) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for x in v {
                    q.serialize_field(&Say(x))?;
                }
                q.end()
            }
            FV::Map(h, v) => {
                let mut q = s.serialize_map(*h)?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Say(k), &Say(x))?;
                    } else {
                        q.serialize_key(&Say(k))?;
                        q.serialize_value(&Say(x))?;
                    }
                }
                q.end()
            }
            FV::Struct(v) => {
                let mut q = s.serialize_struct("S", v.len())?;
                for (n, x) in v {
                    q.serialize_field(n, &Say(x))?;
                }
                q.end()
            }
            FV::Newtype(x) => s.serialize_newtype_struct("N", &Say(x)),
            x => Err(serde::ser::Error::custom(format!("harness: {x:?}"))),
        }
    }
}
struct Form<'a>(&'a FV, bool);
impl Serialize for Form<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.1 {
            singleton_map_recursive::serialize(&Say(self.0), s)
        } else {
            singleton_map::serialize(&Say(self.0), s)
        }
    }
}

// ---------------------------------------------------------------- reading

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    /// What each datum in turn asks for, and whether it refuses what it gets.
    static PLAN: RefCell<Vec<(u8, bool)>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
}
fn log(t: impl Into<String>) {
    LOG.with(|l| l.borrow_mut().push(t.into()));
}

/// The format: it logs what it is asked for, and plays its tree.
#[derive(Copy, Clone)]
struct Q<'a>(&'a FV, bool);
impl<'de> Q<'de> {
    fn at(self, v: &'de FV) -> Q<'de> {
        Q(v, self.1)
    }
    fn play<V: Visitor<'de>>(self, v: V) -> Result<V::Value, FErr> {
        match self.0 {
            FV::Unit | FV::UnitStruct => v.visit_unit(),
            FV::None => v.visit_none(),
            FV::Some(x) => v.visit_some(self.at(x)),
            FV::Bool(b) => v.visit_bool(*b),
            FV::I(8, i) => v.visit_i8(*i as i8),
            FV::I(16, i) => v.visit_i16(*i as i16),
            FV::I(32, i) => v.visit_i32(*i as i32),
            FV::I(64, i) => v.visit_i64(*i as i64),
            FV::I(_, i) => v.visit_i128(*i),
            FV::U(8, i) => v.visit_u8(*i as u8),
            FV::U(16, i) => v.visit_u16(*i as u16),
            FV::U(32, i) => v.visit_u32(*i as u32),
            FV::U(64, i) => v.visit_u64(*i as u64),
            FV::U(_, i) => v.visit_u128(*i),
            FV::F32(f) => v.visit_f32(*f),
            FV::F64(f) => v.visit_f64(*f),
            FV::Char(c) => v.visit_char(*c),
            FV::Str(t, 0) => v.visit_str(t),
            FV::Str(t, 1) => v.visit_borrowed_str(t),
            FV::Str(t, _) => v.visit_string(t.clone()),
            FV::Bytes(b) => match b.len() % 3 {
                0 => v.visit_bytes(b),
                1 => v.visit_borrowed_bytes(b),
                _ => v.visit_byte_buf(b.clone()),
            },
            FV::Seq(_, x) | FV::Tuple(x) | FV::TupStruct(x) => v.visit_seq(QSeq(self, x.iter())),
            FV::Map(_, x) => v.visit_map(QMap(self, x.iter(), None)),
            FV::Newtype(x) => v.visit_newtype_struct(self.at(x)),
            FV::Fail(n) => Err(FErr::Fail(*n)),
            x => Err(FErr::Custom(format!("harness: {x:?}"))),
        }
    }
}
macro_rules! asks {
    ($($f:ident($($a:ident: $t:ty),*))*) => {$(
        fn $f<V: Visitor<'de>>(self, $($a: $t,)* v: V) -> Result<V::Value, FErr> {
            #[allow(unused_mut)]
            let mut t = stringify!($f).to_string();
            $(t += &format!(" {:?}", $a);)*
            log(t);
            self.play(v)
        }
    )*};
}
impl<'de> Deserializer<'de> for Q<'de> {
    type Error = FErr;
    asks! {
        deserialize_any() deserialize_bool()
        deserialize_i8() deserialize_i16() deserialize_i32() deserialize_i64() deserialize_i128()
        deserialize_u8() deserialize_u16() deserialize_u32() deserialize_u64() deserialize_u128()
        deserialize_f32() deserialize_f64() deserialize_char() deserialize_str() deserialize_string()
        deserialize_bytes() deserialize_byte_buf() deserialize_unit() deserialize_unit_struct(n: &'static str)
        deserialize_seq() deserialize_tuple(n: usize) deserialize_tuple_struct(n: &'static str, l: usize)
        deserialize_map() deserialize_struct(n: &'static str, f: &'static [&'static str])
        deserialize_enum(n: &'static str, f: &'static [&'static str])
        deserialize_identifier() deserialize_ignored_any()
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, FErr> {
        log("deserialize_option");
        match self.0 {
            FV::None | FV::Some(_) | FV::Fail(_) => self.play(v),
            FV::Unit => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, FErr> {
        log(format!("deserialize_newtype_struct {n}"));
        match self.0 {
            FV::Newtype(_) | FV::Fail(_) => self.play(v),
            _ => v.visit_newtype_struct(self),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.1
    }
}
struct QSeq<'de>(Q<'de>, std::slice::Iter<'de, FV>);
impl<'de> SeqAccess<'de> for QSeq<'de> {
    type Error = FErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, FErr> {
        log("next element");
        self.1.next().map(|x| s.deserialize(self.0.at(x))).transpose()
    }
}
struct QMap<'de>(Q<'de>, std::slice::Iter<'de, (FV, FV)>, Option<&'de FV>);
impl<'de> MapAccess<'de> for QMap<'de> {
    type Error = FErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, FErr> {
        log("next key");
        match self.1.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.2 = Some(v);
                s.deserialize(self.0.at(k)).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, FErr> {
        log("next value");
        match self.2.take() {
            Some(v) => s.deserialize(self.0.at(v)),
            None => Err(FErr::Custom("player: no value here".into())),
        }
    }
}

/// A type that asks as planned and logs all it is told. Widths of numbers and
/// the ownership of strings do not count.
struct Heard;
struct Ear(usize, bool);
macro_rules! hear {
    ($($f:ident $t:ty, $n:expr;)*) => {$(
        fn $f<E: de::Error>(self, v: $t) -> Result<Heard, E> {
            self.told(format!("{} {v:?}", $n))
        }
    )*};
}
impl Ear {
    fn told<E: de::Error>(self, t: String) -> Result<Heard, E> {
        let what = format!("{} hears {t}", self.0);
        log(what.clone());
        if self.1 {
            return Err(E::invalid_type(de::Unexpected::Other(&what), &self));
        }
        Ok(Heard)
    }
}
impl<'de> Visitor<'de> for Ear {
    type Value = Heard;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "something else for {}", self.0)
    }
    hear! {
        visit_bool bool, "bool";
        visit_i8 i8, "int"; visit_i16 i16, "int"; visit_i32 i32, "int"; visit_i64 i64, "int"; visit_i128 i128, "int 128";
        visit_u8 u8, "uint"; visit_u16 u16, "uint"; visit_u32 u32, "uint"; visit_u64 u64, "uint"; visit_u128 u128, "uint 128";
        visit_f64 f64, "float";
        visit_char char, "char";
        visit_str &str, "str"; visit_string String, "str"; visit_borrowed_str &'de str, "borrowed str";
        visit_bytes &[u8], "bytes"; visit_byte_buf Vec<u8>, "bytes"; visit_borrowed_bytes &'de [u8], "borrowed bytes";
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Heard, E> {
        self.told(format!("float {:?}", f64::from(v)))
    }
    fn visit_unit<E: de::Error>(self) -> Result<Heard, E> {
        self.told("unit".into())
    }
    fn visit_none<E: de::Error>(self) -> Result<Heard, E> {
        self.told("none".into())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Heard, D::Error> {
        log(format!("{} hears some", self.0));
        Heard::deserialize(d)?;
        self.told("end of some".into())
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Heard, D::Error> {
        log(format!("{} hears newtype", self.0));
        Heard::deserialize(d)?;
        self.told("end of newtype".into())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Heard, A::Error> {
        log(format!("{} hears seq", self.0));
        while a.next_element::<Heard>()?.is_some() {}
        self.told("end of seq".into())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Heard, A::Error> {
        log(format!("{} hears map", self.0));
        if self.0 % 2 == 0 {
            while a.next_entry::<Heard, Heard>()?.is_some() {}
        } else {
            while a.next_key::<Heard>()?.is_some() {
                a.next_value::<Heard>()?;
            }
        }
        self.told("end of map".into())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Heard, A::Error> {
        let (_, x) = a.variant::<Heard>()?;
        x.unit_variant()?;
        self.told("enum".into())
    }
}
impl<'de> Deserialize<'de> for Heard {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Heard, D::Error> {
        let i = NEXT.with(|n| n.replace(n.get() + 1));
        let (ask, refuse) = PLAN.with(|p| p.borrow().get(i).copied().unwrap_or((0, false)));
        log(format!("{i} finds human_readable {}", d.is_human_readable()));
        let v = Ear(i, refuse);
        match ask {
            1 => d.deserialize_bool(v),
            2 => d.deserialize_i8(v),
            3 => d.deserialize_i16(v),
            4 => d.deserialize_i32(v),
            5 => d.deserialize_i64(v),
            6 => d.deserialize_i128(v),
            7 => d.deserialize_u8(v),
            8 => d.deserialize_u16(v),
            9 => d.deserialize_u32(v),
            10 => d.deserialize_u64(v),
            11 => d.deserialize_u128(v),
            12 => d.deserialize_f32(v),
            13 => d.deserialize_f64(v),
            14 => d.deserialize_char(v),
            15 => d.deserialize_str(v),
            16 => d.deserialize_string(v),
            17 => d.deserialize_bytes(v),
            18 => d.deserialize_byte_buf(v),
            19 => d.deserialize_unit(v),
            20 => d.deserialize_unit_struct("U", v),
            21 => d.deserialize_seq(v),
            22 => d.deserialize_tuple(i, v),
            23 => d.deserialize_tuple_struct("T", i, v),
            24 => d.deserialize_map(v),
            25 => d.deserialize_struct("S", &["a", "b"], v),
            26 => d.deserialize_identifier(v),
            27 => d.deserialize_ignored_any(v),
            28 => d.deserialize_newtype_struct("N", v),
            29 => d.deserialize_option(v),
            _ => d.deserialize_any(v),
        }
    }
}
fn hear(f: &FV, plan: &[(u8, bool)], readable: bool, form: u8) -> (Result<(), FErr>, Vec<String>) {
    LOG.with(|l| l.borrow_mut().clear());
    PLAN.with(|p| *p.borrow_mut() = plan.to_vec());
    NEXT.with(|n| n.set(0));
    let q = Q(f, readable);
    let r = match form {
        0 => Heard::deserialize(q),
        1 => singleton_map::deserialize::<Heard, _>(q),
        _ => singleton_map_recursive::deserialize::<Heard, _>(q),
    };
    (r.map(|_| ()), LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

/// No enums; collections of all kinds.
fn plain(s: &mut Source, f: FV) -> FV {
    match f {
        FV::Some(x) => FV::Some(Box::new(plain(s, *x))),
        FV::Newtype(x) => FV::Newtype(Box::new(plain(s, *x))),
        FV::NewVar(_, x) => plain(s, *x),
        FV::UnitVar(n) => FV::Str(n.to_string(), 1),
        FV::Seq(h, v) => {
            let v: Vec<FV> = v.into_iter().map(|x| plain(s, x)).collect();
            match s.below(4) {
                0 => FV::Tuple(v),
                1 => FV::TupStruct(v),
                _ => FV::Seq(h, v),
            }
        }
        FV::Map(h, v) => FV::Map(h, v.into_iter().map(|(k, x)| (plain(s, k), plain(s, x))).collect()),
        x => x,
    }
}
/// The same for writing, where a format cannot fail by its data.
fn sayable(s: &mut Source, f: FV) -> FV {
    match f {
        FV::Fail(n) => FV::U(32, n.into()),
        FV::Some(x) => FV::Some(Box::new(sayable(s, *x))),
        FV::Newtype(x) => FV::Newtype(Box::new(sayable(s, *x))),
        FV::Seq(h, v) => FV::Seq(h, v.into_iter().map(|x| sayable(s, x)).collect()),
        FV::Tuple(v) => FV::Tuple(v.into_iter().map(|x| sayable(s, x)).collect()),
        FV::TupStruct(v) => FV::TupStruct(v.into_iter().map(|x| sayable(s, x)).collect()),
        FV::Map(h, v) => {
            let v: Vec<(FV, FV)> = v.into_iter().map(|(k, x)| (sayable(s, k), sayable(s, x))).collect();
            if s.chance(1, 3) {
                FV::Struct(v.into_iter().enumerate().map(|(i, (_, x))| (intern(&format!("f{i}")), x)).collect())
            } else {
                FV::Map(h, v)
            }
        }
        x => x,
    }
}

pub fn c30_clear(s: &mut Source, c: &mut Ctx) -> PResult {
    let depth = 1 + (s.size / 30) as usize;
    let f = if s.chance(3, 4) {
        let mut v = vec![];
        while s.more(v.len(), 3, 8) {
            v.push((gen_fv(s, 0), gen_fv(s, depth)));
        }
        if s.bool() {
            FV::Map(None, v)
        } else {
            FV::Seq(None, v.into_iter().map(|x| x.1).collect())
        }
    } else {
        gen_fv(s, depth)
    };
    let f = plain(s, f);
    let n = nodes(&f);
    let odd = s.chance(1, 2);
    let mut plan = Vec::new();
    for _ in 0..3 * n + 3 {
        let ask = if odd || s.chance(1, 3) { s.below(31) as u8 } else { 0 };
        plan.push((ask, s.chance(1, 8 * n as u64 + 8)));
    }
    let readable = s.bool();
    c.input(&format!("{f:?} asked {plan:?}"));
    c.nt_if(n >= 3);
    let bare = hear(&f, &plan, readable, 0);
    c.label(if bare.0.is_ok() { "heard" } else { "refused" });
    let form = 1 + s.below(2) as u8;
    // An Option through singleton_map asks for the enum within.
    if form == 2 || plan[0].0 != 29 {
        let with = hear(&f, &plan, readable, form);
        let name = if form == 1 { "singleton_map" } else { "singleton_map_recursive" };
        if let Some(i) = (0..bare.1.len().max(with.1.len())).find(|&i| bare.1.get(i) != with.1.get(i)) {
            crate::fail!("clear-read", "step {i}: {:?} without and {:?} with {name}", bare.1.get(i), with.1.get(i));
        }
        ensure!(c, bare.0 == with.0, "clear-read-outcome", "{:?} without and {:?} with {name}", bare.0, with.0);
    }
    // And written.
    let f = sayable(s, f);
    let binary = s.chance(1, 3);
    let fuse = if s.chance(1, 3) { Some(s.below(2 * n + 2) as u32) } else { None };
    let tape = |fuse| Tape { binary, fuse: std::cell::Cell::new(fuse), ..Tape::default() };
    let recursive = s.bool();
    let (a, b) = (tape(fuse), tape(fuse));
    let bare = record(&Say(&f), &a);
    let with = record(&Form(&f, recursive), &b);
    ensure!(c, format!("{bare:?}") == format!("{with:?}"), "clear-write", "{bare:?} without\nand {with:?} with the form (recursive: {recursive})");
    ensure!(c, a.fuse.get() == b.fuse.get() && !b.after.get(), "clear-write-calls", "other calls with the form (recursive: {recursive})");
    Ok(())
}
