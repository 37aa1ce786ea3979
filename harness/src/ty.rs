//! Dynamic types: a schema plus a value of it, serialized and deserialized
//! through serde's API exactly as `#[derive]`d and standard-library
//! implementations do.

use crate::engine::Source;
use crate::gen;
use crate::model::{feq, show, MV};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::Deserialize;
use serde_yaml::with::{singleton_map, singleton_map_recursive};
use serde_yaml::Value;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt;

#[derive(Clone, Debug)]
pub enum Ty {
    Unit,
    Bool,
    /// bits, signed
    Int(u8, bool),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    Map(Box<Ty>, Box<Ty>),
    UnitStruct,
    Newtype(Box<Ty>),
    TupleStruct(Vec<Ty>),
    Struct(Vec<(&'static str, Ty)>),
    Enum(Vec<(&'static str, Var)>),
    Any,
    Ignored,
    /// Through `with::singleton_map`, or its recursive kind.
    With(bool, Box<Ty>),
}

#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    New(Box<Ty>),
    Tuple(Vec<Ty>),
    Struct(Vec<(&'static str, Ty)>),
}

#[derive(Clone, Debug)]
pub enum Val {
    Unit,
    Bool(bool),
    /// negative, magnitude
    Int(bool, u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Val>),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Prod(Vec<Val>),
    New(Box<Val>),
    Var(usize, Box<Val>),
    Any(MV),
    Ignored,
}

pub fn veq(a: &Val, b: &Val) -> bool {
    use Val::*;
    match (a, b) {
        (Unit, Unit) | (None, None) | (Ignored, Ignored) => true,
        (Bool(x), Bool(y)) => x == y,
        (Int(n, x), Int(m, y)) => n == m && x == y,
        (F32(x), F32(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (F64(x), F64(y)) => feq(*x, *y),
        (Char(x), Char(y)) => x == y,
        (Str(x), Str(y)) => x == y,
        (Bytes(x), Bytes(y)) => x == y,
        (Some(x), Some(y)) | (New(x), New(y)) => veq(x, y),
        (Seq(x), Seq(y)) | (Prod(x), Prod(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| veq(p, q)),
        (Map(x), Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| veq(&p.0, &q.0) && veq(&p.1, &q.1)),
        (Var(i, x), Var(j, y)) => i == j && veq(x, y),
        (Any(x), Any(y)) => crate::model::same(x, y),
        _ => false,
    }
}

thread_local! {
    static NAMES: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new());
    static LISTS: RefCell<HashSet<&'static [&'static str]>> = RefCell::new(HashSet::new());
}

pub fn intern(s: &str) -> &'static str {
    NAMES.with(|n| {
        if let Some(x) = n.borrow().get(s) {
            return *x;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        n.borrow_mut().insert(l);
        l
    })
}
fn intern_list(v: &[&'static str]) -> &'static [&'static str] {
    LISTS.with(|n| {
        if let Some(x) = n.borrow().get(v) {
            return *x;
        }
        let l: &'static [&'static str] = Box::leak(v.to_vec().into_boxed_slice());
        n.borrow_mut().insert(l);
        l
    })
}

fn int_val(neg: bool, m: u128) -> Val {
    Val::Int(neg && m != 0, m)
}
fn iv(i: i128) -> Val {
    int_val(i < 0, i.unsigned_abs())
}

/// Pass through the `with` forms: not at all, once, twice on the way down.
pub mod l0 {
    use super::*;
    fn write_with<S: Serializer>(_: bool, _: &Ty, _: &Val, _: S) -> Result<S::Ok, S::Error> {
        Err(ser::Error::custom("harness: too many forms"))
    }
    fn read_with<'de, D: Deserializer<'de>>(_: bool, _: &Ty, _: D) -> Result<Val, D::Error> {
        Err(de::Error::custom("harness: too many forms"))
    }
    include!("ty_level.rs");
}
macro_rules! level {
    ($name:ident, $lower:ident) => {
        pub mod $name {
            use super::*;
            fn write_with<S: Serializer>(rec: bool, t: &Ty, v: &Val, s: S) -> Result<S::Ok, S::Error> {
                let x = super::$lower::TV(t, v);
                if rec {
                    singleton_map_recursive::serialize(&x, s)
                } else {
                    singleton_map::serialize(&x, s)
                }
            }
            thread_local! {
                /// The type that a `Dyn` is to be read as: taken up as soon as it is set.
                static WITH: Cell<Option<*const Ty>> = const { Cell::new(None) };
            }
            struct Dyn(Val);
            impl<'de> Deserialize<'de> for Dyn {
                fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
                    let t = WITH.with(|w| w.take()).expect("type of a Dyn");
                    Ok(Dyn(super::$lower::Seed(unsafe { &*t }).deserialize(d)?))
                }
            }
            fn read_with<'de, D: Deserializer<'de>>(rec: bool, t: &Ty, d: D) -> Result<Val, D::Error> {
                WITH.with(|w| w.set(Some(t as *const Ty)));
                Ok(if rec {
                    singleton_map_recursive::deserialize::<Dyn, D>(d)?.0
                } else {
                    singleton_map::deserialize::<Dyn, D>(d)?.0
                })
            }
            include!("ty_level.rs");
        }
    };
}
level!(l1, l0);
level!(l2, l1);
pub use l0::{Seed, TV};

pub fn from_str(ty: &Ty, s: &str) -> Result<Val, serde_yaml::Error> {
    Seed(ty).deserialize(serde_yaml::Deserializer::from_str(s))
}
pub fn from_slice(ty: &Ty, s: &[u8]) -> Result<Val, serde_yaml::Error> {
    Seed(ty).deserialize(serde_yaml::Deserializer::from_slice(s))
}
pub fn from_value(ty: &Ty, v: Value) -> Result<Val, serde_yaml::Error> {
    Seed(ty).deserialize(v)
}
pub fn from_value_ref(ty: &Ty, v: &Value) -> Result<Val, serde_yaml::Error> {
    Seed(ty).deserialize(v)
}

// ------------------------------------------------------------- generate

#[derive(Copy, Clone)]
pub struct TOpts {
    pub any: bool,
    pub f32: bool,
    pub big_ints: bool,
    pub enums: bool,
    /// Allow a newtype variant to hold (something transparent over) an enum.
    pub nested_enum: bool,
    pub bytes: bool,
    pub complex_keys: bool,
}

pub const T_ALL: TOpts = TOpts {
    any: true,
    f32: true,
    big_ints: true,
    enums: true,
    nested_enum: false,
    bytes: false,
    complex_keys: true,
};

pub fn field_name(s: &mut Source) -> &'static str {
    const N: &[&str] = &[
        "a", "b", "c", "d", "x", "y", "name", "kind", "type", "value", "null", "true", "no", "1", "0x1", "1.5", "~", "a b", "a: b", "- a", "#", "é", "日本", "", "<<", "'", "\"", "x-y", "a\nb", ".inf", "007", "!t", "&a", "*a", "?", ":", "[", "{", "%", " a", "a ", "\u{85}", "\u{feff}",
    ];
    if s.chance(1, 60) {
        intern(&gen::long_name(s))
    } else if s.chance(1, 3) {
        intern(*s.pick(N))
    } else {
        const W: &[&str] = &["a", "b", "c", "d", "e", "f", "foo", "bar", "name", "kind"];
        *s.pick(W)
    }
}

pub fn variant_name(s: &mut Source) -> &'static str {
    const N: &[&str] = &[
        "A", "B", "C", "Unit", "New", "Tup", "null", "true", "1", "0x1", "1.5", "~", "a b", "a: b", "- a", "#", "é", "日本", "<<", "'", "x-y", ".inf", "007", "&a", "*a", "?", ":", "{", "%", "int", "str", "a/b", "a!b", "x.y", "%41", "A\nB", "\u{85}",
    ];
    if s.chance(1, 60) {
        intern(&gen::long_name(s))
    } else if s.chance(1, 4) {
        *s.pick(N)
    } else {
        const W: &[&str] = &["A", "B", "C", "D", "E", "Foo", "Bar", "Unit", "Newtype", "Tuple", "Struct"];
        *s.pick(W)
    }
}

fn distinct<T>(s: &mut Source, max: usize, mut f: impl FnMut(&mut Source) -> (&'static str, T)) -> Vec<(&'static str, T)> {
    let mut v: Vec<(&'static str, T)> = Vec::new();
    let mut n = 0;
    while s.more(n, 2, max) {
        n += 1;
        let x = f(s);
        if !v.iter().any(|y| y.0 == x.0) {
            v.push(x);
        }
    }
    v
}

/// Whether a value of the type can be written as null (so that an option over
/// it cannot tell None from Some).
pub fn nullable(t: &Ty) -> bool {
    match t {
        Ty::Unit | Ty::UnitStruct | Ty::Opt(_) | Ty::Any | Ty::Ignored => true,
        Ty::Newtype(t) | Ty::With(_, t) => nullable(t),
        _ => false,
    }
}

/// Whether the type, through transparent wrappers, may be written with a tag.
pub fn taggy(t: &Ty) -> bool {
    match t {
        Ty::Enum(_) | Ty::Any => true,
        Ty::Newtype(t) | Ty::Opt(t) | Ty::With(_, t) => taggy(t),
        _ => false,
    }
}

pub fn gen_ty(s: &mut Source, o: &TOpts, depth: usize) -> Ty {
    let c = |w: u64| if depth == 0 { 0 } else { w };
    let w = [
        6,                            // 0 str
        4,                            // 1 int
        2,                            // 2 bool
        3,                            // 3 f64
        if o.f32 { 2 } else { 0 },    // 4 f32
        2,                            // 5 char
        1,                            // 6 unit
        1,                            // 7 unit struct
        if o.any { 3 } else { 0 },    // 8 any
        c(3),                         // 9 option
        c(4),                         // 10 seq
        c(2),                         // 11 tuple
        c(4),                         // 12 map
        c(2),                         // 13 newtype
        c(1),                         // 14 tuple struct
        c(5),                         // 15 struct
        if o.enums { c(5) } else { 0 }, // 16 enum
        if o.bytes { 2 } else { 0 },  // 17 bytes
        if o.enums { 1 } else { 0 },  // 18 unit-only enum
    ];
    match s.weighted(&w) {
        0 => Ty::Str,
        1 => {
            let bits: &[u8] = if o.big_ints { &[32, 8, 16, 64, 128] } else { &[32, 8, 16, 64] };
            let b = *s.pick(bits);
            Ty::Int(b, s.bool())
        }
        2 => Ty::Bool,
        3 => Ty::F64,
        4 => Ty::F32,
        5 => Ty::Char,
        6 => Ty::Unit,
        7 => Ty::UnitStruct,
        8 => Ty::Any,
        9 => {
            let t = gen_ty(s, o, depth - 1);
            if nullable(&t) {
                t
            } else {
                Ty::Opt(Box::new(t))
            }
        }
        10 => Ty::Seq(Box::new(gen_ty(s, o, depth - 1))),
        11 => Ty::Tuple(gen_list(s, o, depth - 1)),
        12 => {
            let k = if o.complex_keys && s.chance(1, 3) {
                gen_ty(s, o, depth - 1)
            } else {
                match s.weighted(&[8, 3, 1, 1, 1]) {
                    0 => Ty::Str,
                    1 => Ty::Int(*s.pick(&[32, 8, 64]), s.bool()),
                    2 => Ty::Bool,
                    3 => Ty::Char,
                    _ => Ty::F64,
                }
            };
            Ty::Map(Box::new(k), Box::new(gen_ty(s, o, depth - 1)))
        }
        13 => Ty::Newtype(Box::new(gen_ty(s, o, depth - 1))),
        14 => Ty::TupleStruct(gen_list(s, o, depth - 1)),
        15 => Ty::Struct(distinct(s, 6, |s| (field_name(s), gen_ty(s, o, depth - 1)))),
        16 => gen_enum(s, o, depth - 1),
        17 => Ty::Bytes,
        _ => {
            let mut v = distinct(s, 5, |s| (variant_name(s), Var::Unit));
            if v.is_empty() {
                v.push(("A", Var::Unit));
            }
            Ty::Enum(v)
        }
    }
}

fn gen_list(s: &mut Source, o: &TOpts, depth: usize) -> Vec<Ty> {
    let mut v = Vec::new();
    while s.more(v.len(), 2, 5) {
        v.push(gen_ty(s, o, depth));
    }
    v
}

pub fn gen_enum(s: &mut Source, o: &TOpts, depth: usize) -> Ty {
    let mut v = distinct(s, 5, |s| {
        let n = variant_name(s);
        let k = match s.below(4) {
            0 => Var::Unit,
            1 => {
                let t = gen_ty(s, o, depth);
                if taggy(&t) && !o.nested_enum {
                    Var::New(Box::new(Ty::Seq(Box::new(t))))
                } else {
                    Var::New(Box::new(t))
                }
            }
            2 => Var::Tuple(gen_list(s, o, depth)),
            _ => Var::Struct(distinct(s, 4, |s| (field_name(s), gen_ty(s, o, depth)))),
        };
        (n, k)
    });
    if v.is_empty() {
        v.push(("A", Var::Unit));
    }
    Ty::Enum(v)
}

pub fn gen_val(s: &mut Source, t: &Ty) -> Val {
    match t {
        Ty::Unit | Ty::UnitStruct => Val::Unit,
        Ty::Ignored => Val::Ignored,
        Ty::Bool => Val::Bool(s.bool()),
        Ty::Int(b, true) => {
            let hi = (1u128 << (b - 1)) - 1;
            let lo = if *b == 128 { i128::MIN } else { -(1i128 << (b - 1)) };
            let (n, m) = gen::int_in(s, lo, hi);
            int_val(n, m)
        }
        Ty::Int(b, false) => {
            let hi = if *b == 128 { u128::MAX } else { (1u128 << b) - 1 };
            let (n, m) = gen::int_in(s, 0, hi);
            int_val(n, m)
        }
        Ty::F32 => Val::F32(match s.below(3) {
            0 => f32::from_bits(s.draw(1 << 32) as u32),
            1 => gen::f64s(s) as f32,
            _ => (s.draw(20001) as i64 - 10000) as f32 / 100.0,
        }),
        Ty::F64 => Val::F64(gen::f64s(s)),
        Ty::Char => Val::Char(gen::any_char(s)),
        Ty::Str => Val::Str(gen::string(s)),
        Ty::Bytes => {
            let mut b = Vec::new();
            while s.more(b.len(), 3, 20) {
                b.push(s.below(256) as u8);
            }
            Val::Bytes(b)
        }
        Ty::Opt(t) => {
            if s.chance(2, 3) {
                Val::Some(Box::new(gen_val(s, t)))
            } else {
                Val::None
            }
        }
        Ty::Seq(t) => {
            let mut v = Vec::new();
            while s.more(v.len(), 2, 6) {
                v.push(gen_val(s, t));
            }
            Val::Seq(v)
        }
        Ty::Tuple(t) | Ty::TupleStruct(t) => Val::Prod(t.iter().map(|t| gen_val(s, t)).collect()),
        Ty::Map(k, t) => {
            let mut v: Vec<(Val, Val)> = Vec::new();
            let mut n = 0;
            while s.more(n, 2, 6) {
                n += 1;
                let key = gen_val(s, k);
                let x = gen_val(s, t);
                if !v.iter().any(|e| veq(&e.0, &key)) {
                    v.push((key, x));
                }
            }
            Val::Map(v)
        }
        Ty::Newtype(t) => Val::New(Box::new(gen_val(s, t))),
        Ty::With(_, t) => gen_val(s, t),
        Ty::Struct(f) => Val::Prod(f.iter().map(|(_, t)| gen_val(s, t)).collect()),
        Ty::Enum(v) => {
            let i = s.below(v.len());
            Val::Var(
                i,
                Box::new(match &v[i].1 {
                    Var::Unit => Val::Unit,
                    Var::New(t) => gen_val(s, t),
                    Var::Tuple(t) => Val::Prod(t.iter().map(|t| gen_val(s, t)).collect()),
                    Var::Struct(f) => Val::Prod(f.iter().map(|(_, t)| gen_val(s, t)).collect()),
                }),
            )
        }
        Ty::Any => {
            let o = gen::VOpts {
                tags: true,
                max_depth: 2,
                floats: true,
                any_keys: true,
                nest: false,
                max_len: 4,
            };
            Val::Any(gen::value(s, &o))
        }
    }
}

// ------------------------------------------------------------- reports

pub fn show_ty(t: &Ty) -> String {
    let list = |v: &[Ty]| v.iter().map(show_ty).collect::<Vec<_>>().join(", ");
    let fields = |v: &[(&'static str, Ty)]| v.iter().map(|(n, t)| format!("{n:?}: {}", show_ty(t))).collect::<Vec<_>>().join(", ");
    match t {
        Ty::Unit => "()".into(),
        Ty::Bool => "bool".into(),
        Ty::Int(b, s) => format!("{}{b}", if *s { "i" } else { "u" }),
        Ty::F32 => "f32".into(),
        Ty::F64 => "f64".into(),
        Ty::Char => "char".into(),
        Ty::Str => "String".into(),
        Ty::Bytes => "bytes".into(),
        Ty::Opt(t) => format!("Option<{}>", show_ty(t)),
        Ty::Seq(t) => format!("Vec<{}>", show_ty(t)),
        Ty::Tuple(v) => format!("({})", list(v)),
        Ty::Map(k, v) => format!("Map<{}, {}>", show_ty(k), show_ty(v)),
        Ty::UnitStruct => "struct U".into(),
        Ty::Newtype(t) => format!("struct N({})", show_ty(t)),
        Ty::With(rec, t) => format!("{}<{}>", if *rec { "rec" } else { "map" }, show_ty(t)),
        Ty::TupleStruct(v) => format!("struct T({})", list(v)),
        Ty::Struct(f) => format!("struct S{{{}}}", fields(f)),
        Ty::Enum(v) => format!(
            "enum E{{{}}}",
            v.iter()
                .map(|(n, k)| match k {
                    Var::Unit => format!("{n:?}"),
                    Var::New(t) => format!("{n:?}({})", show_ty(t)),
                    Var::Tuple(t) => format!("{n:?}({},)", list(t)),
                    Var::Struct(f) => format!("{n:?}{{{}}}", fields(f)),
                })
                .collect::<Vec<_>>()
                .join(" | ")
        ),
        Ty::Any => "Value".into(),
        Ty::Ignored => "IgnoredAny".into(),
    }
}

pub fn show_val(v: &Val) -> String {
    let list = |v: &[Val]| v.iter().map(show_val).collect::<Vec<_>>().join(", ");
    match v {
        Val::Unit => "()".into(),
        Val::Bool(b) => b.to_string(),
        Val::Int(n, m) => format!("{}{m}", if *n { "-" } else { "" }),
        Val::F32(f) => format!("{f:?}f32"),
        Val::F64(f) => format!("{f:?}f64"),
        Val::Char(c) => format!("{c:?}"),
        Val::Str(s) => format!("{s:?}"),
        Val::Bytes(b) => format!("{b:?}"),
        Val::None => "None".into(),
        Val::Some(v) => format!("Some({})", show_val(v)),
        Val::Seq(v) => format!("[{}]", list(v)),
        Val::Map(v) => format!("{{{}}}", v.iter().map(|(a, b)| format!("{}: {}", show_val(a), show_val(b))).collect::<Vec<_>>().join(", ")),
        Val::Prod(v) => format!("({})", list(v)),
        Val::New(v) => format!("N({})", show_val(v)),
        Val::Var(i, v) => format!("#{i} {}", show_val(v)),
        Val::Any(m) => format!("Value({})", show(m)),
        Val::Ignored => "_".into(),
    }
}

pub fn any_ty(t: &Ty, f: &mut dyn FnMut(&Ty) -> bool) -> bool {
    if f(t) {
        return true;
    }
    match t {
        Ty::Opt(t) | Ty::Seq(t) | Ty::Newtype(t) | Ty::With(_, t) => any_ty(t, f),
        Ty::Tuple(v) | Ty::TupleStruct(v) => v.iter().any(|t| any_ty(t, f)),
        Ty::Map(k, v) => any_ty(k, f) || any_ty(v, f),
        Ty::Struct(v) => v.iter().any(|(_, t)| any_ty(t, f)),
        Ty::Enum(v) => v.iter().any(|(_, k)| match k {
            Var::Unit => false,
            Var::New(t) => any_ty(t, f),
            Var::Tuple(v) => v.iter().any(|t| any_ty(t, f)),
            Var::Struct(v) => v.iter().any(|(_, t)| any_ty(t, f)),
        }),
        _ => false,
    }
}

/// Read from a single scalar only.
pub fn primitive(t: &Ty) -> bool {
    match t {
        Ty::Opt(t) | Ty::Newtype(t) | Ty::With(_, t) => primitive(t),
        Ty::Seq(_) | Ty::Tuple(_) | Ty::Map(..) | Ty::TupleStruct(_) | Ty::Struct(_) => false,
        _ => true,
    }
}

/// A type that holds at least one other.
pub fn composite(s: &mut Source, o: &TOpts, depth: usize) -> Ty {
    for _ in 0..3 {
        let t = gen_ty(s, o, depth);
        if !primitive(&t) || matches!(&t, Ty::Enum(v) if v.iter().any(|v| !matches!(v.1, Var::Unit))) {
            return t;
        }
    }
    let t = gen_ty(s, o, depth.saturating_sub(1));
    match s.below(4) {
        0 => Ty::Seq(Box::new(t)),
        1 => Ty::Map(Box::new(Ty::Str), Box::new(t)),
        2 => Ty::Tuple(vec![t, Ty::Str]),
        _ => Ty::Struct(vec![("k", t), ("l", Ty::Opt(Box::new(Ty::Bool)))]),
    }
}
