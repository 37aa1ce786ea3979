//! Robustness: arbitrary input, nesting, alias expansion.

use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::near::{self, atom, Raw, Rn};
use crate::refyaml::{self, Doc, Kind};
use crate::ty::{self, show_ty, Seed, Ty, Val, T_ALL};
use crate::{ensure, fail, fuzz};
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::Deserialize;
use serde_yaml::{Deserializer, Mapping, Number, Value};
use std::cell::{Cell, RefCell};
use std::fmt;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            level: "exploration",
            rule: "A case is a byte string (token soup, mutated documents, broken UTF-8, raw bytes) read document by document through every entry point, as random types, standard-library types and a visitor that asks for arbitrary things and stops early; non-trivial = at least three bytes, of which the parser takes at least one event past the start of the document, or an error with a location inside the text.",
            assumptions: &["An endless loop shows as a check without an answer, not as a violation."],
            subs: vec![
                Sub { name: "chaos", quick: 1_200_000, thorough: 30_000_000, f: c06_chaos },
                Sub { name: "types", quick: 900_000, thorough: 22_500_000, f: c06_types },
                Sub { name: "std", quick: 600_000, thorough: 15_000_000, f: c06_std },
            ],
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "A case is a document of collections nested to a depth around the limit or far beyond it (sequences, mappings, keys, tags, aliases, siblings at all levels), a document containing itself, a graph of anchors and aliases with a total expansion around the limit or far beyond it, or typed data of hundreds of entries (wrapped or not, also as keys) below some levels of nesting; non-trivial = nesting of at least 100, at least 1000 alias expansions, or at least 129 entries.",
            assumptions: &[],
            subs: vec![
                Sub { name: "depth", quick: 16_000, thorough: 400_000, f: c07_depth },
                Sub { name: "cycles", quick: 40_000, thorough: 1_000_000, f: c07_cycles },
                Sub { name: "aliases", quick: 5_000, thorough: 125_000, f: c07_aliases },
                Sub { name: "wide", quick: 1_500, thorough: 60_000, f: c07_wide },
            ],
        },
    ]
}

/// Line (from 1) and column (from 1) of a byte index.
pub fn line_column(text: &str, index: usize) -> (usize, usize) {
    let (mut line, mut col) = (1, 1);
    let mut prev = '\0';
    for (i, ch) in text.char_indices() {
        if i >= index {
            break;
        }
        match ch {
            // a byte order mark, which is no column
            '\u{feff}' if i == 0 => {}
            '\n' if prev == '\r' => {}
            '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}' => {
                line += 1;
                col = 1;
            }
            _ => col += 1,
        }
        prev = ch;
    }
    (line, col)
}

/// An error is worth the name.
pub fn error_ok(c: &mut Ctx, e: &serde_yaml::Error, input: &[u8]) -> PResult {
    let msg = e.to_string();
    ensure!(c, !msg.is_empty(), "error-empty", "an error without a message: {e:?}");
    let dbg = format!("{e:?}");
    let dbg2 = format!("{e:#?} {e:#}");
    ensure!(c, !dbg.is_empty() && !dbg2.is_empty(), "error-debug-empty", "{msg:?} prints nothing for debugging");
    let _ = std::error::Error::source(e).map(|s| s.to_string());
    if let Some(l) = e.location() {
        ensure!(
            c,
            l.index() <= input.len() && l.line() >= 1 && l.column() >= 1,
            "error-location-outside",
            "{msg:?} is located at index {} line {} column {} of {} bytes",
            l.index(),
            l.line(),
            l.column(),
            input.len()
        );
        if let Ok(text) = std::str::from_utf8(input) {
            if l.index() < text.len() && text.is_char_boundary(l.index()) {
                let want = line_column(text, l.index());
                ensure!(c, want == (l.line(), l.column()), "error-location-inconsistent", "{msg:?}: index {} is line {:?}, not ({}, {})", l.index(), want, l.line(), l.column());
            }
        }
        c.label("located");
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

/// Where a visitor takes its decisions from.
pub trait Decide {
    fn below(&self, n: usize) -> usize;
}
impl Decide for RefCell<&mut Source> {
    fn below(&self, n: usize) -> usize {
        self.borrow_mut().below(n)
    }
}

/// A visitor that asks for anything at each node, and may stop early or fail.
pub struct Chaos<'a> {
    pub s: &'a dyn Decide,
    pub left: &'a Cell<i64>,
}
impl<'a> Chaos<'a> {
    fn deeper(&self) -> Chaos<'a> {
        Chaos { s: self.s, left: self.left }
    }
    fn below(&self, n: usize) -> usize {
        self.s.below(n)
    }
}
const NAMES: &[&str] = &["a", "b", "x", "A", "B", "T", "c"];

impl<'de> DeserializeSeed<'de> for Chaos<'_> {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.left.set(self.left.get() - 1);
        if self.left.get() < 0 {
            return Err(de::Error::custom("enough"));
        }
        let _ = d.is_human_readable();
        match self.below(40) {
            0 => d.deserialize_bool(self),
            1 => d.deserialize_i8(self),
            2 => d.deserialize_i64(self),
            3 => d.deserialize_i128(self),
            4 => d.deserialize_u16(self),
            5 => d.deserialize_u64(self),
            6 => d.deserialize_u128(self),
            7 => d.deserialize_f32(self),
            8 => d.deserialize_f64(self),
            9 => d.deserialize_char(self),
            10 => d.deserialize_str(self),
            11 => d.deserialize_string(self),
            12 => d.deserialize_bytes(self),
            13 => d.deserialize_byte_buf(self),
            14 => d.deserialize_option(self),
            15 => d.deserialize_unit(self),
            16 => d.deserialize_unit_struct("U", self),
            17 | 18 => d.deserialize_newtype_struct("N", self),
            19 | 20 => d.deserialize_seq(self),
            21 => {
                let n = self.below(4);
                d.deserialize_tuple(n, self)
            }
            22 => {
                let n = self.below(4);
                d.deserialize_tuple_struct("TS", n, self)
            }
            23 | 24 => d.deserialize_map(self),
            25 => d.deserialize_struct("S", NAMES, self),
            26 | 27 => d.deserialize_enum("E", NAMES, self),
            28 => d.deserialize_identifier(self),
            29 => d.deserialize_ignored_any(self),
            30 => IgnoredAny::deserialize(d).map(drop),
            31 => Value::deserialize(d).map(drop),
            32 => d.deserialize_i16(self),
            33 => d.deserialize_i32(self),
            34 => d.deserialize_u8(self),
            35 => d.deserialize_u32(self),
            _ => d.deserialize_any(self),
        }
    }
}
impl<'de> Visitor<'de> for Chaos<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything at all")
    }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<(), E> {
        self.leaf()
    }
    fn visit_i64<E: de::Error>(self, _: i64) -> Result<(), E> {
        self.leaf()
    }
    fn visit_i128<E: de::Error>(self, _: i128) -> Result<(), E> {
        self.leaf()
    }
    fn visit_u64<E: de::Error>(self, _: u64) -> Result<(), E> {
        self.leaf()
    }
    fn visit_u128<E: de::Error>(self, _: u128) -> Result<(), E> {
        self.leaf()
    }
    fn visit_f64<E: de::Error>(self, _: f64) -> Result<(), E> {
        self.leaf()
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        std::hint::black_box(v.chars().count());
        self.leaf()
    }
    fn visit_bytes<E: de::Error>(self, _: &[u8]) -> Result<(), E> {
        self.leaf()
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.leaf()
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        self.leaf()
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.deeper().deserialize(d)
    }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.deeper().deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        loop {
            let _ = a.size_hint();
            if self.below(12) == 11 {
                return self.leaf();
            }
            if a.next_element_seed(self.deeper())?.is_none() {
                if self.below(8) == 7 {
                    // asking again gives nothing again
                    if a.next_element_seed(self.deeper())?.is_some() {
                        return Err(de::Error::custom("CHAOS: an item after the end"));
                    }
                }
                return self.leaf();
            }
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        loop {
            let _ = a.size_hint();
            if self.below(12) == 11 {
                return self.leaf();
            }
            if a.next_key_seed(self.deeper())?.is_none() {
                return self.leaf();
            }
            if self.below(16) == 15 {
                return self.leaf();
            }
            a.next_value_seed(self.deeper())?;
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let ((), v) = a.variant_seed(self.deeper())?;
        match self.below(4) {
            0 => v.unit_variant(),
            1 => v.newtype_variant_seed(self.deeper()),
            2 => {
                let n = self.below(3);
                v.tuple_variant(n, self)
            }
            _ => v.struct_variant(NAMES, self),
        }
    }
}
impl Chaos<'_> {
    fn leaf<E: de::Error>(&self) -> Result<(), E> {
        if self.below(30) == 29 {
            Err(E::custom("chaos fails"))
        } else {
            Ok(())
        }
    }
}

fn source<'a>(s: &mut Source, b: &'a [u8]) -> Deserializer<'a> {
    match s.below(3) {
        0 => match std::str::from_utf8(b) {
            Ok(t) => Deserializer::from_str(t),
            Err(_) => Deserializer::from_slice(b),
        },
        1 => Deserializer::from_slice(b),
        _ => Deserializer::from_reader(b),
    }
}

fn c06_chaos(s: &mut Source, c: &mut Ctx) -> PResult {
    let b = fuzz::bytes(s);
    c.input(&format!("{:?}", String::from_utf8_lossy(&b)));
    let docs = refyaml::documents(&b);
    c.nt_if(b.len() >= 3 && docs.iter().any(|d| d.events > 0));
    let left = Cell::new(3000);
    if s.chance(1, 3) {
        let d = source(s, &b);
        let cell = RefCell::new(s);
        let r = Chaos { s: &cell, left: &left }.deserialize(d);
        c.label(if r.is_ok() { "ok" } else { "error" });
        if let Err(e) = r {
            error_ok(c, &e, &b)?;
            ensure!(c, !e.to_string().contains("CHAOS"), "item-after-end", "{e}");
        }
        return Ok(());
    }
    let it = source(s, &b);
    for d in it.take(docs.len() + 2) {
        if s.chance(1, 10) {
            drop(d);
            continue;
        }
        let r = {
            let cell = RefCell::new(&mut *s);
            Chaos { s: &cell, left: &left }.deserialize(d)
        };
        c.label(if r.is_ok() { "ok" } else { "error" });
        if let Err(e) = r {
            error_ok(c, &e, &b)?;
            ensure!(c, !e.to_string().contains("CHAOS"), "item-after-end", "{e}");
        }
    }
    Ok(())
}

fn c06_types(s: &mut Source, c: &mut Ctx) -> PResult {
    let t = ty::gen_ty(s, &T_ALL, 1 + (s.size / 30) as usize);
    let b = if s.bool() {
        let slop = *s.pick(&[30, 100, 300]);
        let mut n = near::Near::new(slop, 150);
        let r = n.node(s, &t);
        let text = near::document(s, &r);
        let mut b = text.into_bytes();
        if s.chance(1, 4) && !b.is_empty() {
            let i = s.below(b.len());
            match s.below(3) {
                0 => b.truncate(i),
                1 => b[i] = *s.pick(&[0xffu8, b'&', b'*', b'!', b'\n', b':', b'-', b'[', b'}', 0, b'%']),
                _ => b.insert(i, *s.pick(&[0xc3u8, b' ', b'\n', b'!', b'|', b'>', b'"', b'#'])),
            }
        }
        b
    } else {
        fuzz::bytes(s)
    };
    c.input(&format!("{} from {:?}", show_ty(&t), String::from_utf8_lossy(&b)));
    let docs = refyaml::documents(&b);
    c.nt_if(b.len() >= 3 && docs.iter().any(|d| d.events > 0));
    let mut all: Vec<Result<(), serde_yaml::Error>> = vec![ty::from_slice(&t, &b).map(drop), Seed(&t).deserialize(Deserializer::from_reader(&b[..])).map(drop)];
    if let Ok(text) = std::str::from_utf8(&b) {
        all.push(ty::from_str(&t, text).map(drop));
    }
    let it = source(s, &b);
    for d in it.take(docs.len() + 2) {
        let u = if s.chance(1, 3) { Ty::Any } else { t.clone() };
        all.push(Seed(&u).deserialize(d).map(drop));
    }
    for r in all {
        c.checked();
        c.label(if r.is_ok() { "ok" } else { "error" });
        if let Err(e) = r {
            error_ok(c, &e, &b)?;
        }
    }
    Ok(())
}

type Reader = fn(&[u8]) -> Result<(), serde_yaml::Error>;

fn reads<T: for<'de> Deserialize<'de>>(b: &[u8]) -> Result<(), serde_yaml::Error> {
    serde_yaml::from_slice::<T>(b).map(drop)
}
fn through_value<T: for<'de> Deserialize<'de>>(b: &[u8]) -> Result<(), serde_yaml::Error> {
    let mut v: Value = serde_yaml::from_slice(b)?;
    let _ = format!("{v:?}");
    let _ = v.apply_merge();
    let _ = T::deserialize(&v);
    serde_yaml::from_value::<T>(v).map(drop).map_err(|e| {
        assert!(e.location().is_none() && !e.to_string().is_empty());
        e
    })
}

#[derive(Deserialize)]
#[allow(dead_code)]
enum Sm {
    A,
    N(Box<Sm>),
    T(u8, String),
    S { a: Option<Box<Sm>>, b: Vec<Sm> },
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct F1 {
    #[serde(with = "serde_yaml::with::singleton_map")]
    a: Sm,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct F3 {
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    a: Vec<Option<Sm>>,
}
#[derive(Deserialize)]
#[serde(untagged)]
#[allow(dead_code)]
enum Un {
    A(u8),
    B { a: Box<Un> },
    C(Vec<Un>),
    D(Value),
}
#[derive(Deserialize)]
#[serde(tag = "a")]
#[allow(dead_code)]
enum In {
    A { b: Option<Box<In>> },
    x(std::collections::BTreeMap<String, Value>),
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Fl {
    a: Option<Value>,
    #[serde(flatten)]
    rest: std::collections::HashMap<String, Value>,
}

macro_rules! table {
    ($($t:ty),* $(,)?) => {
        &[$((stringify!($t), reads::<$t> as Reader), (concat!(stringify!($t), " through a Value"), through_value::<$t> as Reader)),*]
    };
}
#[rustfmt::skip]
static STD: &[(&str, Reader)] = {
    use std::collections::*;
    table![
        Value, Mapping, Number, serde_yaml::value::TaggedValue, bool, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64,
        char, String, Box<str>, std::borrow::Cow<'static, str>, (), Option<u8>, Option<Value>, Option<Option<Value>>,
        Vec<Value>, Vec<u8>, Box<[Value]>, VecDeque<Value>, LinkedList<i64>, BTreeSet<String>, HashSet<Value>, BinaryHeap<i32>,
        BTreeMap<String, Value>, HashMap<Value, Value>, BTreeMap<i64, Vec<Value>>, BTreeMap<Option<String>, f64>, BTreeMap<bool, String>, BTreeMap<char, ()>,
        [u8; 3], [Value; 2], (), (u8,), (String, Value), (u8, u8, u8), ((u8, String), Value),
        std::net::IpAddr, std::net::SocketAddr, std::path::PathBuf, std::ffi::CString, std::ffi::OsString, std::time::Duration, std::time::SystemTime,
        std::ops::Range<i32>, std::ops::RangeInclusive<i64>, std::ops::Bound<u8>, Result<u8, String>, std::num::NonZeroU8, std::num::NonZeroI64, std::num::Wrapping<u16>,
        std::marker::PhantomData<u8>, std::cell::RefCell<i32>, std::sync::Mutex<String>, std::sync::atomic::AtomicU8, std::cmp::Reverse<u8>,
        Sm, F1, F3, Un, In, Fl, Vec<Sm>, BTreeMap<String, Sm>, Vec<Un>, Vec<In>, Vec<Option<Sm>>,
    ]
};

fn c06_std(s: &mut Source, c: &mut Ctx) -> PResult {
    let b = if s.chance(1, 3) {
        // scalars and small collections
        let n = if s.chance(1, 3) { near::any_node(s, 2) } else { near::any_scalar(s) };
        let t = near::document(s, &n);
        if s.bool() {
            format!("a: {}", t.trim_start_matches("--- ")).into_bytes()
        } else {
            t.into_bytes()
        }
    } else {
        fuzz::bytes(s)
    };
    c.input(&format!("{:?}", String::from_utf8_lossy(&b)));
    let docs = refyaml::documents(&b);
    c.nt_if(b.len() >= 3 && docs.iter().any(|d| d.events > 0));
    for _ in 0..8 {
        let (name, f) = STD[s.below(STD.len())];
        match f(&b) {
            Ok(()) => c.label("ok"),
            Err(e) => {
                c.label("error");
                if let Err(mut f) = error_ok(c, &e, &b) {
                    f.msg = format!("as {name}: {}", f.msg);
                    return Err(f);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

thread_local! {
    static VISITED: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<u64> = const { Cell::new(0) };
}
fn visit<E: de::Error>() -> Result<(), E> {
    let n = VISITED.with(|v| {
        v.set(v.get() + 1);
        v.get()
    });
    if n > CAP.with(|c| c.get()) {
        Err(E::custom("more nodes than allowed"))
    } else {
        Ok(())
    }
}

/// Any data, counted as it is visited.
struct Count;
impl<'de> Deserialize<'de> for Count {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Count, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Count;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E: de::Error>(self, _: bool) -> Result<Count, E> {
                visit().map(|_| Count)
            }
            fn visit_i64<E: de::Error>(self, _: i64) -> Result<Count, E> {
                visit().map(|_| Count)
            }
            fn visit_u64<E: de::Error>(self, _: u64) -> Result<Count, E> {
                visit().map(|_| Count)
            }
            fn visit_f64<E: de::Error>(self, _: f64) -> Result<Count, E> {
                visit().map(|_| Count)
            }
            fn visit_str<E: de::Error>(self, _: &str) -> Result<Count, E> {
                visit().map(|_| Count)
            }
            fn visit_unit<E: de::Error>(self) -> Result<Count, E> {
                visit().map(|_| Count)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Count, A::Error> {
                visit()?;
                while a.next_element::<Count>()?.is_some() {}
                Ok(Count)
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Count, A::Error> {
                visit()?;
                while a.next_key::<Count>()?.is_some() {
                    a.next_value::<Count>()?;
                }
                Ok(Count)
            }
            fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Count, A::Error> {
                let (_, v) = a.variant::<IgnoredAny>()?;
                v.newtype_variant::<Count>()
            }
        }
        d.deserialize_any(V)
    }
}

/// Sequences of themselves.
#[allow(dead_code)]
struct Seqs(Vec<Seqs>);
impl<'de> Deserialize<'de> for Seqs {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Seqs, D::Error> {
        Vec::deserialize(d).map(Seqs)
    }
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Chain {
    a: Option<Box<Chain>>,
    b: Option<Vec<Chain>>,
    c: Option<std::collections::BTreeMap<String, Chain>>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
enum Tree {
    Leaf,
    List(Vec<Tree>),
    S { a: Box<Tree> },
    M(std::collections::BTreeMap<String, Tree>),
}

fn count(text: &str, cap: u64) -> (Result<(), serde_yaml::Error>, u64) {
    VISITED.with(|v| v.set(0));
    CAP.with(|v| v.set(cap));
    let r = serde_yaml::from_str::<Count>(text).map(drop);
    (r, VISITED.with(|v| v.get()))
}

const LIMIT: usize = 128;

fn depth_pick(s: &mut Source) -> usize {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => 124 + s.below(10),
        1 => 1 + s.below(123),
        2 => 129 + s.below(300),
        _ => 400 + s.below(1200),
    }
}

fn wrap(s: &mut Source, inner: Rn, tags: bool, sibling: &mut dyn FnMut(&mut Source) -> Rn) -> Rn {
    let mut r = match s.below(4) {
        0 => Rn { props: String::new(), body: Raw::Map(vec![(atom("k"), inner)]) },
        1 if matches!(inner.body, Raw::Seq(_) | Raw::Map(_) | Raw::Atom(_)) => Rn { props: String::new(), body: Raw::Map(vec![(inner, atom("v"))]) },
        _ => Rn { props: String::new(), body: Raw::Seq(vec![inner]) },
    };
    if s.chance(1, 6) {
        let x = sibling(s);
        let first = s.bool();
        match &mut r.body {
            Raw::Seq(v) => {
                if first {
                    v.insert(0, x)
                } else {
                    v.push(x)
                }
            }
            Raw::Map(v) => {
                let e = (atom("s"), x);
                if first {
                    v.insert(0, e)
                } else {
                    v.push(e)
                }
            }
            _ => {}
        }
    }
    if tags && s.chance(1, 12) {
        r.props = s.pick(&["!t ", "!!map ", "!<x:y> "]).to_string();
    }
    r
}

fn nest(s: &mut Source, depth: usize, tags: bool) -> Rn {
    let mut r = if depth == 0 { atom("x") } else { Rn { props: String::new(), body: Raw::Seq(vec![]) } };
    if s.chance(1, 4) && depth > 0 {
        r.body = Raw::Map(vec![]);
    }
    for i in 1..depth {
        r = wrap(s, r, tags, &mut |s| {
            // Siblings are at most as deep as what they stand by.
            let d = if s.chance(1, 8) { s.below(i.min(40)) } else { s.below(3) };
            let mut x = atom("y");
            for _ in 0..d {
                x = Rn { props: String::new(), body: if s.bool() { Raw::Seq(vec![x]) } else { Raw::Map(vec![(atom("q"), x)]) } };
            }
            x
        });
    }
    r
}

/// Nesting of every node of a document, through aliases; None if it contains itself.
fn real_depth(d: &Doc) -> Option<usize> {
    fn go(d: &Doc, id: usize, memo: &mut [Option<Option<usize>>], open: &mut [bool]) -> Option<usize> {
        if let Some(x) = memo[id] {
            return x;
        }
        if open[id] {
            return None;
        }
        open[id] = true;
        let mut bad = false;
        let mut most = |x: Option<usize>| match x {
            Some(n) => n,
            None => {
                bad = true;
                0
            }
        };
        let n = match &d.nodes[id].kind {
            Kind::Seq(v) => 1 + v.iter().map(|x| most(go(d, *x, memo, open))).max().unwrap_or(0),
            Kind::Map(v) => 1 + v.iter().map(|x| most(go(d, x.0, memo, open)).max(most(go(d, x.1, memo, open)))).max().unwrap_or(0),
            Kind::Alias(t) => most(go(d, *t, memo, open)),
            _ => 0,
        };
        open[id] = false;
        let r = if bad { None } else { Some(n) };
        memo[id] = Some(r);
        r
    }
    let n = d.nodes.len();
    go(d, d.root, &mut vec![None; n], &mut vec![false; n])
}

fn judge(c: &mut Ctx, what: &str, ok: bool, got: &Result<(), serde_yaml::Error>, text: &str) -> PResult {
    c.checked();
    let short: String = text.chars().take(600).collect();
    match (ok, got) {
        (true, Err(e)) => fail!("nesting-refused", "{what}: {e}\n{short}"),
        (false, Ok(())) => fail!("nesting-accepted", "{what}: too deep, but accepted\n{short}"),
        (false, Err(e)) => {
            ensure!(c, !e.to_string().is_empty() && !format!("{e:?}").is_empty(), "nesting-error-text", "the error says nothing\n{short}");
            Ok(())
        }
        _ => Ok(()),
    }
}

fn c07_depth(s: &mut Source, c: &mut Ctx) -> PResult {
    let depth = depth_pick(s);
    let shape = s.below(6);
    if shape >= 4 {
        // uniform nesting with fitting recursive types
        let (open, mid, close, how): (&str, &str, &str, usize) = [
            ("[", "", "]", 0),
            ("- ", "[]", "", 0),
            ("{a: ", "{}", "}", 1),
            ("{b: [", "{}", "]}", 2),
            ("!List [", "Leaf", "]", 3),
            ("!S {a: ", "Leaf", "}", 3),
            ("!M {a: ", "Leaf", "}", 3),
            ("{c: {k: ", "{}", "}}", 2),
        ][s.below(8)];
        let levels = if how == 2 { depth / 2 } else { depth };
        let text = format!("{}{mid}{}", open.repeat(levels), close.repeat(levels));
        let total = match (open, how) {
            ("- ", _) => levels + 1,
            (_, 0) => levels,
            (_, 1) => levels + 1,
            (_, 2) => 2 * levels + 1,
            _ => levels,
        };
        c.input(&format!("{open:?} nested {levels} deep"));
        c.nt_if(total >= 100);
        c.label(if total <= LIMIT { "shallow" } else { "deep" });
        let r: Result<(), serde_yaml::Error> = match how {
            0 => serde_yaml::from_str::<Seqs>(&text).map(drop),
            3 => serde_yaml::from_str::<Tree>(&text).map(drop),
            _ => serde_yaml::from_str::<Chain>(&text).map(drop),
        };
        judge(c, "as a recursive type", total <= LIMIT, &r, &text)?;
        judge(c, "as a Value", total <= LIMIT, &serde_yaml::from_str::<Value>(&text).map(drop), &text)?;
        return Ok(());
    }
    let tags = s.bool();
    let root = if shape == 3 {
        // the depth comes together through aliases
        let mut parts = Vec::new();
        let mut left = depth.min(600);
        let mut prev: Option<String> = None;
        let mut i = 0;
        while left > 0 {
            let d = (1 + s.below(60)).min(left);
            left -= d;
            let mut n = match &prev {
                Some(p) => Rn { props: String::new(), body: Raw::Seq(vec![Rn { props: String::new(), body: Raw::Alias(p.clone()) }]) },
                None => Rn { props: String::new(), body: Raw::Seq(vec![]) },
            };
            for _ in 1..d {
                n = wrap(s, n, false, &mut |_| atom("y"));
            }
            let name = format!("n{i}");
            i += 1;
            n.props = format!("&{name} ");
            prev = Some(name);
            parts.push(n);
        }
        Rn { props: String::new(), body: Raw::Seq(parts) }
    } else {
        nest(s, depth, tags)
    };
    let text = near::document(s, &root);
    let docs = refyaml::documents(text.as_bytes());
    if docs.len() != 1 || docs[0].bad.is_some() {
        c.discard = true;
        c.label("writer-miss");
        return Ok(());
    }
    let total = real_depth(&docs[0]).unwrap();
    c.input(&format!("nesting of {total}: {:?}", text.chars().take(500).collect::<String>()));
    c.nt_if(total >= 100);
    c.label(if total <= LIMIT { "shallow" } else { "deep" });
    let ok = total <= LIMIT;
    let got = serde_yaml::from_str::<Value>(&text);
    if let Ok(v) = &got {
        let want = refyaml::doc_value(&docs[0]);
        match want {
            Ok(w) => ensure!(c, same(&MV::of(v), &w), "nested-value", "not the value of the text\n{text}"),
            Err(e) => ensure!(c, e == refyaml::No::Dup || !ok, "nested-value", "{e:?}\n{text}"),
        }
    }
    judge(c, "as a Value", ok, &got.map(drop), &text)?;
    judge(c, "as any data", ok, &count(&text, u64::MAX).0, &text)?;
    judge(c, "as ignored data", true, &serde_yaml::from_str::<IgnoredAny>(&text).map(drop), &text)?;
    let mut n = 0;
    for d in source(s, text.as_bytes()) {
        n += 1;
        judge(c, "as a document of a stream", ok, &Value::deserialize(d).map(drop), &text)?;
    }
    ensure!(c, n == 1, "documents", "{n} documents");
    Ok(())
}

fn c07_cycles(s: &mut Source, c: &mut Ctx) -> PResult {
    // A node that contains itself, at some depth.
    let name = s.pick(&["a", "self", "x1"]).to_string();
    let most = if s.bool() { 5 } else { 80 };
    let d = 1 + s.below(most);
    let me = Rn { props: String::new(), body: Raw::Alias(name.clone()) };
    let typed = s.bool();
    let mut n = if typed {
        let mut n = me;
        for _ in 0..d {
            n = match s.below(3) {
                0 => Rn { props: String::new(), body: Raw::Map(vec![(atom("a"), n)]) },
                1 => Rn { props: String::new(), body: Raw::Map(vec![(atom("b"), Rn { props: String::new(), body: Raw::Seq(vec![n]) })]) },
                _ => Rn { props: String::new(), body: Raw::Map(vec![(atom("c"), Rn { props: String::new(), body: Raw::Map(vec![(atom("k"), n)]) })]) },
            };
        }
        n
    } else {
        let mut n = wrap(s, me, false, &mut |_| atom("y"));
        for _ in 1..d {
            n = wrap(s, n, true, &mut |_| atom("y"));
        }
        n
    };
    if matches!(n.body, Raw::Alias(_)) {
        c.discard = true;
        return Ok(());
    }
    n.props = format!("&{name} {}", n.props);
    if !typed && s.bool() {
        n = wrap(s, n, false, &mut |_| atom("y"));
    }
    let text = near::document(s, &n);
    c.input(&format!("{:?}", text.chars().take(500).collect::<String>()));
    let docs = refyaml::documents(text.as_bytes());
    if docs.len() != 1 || docs[0].bad.is_some() || real_depth(&docs[0]).is_some() {
        c.discard = true;
        return Ok(());
    }
    c.nt();
    c.label(if typed { "typed" } else { "values" });
    judge(c, "containing itself, as a Value", false, &serde_yaml::from_str::<Value>(&text).map(drop), &text)?;
    let (r, n) = count(&text, 5_000_000);
    judge(c, "containing itself, as any data", false, &r, &text)?;
    ensure!(c, n < 5_000_000, "cycle-work", "visited {n} nodes\n{text}");
    if typed {
        judge(c, "containing itself, as a recursive type", false, &serde_yaml::from_str::<Chain>(&text).map(drop), &text)?;
    }
    judge(c, "containing itself, as ignored data", true, &serde_yaml::from_str::<IgnoredAny>(&text).map(drop), &text)?;
    Ok(())
}

/// Alias expansions and nodes of a whole document without cycles, saturating;
/// and the most nodes visited between two expansions.
fn expansion(d: &Doc) -> (u64, u64, u64) {
    // In the order of the document, targets come before their aliases.
    let n = d.nodes.len();
    let (mut jumps, mut nodes, mut own) = (vec![0u64; n], vec![0u64; n], vec![0u64; n]);
    fn go(d: &Doc, id: usize, jumps: &mut [u64], nodes: &mut [u64], own: &mut [u64]) {
        if nodes[id] > 0 {
            return;
        }
        let mut kids: Vec<usize> = Vec::new();
        match &d.nodes[id].kind {
            Kind::Seq(v) => kids.extend(v),
            Kind::Map(v) => v.iter().for_each(|x| kids.extend([x.0, x.1])),
            Kind::Alias(t) => {
                go(d, *t, jumps, nodes, own);
                jumps[id] = jumps[*t].saturating_add(1);
                nodes[id] = nodes[*t];
                return;
            }
            _ => {}
        }
        let (mut j, mut n, mut o) = (0u64, 1u64, 1u64);
        for k in kids {
            go(d, k, jumps, nodes, own);
            j = j.saturating_add(jumps[k]);
            n = n.saturating_add(nodes[k]);
            o += own[k];
        }
        jumps[id] = j;
        nodes[id] = n;
        own[id] = o;
    }
    go(d, d.root, &mut jumps, &mut nodes, &mut own);
    (jumps[d.root], nodes[d.root], own.iter().copied().max().unwrap_or(0))
}

/// A graph of anchored collections, each using those before it.
fn alias_doc(s: &mut Source, pad: Option<(usize, i64)>, plan: &[(usize, usize, bool)], links: &[Vec<usize>]) -> String {
    let _ = s;
    let mut t = String::new();
    for (i, (fan, width, map)) in plan.iter().enumerate() {
        t.push_str(&format!("- &n{i} "));
        let mut items: Vec<String> = (0..*width).map(|_| "w".to_string()).collect();
        if i > 0 {
            for k in 0..*fan {
                items.push(format!("*n{}", links[i][k % links[i].len()]));
            }
        }
        if *map {
            let e: Vec<String> = items.iter().enumerate().map(|(k, x)| format!("k{k}: {x} ")).collect();
            t.push_str(&format!("{{{}}}\n", e.join(", ")));
        } else {
            t.push_str(&format!("[{}]\n", items.join(", ")));
        }
    }
    if let Some((n, _)) = pad {
        for _ in 0..n {
            t.push_str("- p\n");
        }
    }
    t
}

fn c07_aliases(s: &mut Source, c: &mut Ctx) -> PResult {
    let n_docs = 1 + s.weighted(&[6, 2, 1]);
    let mut stream = String::new();
    let mut docs_text = Vec::new();
    for _ in 0..n_docs {
        let layers = 2 + s.weighted(&[5, 3, 2, 1, 1, 1, 1, 1]);
        let big = s.bool();
        let mut plan = Vec::new();
        let mut links = Vec::new();
        for i in 0..layers {
            let fan = match (big, layers) {
                (true, 2 | 3) => 60 + s.below(160),
                (true, _) => 2 + s.below(14),
                _ => 1 + s.below(9),
            };
            plan.push((fan, s.below(3), s.chance(1, 3)));
            let mut l = Vec::new();
            if i > 0 {
                for _ in 0..1 + s.below(3) {
                    l.push(if s.chance(3, 4) { i - 1 } else { s.below(i) });
                }
            }
            links.push(l);
        }
        let mut text = alias_doc(s, None, &plan, &links);
        let d = &refyaml::documents(text.as_bytes())[0];
        let (jumps, _, _) = expansion(d);
        let off = s.range(0, 4) as i64 - 2;
        if jumps > 100 * d.events as u64 && jumps < 150_000 && s.chance(2, 3) {
            // close to the limit
            let need = (jumps as i64 + 99) / 100 - d.events as i64 + off;
            if need > 0 {
                text = alias_doc(s, Some((need as usize, 0)), &plan, &links);
                c.label("at-the-limit");
            }
        }
        docs_text.push(text);
    }
    for (i, t) in docs_text.iter().enumerate() {
        if i > 0 {
            stream.push_str("---\n");
        }
        stream.push_str(t);
    }
    c.input(&format!("{:?}", stream.chars().take(700).collect::<String>()));
    let docs = refyaml::documents(stream.as_bytes());
    ensure!(c, docs.len() == n_docs, "harness", "{} documents", docs.len());
    let mut all = Vec::new();
    for d in &docs {
        let (jumps, nodes, own) = expansion(d);
        let cap = 100 * d.events as u64;
        c.nt_if(jumps >= 1000);
        c.label(if jumps <= cap { "moderate" } else { "excessive" });
        all.push((jumps <= cap, nodes, d.events as u64 + (cap + 1).saturating_mul(own)));
    }
    let text = stream;
    for (round, it) in [Deserializer::from_str(&text), source(s, text.as_bytes())].into_iter().enumerate() {
        for (i, d) in it.enumerate() {
            let (ok, nodes, most) = match all.get(i) {
                Some(x) => *x,
                None => fail!("documents", "more than {n_docs} documents"),
            };
            VISITED.with(|v| v.set(0));
            CAP.with(|v| v.set(most + 10));
            let r = if round == 0 || !ok { Count::deserialize(d).map(drop) } else { Value::deserialize(d).map(drop) };
            let n = VISITED.with(|v| v.get());
            c.checked();
            match (ok, r) {
                (true, Ok(())) => ensure!(c, round == 1 || n == nodes, "expansion-incomplete", "visited {n} of {nodes} nodes in document {i}\n{}", &text[..text.len().min(800)]),
                (true, Err(e)) => fail!("aliases-refused", "document {i} is within the limits: {e}\n{}", &text[..text.len().min(800)]),
                (false, Ok(())) => fail!("aliases-accepted", "document {i} expands beyond the limits, but is accepted ({n} nodes)\n{}", &text[..text.len().min(800)]),
                (false, Err(e)) => ensure!(c, n <= most && !e.to_string().is_empty(), "alias-work", "visited {n} nodes where at most {most} are allowed, in document {i}\n{}", &text[..text.len().min(800)]),
            }
        }
    }
    if n_docs == 1 && all[0].0 && all[0].1 < 20_000 {
        let want = refyaml::doc_value(&docs[0]);
        let got = serde_yaml::from_str::<Value>(&text);
        if let (Ok(w), Ok(g)) = (want, got) {
            ensure!(c, same(&MV::of(&g), &w), "expansion-value", "not the value of the text\n{}", &text[..text.len().min(800)]);
        }
    }
    let _ = gen::word;
    Ok(())
}

/// Wide data of any type, which has nothing to do with the depth.
fn c07_wide(s: &mut Source, c: &mut Ctx) -> PResult {
    let o = ty::TOpts { f32: false, big_ints: false, ..T_ALL };
    let d = 1 + s.below(3);
    let mut t = ty::gen_ty(s, &o, d);
    for _ in 0..s.below(3) {
        t = match s.below(3) {
            0 => Ty::Newtype(Box::new(t)),
            1 if !ty::nullable(&t) => Ty::Opt(Box::new(t)),
            1 => Ty::TupleStruct(vec![t]),
            _ => Ty::Struct(vec![("a", t)]),
        };
    }
    let width = *s.pick(&[129usize, 130, 131, 140, 200, 257, 300]);
    let kind = s.below(4);
    let wrapped = |s: &mut Source, k: Ty| match s.below(3) {
        0 => k,
        1 => Ty::Newtype(Box::new(k)),
        _ => Ty::Newtype(Box::new(Ty::Newtype(Box::new(k)))),
    };
    let (mut t, mut v) = match kind {
        0 => {
            let v = (0..width).map(|_| ty::gen_val(s, &t)).collect();
            (Ty::Seq(Box::new(t)), Val::Seq(v))
        }
        1 => {
            let v = (0..width).map(|_| ty::gen_val(s, &t)).collect();
            (Ty::Tuple(vec![t; width]), Val::Prod(v))
        }
        _ => {
            let k = wrapped(s, if kind == 2 { Ty::Int(32, false) } else { Ty::Str });
            let mut v = Vec::new();
            for i in 0..width {
                let mut key = if kind == 2 { Val::Int(false, i as u128) } else { Val::Str(format!("k{i}")) };
                let mut at = &k;
                while let Ty::Newtype(n) = at {
                    key = Val::New(Box::new(key));
                    at = n;
                }
                v.push((key, ty::gen_val(s, &t)));
            }
            (Ty::Map(Box::new(k), Box::new(t)), Val::Map(v))
        }
    };
    for _ in 0..s.below(80) {
        (t, v) = match s.below(2) {
            0 => (Ty::Seq(Box::new(t)), Val::Seq(vec![v])),
            _ => (Ty::Struct(vec![("a", t)]), Val::Prod(vec![v])),
        };
    }
    c.nt();
    c.label(["sequence", "tuple", "int-keys", "str-keys"][kind]);
    let text = super::ystr(&ty::TV(&t, &v))?;
    c.input(&format!("{width} entries: {:?}", text.chars().take(500).collect::<String>()));
    match ty::from_str(&t, &text) {
        Ok(g) => ensure!(c, ty::veq(&g, &v), "wide-data", "not the data of the text\n{text}"),
        Err(e) => fail!("wide-refused", "wide data is refused: {e}\n{text}"),
    }
    match serde_yaml::from_str::<Value>(&text) {
        Ok(_) => c.checked(),
        // Keys apart as themselves may be one as Values.
        Err(e) if e.to_string().contains("recursion") => fail!("wide-value-refused", "wide data is refused as a Value: {e}\n{text}"),
        Err(_) => {}
    }
    Ok(())
}
