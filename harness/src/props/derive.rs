//! Values of derived and standard-library types, for the checks that quantify
//! over user types.

use crate::engine::*;
use crate::gen::{self, VOpts};
use crate::{ensure, fail};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_yaml::{Mapping, Value};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::num::{NonZeroI64, NonZeroU8, Wrapping};
use std::ops::{Bound, Range, RangeInclusive};
use std::time::Duration;

pub trait Body {
    fn run<T: Serialize + DeserializeOwned + Debug + PartialEq>(&mut self, _s: &mut Source, name: &'static str, v: T) -> PResult;
}

fn list<T>(s: &mut Source, max: usize, mut f: impl FnMut(&mut Source) -> T) -> Vec<T> {
    let mut v = Vec::new();
    while s.more(v.len(), 2, max) {
        v.push(f(s));
    }
    v
}
fn opt<T>(s: &mut Source, f: impl FnOnce(&mut Source) -> T) -> Option<T> {
    if s.chance(2, 3) {
        Some(f(s))
    } else {
        None
    }
}
fn st(s: &mut Source) -> String {
    gen::string(s)
}
fn i32_(s: &mut Source) -> i32 {
    let (n, m) = gen::int_in(s, i32::MIN as i128, i32::MAX as u128);
    if n {
        -(m as i64) as i32
    } else {
        m as i32
    }
}
fn i64_(s: &mut Source) -> i64 {
    let (n, m) = gen::int_in(s, i64::MIN as i128, i64::MAX as u128);
    if n {
        (m as i128).wrapping_neg() as i64
    } else {
        m as i64
    }
}
fn u64_(s: &mut Source) -> u64 {
    gen::int_in(s, 0, u64::MAX as u128).1 as u64
}
/// Not NaN, since these compare by ==.
fn f64_(s: &mut Source) -> f64 {
    let f = gen::f64s(s);
    if f.is_nan() {
        0.5
    } else {
        f
    }
}
fn value(s: &mut Source) -> Value {
    let o = VOpts { max_depth: 2, max_len: 4, ..VOpts::full(s) };
    gen::value(s, &o).to_value()
}
fn plain_value(s: &mut Source) -> Value {
    let o = VOpts { max_depth: 2, max_len: 4, tags: false, floats: true, any_keys: true, nest: false };
    gen::value(s, &o).to_value()
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Inner {
    beta: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    gamma: Option<bool>,
}
fn inner(s: &mut Source) -> Inner {
    Inner { beta: st(s), gamma: opt(s, |s| s.bool()) }
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Flat {
    alpha: i32,
    #[serde(flatten)]
    inner: Inner,
    list: Vec<f64>,
    #[serde(flatten)]
    rest: BTreeMap<String, Vec<String>>,
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct FlatValue {
    name: String,
    #[serde(flatten)]
    rest: Mapping,
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "type")]
enum Internal {
    Empty,
    #[serde(rename = "a-b")]
    Named { x: i32, y: Option<String> },
    Wrap(Inner),
    Deep { of: Vec<Internal> },
}
fn internal(s: &mut Source, d: usize) -> Internal {
    match s.below(if d == 0 { 3 } else { 4 }) {
        0 => Internal::Empty,
        1 => Internal::Named { x: i32_(s), y: opt(s, st) },
        2 => Internal::Wrap(inner(s)),
        _ => Internal::Deep { of: list(s, 3, |s| internal(s, d - 1)) },
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Unit,
    New(Vec<i64>),
    Tup(u8, String),
    Rec { a: f64, b: Box<Adjacent> },
    Str(String),
}
fn adjacent(s: &mut Source, d: usize) -> Adjacent {
    match s.below(if d == 0 { 3 } else { 5 }) {
        0 => Adjacent::Unit,
        1 => Adjacent::New(list(s, 4, i64_)),
        2 => Adjacent::Tup(s.below(256) as u8, st(s)),
        3 => Adjacent::Str(st(s)),
        _ => Adjacent::Rec { a: f64_(s), b: Box::new(adjacent(s, d - 1)) },
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
enum Json {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    S(String),
    L(Vec<Json>),
    M(BTreeMap<String, Json>),
}
fn json(s: &mut Source, d: usize) -> Json {
    match s.below(if d == 0 { 6 } else { 8 }) {
        0 => Json::Null,
        1 => Json::Bool(s.bool()),
        2 => Json::U(u64_(s)),
        3 => {
            let i = i64_(s);
            if i < 0 {
                Json::I(i)
            } else {
                Json::U(i as u64)
            }
        }
        4 => Json::F(f64_(s)),
        5 => Json::S(st(s)),
        6 => Json::L(list(s, 4, |s| json(s, d - 1))),
        _ => Json::M(list(s, 4, |s| (st(s), json(s, d - 1))).into_iter().collect()),
    }
}

fn is_false(b: &bool) -> bool {
    !b
}
fn seven() -> u32 {
    7
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[serde(rename_all = "kebab-case", deny_unknown_fields)]
struct Attrs {
    #[serde(rename = "Weird: name #1")]
    first: i64,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    some_list: Vec<String>,
    #[serde(default = "seven")]
    with_default: u32,
    #[serde(skip_serializing_if = "is_false", default)]
    flag_field: bool,
    #[serde(rename = "null")]
    nul: Option<Box<Attrs>>,
    #[serde(rename = "1")]
    one: (),
    #[serde(skip)]
    skipped: u8,
}
fn attrs(s: &mut Source, d: usize) -> Attrs {
    Attrs {
        first: i64_(s),
        some_list: list(s, 3, st),
        with_default: s.draw(1 << 32) as u32,
        flag_field: s.bool(),
        nul: if d > 0 { opt(s, |s| Box::new(attrs(s, d - 1))) } else { None },
        one: (),
        skipped: 0,
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
enum Tree {
    Leaf(String),
    Node { left: Option<Box<Tree>>, right: Vec<Tree>, #[serde(rename = "key")] k: (i8, char) },
    Pair(Box<Pair>),
    Empty(),
    None,
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Pair(Tree, Tree);
fn tree(s: &mut Source, d: usize) -> Tree {
    match s.below(if d == 0 { 3 } else { 5 }) {
        0 => Tree::None,
        1 => Tree::Leaf(st(s)),
        2 => Tree::Empty(),
        3 => Tree::Node {
            left: opt(s, |s| Box::new(tree(s, d - 1))),
            right: list(s, 3, |s| tree(s, d - 1)),
            k: (s.below(256) as u8 as i8, gen::any_char(s)),
        },
        _ => Tree::Pair(Box::new(Pair(tree(s, d - 1), tree(s, d - 1)))),
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, Hash, Clone, Copy, PartialOrd, Ord)]
enum Color {
    Red,
    #[serde(rename = "null")]
    Null,
    #[serde(rename = "1.0")]
    One,
    #[serde(rename = "two words")]
    Two,
}
fn color(s: &mut Source) -> Color {
    *s.pick(&[Color::Red, Color::Null, Color::One, Color::Two])
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
#[serde(transparent)]
struct Key(String);

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(into = "String", from = "String")]
struct Conv(String);
impl From<String> for Conv {
    fn from(s: String) -> Self {
        Conv(s)
    }
}
impl From<Conv> for String {
    fn from(c: Conv) -> String {
        c.0
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Meters(f64);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Marker;
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Triple(u8, Option<i8>, Vec<char>);

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Generic<T> {
    value: T,
    others: Vec<T>,
    by_name: BTreeMap<String, T>,
    marker: PhantomData<u8>,
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum Shape {
    Dot,
    Circle(f64),
    Poly(Vec<(i32, i32)>),
    Line { from: (i32, i32), to: (i32, i32) },
    Both(i32, Color),
}
fn shape(s: &mut Source) -> Shape {
    match s.below(5) {
        0 => Shape::Dot,
        1 => Shape::Circle(f64_(s)),
        2 => Shape::Poly(list(s, 4, |s| (i32_(s), i32_(s)))),
        3 => Shape::Line { from: (i32_(s), 0), to: (1, i32_(s)) },
        _ => Shape::Both(i32_(s), color(s)),
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Singletons {
    #[serde(with = "serde_yaml::with::singleton_map")]
    one: Shape,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    many: Vec<Shape>,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    named: BTreeMap<String, Option<Shape>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    tagged: Option<Shape>,
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct StdTypes {
    array: [i32; 3],
    deque: VecDeque<String>,
    set: BTreeSet<u16>,
    hashset: HashSet<String>,
    linked: LinkedList<Option<i32>>,
    boxed: Box<str>,
    slice: Box<[u8]>,
    duration: Duration,
    range: Range<i64>,
    incl: RangeInclusive<u8>,
    bound: Bound<i32>,
    result: Result<i32, String>,
    ip: std::net::IpAddr,
    path: std::path::PathBuf,
    wrap: Wrapping<u16>,
    nz: NonZeroU8,
    nzi: Option<NonZeroI64>,
    cow: Cow<'static, str>,
    cell: std::cell::RefCell<i32>,
    tuple: (u8, String, (), Option<bool>),
    unit: (),
}

fn std_types(s: &mut Source) -> StdTypes {
    StdTypes {
        array: [i32_(s), 0, i32_(s)],
        deque: list(s, 3, st).into(),
        set: list(s, 4, |s| s.draw(65536) as u16).into_iter().collect(),
        hashset: list(s, 3, st).into_iter().collect(),
        linked: list(s, 3, |s| opt(s, i32_)).into_iter().collect(),
        boxed: st(s).into(),
        slice: list(s, 5, |s| s.below(256) as u8).into(),
        duration: Duration::new(s.draw(1 << 40), s.draw(1_000_000_000) as u32),
        range: i64_(s)..i64_(s),
        incl: s.below(256) as u8..=s.below(256) as u8,
        bound: match s.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(i32_(s)),
            _ => Bound::Excluded(i32_(s)),
        },
        result: if s.bool() { Ok(i32_(s)) } else { Err(st(s)) },
        ip: if s.bool() {
            std::net::Ipv4Addr::from(s.draw(1 << 32) as u32).into()
        } else {
            std::net::Ipv6Addr::from((s.u64() as u128) << 64 | s.draw(3) as u128).into()
        },
        path: st(s).into(),
        wrap: Wrapping(s.draw(65536) as u16),
        nz: NonZeroU8::new(1 + s.below(255) as u8).unwrap(),
        nzi: NonZeroI64::new(i64_(s)),
        cow: st(s).into(),
        cell: i32_(s).into(),
        tuple: (s.below(256) as u8, st(s), (), opt(s, |s| s.bool())),
        unit: (),
    }
}

/// Names that a plain scalar would not keep, where the content is buffered
/// before the names are known.
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
enum Odd {
    Ints {
        #[serde(rename = "1")]
        one: String,
        #[serde(rename = "0")]
        zero: i64,
        #[serde(rename = "-1", skip_serializing_if = "Option::is_none")]
        minus: Option<char>,
    },
    Words {
        #[serde(rename = "true")]
        yes: Option<Box<Odd>>,
        #[serde(rename = "null")]
        nul: String,
        #[serde(rename = "~")]
        tilde: Vec<Odd>,
    },
    Floats {
        #[serde(rename = "1.5")]
        float: f64,
        #[serde(rename = ".inf")]
        inf: u8,
        #[serde(rename = "0x1")]
        hex: i8,
        #[serde(rename = "")]
        empty: bool,
    },
    Typed(OddTyped),
    Pair(i64, String),
    One(Meters2),
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Meters2(bool);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "1")]
enum OddTyped {
    #[serde(rename = "2")]
    Two {
        #[serde(rename = "0")]
        zero: String,
        #[serde(rename = "false")]
        no: u64,
    },
    #[serde(rename = "null")]
    Null,
    #[serde(rename = "1.0")]
    Float {
        #[serde(rename = "007")]
        seven: f64,
        #[serde(rename = "a\nb")]
        lines: String,
    },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "0", content = "1")]
enum OddAdjacent {
    #[serde(rename = "true")]
    Yes(String),
    #[serde(rename = "1")]
    Rec {
        #[serde(rename = "null")]
        a: Option<String>,
        #[serde(rename = "0b1")]
        b: Odd,
    },
    #[serde(rename = "")]
    Empty,
}
fn odd_typed(s: &mut Source) -> OddTyped {
    match s.below(3) {
        0 => OddTyped::Null,
        1 => OddTyped::Two { zero: st(s), no: u64_(s) },
        _ => OddTyped::Float { seven: f64_(s), lines: st(s) },
    }
}
fn odd(s: &mut Source, d: usize) -> Odd {
    match s.below(if d == 0 { 5 } else { 6 }) {
        0 => Odd::Ints { one: st(s), zero: i64_(s), minus: opt(s, gen::any_char) },
        1 => Odd::Floats { float: f64_(s), inf: s.below(256) as u8, hex: s.below(256) as u8 as i8, empty: s.bool() },
        2 => Odd::Typed(odd_typed(s)),
        3 => Odd::Pair(i64_(s), st(s)),
        4 => Odd::One(Meters2(s.bool())),
        _ => Odd::Words { yes: opt(s, |s| Box::new(odd(s, d - 1))), nul: st(s), tilde: list(s, 3, |s| odd(s, d - 1)) },
    }
}
fn odd_adjacent(s: &mut Source, d: usize) -> OddAdjacent {
    match s.below(3) {
        0 => OddAdjacent::Empty,
        1 => OddAdjacent::Yes(st(s)),
        _ => OddAdjacent::Rec { a: opt(s, st), b: odd(s, d) },
    }
}

/// Flattening of every kind at once, and maps keyed by compound data.
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Layers {
    #[serde(rename = "1")]
    one: i8,
    #[serde(flatten)]
    kind: OddTypedFlat,
    #[serde(flatten)]
    maybe: Option<Inner>,
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[serde(tag = "kind", rename_all = "snake_case")]
enum OddTypedFlat {
    NoneAtAll,
    SomeThing { what: String },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Point {
    x: i32,
    #[serde(rename = "true")]
    y: String,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum MapKey {
    Unit,
    New(Option<i32>),
    Tup(bool, String),
    Rec { p: Point },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Wrapped(MapKey);
fn map_key(s: &mut Source) -> MapKey {
    match s.below(4) {
        0 => MapKey::Unit,
        1 => MapKey::New(opt(s, i32_)),
        2 => MapKey::Tup(s.bool(), st(s)),
        _ => MapKey::Rec { p: Point { x: i32_(s), y: st(s) } },
    }
}

const RESERVED: &[&str] = &["alpha", "beta", "gamma", "list", "name"];

/// Hand a random value of one of the types to the body.
pub fn derived<B: Body>(s: &mut Source, b: &mut B) -> PResult {
    let d = 1 + (s.size / 40) as usize;
    match s.below(32) {
        0 => {
            let v = Flat {
                alpha: i32_(s),
                inner: inner(s),
                list: list(s, 3, f64_),
                rest: list(s, 4, |s| (st(s), list(s, 3, st))).into_iter().filter(|(k, _)| !RESERVED.contains(&k.as_str())).collect(),
            };
            b.run(s, "flatten", v)
        }
        1 => {
            let mut rest = Mapping::new();
            for (k, v) in list(s, 4, |s| (st(s), plain_value(s))) {
                if k != "name" {
                    rest.insert(k.into(), v);
                }
            }
            let v = FlatValue { name: st(s), rest };
            b.run(s, "flatten-mapping", v)
        }
        2 => {
            let v = internal(s, d);
            b.run(s, "internally-tagged", v)
        }
        3 => {
            let v = list(s, 4, |s| internal(s, d));
            b.run(s, "internally-tagged-list", v)
        }
        4 => {
            let v = adjacent(s, d);
            b.run(s, "adjacently-tagged", v)
        }
        5 => {
            let v = json(s, d + 1);
            b.run(s, "untagged", v)
        }
        6 => {
            let v = attrs(s, d);
            b.run(s, "attributes", v)
        }
        7 => {
            let v = tree(s, d);
            b.run(s, "recursive-enum", v)
        }
        8 => {
            let v: BTreeMap<Color, Vec<Color>> = list(s, 4, |s| (color(s), list(s, 3, color))).into_iter().collect();
            b.run(s, "enum-keys", v)
        }
        9 => {
            let v: BTreeMap<Key, Conv> = list(s, 5, |s| (Key(st(s)), Conv(st(s)))).into_iter().collect();
            b.run(s, "transparent-keys", v)
        }
        10 => {
            let v = Generic { value: shape(s), others: list(s, 3, shape), by_name: list(s, 3, |s| (st(s), shape(s))).into_iter().collect(), marker: PhantomData };
            b.run(s, "generic-enum", v)
        }
        11 => {
            let v = Generic { value: value(s), others: list(s, 3, value), by_name: list(s, 3, |s| (st(s), value(s))).into_iter().collect(), marker: PhantomData };
            b.run(s, "generic-value", v)
        }
        12 => {
            let v = Singletons {
                one: shape(s),
                many: list(s, 3, shape),
                named: list(s, 3, |s| (st(s), opt(s, shape))).into_iter().collect(),
                tagged: opt(s, shape),
            };
            b.run(s, "singleton-map", v)
        }
        13 => {
            let v = std_types(s);
            b.run(s, "std-types", v)
        }
        14 => {
            let v: HashMap<i64, (bool, Meters)> = list(s, 4, |s| (i64_(s), (s.bool(), Meters(f64_(s))))).into_iter().collect();
            b.run(s, "int-keys", v)
        }
        15 => {
            let v: BTreeMap<(i32, String), Vec<Option<u64>>> = list(s, 4, |s| ((i32_(s), st(s)), list(s, 3, |s| opt(s, u64_)))).into_iter().collect();
            b.run(s, "tuple-keys", v)
        }
        16 => {
            let v: Option<Vec<Triple>> = Some(list(s, 4, |s| Triple(s.below(256) as u8, opt(s, |s| s.below(256) as u8 as i8), list(s, 3, gen::any_char))));
            b.run(s, "tuple-structs", v)
        }
        17 => b.run(s, "unit-struct", Marker),
        18 => {
            let v = list(s, 4, |s| list(s, 3, |s| list(s, 3, |s| opt(s, st))));
            b.run(s, "nested-sequences", v)
        }
        19 => {
            let v: Vec<Result<Shape, Vec<Color>>> = list(s, 4, |s| if s.bool() { Err(list(s, 3, color)) } else { Ok(Shape::Dot) });
            b.run(s, "results", v)
        }
        20 => {
            let v: BTreeMap<bool, BTreeMap<char, BTreeMap<u8, String>>> = list(s, 2, |s| {
                (s.bool(), list(s, 3, |s| (gen::any_char(s), list(s, 3, |s| (s.below(256) as u8, st(s))).into_iter().collect())).into_iter().collect())
            })
            .into_iter()
            .collect();
            b.run(s, "nested-maps", v)
        }
        21 => {
            let v = (u64_(s), i64_(s), (s.u64() as u128) << 64 | s.u64() as u128, ((s.u64() as u128) << 64 | s.u64() as u128) as i128);
            b.run(s, "wide-ints", v)
        }
        22 => {
            let v = list(s, 5, shape);
            b.run(s, "enum-list", v)
        }
        23 => {
            let v = list(s, 5, |s| opt(s, color));
            b.run(s, "enum-options", v)
        }
        24 => {
            let mut v: Option<Box<Chain>> = None;
            for _ in 0..s.below(20) {
                v = Some(Box::new(Chain { v: i32_(s), next: v }));
            }
            b.run(s, "chain", Chain { v: 0, next: v })
        }
        25 => {
            let v = list(s, 5, |s| serde_yaml::Number::from(f64_(s)));
            b.run(s, "numbers", v)
        }
        26 => {
            let v = odd(s, d);
            b.run(s, "odd-names-untagged", v)
        }
        27 => {
            let v = list(s, 4, |s| (odd_typed(s), odd_adjacent(s, d)));
            b.run(s, "odd-names-tagged", v)
        }
        28 => {
            let v = Layers {
                one: s.below(256) as u8 as i8,
                kind: if s.bool() { OddTypedFlat::NoneAtAll } else { OddTypedFlat::SomeThing { what: st(s) } },
                maybe: opt(s, inner),
            };
            b.run(s, "flatten-layers", v)
        }
        29 => {
            let v: BTreeMap<MapKey, Vec<MapKey>> = list(s, 4, |s| (map_key(s), list(s, 2, map_key))).into_iter().collect();
            b.run(s, "enum-compound-keys", v)
        }
        30 => {
            let v: BTreeMap<Option<Point>, BTreeMap<Wrapped, Point>> =
                list(s, 3, |s| (opt(s, |s| Point { x: i32_(s), y: st(s) }), list(s, 3, |s| (Wrapped(map_key(s)), Point { x: i32_(s), y: st(s) })).into_iter().collect())).into_iter().collect();
            b.run(s, "struct-keys", v)
        }
        _ => {
            let mut m = Mapping::new();
            for (k, v) in list(s, 5, |s| (value(s), value(s))) {
                m.insert(k, v);
            }
            b.run(s, "mapping", m)
        }
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Chain {
    v: i32,
    #[serde(skip_serializing_if = "Option::is_none")]
    next: Option<Box<Chain>>,
}

struct Round<'a>(&'a mut Ctx);
impl Body for Round<'_> {
    fn run<T: Serialize + DeserializeOwned + Debug + PartialEq>(&mut self, _s: &mut Source, name: &'static str, v: T) -> PResult {
        let c = &mut *self.0;
        c.input(&format!("{name} {v:?}"));
        c.label(name);
        c.nt();
        let text = super::ystr(&v)?;
        match serde_yaml::from_str::<T>(&text) {
            Ok(g) => ensure!(c, g == v, format!("derived-roundtrip-{name}"), "read back {g:?}\nfrom\n{text}"),
            Err(e) => fail!(format!("derived-reread-error-{name}"), "{e}\n{text}"),
        }
        match serde_yaml::from_slice::<T>(text.as_bytes()) {
            Ok(g) => ensure!(c, g == v, format!("derived-roundtrip-slice-{name}"), "read back {g:?}\nfrom\n{text}"),
            Err(e) => fail!(format!("derived-reread-error-slice-{name}"), "{e}\n{text}"),
        }
        Ok(())
    }
}

pub fn c01_derive(s: &mut Source, c: &mut Ctx) -> PResult {
    derived(s, &mut Round(c))
}
