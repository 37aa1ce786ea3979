//! Arbitrary sequences of serializer calls, and memory over arbitrary
//! histories of reading and writing.

use super::robust::{Chaos, Decide};
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::refyaml;
use crate::ty::intern;
use crate::{ensure, fail, fuzz};
use serde::de::{DeserializeSeed, IgnoredAny};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::Deserialize;
use serde_yaml::{Deserializer, Value};
use std::cell::Cell;
use std::fmt;
use std::io::{self, Read, Write};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C28",
            level: "exploration",
            rule: "A case is a tree of serializer calls (all 29 methods, right, absent and wrong length hints, entries in one call or two, keys of every kind, text through Display in pieces, failures part-way, nests of up to 600 levels), written as text, to a writer and as a Value, compared with the data called for; non-trivial = at least four calls.",
            assumptions: &[],
            subs: vec![
                Sub { name: "calls", quick: 5_000_000, thorough: 150_000_000, f: c28_calls },
                Sub { name: "refused", quick: 3_000_000, thorough: 75_000_000, f: c28_refused },
                Sub { name: "deep", quick: 15_000, thorough: 400_000, f: c28_deep },
            ],
        },
        Prop {
            id: "C25",
            level: "exploration",
            rule: "A case is a history of reading (arbitrary bytes, any visitor, documents abandoned, failing or panicking readers and visitors) or writing (any calls, failing or panicking data and writers, serializers abandoned or unwrapped), with the live allocations compared before and after, in a build with AddressSanitizer; or a text of up to 300 kB read and written with its peak and total memory compared with its size; non-trivial = at least 20 allocations were made.",
            assumptions: &["The counting allocator sees every allocation of the thread, unsafe-libyaml's included."],
            subs: vec![
                Sub { name: "read", quick: 60_000, thorough: 3_000_000, f: c25_read },
                Sub { name: "write", quick: 60_000, thorough: 3_000_000, f: c25_write },
                Sub { name: "size", quick: 1_500, thorough: 40_000, f: c25_size },
            ],
        },
    ]
}

#[derive(Clone, Debug)]
pub enum Call {
    Bool(bool),
    /// bits, signed, value
    Int(u8, bool, i128),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// Through Display, in pieces.
    Display(Vec<String>),
    Bytes(Vec<u8>),
    None,
    Unit,
    UnitStruct,
    UnitVar(&'static str),
    Some(Box<Call>),
    New(Box<Call>),
    NewVar(&'static str, Box<Call>),
    Seq(Option<usize>, Vec<Call>, u8),
    Tuple(usize, Vec<Call>),
    TupStruct(usize, Vec<Call>),
    TupVar(&'static str, usize, Vec<Call>),
    /// hint, entries, whether key and value are separate calls
    Map(Option<usize>, Vec<(Call, Call)>, u8),
    Struct(usize, Vec<(&'static str, Call)>, u8),
    StructVar(&'static str, usize, Vec<(&'static str, Call)>),
    Fail(String),
    Panic,
    /// An existing Value.
    Value(Box<(MV, Value)>),
}

struct Pieces<'a>(&'a [String]);
impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for p in self.0 {
            f.write_str(p)?;
        }
        Ok(())
    }
}

impl Serialize for Call {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Call::Bool(b) => s.serialize_bool(*b),
            Call::Int(8, true, i) => s.serialize_i8(*i as i8),
            Call::Int(16, true, i) => s.serialize_i16(*i as i16),
            Call::Int(32, true, i) => s.serialize_i32(*i as i32),
            Call::Int(64, true, i) => s.serialize_i64(*i as i64),
            Call::Int(_, true, i) => s.serialize_i128(*i),
            Call::Int(8, false, i) => s.serialize_u8(*i as u8),
            Call::Int(16, false, i) => s.serialize_u16(*i as u16),
            Call::Int(32, false, i) => s.serialize_u32(*i as u32),
            Call::Int(64, false, i) => s.serialize_u64(*i as u64),
            Call::Int(_, false, i) => s.serialize_u128(*i as u128),
            Call::U128(u) => s.serialize_u128(*u),
            Call::F32(f) => s.serialize_f32(*f),
            Call::F64(f) => s.serialize_f64(*f),
            Call::Char(c) => s.serialize_char(*c),
            Call::Str(t) => s.serialize_str(t),
            Call::Display(p) => s.collect_str(&Pieces(p)),
            Call::Bytes(b) => s.serialize_bytes(b),
            Call::None => s.serialize_none(),
            Call::Unit => s.serialize_unit(),
            Call::UnitStruct => s.serialize_unit_struct("U"),
            Call::UnitVar(n) => s.serialize_unit_variant("E", 0, n),
            Call::Some(c) => s.serialize_some(&**c),
            Call::New(c) => s.serialize_newtype_struct("N", &**c),
            Call::NewVar(n, c) => s.serialize_newtype_variant("E", 1, n, &**c),
            Call::Seq(hint, v, how) => {
                if *how == 1 {
                    return s.collect_seq(v);
                }
                let mut q = s.serialize_seq(*hint)?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Call::Tuple(n, v) => {
                let mut q = s.serialize_tuple(*n)?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Call::TupStruct(n, v) => {
                let mut q = s.serialize_tuple_struct("TS", *n)?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Call::TupVar(name, n, v) => {
                let mut q = s.serialize_tuple_variant("E", 2, name, *n)?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Call::Map(hint, v, how) => {
                if *how == 2 {
                    return s.collect_map(v.iter().map(|(k, v)| (k, v)));
                }
                let mut q = s.serialize_map(*hint)?;
                for (k, x) in v {
                    if *how == 1 {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    } else {
                        q.serialize_entry(k, x)?;
                    }
                }
                q.end()
            }
            Call::Struct(n, v, skips) => {
                let mut q = s.serialize_struct("S", *n)?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if skips >> (i % 8) & 1 == 1 {
                        q.skip_field("skipped")?;
                    }
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            Call::StructVar(name, n, v) => {
                let mut q = s.serialize_struct_variant("E", 3, name, *n)?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            Call::Fail(m) => Err(ser::Error::custom(m)),
            Call::Panic => panic!("CALLER: the data panics"),
            Call::Value(v) => v.1.serialize(s),
        }
    }
}

pub struct Calls {
    pub depth: usize,
    pub bytes: bool,
    pub fail: bool,
    pub panic: bool,
    pub nested: bool,
    pub big: bool,
}

fn variant_name(s: &mut Source) -> &'static str {
    match s.weighted(&[32, 8, 8, 1]) {
        0 => *s.pick(&["A", "B", "Variant", "x"]),
        3 => "",
        1 => *s.pick(&["null", "1", "é", "a b", "true", "-", "~", "日本", "a/b", "a.b", "%41", "a:b"]),
        _ => {
            let w = gen::word(s);
            intern(&w)
        }
    }
}

fn hint(s: &mut Source, n: usize) -> Option<usize> {
    match s.weighted(&[6, 3, 3]) {
        0 => Some(n),
        1 => None,
        _ => Some(*s.pick(&[1, 0, 2, 5, n + 1, n + 1000])),
    }
}
fn len(s: &mut Source, n: usize) -> usize {
    if s.chance(1, 4) {
        *s.pick(&[0, 1, n + 1, n + 7, n + 1000])
    } else {
        n
    }
}

impl Calls {
    pub fn node(&self, s: &mut Source, depth: usize) -> Call {
        let w = if depth == 0 { 0 } else { 1 };
        match s.weighted(&[12, 2 * w, 2 * w, 4 * w, 5 * w, 2 * w, 1 * w, 2 * w, 6 * w, 3 * w, 2 * w]) {
            0 => self.leaf(s),
            1 => Call::Some(Box::new(self.node(s, depth - 1))),
            2 => Call::New(Box::new(self.node(s, depth - 1))),
            3 => {
                let n = variant_name(s);
                let c = self.node(s, depth - 1);
                if !self.nested && variant_at(&c) {
                    return c;
                }
                Call::NewVar(n, Box::new(c))
            }
            4 => {
                let v = self.list(s, depth);
                let h = hint(s, v.len());
                // a reservation of that size is the caller's doing only for right hints
                Call::Seq(h, v, s.chance(1, 4) as u8)
            }
            5 => {
                let v = self.list(s, depth);
                let n = len(s, v.len());
                Call::Tuple(n, v)
            }
            6 => {
                let v = self.list(s, depth);
                let n = len(s, v.len());
                Call::TupStruct(n, v)
            }
            7 => {
                let v = self.list(s, depth);
                let n = len(s, v.len());
                Call::TupVar(variant_name(s), n, v)
            }
            8 => {
                let mut v = vec![];
                while s.more(v.len(), 1, 4) {
                    let k = if s.chance(1, 3) { self.node(s, depth - 1) } else { self.leaf(s) };
                    v.push((k, self.node(s, depth - 1)));
                }
                let h = hint(s, v.len());
                Call::Map(h, v, s.below(3) as u8)
            }
            9 => {
                let v = self.fields(s, depth);
                let n = len(s, v.len());
                Call::Struct(n, v, s.below(256) as u8)
            }
            _ => {
                let v = self.fields(s, depth);
                let n = len(s, v.len());
                Call::StructVar(variant_name(s), n, v)
            }
        }
    }
    fn list(&self, s: &mut Source, depth: usize) -> Vec<Call> {
        let mut v = vec![];
        while s.more(v.len(), 1, 5) {
            v.push(self.node(s, depth - 1));
        }
        v
    }
    fn fields(&self, s: &mut Source, depth: usize) -> Vec<(&'static str, Call)> {
        let mut v = vec![];
        while s.more(v.len(), 1, 4) {
            v.push((variant_name(s), self.node(s, depth - 1)));
        }
        v
    }
    fn leaf(&self, s: &mut Source) -> Call {
        match s.weighted(&[6, 4, 2, 2, 2, 2, 3, 3, 2, 1, 1, if self.bytes { 2 } else { 0 }, if self.fail { 1 } else { 0 }, if self.panic { 1 } else { 0 }, 2, if self.big { 1 } else { 0 }]) {
            0 => Call::Str(if s.bool() { gen::word(s) } else { gen::string(s) }),
            1 => {
                let bits = *s.pick(&[32u8, 8, 16, 64]);
                let signed = s.bool();
                let (n, m) = if signed {
                    gen::int_in(s, -(1i128 << (bits - 1)), (1u128 << (bits - 1)) - 1)
                } else {
                    gen::int_in(s, 0, (1u128 << bits) - 1)
                };
                Call::Int(bits, signed, if n { -(m as i128) } else { m as i128 })
            }
            2 => Call::Bool(s.bool()),
            3 => Call::F64(gen::f64s(s)),
            4 => Call::F32(gen::f64s(s) as f32),
            5 => Call::Char(gen::any_char(s)),
            6 => {
                let mut v = vec![];
                while s.more(v.len(), 2, 5) {
                    v.push(match s.below(5) {
                        0 => "!".to_string(),
                        1 => String::new(),
                        2 => "a".into(),
                        3 => gen::word(s),
                        _ => gen::string(s),
                    });
                }
                Call::Display(v)
            }
            7 => Call::UnitVar(variant_name(s)),
            8 => Call::Unit,
            9 => Call::None,
            10 => Call::UnitStruct,
            11 => {
                let n = s.below(5);
                Call::Bytes((0..n).map(|_| s.below(256) as u8).collect())
            }
            12 => Call::Fail(s.pick(&["sorry", "the data is out", "é: no"]).to_string()),
            13 => Call::Panic,
            14 => {
                let o = gen::VOpts { max_depth: 2, max_len: 3, ..gen::VOpts::full(s) };
                let v = gen::value(s, &o);
                let real = v.to_value();
                Call::Value(Box::new((v, real)))
            }
            _ => {
                let (n, m) = gen::int_in(s, i128::MIN, i128::MAX as u128);
                if s.bool() {
                    let top = s.below(2) as u128;
                    Call::U128(m | top << 127)
                } else {
                    Call::Int(128, true, if n { (m as i128).wrapping_neg() } else { m as i128 })
                }
            }
        }
    }
}

/// Whether the call puts a variant's tag at this very place.
fn variant_at(c: &Call) -> bool {
    match c {
        Call::NewVar(..) | Call::TupVar(..) | Call::StructVar(..) => true,
        Call::Some(c) | Call::New(c) => variant_at(c),
        Call::Value(v) => matches!(v.0, MV::Tag(..)),
        // one that is taken for a tag
        Call::Map(_, v, _) => v.len() == 1 && display_tag(&v[0].0),
        _ => false,
    }
}

/// Text through Display of the two pieces that make up a `Tag`.
fn display_tag(c: &Call) -> bool {
    match c {
        Call::Display(p) => {
            let p: Vec<&String> = p.iter().filter(|x| !x.is_empty()).collect();
            p.len() == 2 && *p[0] == "!"
        }
        Call::Some(c) | Call::New(c) => display_tag(c),
        _ => false,
    }
}

pub fn any_call(c: &Call, f: &mut dyn FnMut(&Call) -> bool) -> bool {
    if f(c) {
        return true;
    }
    match c {
        Call::Some(c) | Call::New(c) | Call::NewVar(_, c) => any_call(c, f),
        Call::Seq(_, v, _) | Call::Tuple(_, v) | Call::TupStruct(_, v) | Call::TupVar(_, _, v) => v.iter().any(|x| any_call(x, f)),
        Call::Map(_, v, _) => v.iter().any(|(k, x)| any_call(k, f) || any_call(x, f)),
        Call::Struct(_, v, _) | Call::StructVar(_, _, v) => v.iter().any(|x| any_call(&x.1, f)),
        _ => false,
    }
}
pub fn calls(c: &Call) -> usize {
    let mut n = 0;
    any_call(c, &mut |_| {
        n += 1;
        false
    });
    n
}

#[derive(Debug, Clone, PartialEq)]
pub enum Refusal {
    /// With this message in it.
    Custom(String),
    Any,
}

pub struct Expect {
    pub text: bool,
    /// Numbers beyond what a Value holds.
    pub huge: bool,
    pub dup: bool,
}
impl Expect {
    fn int(&mut self, i: i128) -> MV {
        if i > u64::MAX as i128 || i < i64::MIN as i128 {
            self.huge = true;
            if !self.text {
                return MV::Str(i.to_string());
            }
        }
        MV::Int(i)
    }
    fn list(&mut self, v: &[Call]) -> Result<MV, Refusal> {
        Ok(MV::Seq(v.iter().map(|x| self.of(x, false)).collect::<Result<_, _>>()?))
    }
    fn map(&mut self, m: Vec<(MV, MV)>) -> MV {
        // An f32 is written as short as an f32 can be, and may read as another
        // key's f64.
        if has_dup(&m.iter().map(|(k, _)| (as_f32(k), MV::Null)).collect::<Vec<_>>()) {
            self.dup = true;
        }
        MV::Map(m)
    }
    fn fields(&mut self, v: &[(&'static str, Call)]) -> Result<MV, Refusal> {
        let m = v.iter().map(|(k, x)| Ok((MV::str(k), self.of(x, false)?))).collect::<Result<_, _>>()?;
        Ok(self.map(m))
    }
    fn tag(&mut self, n: &str, c: MV) -> MV {
        MV::Tag(n.to_string(), Box::new(c))
    }
    /// The data; calls are made in order, so the first refusal counts.
    pub fn of(&mut self, c: &Call, tagged: bool) -> Result<MV, Refusal> {
        Ok(match c {
            Call::Bool(b) => MV::Bool(*b),
            Call::Int(_, _, i) => self.int(*i),
            Call::U128(u) => {
                if *u > u64::MAX as u128 {
                    self.huge = true;
                    if !self.text {
                        return Ok(MV::Str(u.to_string()));
                    }
                    return Ok(MV::Null);
                }
                MV::Int(*u as i128)
            }
            Call::F32(f) => MV::Float(*f as f64),
            Call::F64(f) => MV::Float(*f),
            Call::Char(c) => MV::Str(c.to_string()),
            Call::Str(t) => MV::Str(t.clone()),
            Call::Display(p) => MV::Str(p.concat()),
            Call::Bytes(_) if self.text => return Err(Refusal::Any),
            Call::Bytes(b) => MV::Seq(b.iter().map(|b| MV::Int(*b as i128)).collect()),
            Call::None | Call::Unit | Call::UnitStruct => MV::Null,
            Call::UnitVar(n) => MV::str(n),
            Call::Some(c) | Call::New(c) => self.of(c, tagged)?,
            Call::NewVar(..) | Call::TupVar(..) | Call::StructVar(..) if tagged && self.text => return Err(Refusal::Any),
            // There is no empty tag.
            Call::NewVar("", _) | Call::TupVar("", ..) | Call::StructVar("", ..) => return Err(Refusal::Any),
            Call::NewVar(n, c) => {
                let c = self.of(c, true)?;
                self.tag(n, c)
            }
            Call::Seq(_, v, _) | Call::Tuple(_, v) | Call::TupStruct(_, v) => self.list(v)?,
            Call::TupVar(n, _, v) => {
                let c = self.list(v)?;
                self.tag(n, c)
            }
            Call::Map(_, v, _) => {
                let m = v.iter().map(|(k, x)| Ok((self.of(k, false)?, self.of(x, false)?))).collect::<Result<_, _>>()?;
                self.map(m)
            }
            Call::Struct(_, v, _) => self.fields(v)?,
            Call::StructVar(n, _, v) => {
                let c = self.fields(v)?;
                self.tag(n, c)
            }
            Call::Fail(m) => return Err(Refusal::Custom(m.clone())),
            Call::Panic => return Err(Refusal::Any),
            Call::Value(v) => {
                if tagged && self.text && matches!(v.0, MV::Tag(..)) {
                    return Err(Refusal::Any);
                }
                v.0.clone()
            }
        })
    }
}

fn nested_tags(v: &MV) -> bool {
    v.any(&mut |x| matches!(x, MV::Tag(_, c) if matches!(**c, MV::Tag(..))))
}
fn strange_tag(n: &str) -> bool {
    // Those of the known findings of C02.
    n.contains(['\0', ',', '[', ']', '{', '}']) || n.starts_with('!')
}
fn strange(c: &Call) -> bool {
    any_call(c, &mut |c| match c {
        Call::NewVar(n, _) | Call::TupVar(n, _, _) | Call::StructVar(n, _, _) => strange_tag(n),
        Call::Value(v) => nested_tags(&v.0) || v.0.any(&mut |x| matches!(x, MV::Tag(n, _) if strange_tag(n))),
        _ => false,
    })
}

fn as_f32(v: &MV) -> MV {
    match v {
        MV::Float(f) => MV::Float(f64::from(*f as f32)),
        MV::Seq(x) => MV::Seq(x.iter().map(as_f32).collect()),
        MV::Map(x) => MV::Map(x.iter().map(|(k, v)| (as_f32(k), as_f32(v))).collect()),
        MV::Tag(t, x) => MV::Tag(t.clone(), Box::new(as_f32(x))),
        _ => v.clone(),
    }
}

/// The same data, floats that may come from an f32 being the same f32 at least.
pub fn same_f32(g: &MV, w: &MV) -> bool {
    match (g, w) {
        (MV::Float(x), MV::Float(y)) if f64::from(*y as f32) == *y => *x as f32 == *y as f32 && x.is_sign_negative() == y.is_sign_negative(),
        (MV::Seq(x), MV::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_f32(p, q)),
        (MV::Map(x), MV::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_f32(&p.0, &q.0) && same_f32(&p.1, &q.1)),
        (MV::Tag(t, x), MV::Tag(u, y)) => t == u && same_f32(x, y),
        _ => same(g, w),
    }
}

fn check(s: &mut Source, c: &mut Ctx, call: &Call) -> PResult {
    c.input(&clip(&format!("{call:?}"), 1500));
    if strange(call) {
        c.discard = true;
        return Ok(());
    }
    c.nt_if(calls(call) >= 4);
    // Text.
    let mut e = Expect { text: true, huge: false, dup: false };
    let want = e.of(call, false);
    let got = if s.bool() {
        serde_yaml::to_string(call)
    } else {
        let mut v = Vec::new();
        serde_yaml::to_writer(&mut v, call).map(|()| String::from_utf8(v).unwrap_or_else(|e| format!("{e:?}")))
    };
    // Known: one entry whose key is displayed in the two pieces of a tag.
    let confusable = any_call(call, &mut |c| matches!(c, Call::Map(_, v, _) if v.iter().any(|x| display_tag(&x.0))));
    if confusable {
        c.label("displayed-tag");
    }
    c.checked();
    match (want, got) {
        (Ok(w), Ok(text)) => {
            c.label("written");
            let docs = refyaml::documents(text.as_bytes());
            ensure!(c, docs.len() == 1 && docs[0].bad.is_none(), if confusable { "displayed-key-becomes-tag" } else { "malformed-text" }, "not one well-formed document ({} of them, {:?}):\n{text}", docs.len(), docs.last().map(|d| d.bad.clone()));
            if e.huge || e.dup {
                c.label("without-value");
            } else {
                match refyaml::deep_value(&docs[0]) {
                    Ok(g) => ensure!(c, same_f32(&g, &w), if confusable { "displayed-key-becomes-tag" } else { "other-data" }, "the text holds {}\nthe calls say {}\n{text}", show(&g), show(&w)),
                    Err(e) => fail!(if confusable { "displayed-key-becomes-tag" } else { "no-data" }, "the text has no value: {e:?}\n{text}"),
                }
            }
        }
        (Err(r), Err(e)) => {
            c.label("refused");
            if let Refusal::Custom(m) = r {
                ensure!(c, e.to_string().contains(&m), if confusable { "displayed-key-becomes-tag" } else { "data-error-lost" }, "the data says {m:?}, the error {e}");
            }
            ensure!(c, e.location().is_none() && !e.to_string().is_empty(), "write-error-location", "{e:?} has a location");
        }
        (Ok(w), Err(e)) => fail!(if confusable { "displayed-key-becomes-tag" } else { "refused" }, "{e}; the calls say {}", show(&w)),
        (Err(r), Ok(text)) => fail!(if confusable { "displayed-key-becomes-tag" } else { "accepted" }, "should be refused ({r:?}):\n{text}"),
    }
    // A Value.
    let mut e = Expect { text: false, huge: false, dup: false };
    let want = e.of(call, false);
    let got = serde_yaml::to_value(call);
    c.checked();
    match (want, got) {
        (Ok(w), Ok(v)) => {
            let v = MV::of(&v);
            ensure!(c, e.dup || same(&v, &w), if confusable { "displayed-key-becomes-tag" } else { "other-value" }, "the Value is {}\nthe calls say {}", show(&v), show(&w));
        }
        (Err(r), Err(e)) => {
            if let Refusal::Custom(m) = r {
                ensure!(c, e.to_string().contains(&m), if confusable { "displayed-key-becomes-tag" } else { "data-error-lost" }, "the data says {m:?}, the error {e}");
            }
        }
        (Ok(w), Err(e)) => fail!(if confusable { "displayed-key-becomes-tag" } else { "value-refused" }, "to_value: {e}; the calls say {}", show(&w)),
        (Err(r), Ok(v)) => fail!(if confusable { "displayed-key-becomes-tag" } else { "value-accepted" }, "to_value should refuse ({r:?}): {v:?}"),
    }
    Ok(())
}

fn c28_calls(s: &mut Source, c: &mut Ctx) -> PResult {
    let g = Calls { depth: 0, bytes: false, fail: s.chance(1, 12), panic: false, nested: false, big: s.chance(1, 8) };
    let d = 2 + (s.size / 25) as usize;
    let call = g.node(s, d);
    check(s, c, &call)
}

/// Data nested hundreds deep: nothing limits what is written.
fn c28_deep(s: &mut Source, c: &mut Ctx) -> PResult {
    let g = Calls { depth: 0, bytes: false, fail: s.chance(1, 12), panic: false, nested: false, big: false };
    let mut call = g.node(s, 1);
    let depth = match s.weighted(&[3, 3, 2]) {
        0 => 100 + s.below(80),
        1 => 230 + s.below(60),
        _ => 1 + s.below(600),
    };
    // One kind of collection all the way, or a few.
    let kinds: Vec<usize> = (0..1 + s.below(3)).map(|_| s.below(9)).collect();
    for _ in 0..depth {
        let k = *s.pick(&kinds);
        let beside = if s.chance(1, 12) { Some(g.node(s, 0)) } else { None };
        let all = |call: Call| Some(call).into_iter().chain(beside).collect::<Vec<_>>();
        call = match k {
            0 => Call::Seq(None, all(call), 0),
            1 => {
                let v = all(call);
                Call::Tuple(v.len(), v)
            }
            2 => Call::TupStruct(1, vec![call]),
            3 => Call::Map(Some(1), vec![(Call::Str("k".to_owned()), call)], 0),
            4 => Call::Map(None, vec![(Call::Str("k".to_owned()), call), (Call::Str("l".to_owned()), Call::Unit)], 1),
            5 => Call::Struct(1, vec![("field", call)], 0),
            6 if !matches!(call, Call::NewVar(..) | Call::StructVar(..) | Call::TupVar(..) | Call::UnitVar(_)) => match s.below(3) {
                0 => Call::TupVar("V", 1, vec![call]),
                1 => Call::StructVar("V", 1, vec![("field", call)]),
                _ => Call::Seq(Some(1), vec![Call::NewVar("V", Box::new(call))], 0),
            },
            7 => Call::New(Box::new(Call::Seq(Some(1), vec![call], 0))),
            _ => Call::Some(Box::new(Call::Struct(1, vec![("f", call)], 0))),
        };
    }
    check(s, c, &call)
}

fn c28_refused(s: &mut Source, c: &mut Ctx) -> PResult {
    let g = Calls { depth: 0, bytes: s.bool(), fail: s.bool(), panic: false, nested: s.bool(), big: false };
    let d = 2 + (s.size / 30) as usize;
    let call = g.node(s, d);
    check(s, c, &call)
}

// ---------------------------------------------------------------- C25

/// Decisions without allocation; panics in the end if told to.
struct Quiet {
    rng: Cell<u64>,
    panic_in: Cell<i64>,
}
impl Decide for Quiet {
    fn below(&self, n: usize) -> usize {
        let left = self.panic_in.get() - 1;
        self.panic_in.set(left);
        if left == 0 {
            panic!("CALLER: the visitor panics");
        }
        let mut x = self.rng.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.rng.set(x);
        ((x >> 33) as usize) % n.max(1)
    }
}

struct Flaky<'a> {
    data: &'a [u8],
    step: usize,
    fail_at: usize,
    panics: bool,
    done: usize,
}
impl Read for Flaky<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.done >= self.fail_at {
            if self.panics {
                panic!("CALLER: the reader panics");
            }
            return Err(io::Error::new(io::ErrorKind::Other, "reader fails"));
        }
        let n = self.step.min(b.len()).min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.done += n;
        Ok(n)
    }
}
struct Sink {
    left: usize,
    panics: bool,
    keep: Vec<u8>,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            if self.panics {
                panic!("CALLER: the writer panics");
            }
            return Err(io::Error::new(io::ErrorKind::Other, "writer fails"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.keep.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Run an operation; whatever it does, the memory is given back.
fn balanced(c: &mut Ctx, what: &str, op: &dyn Fn()) -> PResult {
    let mut last = None;
    for round in 0..3 {
        let total = mem_total();
        let before = mem_now();
        let r = caught(op);
        if let Err((loc, msg)) = &r {
            if !msg.starts_with("CALLER") {
                fail!("panic", "{what} panicked at {loc}: {msg}");
            }
            c.label("caller-panics");
        }
        drop(r);
        let after = mem_now();
        c.nt_if(mem_total() - total > 2000);
        if before == after {
            c.checked();
            return Ok(());
        }
        last = Some((before, after));
        // Something may be set up once, for good: see whether it grows.
        let _ = round;
    }
    let (b, a) = last.unwrap();
    fail!("memory-kept", "{what} leaves {} blocks, {} bytes behind each time", a.blocks - b.blocks, a.bytes - b.bytes)
}

fn c25_read(s: &mut Source, c: &mut Ctx) -> PResult {
    let bytes = fuzz::bytes(s);
    let seed = s.u64() | 1;
    let panic_in = if s.chance(1, 3) { 1 + s.below(40) as i64 } else { -1 };
    let how = s.below(6);
    let take = s.below(5);
    let skip = s.below(4);
    let step = *s.pick(&[1usize, 3, 7, 64, 100_000]);
    let fail_at = if s.chance(1, 2) { s.below(bytes.len() + 1) } else { usize::MAX };
    let panics = s.chance(1, 3);
    c.input(&format!("{:?} how {how} take {take} skip {skip} panic_in {panic_in} step {step} fail_at {fail_at}/{panics}", String::from_utf8_lossy(&bytes)));
    let text = std::str::from_utf8(&bytes).ok();
    let quiet = || Quiet { rng: Cell::new(seed), panic_in: Cell::new(panic_in) };
    let open = || -> Deserializer {
        match (how % 3, text) {
            (0, Some(t)) => Deserializer::from_str(t),
            (0 | 1, _) => Deserializer::from_slice(&bytes),
            _ => Deserializer::from_reader(Flaky { data: &bytes, step, fail_at, panics, done: 0 }),
        }
    };
    balanced(c, "reading", &|| {
        let q = quiet();
        let left = Cell::new(2000);
        if how < 3 {
            let _ = Chaos { s: &q, left: &left }.deserialize(open());
        } else {
            let mut it = open();
            // Documents are kept while the stream is read on, some abandoned.
            let mut kept = Vec::new();
            for (i, d) in it.by_ref().take(take).enumerate() {
                if i % 4 == skip {
                    kept.push(d);
                } else {
                    let _ = Chaos { s: &q, left: &left }.deserialize(d);
                }
            }
            if skip == 0 {
                drop(it);
            }
            for d in kept.into_iter().rev() {
                let _ = Chaos { s: &q, left: &left }.deserialize(d);
            }
        }
    })?;
    balanced(c, "reading a Value", &|| {
        let v: Result<Value, _> = Value::deserialize(open());
        if let Ok(v) = v {
            let mut w = v.clone();
            let _ = w.apply_merge();
            let t = serde_yaml::to_string(&w);
            let _ = (t, v == w, format!("{w:?}"));
            let q = quiet();
            let left = Cell::new(2000);
            let _ = Chaos { s: &q, left: &left }.deserialize(&v);
            let _ = Chaos { s: &q, left: &left }.deserialize(v);
        }
    })?;
    balanced(c, "ignoring", &|| {
        let _ = IgnoredAny::deserialize(open());
        let _ = open();
    })
}

fn c25_write(s: &mut Source, c: &mut Ctx) -> PResult {
    let g = Calls { depth: 0, bytes: true, fail: s.bool(), panic: s.chance(1, 2), nested: true, big: true };
    let n = 1 + s.below(3);
    let docs: Vec<Call> = (0..n)
        .map(|_| {
            let d = 1 + (s.size / 30) as usize;
            g.node(s, d)
        })
        .collect();
    let limit = if s.bool() { s.below(200) } else { usize::MAX };
    let panics = s.chance(1, 2);
    let end = s.below(4);
    c.input(&clip(&format!("{docs:?} limit {limit} panics {panics} end {end}"), 1200));
    balanced(c, "writing", &|| {
        let mut ser = serde_yaml::Serializer::new(Sink { left: limit, panics, keep: Vec::new() });
        for d in &docs {
            let r = d.serialize(&mut ser);
            if end == 3 {
                let _ = ser.flush();
            }
            if r.is_err() && end != 2 {
                break;
            }
        }
        match end {
            0 => drop(ser),
            _ => drop(ser.into_inner()),
        }
    })?;
    let first = &docs[0];
    balanced(c, "to_string", &|| {
        let _ = serde_yaml::to_string(first);
    })?;
    balanced(c, "to_writer", &|| {
        let mut k = Sink { left: limit, panics, keep: Vec::new() };
        let _ = serde_yaml::to_writer(&mut k, first);
    })?;
    balanced(c, "to_value", &|| {
        let _ = serde_yaml::to_value(first);
    })
}

fn sized_text(s: &mut Source, n: usize) -> (String, &'static str) {
    let unit = |u: &str| u.repeat(n / u.len() + 1);
    let kinds: &[(&'static str, &str, &str, &str)] = &[
        ("sequence", "", "- a\n", ""),
        ("mappings", "", "- {a: 1, b: [x, y]}\n", ""),
        ("flow", "[", "a, ", "b]"),
        ("nulls", "", "-\n", ""),
        ("scalar", "a: \"", "x", "\""),
        ("literal", "a: |\n", "  line\n", ""),
        ("folded", "a: >\n", "  word\n\n", ""),
        ("plain", "a: ", "word ", "\n"),
        ("comments", "# c\n", "# comment\n", "a: 1\n"),
        ("spaces", "a:", " ", "1\n"),
        ("escapes", "a: \"", "\\u00e9", "\""),
        ("documents", "", "--- a\n", ""),
        ("tags", "", "- !t x\n", ""),
        ("anchors", "", "- &a x\n", ""),
        ("aliases", "- &a x\n", "- *a\n", ""),
        ("broken", "a: [", "1, ", "} : :"),
        ("wide", "a: '", "é☃", "'\n"),
    ];
    let (name, head, u, tail) = kinds[s.below(kinds.len())];
    if s.chance(1, 6) {
        // keys that are all different
        let mut t = String::new();
        let mut i = 0;
        while t.len() < n {
            t.push_str(&format!("k{i}: {i}\n"));
            i += 1;
        }
        return (t, "keys");
    }
    (format!("{head}{}{tail}", unit(u)), name)
}

fn c25_size(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = match s.below(4) {
        0 => 1_000 + s.below(10_000),
        1 | 2 => 10_000 + s.below(40_000),
        _ => 50_000 + s.below(250_000),
    };
    let (text, name) = sized_text(s, n);
    c.input(&format!("{name} of {} bytes", text.len()));
    c.label(name);
    c.nt();
    let how = s.below(4);
    let measure = |op: &dyn Fn()| {
        let before = mem_now().bytes;
        let total = mem_total();
        mem_reset_peak();
        op();
        (mem_peak() - before, mem_total() - total)
    };
    let size = text.len() as i64;
    let t = &text;
    let (peak, total) = measure(&|| {
        match how {
            0 => drop(serde_yaml::from_str::<Value>(t)),
            1 => drop(serde_yaml::from_str::<IgnoredAny>(t)),
            2 => {
                for d in Deserializer::from_str(t) {
                    if Value::deserialize(d).is_err() {
                        break;
                    }
                }
            }
            _ => drop(serde_yaml::from_reader::<_, Value>(t.as_bytes())),
        };
    });
    let bound = |k: i64, n: i64| 400_000 + k * n;
    if std::env::var_os("VH_MEM").is_some() {
        eprintln!("{name} read {how}: {} peak {:.1} total {:.1} per byte", size, peak as f64 / size as f64, total as f64 / size as f64);
    }
    ensure!(c, peak <= bound(PEAK, size), "peak-memory", "reading {name} of {size} bytes took {peak} bytes at once");
    ensure!(c, total <= bound(TOTAL, size), "total-memory", "reading {name} of {size} bytes took {total} bytes altogether");
    if let Ok(v) = serde_yaml::from_str::<Value>(t) {
        let out = serde_yaml::to_string(&v).map_or(0, |t| t.len() as i64);
        let (peak, total) = measure(&|| {
            let _ = serde_yaml::to_string(&v);
        });
        if std::env::var_os("VH_MEM").is_some() {
            eprintln!("{name} write: {} peak {:.1} total {:.1} per byte", out, peak as f64 / out as f64, total as f64 / out as f64);
        }
        ensure!(c, peak <= bound(WPEAK, out), "peak-memory-writing", "writing {name} of {out} bytes took {peak} bytes at once");
        ensure!(c, total <= bound(WTOTAL, out), "total-memory-writing", "writing {name} of {out} bytes took {total} bytes altogether");
    }
    Ok(())
}

const PEAK: i64 = 400;
const TOTAL: i64 = 500;
const WPEAK: i64 = 40;
const WTOTAL: i64 = 60;
