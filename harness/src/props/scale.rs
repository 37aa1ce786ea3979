//! Large data: collections, streams, merges and ignored content of thousands
//! of elements, around the powers of two where counters wrap.

use crate::engine::*;
use crate::model::*;
use crate::{ensure, fail};
use serde::{Deserialize, Serialize};
use serde_yaml::{Deserializer, Mapping, Serializer, Value};
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::io;

fn amount(s: &mut Source) -> usize {
    match s.weighted(&[3, 2, 4, 1]) {
        0 => 250 + s.below(12),
        1 => 1000 + s.below(4000),
        2 => 65_500 + s.below(80),
        _ => 65_600 + s.below(70_000),
    }
}

/// One of a few kinds of element: its text, which reads the same in block and
/// in flow collections, and its content.
fn element(kind: usize, i: usize) -> (String, MV) {
    let n = i as i128;
    let int = || MV::Int(n);
    match kind {
        0 => (format!("{i}"), int()),
        1 => (format!("k{i}"), MV::Str(format!("k{i}"))),
        2 => (format!("[{i}]"), MV::Seq(vec![int()])),
        3 => (format!("{{a: {i}}}"), MV::Map(vec![(MV::str("a"), int())])),
        4 => (format!("!t {i}"), MV::Tag("t".into(), Box::new(int()))),
        5 => ("~".to_owned(), MV::Null),
        6 => (format!("\"l{i}\\n\\n\""), MV::Str(format!("l{i}\n\n"))),
        7 => (format!("-{i}.5"), MV::Float(-(i as f64) - 0.5)),
        8 => ("[]".to_owned(), MV::Seq(vec![])),
        9 => (format!("'{i}'"), MV::Str(i.to_string())),
        _ => ("true".to_owned(), MV::Bool(true)),
    }
}
fn kinds(s: &mut Source) -> Vec<usize> {
    (0..1 + s.below(3)).map(|_| s.below(11)).collect()
}

/// A large collection as text in block or flow style, and its content.
fn large(s: &mut Source, n: usize) -> (String, MV) {
    let map = s.bool();
    let flow = s.bool();
    let k = kinds(s);
    let comments = s.chance(1, 4);
    let mut t = String::new();
    let mut seq = vec![];
    let mut entries = vec![];
    if flow {
        t.push_str(if map { "{" } else { "[" });
    }
    for i in 0..n {
        let (text, v) = element(k[i % k.len()], i);
        let head = match (map, flow) {
            (true, _) => format!("f{i}: "),
            (false, true) => String::new(),
            (false, false) => "- ".to_owned(),
        };
        t.push_str(&head);
        t.push_str(&text);
        t.push_str(match (flow, comments && i % 7 == 0) {
            (true, false) => ", ",
            (true, true) => ", # x\n ",
            (false, false) => "\n",
            (false, true) => " # x\n\n",
        });
        if map {
            entries.push((MV::Str(format!("f{i}")), v));
        } else {
            seq.push(v);
        }
    }
    if flow {
        t.push_str(if map { "}\n" } else { "]\n" });
    }
    (t, if map { MV::Map(entries) } else { MV::Seq(seq) })
}
fn brief(t: &str) -> String {
    format!("{} bytes: {}", t.len(), clip(t, 200))
}
fn differ(a: &MV, b: &MV) -> String {
    let parts = |m: &MV| match m {
        MV::Seq(v) => v.iter().map(show).collect::<Vec<_>>(),
        MV::Map(v) => v.iter().map(|(k, v)| format!("{}: {}", show(k), show(v))).collect(),
        m => vec![clip(&show(m), 200)],
    };
    let (a, b) = (parts(a), parts(b));
    let i = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    format!("{} and {} elements; at {i}: {:?} and {:?}", a.len(), b.len(), a.get(i).map(|x| clip(x, 200)), b.get(i).map(|x| clip(x, 200)))
}
fn is(c: &mut Ctx, got: &Value, want: &MV, sig: &str) -> PResult {
    let got = MV::of(got);
    ensure!(c, same(&got, want), sig, "got and expected: {}", differ(&got, want));
    Ok(())
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Kind {
    Unit,
    New(u32),
    Two(u8, String),
    Fields { a: Option<i64>, b: Vec<bool> },
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Rec {
    id: u32,
    name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    opt: Option<i8>,
    kind: Kind,
}
fn rec(i: usize, sort: usize) -> Rec {
    Rec {
        id: i as u32,
        name: match sort {
            0 => format!("name {i}"),
            1 => i.to_string(),
            2 => format!("line\n {i}\n"),
            _ => String::new(),
        },
        opt: if i % 3 == 0 { None } else { Some((i % 256) as u8 as i8) },
        kind: match (i + sort) % 4 {
            0 => Kind::Unit,
            1 => Kind::New(i as u32),
            2 => Kind::Two((i % 256) as u8, format!("{i:x}")),
            _ => Kind::Fields { a: if i % 2 == 0 { Some(-(i as i64)) } else { None }, b: vec![i % 5 == 0; i % 3] },
        },
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Records {
    first: u8,
    all: Vec<Rec>,
    by: BTreeMap<u32, String>,
    last: String,
}
fn records(s: &mut Source) -> Records {
    let n = amount(s) / 4;
    let sort = s.below(4);
    let m = amount(s) / 2;
    Records {
        first: 1,
        all: (0..n).map(|i| rec(i, sort)).collect(),
        by: (0..m).map(|i| (i as u32, format!("v{i}"))).collect(),
        last: "end".into(),
    }
}
fn same_records(c: &mut Ctx, a: &Records, b: &Records, sig: &str) -> PResult {
    if a != b {
        let i = a.all.iter().zip(&b.all).take_while(|(x, y)| x == y).count();
        fail!(sig, "{} and {} records, {} and {} entries; at {i}: {:?} and {:?}", a.all.len(), b.all.len(), a.by.len(), b.by.len(), a.all.get(i), b.all.get(i));
    }
    c.checked();
    Ok(())
}

pub fn c01(s: &mut Source, c: &mut Ctx) -> PResult {
    let r = records(s);
    c.input(&format!("{} records, {} entries", r.all.len(), r.by.len()));
    c.nt();
    let t = super::ystr(&r)?;
    match serde_yaml::from_str::<Records>(&t) {
        Ok(b) => same_records(c, &b, &r, "large-differs"),
        Err(e) => fail!("large-refused", "{e}"),
    }
}

pub fn c02(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s);
    let (_, m) = large(s, n);
    let mut m = m;
    for _ in 0..s.below(3) {
        m = match s.below(3) {
            0 if !matches!(m, MV::Tag(..)) => MV::Tag("w".into(), Box::new(m)),
            1 => MV::Seq(vec![MV::Int(1), m, MV::Int(2)]),
            _ => MV::Map(vec![(MV::str("a"), m), (MV::str("b"), MV::Null)]),
        };
    }
    let v = m.to_value();
    let t = super::ystr(&v)?;
    c.input(&brief(&t));
    c.nt();
    match serde_yaml::from_str::<Value>(&t) {
        Ok(b) => {
            is(c, &b, &m, "large-differs")?;
            let again = super::ystr(&b)?;
            ensure!(c, again == t, "large-text-differs", "the text of what is read back differs: {} and {}", brief(&again), brief(&t));
        }
        Err(e) => fail!("large-refused", "{e}"),
    }
    Ok(())
}

pub fn c08(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s);
    let (mut t, m) = large(s, n);
    if s.bool() {
        // Characters of more than one byte, across the edges of chunks.
        t = format!("# {}\n{t}", "\u{20ac}\u{1f600}x".repeat(s.below(9)));
    }
    c.input(&brief(&t));
    c.nt();
    struct Chunks<'a>(&'a [u8], usize);
    impl io::Read for Chunks<'_> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let n = self.0.len().min(b.len()).min(self.1);
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let size = *s.pick(&[7, 1000, 4096, 8191, 16384, 65536, usize::MAX]);
    let all = [serde_yaml::from_str::<Value>(&t), serde_yaml::from_slice(t.as_bytes()), serde_yaml::from_reader(Chunks(t.as_bytes(), size))];
    for (r, from) in all.into_iter().zip(["str", "slice", "reader"]) {
        match r {
            Ok(v) => is(c, &v, &m, "large-differs")?,
            Err(e) => fail!("large-refused", "from a {from}: {e}"),
        }
    }
    Ok(())
}

/// Large and small documents, in any order.
fn documents(s: &mut Source) -> Vec<(String, MV)> {
    let mut docs: Vec<(String, MV)> = vec![];
    for _ in 0..2 + s.below(3) {
        let n = if s.chance(1, 3) { 1 + s.below(5) } else { amount(s) / 2 };
        let again = !docs.is_empty() && s.chance(1, 4);
        docs.push(if again { docs[0].clone() } else { large(s, n) });
    }
    docs
}

pub fn c09(s: &mut Source, c: &mut Ctx) -> PResult {
    let docs = documents(s);
    let text: String = docs.iter().map(|d| format!("---\n{}", d.0)).collect();
    c.input(&brief(&text));
    c.nt();
    let misfit = if s.bool() { Some(s.below(docs.len())) } else { None };
    let it = match s.below(3) {
        0 => Deserializer::from_str(&text),
        1 => Deserializer::from_slice(text.as_bytes()),
        _ => Deserializer::from_reader(text.as_bytes()),
    };
    let mut k = 0;
    for d in it.take(docs.len() + 1) {
        let Some((_, m)) = docs.get(k) else { fail!("document-extra", "{} documents are read as more", docs.len()) };
        if misfit == Some(k) {
            ensure!(c, u8::deserialize(d).is_err(), "misfit-accepted", "document {k} is read as a number");
        } else {
            match Value::deserialize(d) {
                Ok(v) => is(c, &v, m, "document-differs")?,
                Err(e) => fail!("document-error", "document {k}: {e}"),
            }
        }
        k += 1;
    }
    ensure!(c, k == docs.len(), "document-missing", "{k} of {} documents", docs.len());
    Ok(())
}

pub fn c10(s: &mut Source, c: &mut Ctx) -> PResult {
    let docs = documents(s);
    c.input(&format!("documents of {:?} nodes", docs.iter().map(|d| d.1.nodes()).collect::<Vec<_>>()));
    c.nt();
    let mut w = Serializer::new(Vec::new());
    let mut want = String::new();
    for (i, (_, m)) in docs.iter().enumerate() {
        let v = m.to_value();
        if let Err(e) = v.serialize(&mut w) {
            fail!("large-serialize", "document {i}: {e}");
        }
        if s.chance(1, 3) {
            let r = w.flush();
            ensure!(c, r.is_ok(), "large-flush", "{r:?}");
        }
        if i > 0 {
            want.push_str("---\n");
        }
        want.push_str(&super::ystr(&v)?);
    }
    match w.into_inner() {
        // Ending the stream may end its last document.
        Ok(b) => ensure!(c, b.strip_suffix(b"...\n").unwrap_or(&b) == want.as_bytes(), "large-stream-differs", "{} instead of {}", brief(&String::from_utf8_lossy(&b)), brief(&want)),
        Err(e) => fail!("large-into-inner", "{e}"),
    }
    Ok(())
}

pub fn c11(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s);
    let (_, m) = large(s, n);
    let v = m.to_value();
    let t = super::ystr(&v)?;
    struct Full(Vec<u8>, usize, usize);
    impl io::Write for Full {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            let room = self.1 - self.0.len();
            if room == 0 && !b.is_empty() {
                return Err(io::Error::new(io::ErrorKind::Other, "full up"));
            }
            let n = room.min(b.len()).min(self.2);
            self.0.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let limit = match s.below(3) {
        0 => s.below(t.len() + 1),
        1 => t.len(),
        _ => (16384 * (1 + s.below(20))).min(t.len() - 1),
    };
    let step = *s.pick(&[usize::MAX, 1 << 14, 1000, 17]);
    c.input(&format!("{} with room for {limit}, {step} at a time", brief(&t)));
    c.nt();
    let mut w = Full(vec![], limit, step);
    let r = serde_yaml::to_writer(&mut w, &v);
    ensure!(c, w.0 == t.as_bytes()[..w.0.len()], "large-written", "what was written is no prefix");
    ensure!(c, r.is_ok() == (limit == t.len()), "large-outcome", "room for {limit} of {}: {r:?}", t.len());
    ensure!(c, w.0.len() == limit, "large-cut", "{} of {limit} bytes written", w.0.len());
    if let Err(e) = r {
        ensure!(c, e.to_string() == "full up", "large-error", "{e}");
    }
    Ok(())
}

pub fn c12(s: &mut Source, c: &mut Ctx) -> PResult {
    let r = records(s);
    c.input(&format!("{} records, {} entries", r.all.len(), r.by.len()));
    c.nt();
    let v = match serde_yaml::to_value(&r) {
        Ok(v) => v,
        Err(e) => fail!("large-to-value", "{e}"),
    };
    let t = super::ystr(&r)?;
    match serde_yaml::from_str::<Value>(&t) {
        Ok(x) => ensure!(c, same(&MV::of(&x), &MV::of(&v)), "large-value-differs", "from the text and converted: {}", differ(&MV::of(&x), &MV::of(&v))),
        Err(e) => fail!("large-refused", "{e}"),
    }
    match Records::deserialize(&v) {
        Ok(b) => same_records(c, &b, &r, "large-differs")?,
        Err(e) => fail!("large-from-ref", "{e}"),
    }
    match serde_yaml::from_value::<Records>(v) {
        Ok(b) => same_records(c, &b, &r, "large-differs")?,
        Err(e) => fail!("large-from-value", "{e}"),
    }
    Ok(())
}

pub fn c13(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s);
    let bad = if s.chance(2, 3) { Some(s.below(n)) } else { None };
    let x = s.pick(&[MV::str("x"), MV::Null, MV::Int(-1), MV::Seq(vec![MV::Int(1), MV::Int(2)]), MV::Tag("t".into(), Box::new(MV::Int(3)))]).clone();
    let map = s.bool();
    let m = if map {
        MV::Map((0..n).map(|i| (MV::Int(i as i128), if bad == Some(i) { x.clone() } else { MV::Int(i as i128) })).collect())
    } else {
        MV::Seq((0..n).map(|i| if bad == Some(i) { x.clone() } else { MV::Int(i as i128) }).collect())
    };
    c.input(&format!("{n} elements, a map: {map}, at {bad:?}: {}", show(&x)));
    c.nt();
    let v = m.to_value();
    fn both<T: for<'a> Deserialize<'a> + PartialEq>(c: &mut Ctx, v: &Value) -> PResult {
        let a = T::deserialize(v);
        let b = serde_yaml::from_value::<T>(v.clone());
        match (&a, &b) {
            (Ok(x), Ok(y)) => ensure!(c, x == y, "large-owned-ref", "owned and borrowed differ"),
            (Err(x), Err(y)) => ensure!(c, x.to_string() == y.to_string(), "large-owned-ref-message", "borrowed {x}, owned {y}"),
            _ => fail!("large-owned-ref-outcome", "borrowed: {:?}, owned: {:?}", a.err(), b.err()),
        }
        Ok(())
    }
    if map {
        both::<BTreeMap<u32, u32>>(c, &v)?;
        both::<HashMap<u16, Option<u32>>>(c, &v)?;
    } else {
        both::<Vec<u32>>(c, &v)?;
        both::<Vec<Option<u32>>>(c, &v)?;
        both::<(u32, u32, u32)>(c, &v)?;
        both::<[u32; 32]>(c, &v)?;
    }
    both::<Value>(c, &v)?;
    is(c, &v, &m, "large-changed")
}

pub fn c14(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s);
    let key = |i: usize, k: usize| match k {
        0 => MV::Int(i as i128),
        1 => MV::Str(format!("k{i}")),
        2 => MV::Seq(vec![MV::Int(i as i128)]),
        _ => MV::Map(vec![(MV::Int((i % 2) as i128), MV::Int(i as i128)), (MV::str("x"), MV::Null)]),
    };
    let k = s.below(4);
    c.input(&format!("{n} keys of kind {k}"));
    c.nt();
    // Keys by their index, in order, and where each one is.
    let mut order: Vec<(usize, u64)> = vec![];
    let mut at: HashMap<usize, usize> = HashMap::new();
    let mut m = match s.below(3) {
        0 => Mapping::new(),
        1 => Mapping::with_capacity(n),
        _ => {
            let h = n / 2;
            for i in 0..h {
                at.insert(i, i);
                order.push((i, i as u64));
            }
            (0..h).map(|i| (key(i, k).to_value(), Value::from(i as u64))).collect()
        }
    };
    for i in order.len()..n {
        let old = m.insert(key(i, k).to_value(), Value::from(i as u64));
        ensure!(c, old.is_none(), "large-insert", "key {i} was there: {old:?}");
        at.insert(i, order.len());
        order.push((i, i as u64));
    }
    for j in 0..60 + s.below(60) {
        let i = s.below(n + n / 4);
        let x = key(i, k).to_value();
        match s.below(6) {
            0 | 1 => {
                let got = m.remove(&x);
                let want = at.remove(&i).map(|p| {
                    let (_, v) = order.swap_remove(p);
                    if let Some(&(moved, _)) = order.get(p) {
                        at.insert(moved, p);
                    }
                    v
                });
                ensure!(c, got == want.map(Value::from), "large-remove", "removing {i}: {got:?} instead of {want:?}");
            }
            2 => {
                let v = 1_000_000 + j as u64;
                let got = m.insert(x, Value::from(v));
                let want = match at.get(&i) {
                    Some(&p) => Some(std::mem::replace(&mut order[p].1, v)),
                    None => {
                        at.insert(i, order.len());
                        order.push((i, v));
                        None
                    }
                };
                ensure!(c, got == want.map(Value::from), "large-insert", "inserting {i}: {got:?} instead of {want:?}");
            }
            3 => {
                let got = m.get(&x).cloned();
                let want = at.get(&i).map(|&p| Value::from(order[p].1));
                ensure!(c, got == want, "large-get", "{i}: {got:?} instead of {want:?}");
            }
            4 if j % 20 == 0 => {
                let d = 2 + s.below(9) as u64;
                m.retain(|_, v| v.as_u64().unwrap() % d != 0);
                order.retain(|o| o.1 % d != 0);
                at = order.iter().enumerate().map(|(p, o)| (o.0, p)).collect();
            }
            _ => {
                let v = 2_000_000 + j as u64;
                *m.entry(x).or_insert(Value::Null) = Value::from(v);
                match at.get(&i) {
                    Some(&p) => order[p].1 = v,
                    None => {
                        at.insert(i, order.len());
                        order.push((i, v));
                    }
                }
            }
        }
        ensure!(c, m.len() == order.len(), "large-len", "{} instead of {}", m.len(), order.len());
    }
    let want = MV::Map(order.iter().map(|&(i, v)| (key(i, k), MV::Int(v as i128))).collect());
    is(c, &Value::Mapping(m.clone()), &want, "large-order")?;
    let back = MV::Map(m.into_iter().map(|(k, v)| (MV::of(&k), MV::of(&v))).collect());
    ensure!(c, same(&back, &want), "large-into-iter", "{}", differ(&back, &want));
    Ok(())
}

pub fn c15(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s).min(20_000);
    let k = kinds(s);
    let entries: Vec<(MV, MV)> = (0..n).map(|i| (MV::Seq(vec![MV::Int(i as i128), element(k[0], i).1]), element(k[i % k.len()], i).1)).collect();
    let mut other = entries.clone();
    match s.below(3) {
        0 => other.reverse(),
        1 => other.rotate_left(s.below(n)),
        _ => {
            for _ in 0..50 {
                let (a, b) = (s.below(n), s.below(n));
                other.swap(a, b);
            }
        }
    }
    let hash = |v: &Value| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        v.hash(&mut h);
        h.finish()
    };
    c.input(&format!("{n} entries of kinds {k:?}"));
    c.nt();
    let at = s.below(n);
    let (a, b) = (MV::Map(entries.clone()).to_value(), MV::Map(other.clone()).to_value());
    ensure!(c, a == b && b == a, "large-unequal", "mappings in another order differ");
    ensure!(c, hash(&a) == hash(&b), "large-hash", "equal mappings hash differently");
    ensure!(c, a.partial_cmp(&b) == Some(std::cmp::Ordering::Equal), "large-cmp", "equal mappings compare as {:?}", a.partial_cmp(&b));
    other[at].1 = MV::str("another");
    let d = MV::Map(other).to_value();
    ensure!(c, a != d && d != a, "large-equal", "mappings that differ in one of {n} values are equal");
    let (x, y) = (a.partial_cmp(&d), d.partial_cmp(&a));
    ensure!(c, x.is_some() && x == y.map(std::cmp::Ordering::reverse) && x != Some(std::cmp::Ordering::Equal), "large-cmp", "{x:?} and {y:?}");
    // Sequences.
    let seq: Vec<MV> = entries.into_iter().map(|e| e.1).collect();
    let mut longer = seq.clone();
    longer.push(MV::Null);
    let (a, b) = (MV::Seq(seq).to_value(), MV::Seq(longer).to_value());
    ensure!(c, a != b && a.partial_cmp(&b) == Some(std::cmp::Ordering::Less), "large-seq", "a sequence and itself with one more: {:?}", a.partial_cmp(&b));
    ensure!(c, a == a.clone() && hash(&a) == hash(&a.clone()), "large-seq", "a sequence and its copy");
    Ok(())
}

pub fn c16(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s);
    let map = s.below(3);
    let tagged = s.bool();
    let mut m = match map {
        0 => MV::Seq((0..n).map(|i| MV::Int(i as i128)).collect()),
        1 => MV::Map((0..n).map(|i| (MV::Int(i as i128), MV::Int(i as i128))).collect()),
        _ => MV::Map((0..n).map(|i| (MV::Str(i.to_string()), MV::Int(i as i128))).collect()),
    };
    c.input(&format!("{n} elements, kind {map}, tagged: {tagged}"));
    c.nt();
    let mut v = m.to_value();
    if tagged {
        v = Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("t"), value: v }));
    }
    for _ in 0..40 {
        let i = s.below(n + n / 8);
        let got = match map {
            2 => v.get(i.to_string()).cloned(),
            _ => v.get(i).cloned(),
        };
        let want = match &m {
            MV::Seq(q) => q.get(i).map(MV::to_value),
            MV::Map(q) => q.get(i).map(|e| e.1.to_value()),
            _ => None,
        };
        ensure!(c, got == want, "large-get", "at {i}: {got:?} instead of {want:?}");
        if want.is_some() && s.bool() {
            let x = MV::str("new");
            match map {
                2 => v[i.to_string()] = x.to_value(),
                1 => v[Value::from(i)] = x.to_value(),
                _ => v[i] = x.to_value(),
            }
            match &mut m {
                MV::Seq(q) => q[i] = x,
                MV::Map(q) => q[i].1 = x,
                _ => {}
            }
        }
    }
    let inner = match &v {
        Value::Tagged(t) => &t.value,
        v => v,
    };
    is(c, inner, &m, "large-assigned")
}

pub fn c17(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s);
    let width = 1 + s.below(3);
    let pool = *s.pick(&[3, 300, 100_000]);
    let mut merged: Vec<Vec<(String, i128)>> = vec![];
    if s.bool() {
        for i in 0..n {
            merged.push((0..width).map(|j| (format!("k{}", (i * 7 + j) % pool), (i * 10 + j) as i128)).collect());
        }
    } else {
        merged.push((0..n).map(|i| (format!("k{i}"), i as i128)).collect());
        merged.push((0..n).map(|i| (format!("k{}", i + n / 2), -(i as i128))).collect());
    }
    let own: Vec<(String, i128)> = (0..s.below(400)).map(|i| (format!("k{}", i * 3), 5_000_000 + i as i128)).collect();
    let nested = s.chance(1, 4);
    c.input(&format!("{} mappings merged into one of {}, of {pool} keys", merged.len(), own.len()));
    c.nt();
    let pairs = |v: &[(String, i128)]| MV::Map(v.iter().fold((vec![], std::collections::HashSet::new()), |mut o, (k, x)| {
        if o.1.insert(k) {
            o.0.push((MV::str(k), MV::Int(*x)));
        }
        o
    }).0);
    let mut want: BTreeMap<String, i128> = BTreeMap::new();
    let mut entries: Vec<(MV, MV)> = vec![];
    for (k, x) in &own {
        entries.push((MV::str(k), MV::Int(*x)));
        want.insert(k.clone(), *x);
    }
    for m in &merged {
        for (k, x) in m {
            want.entry(k.clone()).or_insert(*x);
        }
    }
    let all = MV::Seq(merged.iter().map(|m| pairs(m)).collect());
    let source = if nested { MV::Map(vec![(MV::str("<<"), all)]) } else { all };
    let at = s.below(entries.len() + 1);
    entries.insert(at, (MV::str("<<"), source));
    let mut v = MV::Map(entries).to_value();
    let r = v.apply_merge();
    ensure!(c, r.is_ok(), "large-merge", "{r:?}");
    let got: BTreeMap<String, i128> = match &v {
        Value::Mapping(m) => m.iter().map(|(k, x)| (k.as_str().unwrap_or("?").to_owned(), x.as_i64().map_or(i128::MAX, i128::from))).collect(),
        _ => BTreeMap::new(),
    };
    let missing = want.iter().find(|(k, x)| got.get(*k) != Some(x));
    ensure!(c, missing.is_none() && got.len() == want.len(), "large-merged", "{} entries instead of {}; {missing:?} is {:?}", got.len(), want.len(), missing.and_then(|m| got.get(m.0)));
    Ok(())
}

pub fn c19(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s);
    let bad = n - 1 - s.below(n.min(50));
    let map = s.bool();
    // Short lines, or one long one.
    let per = *s.pick(&[1, 10, usize::MAX]);
    let mut t = String::from(if map { "{" } else { "[" });
    let (mut line, mut column) = (1, 2);
    let mut place = (0, 0, 0);
    for i in 0..n {
        if map {
            let k = format!("k{i}: ");
            column += k.len();
            t.push_str(&k);
        }
        if i == bad {
            place = (t.len(), line, column);
        }
        let x = if i == bad { "x" } else { "7" };
        t.push_str(x);
        t.push(',');
        column += 2;
        if (i + 1) % per == 0 {
            t.push_str("\n ");
            line += 1;
            column = 2;
        }
    }
    t.push_str(if map { "}" } else { "]" });
    c.input(&format!("{n} elements, {per} in a line, the wrong one is {bad}, a map: {map}"));
    c.nt();
    let e = if map { serde_yaml::from_str::<HashMap<String, u8>>(&t).map(drop) } else { serde_yaml::from_str::<Vec<u8>>(&t).map(drop) };
    let Err(e) = e else { fail!("large-accepted", "a string is read as a number") };
    let l = e.location().map(|l| (l.index(), l.line(), l.column()));
    ensure!(c, l == Some(place), "large-location", "{l:?} instead of {place:?}: {e}");
    let path = if map { format!("k{bad}: ") } else { format!(".[{bad}]: ") };
    let path = path.strip_prefix('.').map_or(path.clone(), |p| p.to_owned());
    let m = e.to_string();
    ensure!(c, m.strip_prefix('.').unwrap_or(&m).starts_with(&path), "large-path", "{m} does not start with {path}");
    ensure!(c, m.ends_with(&format!(" at line {} column {}", place.1, place.2)), "large-message", "{m}");
    Ok(())
}

pub fn c20(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s);
    let flow = s.bool();
    let sort = s.below(4);
    let mut t = String::from(if flow { "[" } else { "" });
    let mut want = vec![];
    for i in 0..n {
        let w = format!("{}{i}", *crate::props::scale::pick(&["x", "\u{e9} ", "a b", "'"], sort));
        let x = match (i + sort) % 3 {
            0 if sort != 3 => w.clone(),
            1 if sort != 3 => format!("'{w}'"),
            _ => format!("\"{w}\""),
        };
        if flow {
            t.push_str(&x);
            t.push_str(if i % 9 == 0 { ",\n " } else { ", " });
        } else {
            t.push_str(&format!("- {x}\n"));
        }
        want.push(w);
    }
    if flow {
        t.push_str("]\n");
    }
    c.input(&brief(&t));
    c.nt();
    match serde_yaml::from_str::<Vec<&str>>(&t) {
        Ok(v) => {
            let range = t.as_bytes().as_ptr_range();
            let mut last = range.start;
            for (i, x) in v.iter().enumerate() {
                let r = x.as_bytes().as_ptr_range();
                if *x != want[i] || r.start < last || r.end > range.end {
                    fail!("large-borrowed", "element {i} is {x:?} instead of {:?}", want[i]);
                }
                last = r.end;
            }
            ensure!(c, v.len() == n, "large-borrowed", "{} of {n}", v.len());
        }
        Err(e) => fail!("large-refused", "{e}"),
    }
    Ok(())
}
fn pick<'a>(v: &'a [&'a str], i: usize) -> &'a &'a str {
    &v[i]
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Few {
    a: u8,
    b: String,
}

pub fn c21(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s);
    c.nt();
    match s.below(5) {
        0 | 1 => {
            // A key far from its first use.
            let kind = s.below(3);
            let key = |i: usize, other: bool| match (kind, other) {
                (0, false) => format!("{i}"),
                (0, true) => format!("0x{i:x}"),
                (1, false) => format!("k{i}"),
                (1, true) => format!("'k{i}'"),
                (_, false) => format!("[{i}]"),
                (_, true) => format!("[ 0o{i:o} ]"),
            };
            let first = s.below(n);
            let at = first + 1 + s.below(n - first);
            let flow = s.bool();
            let put = |dup: bool| {
                let mut t = String::new();
                for i in 0..=n {
                    if dup && i == at {
                        t.push_str(&format!("? {}\n: again\n", key(first, true)).replace('\n', if flow { " " } else { "\n" }));
                        if flow {
                            t.push_str(", ");
                        }
                    }
                    if i < n {
                        t.push_str(&format!("? {}\n: {i}\n", key(i, false)).replace('\n', if flow { " " } else { "\n" }));
                        if flow {
                            t.push_str(", ");
                        }
                    }
                }
                if flow {
                    format!("{{{t}}}")
                } else {
                    t
                }
            };
            c.input(&format!("{n} keys of kind {kind}, the one at {first} again at {at}"));
            let (good, bad) = (put(false), put(true));
            let r = serde_yaml::from_str::<Value>(&good);
            ensure!(c, r.is_ok(), "large-refused", "{:?}", r.err());
            let r = serde_yaml::from_str::<Value>(&bad);
            ensure!(c, r.is_err(), "large-duplicate", "accepted as a Value");
            let r = serde_yaml::from_str::<Mapping>(&bad);
            ensure!(c, r.is_err(), "large-duplicate", "accepted as a Mapping");
        }
        2 => {
            // A field again after many unknown ones.
            let rest: String = (0..n).map(|i| format!("z{i}: {i}\n")).collect();
            let t = format!("a: 1\nb: x\n{rest}");
            c.input(&format!("{n} unknown fields"));
            let r = serde_yaml::from_str::<Few>(&t);
            ensure!(c, r.is_ok(), "large-refused", "{:?}", r.err());
            for again in ["a: 2\n", "b: y\n"] {
                let r = serde_yaml::from_str::<Few>(&format!("{t}{again}"));
                ensure!(c, r.is_err(), "large-duplicate-field", "{r:?}");
            }
            let r = serde_yaml::from_str::<Few>(&format!("a: 1\n{rest}"));
            ensure!(c, r.is_err(), "large-missing-field", "{r:?}");
        }
        3 => {
            // Much too long for what is asked.
            let k = kinds(s);
            let rest: String = (0..n).map(|i| format!(", {}", element(k[i % k.len()], i).0)).collect();
            c.input(&format!("{n} elements too many"));
            let t = format!("[1, 2{rest}]");
            let r = serde_yaml::from_str::<(u8, u8)>(&t);
            ensure!(c, r.is_err(), "large-surplus", "{r:?}");
            let r = serde_yaml::from_str::<[u8; 2]>(&t);
            ensure!(c, r.is_err(), "large-surplus", "{r:?}");
            if let Ok(v) = serde_yaml::from_str::<Value>(&t) {
                let r = <(u8, u8)>::deserialize(&v);
                ensure!(c, r.is_err(), "large-surplus", "{r:?}");
                let r = serde_yaml::from_value::<(u8, u8)>(v);
                ensure!(c, r.is_err(), "large-surplus", "{r:?}");
            }
        }
        _ => {
            // A second document, large or small.
            let m = if s.bool() { n } else { s.below(3) };
            let (a, _) = large(s, n);
            let (b, _) = large(s, m);
            let t = if s.bool() { format!("---\n{a}---\n{b}") } else { format!("---\n{b}---\n{a}") };
            c.input(&format!("documents of {n} and {m}"));
            let r = serde_yaml::from_str::<Value>(&t);
            ensure!(c, r.is_err(), "large-documents", "two documents are read as one");
        }
    }
    Ok(())
}

pub fn c22(s: &mut Source, c: &mut Ctx) -> PResult {
    #[derive(Deserialize, Debug, PartialEq)]
    struct Out {
        a: u8,
        b: Vec<Option<String>>,
        #[serde(default)]
        c: Option<i64>,
    }
    let n = amount(s);
    let many = s.chance(1, 3);
    let rest = if many {
        // Many unknown entries.
        let k = kinds(s);
        (0..n).map(|i| format!("z{i}: {}\n", element(k[i % k.len()], i).0)).collect()
    } else {
        // One large one.
        let (t, m) = large(s, n);
        if t.starts_with(['[', '{']) {
            format!("z: {}", t.replace('\n', "\n "))
        } else if matches!(m, MV::Seq(_)) {
            format!("z:\n{t}")
        } else {
            format!("z:\n {}", t.replace('\n', "\n "))
        }
    };
    let rest = rest.trim_end();
    let mut parts = vec!["a: 1", "b: [x, ~]", "c: -5", rest];
    let by = s.below(4);
    parts.rotate_left(by);
    let t = parts.join("\n") + "\n";
    c.input(&brief(&t));
    c.nt();
    match serde_yaml::from_str::<Out>(&t) {
        Ok(o) => ensure!(c, o == Out { a: 1, b: vec![Some("x".into()), None], c: Some(-5) }, "large-ignored-changes", "{o:?}"),
        Err(e) => fail!("large-ignored-refused", "{e}"),
    }
    // As an element, with others after it.
    let item: String = format!("- {}\n", t.trim_end().replace('\n', "\n  "));
    let t = format!("{item}- {{a: 2, b: []}}\n");
    match serde_yaml::from_str::<Vec<Out>>(&t) {
        Ok(o) => ensure!(c, o.len() == 2 && o[1] == Out { a: 2, b: vec![], c: None }, "large-ignored-changes", "{o:?}"),
        Err(e) => fail!("large-ignored-refused", "{e}"),
    }
    Ok(())
}

pub fn c23(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = amount(s) / 2;
    let names = *s.pick(&[1, 100, usize::MAX]);
    let mut t = String::new();
    let mut want = vec![];
    let mut known: HashMap<usize, i128> = HashMap::new();
    let k = s.below(3);
    for i in 0..n {
        let name = i % names;
        match k {
            0 => t.push_str(&format!("- &n{name} {i}\n")),
            1 => t.push_str(&format!("- &n{name} [{i}]\n")),
            _ => t.push_str(&format!("- &n{name} {{a: {i}}}\n")),
        }
        let v = |i: i128| match k {
            0 => MV::Int(i),
            1 => MV::Seq(vec![MV::Int(i)]),
            _ => MV::Map(vec![(MV::str("a"), MV::Int(i))]),
        };
        want.push(v(i as i128));
        known.insert(name, i as i128);
        if i % 5 == 0 || i + 20 > n {
            let of = if names == usize::MAX { s.below(i + 1) } else { s.below(names.min(i + 1)) };
            t.push_str(&format!("- *n{of}\n"));
            want.push(v(known[&of]));
        }
    }
    c.input(&format!("{n} anchors of {names} names"));
    c.nt();
    match serde_yaml::from_str::<Value>(&t) {
        Ok(v) => is(c, &v, &MV::Seq(want), "large-alias"),
        Err(e) => fail!("large-refused", "{e}"),
    }
}

pub fn c24(s: &mut Source, c: &mut Ctx) -> PResult {
    // The same data as text in several ways.
    let n = amount(s);
    let map = s.bool();
    let k = kinds(s);
    let mut flow = String::from(if map { "{" } else { "[" });
    let (mut block, mut loose) = (String::from("%YAML 1.2\n---\n"), String::from("# a comment\n\n"));
    let (mut seq, mut entries) = (vec![], vec![]);
    for i in 0..n {
        let (x, v) = element(k[i % k.len()], i);
        if map {
            flow.push_str(&format!("f{i}: {x},"));
            block.push_str(&format!("f{i}: {x}\n"));
            loose.push_str(&format!("? \"f{i}\" # {i}\n: {x}\r\n\n"));
            entries.push((MV::Str(format!("f{i}")), v));
        } else {
            flow.push_str(&format!("{x},\n "));
            block.push_str(&format!("- {x}\n"));
            loose.push_str(&format!("-   {x}   # {i}\r"));
            seq.push(v);
        }
    }
    flow.push(if map { '}' } else { ']' });
    block.push_str("...\n");
    let want = if map { MV::Map(entries) } else { MV::Seq(seq) };
    c.input(&format!("{n} elements of kinds {k:?}, a map: {map}"));
    c.nt();
    for t in [flow, block, loose] {
        match serde_yaml::from_str::<Value>(&t) {
            Ok(v) => is(c, &v, &want, "large-presentation")?,
            Err(e) => fail!("large-refused", "{e}: {}", brief(&t)),
        }
    }
    Ok(())
}
