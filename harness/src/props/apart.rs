//! Readings and writings that go on at the same time, within one another or
//! after one another have nothing to do with each other.

use super::trace::Script;
use crate::engine::*;
use crate::fuzz;
use crate::gen::{self, VOpts};
use crate::model::*;
use crate::near::{self, Near};
use crate::ty::l2::{Seed, TV};
use crate::ty::{self, intern, show_ty, show_val, Ty, Val, T_ALL};
use crate::writer::{self, W_ALL};
use crate::{ensure, fail};
use serde::de::DeserializeSeed;
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStructVariant, SerializeTupleVariant, Serializer};
use serde::Deserialize;
use serde_yaml::{Number, Value};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::io;
use std::sync::atomic::{AtomicBool, Ordering};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        level: "exploration",
        rule: "A case is several operations (readings of every kind, whole streams, writings, conversions, merges), each done alone first; then all of them in other orders, from within one another's visitors, data, readers and writers, in turns step by step, on several threads at once, and after panics in caller code: every outcome (data, text, error, location) must be the one it had alone. Non-trivial = at least three operations, one of which succeeds.",
        assumptions: &["Which interleavings of threads happen is up to the operating system."],
        subs: vec![
            Sub { name: "orders", quick: 70_000, thorough: 2_500_000, f: c31_orders },
            Sub { name: "within", quick: 90_000, thorough: 3_000_000, f: c31_within },
            Sub { name: "turns", quick: 110_000, thorough: 3_500_000, f: c31_turns },
            Sub { name: "threads", quick: 6_000, thorough: 400_000, f: c31_threads },
        ],
    }]
}

#[derive(Debug)]
enum Op {
    Value(String),
    Slice(Vec<u8>),
    Reader(Vec<u8>, usize),
    Typed(Ty, String),
    Stream(String),
    TypedStream(Ty, String),
    Write(MV),
    WriteTyped(Ty, Val),
    WriteStream(Vec<MV>),
    ToValue(Ty, Val),
    FromValue(Ty, MV),
    Merge(MV),
    Compare(MV, MV),
    Number(String),
    Show(MV),
}

/// What happened, in full.
fn told<T: fmt::Debug>(r: &Result<T, serde_yaml::Error>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => failed(e),
    }
}
fn failed(e: &serde_yaml::Error) -> String {
    format!("error {e} | {e:?} | {:?}", e.location().map(|l| (l.index(), l.line(), l.column())))
}

struct Pieces<'a>(&'a [u8], usize, &'a dyn Fn());
impl io::Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        (self.2)();
        let n = self.0.len().min(b.len()).min(self.1.max(1));
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
struct Sink<'a>(Vec<u8>, &'a dyn Fn());
impl io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        (self.1)();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        (self.1)();
        Ok(())
    }
}

/// Data that calls back whenever it is asked for something.
struct Busy<'a>(&'a MV, &'a dyn Fn());
struct BusyText<'a>(&'a str, &'a dyn Fn());
impl fmt::Display for BusyText<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        (self.1)();
        f.write_str(self.0)
    }
}
impl Serialize for BusyText<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
struct BusyTag<'a>(&'a str, &'a dyn Fn());
impl fmt::Display for BusyTag<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("!")?;
        (self.1)();
        f.write_str(self.0)
    }
}
impl Serialize for BusyTag<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl Serialize for Busy<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let call = self.1;
        call();
        match self.0 {
            MV::Null => s.serialize_unit(),
            MV::Bool(b) => s.serialize_bool(*b),
            MV::Int(i) => s.serialize_i128(*i),
            MV::Float(f) => s.serialize_f64(*f),
            MV::Str(t) => BusyText(t, call).serialize(s),
            MV::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(&Busy(x, call))?;
                    call();
                }
                q.end()
            }
            MV::Map(v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    q.serialize_key(&Busy(k, call))?;
                    call();
                    q.serialize_value(&Busy(x, call))?;
                }
                q.end()
            }
            MV::Tag(t, x) => match &**x {
                MV::Null => s.serialize_unit_variant("E", 0, intern(t)),
                MV::Seq(v) if v.len() % 2 == 0 => {
                    let mut q = s.serialize_tuple_variant("E", 0, intern(t), v.len())?;
                    for x in v {
                        q.serialize_field(&Busy(x, call))?;
                        call();
                    }
                    q.end()
                }
                MV::Map(v) if !v.is_empty() && v.iter().all(|(k, _)| matches!(k, MV::Str(_))) => {
                    let mut q = s.serialize_struct_variant("E", 0, intern(t), v.len())?;
                    for (k, x) in v {
                        let MV::Str(k) = k else { unreachable!() };
                        q.serialize_field(intern(k), &Busy(x, call))?;
                        call();
                    }
                    q.end()
                }
                // As tagged Values are written.
                MV::Bool(_) | MV::Str(_) | MV::Map(_) => {
                    let mut q = s.serialize_map(Some(1))?;
                    q.serialize_entry(&BusyTag(t, call), &Busy(x, call))?;
                    q.end()
                }
                _ => s.serialize_newtype_variant("E", 0, intern(t), &Busy(x, call)),
            },
        }
    }
}

fn nothing() {}

impl Op {
    fn alone(&self) -> String {
        self.run(&nothing)
    }
    /// The outcome, with calls back from wherever this operation hands over.
    fn run(&self, call: &dyn Fn()) -> String {
        match self {
            Op::Value(t) => told(&serde_yaml::from_str::<Value>(t)),
            Op::Slice(t) => told(&serde_yaml::from_slice::<Value>(t)),
            Op::Reader(t, n) => told(&serde_yaml::from_reader::<_, Value>(Pieces(t, *n, call))),
            Op::Typed(ty, t) => told(&ty::from_str(ty, t)),
            Op::Stream(t) => {
                let mut o = String::new();
                for (i, d) in serde_yaml::Deserializer::from_str(t).enumerate() {
                    call();
                    let _ = writeln!(o, "{}", told(&Value::deserialize(d)));
                    if i > 20 {
                        break;
                    }
                }
                o
            }
            Op::TypedStream(ty, t) => {
                let mut o = String::new();
                for (i, d) in serde_yaml::Deserializer::from_slice(t.as_bytes()).enumerate() {
                    call();
                    let _ = writeln!(o, "{}", told(&Seed(ty).deserialize(d)));
                    if i > 20 {
                        break;
                    }
                }
                o
            }
            Op::Write(m) => told(&serde_yaml::to_string(&Busy(m, call))),
            Op::WriteTyped(t, v) => {
                let mut w = Sink(vec![], call);
                let r = serde_yaml::to_writer(&mut w, &TV(t, v));
                format!("{} {:?}", told(&r), String::from_utf8_lossy(&w.0))
            }
            Op::WriteStream(v) => {
                let mut w = serde_yaml::Serializer::new(Sink(vec![], call));
                let mut o = String::new();
                for m in v {
                    let _ = writeln!(o, "{}", told(&Busy(m, call).serialize(&mut w)));
                    call();
                }
                match w.into_inner() {
                    Ok(w) => o.push_str(&String::from_utf8_lossy(&w.0)),
                    Err(e) => o.push_str(&failed(&e)),
                }
                o
            }
            Op::ToValue(t, v) => told(&serde_yaml::to_value(TV(t, v))),
            Op::FromValue(t, m) => {
                let v = m.to_value();
                format!("{} {}", told(&ty::from_value_ref(t, &v)), told(&ty::from_value(t, v.clone())))
            }
            Op::Merge(m) => {
                let mut v = m.to_value();
                let r = v.apply_merge();
                // Where merged entries come is not promised.
                format!("{} {}", told(&r), r.is_ok() && { v.apply_merge().is_ok() })
            }
            Op::Compare(a, b) => {
                let (a, b) = (a.to_value(), b.to_value());
                let h = |v: &Value| {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    v.hash(&mut h);
                    h.finish()
                };
                format!("{:?} {} {:x} {:x}", a.partial_cmp(&b), a == b, h(&a), h(&b))
            }
            Op::Number(t) => told(&t.parse::<Number>()),
            Op::Show(m) => {
                let v = m.to_value();
                format!("{v:?} {v:#?}")
            }
        }
    }
}

fn data(s: &mut Source) -> MV {
    let o = VOpts { max_depth: 3, max_len: 4, ..VOpts::full(s) };
    gen::value(s, &o)
}
/// To be written, or refused.
fn to_write(s: &mut Source) -> MV {
    let mut v = data(s);
    if s.chance(1, 3) {
        few_tags(s, &mut v);
    }
    v
}
/// Tags, and nothing but a few of them, here and there.
fn few_tags(s: &mut Source, v: &mut MV) {
    match v {
        MV::Tag(t, x) => {
            *t = s.pick(&["A", "B"]).to_string();
            few_tags(s, x);
            return;
        }
        MV::Seq(q) => q.iter_mut().for_each(|x| few_tags(s, x)),
        MV::Map(q) => q.iter_mut().for_each(|x| few_tags(s, &mut x.1)),
        _ => {}
    }
    if s.chance(1, 3) {
        let x = std::mem::replace(v, MV::Null);
        *v = MV::Tag(s.pick(&["A", "B"]).to_string(), Box::new(x));
    }
}
fn parts<'a>(v: &'a MV, o: &mut Vec<&'a MV>) {
    o.push(v);
    match v {
        MV::Tag(_, x) => parts(x, o),
        MV::Seq(q) => q.iter().for_each(|x| parts(x, o)),
        MV::Map(q) => q.iter().for_each(|x| parts(&x.1, o)),
        _ => {}
    }
}
fn document(s: &mut Source) -> String {
    match s.below(5) {
        0 => fuzz::text(s),
        1 => {
            let x = near::any_node(s, 2);
            near::document(s, &x)
        }
        2 => (*s.pick(&["*a", "[&a 1, *b]", "a: 1\na: 2\n", "[", "&a [*a]", "%YAML 1.1\n---\nx", "x: !!int y", "- &a 1\n- *a\n", "a: &a [1, *b]", "", "9223372036854775808", "'a", "1", "0x1F", "\u{feff}a: 1"])).to_string(),
        _ => {
            let mut v = data(s);
            if s.bool() {
                writer::share(s, &mut v);
            }
            writer::write(s, &v, W_ALL).text
        }
    }
}
fn near_doc(s: &mut Source) -> (Ty, String) {
    let t = ty::gen_ty(s, &T_ALL, 2);
    let mut n = Near::new(*s.pick(&[0, 60]), *s.pick(&[0, 100]));
    let x = n.node(s, &t);
    let d = near::document(s, &x);
    (t, d)
}
fn stream(s: &mut Source) -> String {
    let mut t = String::new();
    let mut n = 0;
    while s.more(n, 3, 8) {
        n += 1;
        t.push_str("---\n");
        t.push_str(document(s).trim_start_matches("---").trim_start_matches('\u{feff}'));
        t.push('\n');
    }
    t
}
fn op(s: &mut Source) -> Op {
    match s.below(16) {
        0 | 1 => Op::Value(document(s)),
        2 => Op::Slice(fuzz::bytes(s)),
        3 => {
            let t = document(s).into_bytes();
            Op::Reader(t, 1 + s.below(20))
        }
        4 | 5 => {
            let (t, d) = near_doc(s);
            Op::Typed(t, d)
        }
        6 => Op::Stream(stream(s)),
        7 => {
            let t = ty::gen_ty(s, &T_ALL, 1);
            Op::TypedStream(t, stream(s))
        }
        8 => Op::Write(to_write(s)),
        9 => {
            let t = ty::gen_ty(s, &T_ALL, 2);
            let v = ty::gen_val(s, &t);
            Op::WriteTyped(t, v)
        }
        10 => {
            let mut v = vec![];
            while s.more(v.len(), 3, 8) {
                v.push(to_write(s));
            }
            Op::WriteStream(v)
        }
        11 => {
            let t = ty::gen_ty(s, &T_ALL, 2);
            let v = ty::gen_val(s, &t);
            Op::ToValue(t, v)
        }
        12 => {
            let t = ty::gen_ty(s, &T_ALL, 1);
            Op::FromValue(t, data(s))
        }
        13 => {
            let mut m = vec![];
            for _ in 0..1 + s.below(3) {
                m.push((MV::str(*s.pick(&["a", "b", "<<"])), MV::Map(vec![(MV::str("a"), data(s))])));
            }
            Op::Merge(MV::Map(m))
        }
        14 => match s.below(3) {
            0 => {
                let a = data(s);
                let b = if s.bool() { a.clone() } else { data(s) };
                Op::Compare(a, b)
            }
            1 => Op::Show(data(s)),
            _ => Op::Number(gen::numberish(s)),
        },
        _ => {
            let a = gen::numberish(s);
            Op::Value(a)
        }
    }
}

fn ops(s: &mut Source, c: &mut Ctx, max: usize) -> (Vec<Op>, Vec<String>) {
    let mut v = vec![];
    while v.is_empty() || s.more(v.len(), 4, max) {
        v.push(op(s));
    }
    // Alike, but not the same.
    if s.chance(1, 3) {
        let i = s.below(v.len());
        let other = match &v[i] {
            Op::Value(t) if !t.is_empty() => {
                let k = s.below(t.chars().count());
                let to = *s.pick(&['a', '1', '0', 'x', ' ', '.', '*', '&', '"', 'b']);
                Some(Op::Value(t.chars().enumerate().map(|(i, c)| if i == k { to } else { c }).collect()))
            }
            Op::Typed(_, t) => Some(Op::Value(t.clone())),
            Op::Stream(t) => Some(Op::TypedStream(Ty::Any, t.clone())),
            Op::Write(m) => {
                let mut p = vec![];
                parts(m, &mut p);
                let i = s.below(p.len());
                Some(Op::Write(p[i].clone()))
            }
            Op::WriteStream(m) if !m.is_empty() => {
                let mut p = vec![];
                m.iter().for_each(|m| parts(m, &mut p));
                let i = s.below(p.len());
                Some(Op::Write(p[i].clone()))
            }
            _ => None,
        };
        v.extend(other);
    }
    for o in &v {
        c.input(&clip(
            &match o {
                Op::Typed(t, d) => format!("Typed {} {d:?}", show_ty(t)),
                Op::TypedStream(t, d) => format!("TypedStream {} {d:?}", show_ty(t)),
                Op::WriteTyped(t, v) | Op::ToValue(t, v) => format!("Write/ToValue {} = {}", show_ty(t), show_val(v)),
                Op::FromValue(t, m) => format!("FromValue {} {}", show_ty(t), show(m)),
                Op::Write(m) => format!("Write {}", show(m)),
                o => format!("{o:?}"),
            },
            300,
        ));
    }
    let w: Vec<String> = v.iter().map(Op::alone).collect();
    c.nt_if(v.len() >= 3 && w.iter().any(|x| !x.starts_with("error")));
    c.label_if(w.iter().any(|x| x.contains("error")), "with-errors");
    (v, w)
}

fn compare(c: &mut Ctx, o: &Op, got: &str, want: &str, when: &str) -> PResult {
    ensure!(c, got == want, format!("other-{when}"), "{when}: {}\nalone: {}\n{}", clip(got, 1500), clip(want, 1500), clip(&format!("{o:?}"), 1500));
    Ok(())
}

fn c31_orders(s: &mut Source, c: &mut Ctx) -> PResult {
    let (v, w) = ops(s, c, 10);
    for _ in 0..2 {
        let p = gen::permutation(s, v.len());
        for i in p {
            compare(c, &v[i], &v[i].alone(), &w[i], "order")?;
        }
    }
    // One buffer for all texts.
    let mut buffer = String::with_capacity(4096);
    for i in gen::permutation(s, v.len()) {
        if let Op::Value(t) | Op::Stream(t) | Op::Typed(_, t) | Op::TypedStream(_, t) = &v[i] {
            buffer.clear();
            buffer.push_str(t);
            let got = match &v[i] {
                Op::Value(_) => told(&serde_yaml::from_str::<Value>(&buffer)),
                Op::Typed(ty, _) => told(&ty::from_str(ty, &buffer)),
                Op::Stream(_) => serde_yaml::Deserializer::from_str(&buffer).take(22).map(|d| told(&Value::deserialize(d)) + "\n").collect(),
                Op::TypedStream(ty, _) => serde_yaml::Deserializer::from_slice(buffer.as_bytes()).take(22).map(|d| told(&Seed(ty).deserialize(d)) + "\n").collect(),
                _ => unreachable!(),
            };
            compare(c, &v[i], &got, &w[i], "buffer")?;
        }
    }
    // Errors and values that live on while others come and go.
    let kept: Vec<_> = v
        .iter()
        .map(|o| match o {
            Op::Value(t) => Some(serde_yaml::from_str::<Value>(t)),
            _ => None,
        })
        .collect();
    for (i, o) in v.iter().enumerate() {
        compare(c, o, &o.alone(), &w[i], "order")?;
    }
    for (i, k) in kept.iter().enumerate() {
        if let Some(r) = k {
            compare(c, &v[i], &told(r), &w[i], "kept")?;
        }
    }
    Ok(())
}

/// Runs operations from within others.
struct Nest<'a> {
    ops: &'a [Op],
    want: &'a [String],
    plan: Vec<usize>,
    at: Cell<usize>,
    depth: Cell<usize>,
    /// After as many calls, panic.
    fuse: Cell<Option<usize>>,
    ran: Cell<u64>,
    wrong: RefCell<Option<(usize, String)>>,
}
impl Nest<'_> {
    fn call(&self) {
        match self.fuse.get() {
            Some(0) => {
                self.fuse.set(None);
                panic!("the caller's code panics");
            }
            Some(n) => self.fuse.set(Some(n - 1)),
            None => {}
        }
        let i = self.at.get();
        if i >= self.plan.len() || self.depth.get() > 3 {
            return;
        }
        self.at.set(i + 1);
        let k = self.plan[i];
        if k >= self.ops.len() {
            return;
        }
        self.depth.set(self.depth.get() + 1);
        let got = self.ops[k].run(&|| self.call());
        self.depth.set(self.depth.get() - 1);
        self.ran.set(self.ran.get() + 1);
        if got != self.want[k] && self.wrong.borrow().is_none() {
            *self.wrong.borrow_mut() = Some((k, got));
        }
    }
}

fn c31_within(s: &mut Source, c: &mut Ctx) -> PResult {
    let (v, w) = ops(s, c, 6);
    let mut plan = vec![];
    let n = 2 + s.below(30);
    for _ in 0..n {
        // some calls in between do nothing
        plan.push(s.below(v.len() * 2 + 1));
    }
    let panics = s.chance(1, 4);
    let fuse = if panics { Some(s.below(12)) } else { None };
    let nest = Nest { ops: &v, want: &w, plan, at: Cell::new(0), depth: Cell::new(0), fuse: Cell::new(fuse), ran: Cell::new(0), wrong: RefCell::default() };
    let script = Script::draw(s);
    let text = document(s);
    let base = script.run(serde_yaml::Deserializer::from_str(&text));
    let base = format!("{} {}", base.0, told(&base.1));
    let outer = if s.bool() {
        v.len()
    } else {
        // one that hands over
        let i = s.below(v.len());
        (i..v.len()).chain(0..i).find(|&i| matches!(v[i], Op::Reader(..) | Op::Stream(_) | Op::TypedStream(..) | Op::Write(_) | Op::WriteTyped(..) | Op::WriteStream(_))).unwrap_or(v.len())
    };
    let r = caught(|| {
        if outer == v.len() {
            // A visitor that asks for anything, and works on the side.
            let r = script.run_with(serde_yaml::Deserializer::from_str(&text), &|| nest.call());
            format!("{} {}", r.0, told(&r.1))
        } else {
            v[outer].run(&|| nest.call())
        }
    });
    if let Some((k, got)) = nest.wrong.take() {
        compare(c, &v[k], &got, &w[k], "within")?;
    }
    match r {
        Ok(got) => {
            let want = w.get(outer).unwrap_or(&base);
            ensure!(c, got == *want, "other-around", "around others: {got}\nalone: {want}\n{}", clip(&format!("{:?} {text:?}", v.get(outer)), 1500));
        }
        Err((_, m)) if m.contains("the caller's code panics") => c.label("panicked"),
        Err((place, m)) => fail!("panic", "{place}: {m}"),
    }
    c.label_if(nest.ran.get() > 0, "nested");
    c.label_if(nest.ran.get() > 3, "nested-much");
    // Nothing is left behind, not even by a panic.
    for (i, o) in v.iter().enumerate() {
        compare(c, o, &o.alone(), &w[i], "after")?;
    }
    Ok(())
}

fn c31_turns(s: &mut Source, c: &mut Ctx) -> PResult {
    // Streams read and written in turns.
    let mut reads: Vec<String> = vec![];
    while reads.is_empty() || s.more(reads.len(), 2, 5) {
        // sometimes the same text twice
        let t = if !reads.is_empty() && s.chance(1, 4) { reads[0].clone() } else { stream(s) };
        reads.push(t);
    }
    let mut writes: Vec<Vec<MV>> = vec![];
    while s.more(writes.len(), 2, 4) {
        let mut v = vec![];
        while s.more(v.len(), 3, 6) {
            v.push(data(s));
        }
        writes.push(v);
    }
    for r in &reads {
        c.input(&clip(&format!("{r:?}"), 400));
    }
    for w in &writes {
        c.input(&clip(&w.iter().map(show).collect::<Vec<_>>().join(" then "), 400));
    }
    const MOST: usize = 12;
    let want_reads: Vec<Vec<String>> = reads.iter().map(|t| serde_yaml::Deserializer::from_str(t).take(MOST).map(|d| told(&Value::deserialize(d))).collect()).collect();
    let want_writes: Vec<String> = writes.iter().map(|v| Op::WriteStream(v.clone()).alone()).collect();
    c.nt_if(reads.len() + writes.len() >= 2);
    // Others that are open all the while.
    let crowd = if s.chance(1, 16) { 8 + s.below(60) } else { 0 };
    let mut idle: Vec<_> = (0..crowd).map(|i| serde_yaml::Deserializer::from_str(*s.pick(&["1\n---\n2\n", "&a [1]\n---\n[", "", "--- *a\n", reads[i % reads.len()].as_str()]))).collect();
    let held: Vec<_> = idle.iter_mut().filter_map(Iterator::next).collect();
    let mut kept: Vec<_> = (0..crowd / 4).map(|_| serde_yaml::Serializer::new(Vec::new())).collect();
    for w in &mut kept {
        let m = data(s);
        let _ = Busy(&m, &nothing).serialize(w);
    }
    c.label_if(crowd > 0, "crowd");
    let mut its: Vec<_> = reads.iter().map(|t| (serde_yaml::Deserializer::from_str(t).take(MOST), None, Vec::new(), false)).collect();
    let mut outs: Vec<_> = writes.iter().map(|_| (serde_yaml::Serializer::new(Vec::new()), 0, String::new())).collect();
    let mut left = its.len() + outs.len();
    let abandon = s.chance(1, 8);
    let mut steps = 0;
    while left > 0 && steps < 400 {
        steps += 1;
        if abandon && steps > 6 {
            break;
        }
        let k = s.below(its.len() + outs.len());
        if k < its.len() {
            let (it, held, got, done) = &mut its[k];
            if *done {
                if s.dry() {
                    break;
                }
                continue;
            }
            // A document may be held while others go on.
            match held.take() {
                Some(d) => {
                    let d: serde_yaml::Deserializer = d;
                    got.push(told(&Value::deserialize(d)));
                }
                None => match it.next() {
                    None => {
                        *done = true;
                        left -= 1;
                    }
                    Some(d) => {
                        if s.bool() {
                            *held = Some(d);
                        } else {
                            got.push(told(&Value::deserialize(d)));
                        }
                    }
                },
            }
        } else {
            let (w, at, o) = &mut outs[k - its.len()];
            let v = &writes[k - its.len()];
            if *at < v.len() {
                let _ = writeln!(o, "{}", told(&Busy(&v[*at], &nothing).serialize(w)));
                *at += 1;
            } else if *at == v.len() {
                left -= 1;
                *at += 1;
            } else if s.dry() {
                break;
            }
        }
    }
    let whole = left == 0;
    c.label_if(!whole, "abandoned");
    for (i, (_, held, mut got, done)) in its.into_iter().enumerate() {
        if let Some(d) = held {
            got.push(told(&Value::deserialize(d)));
        }
        let want = &want_reads[i];
        let n = if done { want.len().max(got.len()) } else { got.len() };
        ensure!(c, want.len() >= n && got[..] == want[..got.len()] && got.len() == n, "other-in-turns", "read in turns: {got:?}\nalone: {want:?}\n{:?}", clip(&reads[i], 1500));
    }
    for (i, (w, at, mut o)) in outs.into_iter().enumerate() {
        if at < writes[i].len() {
            continue;
        }
        match w.into_inner() {
            Ok(b) => o.push_str(&String::from_utf8_lossy(&b)),
            Err(e) => o.push_str(&failed(&e)),
        }
        ensure!(c, o == want_writes[i], "other-written-in-turns", "in turns: {o}\nalone: {}", want_writes[i]);
    }
    for r in reads.iter() {
        c.label_if(r.is_empty(), "empty-stream");
    }
    drop(held);
    drop(kept);
    drop(idle);
    Ok(())
}

fn c31_threads(s: &mut Source, c: &mut Ctx) -> PResult {
    let (v, w) = ops(s, c, 8);
    let n = 2 + s.below(3);
    let rounds = 1 + s.below(4);
    let orders: Vec<Vec<usize>> = (0..n)
        .map(|_| {
            let mut o = vec![];
            for _ in 0..rounds {
                o.extend(gen::permutation(s, v.len()));
            }
            o
        })
        .collect();
    let go = AtomicBool::new(false);
    let (v, w, go) = (&v, &w, &go);
    let wrong = std::thread::scope(|scope| {
        let all: Vec<_> = orders
            .iter()
            .map(|o| {
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(scope, move || {
                    while !go.load(Ordering::Acquire) {
                        std::thread::yield_now();
                    }
                    o.iter().find_map(|&i| {
                        let g = v[i].alone();
                        if g == w[i] {
                            None
                        } else {
                            Some((i, g))
                        }
                    })
                })
            })
            .collect();
        go.store(true, Ordering::Release);
        let mut wrong = None;
        for t in all {
            match t {
                Err(_) => {}
                Ok(t) => match t.join() {
                    Ok(None) => {}
                    Ok(x) => wrong = x.map(Ok),
                    Err(_) => wrong = Some(Err(())),
                },
            }
        }
        wrong
    });
    c.checks += (n * rounds * v.len()) as u64;
    match wrong {
        None => {}
        Some(Ok((i, got))) => compare(c, &v[i], &got, &w[i], "threads")?,
        Some(Err(())) => fail!("panic-in-thread", "an operation that succeeds or fails alone panics beside others"),
    }
    // A failure shown elsewhere.
    for (o, w) in v.iter().zip(w) {
        if let Op::Value(t) = o {
            let r = serde_yaml::from_str::<Value>(t);
            let told = std::thread::scope(|x| x.spawn(move || told(&r)).join());
            let Ok(g) = told else { fail!("panic-in-thread", "showing an outcome on another thread panics") };
            compare(c, o, &g, w, "moved")?;
            break;
        }
    }
    Ok(())
}
