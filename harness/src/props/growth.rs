//! The cost of an operation grows with its data as it should: eight times the
//! data takes about eight times the processor time and memory.

use crate::engine::*;
use crate::{ensure, fail};
use serde::de::IgnoredAny;
use serde::{Deserialize, Serialize};
use serde_yaml::with::singleton_map_recursive;
use serde_yaml::{Deserializer, Mapping, Serializer, Value};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::collections::BTreeMap;
use std::io::{self, Read};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        level: "exploration",
        rule: "A case is a kind of document and an operation, carried out on data of two sizes, one eight times the other, its processor time and the memory it takes being measured; all cases count as non-trivial.",
        assumptions: &["Processor time is the thread's; nearly four times the linear growth is tolerated, so that only growth nearer to quadratic than to linear is reported."],
        subs: vec![
            Sub { name: "reading", quick: 300, thorough: 9_000, f: c32_reading },
            Sub { name: "values", quick: 300, thorough: 9_000, f: c32_values },
            Sub { name: "typed", quick: 150, thorough: 5_000, f: c32_typed },
            Sub { name: "depth", quick: 200, thorough: 7_000, f: c32_depth },
        ],
    }]
}

// ------------------------------------------------------------- measurement

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// Processor time of this thread in nanoseconds.
fn cpu() -> i64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: 3 is CLOCK_THREAD_CPUTIME_ID, t is a valid timespec.
    let r = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(r, 0, "no thread clock");
    t.sec * 1_000_000_000 + t.nsec
}

#[derive(Copy, Clone, Debug)]
struct Cost {
    ns: i64,
    /// Allocated in all, and at the same time.
    total: i64,
    peak: i64,
}
/// The least of some runs. The operation prepares what it needs first.
type Op = Box<dyn Fn() -> Box<dyn FnOnce()>>;
fn cost(runs: usize, op: &Op) -> Cost {
    let mut best = Cost { ns: i64::MAX, total: i64::MAX, peak: i64::MAX };
    for _ in 0..runs {
        let f = op();
        let live = mem_now().bytes;
        mem_reset_peak();
        let total = mem_total();
        let t = cpu();
        f();
        let t = cpu() - t;
        best.ns = best.ns.min(t);
        best.total = best.total.min(mem_total() - total);
        best.peak = best.peak.min(mem_peak() - live);
    }
    best
}

/// `make(n)` gives the operation on data of size `n`.
fn grows(c: &mut Ctx, what: &str, n: usize, make: &dyn Fn(usize) -> Op) -> PResult {
    const TIMES: usize = 8;
    const LIMIT: i64 = 30;
    let (small, large) = (make(n), make(n * TIMES));
    let mut a = cost(3, &small);
    let mut b = cost(1, &large);
    let slow = |a: &Cost, b: &Cost| b.ns > LIMIT * a.ns + 6_000_000;
    for i in 0..8 {
        if !slow(&a, &b) || i > 1 && b.ns > 300_000_000 && b.ns > 40 * a.ns {
            break;
        }
        // Noise only adds: the least of several runs counts.
        let (x, y) = (cost(3, &small), cost(1, &large));
        a.ns = a.ns.max(x.ns);
        b.ns = b.ns.min(y.ns);
    }
    c.label(match b.ns * 10 / a.ns.max(1) {
        0..=40 => "x0-4",
        41..=70 => "x4-7",
        71..=90 => "x7-9",
        91..=120 => "x9-12",
        121..=160 => "x12-16",
        161..=200 => "x16-20",
        _ => "x20+",
    });
    ensure!(c, b.total <= 18 * a.total + 65_536, "memory-grows", "{what}: {} bytes allocated in all for size {n}, {} for {TIMES} times that", a.total, b.total);
    ensure!(c, b.peak <= 18 * a.peak + 65_536, "peak-grows", "{what}: {} bytes at a time for size {n}, {} for {TIMES} times that", a.peak, b.peak);
    ensure!(c, !slow(&a, &b), "time-grows", "{what}: {} us for size {n}, {} us for {TIMES} times that", a.ns / 1000, b.ns / 1000);
    Ok(())
}

// -------------------------------------------------------------------- data

#[derive(Clone, Debug)]
struct Shape {
    kind: usize,
    units: Vec<usize>,
    flow: bool,
    map: bool,
    k: usize,
}
fn shape(s: &mut Source, kinds: usize) -> Shape {
    let mut units = vec![];
    while s.more(units.len(), 2, 4) || units.is_empty() {
        units.push(s.below(14));
    }
    Shape { kind: s.below(kinds), units, flow: s.bool(), map: s.bool(), k: 1 + s.below(8) }
}
fn unit(kind: usize, i: usize) -> String {
    match kind {
        0 => format!("{i}"),
        1 => format!("k{i}"),
        2 => format!("[{i}]"),
        3 => format!("{{a: {i}}}"),
        4 => format!("!t {i}"),
        5 => "~".into(),
        6 => format!("\"l{i}\\n\\u00e9\\n\""),
        7 => format!("-{i}.5"),
        8 => "[]".into(),
        9 => format!("'{i}'"),
        10 => format!("!t{i} {{x: [{i}, y]}}"),
        11 => "true".into(),
        12 => format!("{{a: 1, b: [x, {{c: {i}}}], é: \"w o r d\"}}"),
        _ => format!("words and words {i}"),
    }
}
const KINDS: usize = 16;
impl Shape {
    fn text(&self, n: usize) -> String {
        let mut t = String::new();
        let u = |i: usize| unit(self.units[i % self.units.len()], i);
        match self.kind {
            // A collection of many.
            0 | 1 => {
                if self.flow {
                    t.push(if self.map { '{' } else { '[' });
                }
                for i in 0..n {
                    match (self.map, self.flow) {
                        (true, true) => write!(t, "f{i}: {},{}", u(i), if i % 9 == 0 { "\n " } else { " " }),
                        (false, true) => write!(t, "{},{}", u(i), if i % 9 == 0 { "\n " } else { " " }),
                        (true, false) => writeln!(t, "f{i}: {}", u(i)),
                        (false, false) => writeln!(t, "- {}", u(i)),
                    }
                    .unwrap();
                }
                if self.flow {
                    t.push_str(if self.map { "}\n" } else { "]\n" });
                }
            }
            // One long scalar, in one line or many.
            2 => {
                t.push_str(["", "'", "\"", "\"", "|\n ", ">\n ", "|+\n  ", "k: "][self.k % 8]);
                let block = matches!(self.k % 8, 4..=6);
                for i in 0..n {
                    let end = match self.k % 8 {
                        3 => "\\n\\u00e9",
                        _ if self.flow || self.k % 8 == 7 => " ",
                        4 | 5 => "\n ",
                        6 => "\n\n  ",
                        _ => "\n ",
                    };
                    write!(t, "word{}{end}", i % 10).unwrap();
                }
                t.push_str("end");
                t.push_str(["", "'", "\"", "\"", "\n", "\n", "\n", ""][self.k % 8]);
                if !block {
                    t.push('\n');
                }
            }
            // Nested collections, again and again.
            3 => {
                let d = 4 + 10 * self.k;
                for i in 0..n.div_ceil(d) {
                    let (a, b) = if self.map { ("{a: ", "}") } else { ("[", "]") };
                    writeln!(t, "- {}{i}{}", a.repeat(d), b.repeat(d)).unwrap();
                }
            }
            4 => {
                let d = 3 + 3 * self.k;
                for i in 0..n.div_ceil(d) {
                    t.push_str("- a: 1\n");
                    for j in 1..d {
                        writeln!(t, "{}b:", "  ".repeat(j)).unwrap();
                        if self.map {
                            writeln!(t, "{}z: {i}", "  ".repeat(j + 1)).unwrap();
                        }
                    }
                    if !self.map {
                        writeln!(t, "{}{i}", "  ".repeat(d)).unwrap();
                    }
                }
            }
            // Anchors and aliases.
            5 => {
                for i in 0..n {
                    let name = if self.flow { i % self.k } else { i };
                    writeln!(t, "- &a{name} {}\n- *a{name}", u(i)).unwrap();
                }
            }
            6 => {
                for i in 0..n {
                    writeln!(t, "- &a{i} {i}").unwrap();
                }
                for i in 0..n {
                    writeln!(t, "- *a{}", (i * 7919) % n).unwrap();
                }
            }
            // Comments and empty lines.
            7 => {
                t.push_str("a: 1\n");
                for i in 0..n {
                    t.push_str(["# words\n", "\n", "   # more words\n", "     \n"][(i * self.k) % 4]);
                }
                t.push_str("b: 2\n");
            }
            // Keys written out.
            8 => {
                for i in 0..n {
                    writeln!(t, "? {}\n: {i}", if self.flow { format!("[{i}, {}]", u(i)) } else { format!("k{i}") }).unwrap();
                }
            }
            // Long keys, long tags, long anchors.
            9 => {
                let w = "x".repeat(40 * self.k);
                for i in 0..n / 4 {
                    match (self.map, self.flow) {
                        (true, _) => writeln!(t, "{w}{i}: {}", u(i)),
                        (_, true) => writeln!(t, "- !{w}{i} v"),
                        _ => writeln!(t, "- &{w}{i} v"),
                    }
                    .unwrap();
                }
            }
            // Merges.
            10 => {
                t.push_str("base: &base {p: 1, q: [2, 3], r: {}}\nitems:\n");
                for i in 0..n / 4 {
                    writeln!(t, "- {{<<: *base, q: {i}}}").unwrap();
                }
            }
            11 => {
                t.push_str("<<:\n");
                for i in 0..n {
                    writeln!(t, "- {{a{}: {}}}", if self.flow { i } else { i % 7 }, u(i)).unwrap();
                }
                t.push_str("own: 1\n");
            }
            // Indented lists of lists; compact nesting.
            12 => {
                for i in 0..n / 4 {
                    writeln!(t, "- - - {i}\n    - x\n  - k: v\n    l: w").unwrap();
                }
            }
            // Wide lines, and no line ends at all.
            13 => {
                t.push_str("k: [");
                for i in 0..n {
                    write!(t, "{i}, {}", if self.flow { "é, " } else { "" }).unwrap();
                }
                t.push_str("0]\n");
            }
            // Keys of other kinds.
            14 => {
                for i in 0..n {
                    writeln!(t, "{}: {i}", match self.k % 4 {
                        0 => format!("{i}"),
                        1 => format!("-{i}"),
                        2 => format!("{i}.25"),
                        _ => format!("!t {i}"),
                    }).unwrap();
                }
            }
            // One entry with a long tail in each.
            _ => {
                for i in 0..n / 8 {
                    writeln!(t, "f{i}: {}", "word ".repeat(8)).unwrap();
                }
            }
        }
        t
    }
    fn documents(&self, n: usize) -> String {
        let mut t = String::new();
        for i in 0..n {
            writeln!(t, "--- {}{}", unit(self.units[i % self.units.len()], i), if i % 4 == 0 { "\n..." } else { "" }).unwrap();
        }
        t
    }
}

struct Pieces<'a>(&'a [u8], usize);
impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.1.min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

// ----------------------------------------------------------------- reading

fn c32_reading(s: &mut Source, c: &mut Ctx) -> PResult {
    let sh = shape(s, KINDS);
    let op = s.below(10);
    let step = *s.pick(&[1usize, 7, 100, 5000]);
    let name = ["Value", "ignored", "reader", "documents", "documents ignored", "documents from a reader", "an error at the end", "a syntax error at the end", "Deserializer", "documents with anchors"][op];
    c.input(&format!("{name} {step} of {sh:?}"));
    c.nt_if(true);
    c.label(name);
    let n = 2500 + s.below(1500);
    let make = |n: usize| -> Op {
        let text = Rc::new(match op {
            3 | 4 | 5 => sh.documents(n),
            6 => sh.text(n) + "? [unit\n",
            7 => sh.text(n) + "\n}}}: ]",
            9 => {
                let mut t = String::new();
                for i in 0..n {
                    writeln!(t, "---\n- &a{} {i}\n- *a{}", i % sh.k, i % sh.k).unwrap();
                }
                t
            }
            _ => sh.text(n),
        });
        Box::new(move || {
            let text = Rc::clone(&text);
            Box::new(move || match op {
                0 => drop(serde_yaml::from_str::<Value>(&text)),
                1 => drop(serde_yaml::from_str::<IgnoredAny>(&text)),
                2 => drop(serde_yaml::from_reader::<_, Value>(Pieces(text.as_bytes(), step))),
                3 | 9 => Deserializer::from_str(&text).for_each(|d| drop(Value::deserialize(d))),
                4 => Deserializer::from_slice(text.as_bytes()).for_each(|d| drop(IgnoredAny::deserialize(d))),
                5 => Deserializer::from_reader(Pieces(text.as_bytes(), step)).for_each(|d| drop(Value::deserialize(d))),
                6 | 7 => {
                    let e = serde_yaml::from_str::<Value>(&text).map(|_| ()).map_err(|e| (e.to_string(), e.location().map(|l| l.line())));
                    drop(e);
                }
                _ => drop(Value::deserialize(Deserializer::from_str(&text))),
            })
        })
    };
    grows(c, &format!("{name} of {sh:?}"), n, &make)
}

// ------------------------------------------------------------------ values

/// Keys as they come in the text.
fn key(kind: usize, i: usize) -> Value {
    match kind {
        0 => Value::from(i),
        1 => Value::from(format!("key {i}")),
        2 => Value::from(i as f64 + 0.5),
        3 => Value::from(vec![i, 1]),
        4 => Value::from(-(i as i64)),
        5 => Value::Mapping(Mapping::from_iter([(Value::from(i), Value::Null), (Value::from("x"), Value::from(1))])),
        6 => Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("t"), value: Value::from(i) })),
        _ => Value::from(i << 16),
    }
}
fn hash(v: &Value) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
fn walk(v: &Value) -> usize {
    match v {
        Value::Sequence(x) => (0..x.len()).map(|i| walk(&v[i])).sum(),
        Value::Mapping(m) => m.keys().map(|k| walk(&v[k])).sum(),
        Value::Tagged(t) => walk(&t.value),
        _ => 1,
    }
}

fn c32_values(s: &mut Source, c: &mut Ctx) -> PResult {
    let sh = shape(s, KINDS);
    const OPS: [&str; 22] = [
        "to_string", "to_value", "from_value", "deserialize a reference", "clone", "==", "hash", "partial_cmp", "apply_merge", "drop", "walk", "insert", "get", "retain", "swap_remove", "entry", "to_writer",
        "Serializer", "collect", "singleton_map_recursive", "ignore", "iterate",
    ];
    let op = s.below(OPS.len());
    let keys = s.below(8);
    let name = OPS[op];
    c.input(&format!("{name} keys {keys} of {sh:?}"));
    c.nt_if(true);
    c.label(name);
    let n = (2500 + s.below(1500)) * if matches!(op, 11..=15 | 18 | 21) { 2 } else { 1 };
    let parsed = std::cell::Cell::new(true);
    let make = |n: usize| -> Op {
        let keyed = matches!(op, 11..=15 | 18 | 21);
        let v = if keyed {
            Value::Mapping((0..n).map(|i| (key(keys, i), Value::from(i))).collect())
        } else {
            serde_yaml::from_str(&sh.text(n)).unwrap_or_else(|_| {
                parsed.set(false);
                Value::Null
            })
        };
        let v = Rc::new(v);
        let k = sh.k;
        Box::new(move || {
            let r = Rc::clone(&v);
            let own = if matches!(op, 2 | 5 | 7 | 8 | 9 | 13 | 14 | 15 | 18) { Value::clone(&v) } else { Value::Null };
            Box::new(move || {
                let mut own = own;
                match op {
                    0 => drop(serde_yaml::to_string(&*r)),
                    1 => drop(serde_yaml::to_value(&*r)),
                    2 => drop(serde_yaml::from_value::<Value>(own)),
                    3 => drop(Value::deserialize(&*r)),
                    4 => drop(Value::clone(&r)),
                    5 => assert!(own == *r || hash(&own) == 1),
                    6 => drop(hash(&r)),
                    7 => drop(own.partial_cmp(&r)),
                    8 => drop(own.apply_merge()),
                    9 => drop(own),
                    10 => drop(walk(&r)),
                    11 => {
                        let mut m = Mapping::new();
                        for (k, v) in r.as_mapping().unwrap() {
                            m.insert(k.clone(), v.clone());
                        }
                    }
                    12 => {
                        let m = r.as_mapping().unwrap();
                        assert!(m.keys().all(|k| m.get(k).is_some() && m.contains_key(k)));
                    }
                    13 => {
                        let m = own.as_mapping_mut().unwrap();
                        let mut i = 0;
                        m.retain(|_, _| {
                            i += 1;
                            i % (k + 1) == 0
                        });
                    }
                    14 => {
                        let m = own.as_mapping_mut().unwrap();
                        for k in r.as_mapping().unwrap().keys() {
                            m.swap_remove(k);
                        }
                    }
                    15 => {
                        let m = own.as_mapping_mut().unwrap();
                        for k in r.as_mapping().unwrap().keys() {
                            m.entry(k.clone()).and_modify(|v| *v = Value::Null).or_insert(Value::Null);
                        }
                    }
                    16 => drop(serde_yaml::to_writer(io::sink(), &*r)),
                    17 => {
                        let mut w = Serializer::new(Vec::new());
                        match &*r {
                            Value::Sequence(v) => v.iter().for_each(|v| v.serialize(&mut w).unwrap_or(())),
                            Value::Mapping(v) => v.iter().for_each(|v| v.serialize(&mut w).unwrap_or(())),
                            v => v.serialize(&mut w).unwrap_or(()),
                        }
                        drop(w.into_inner());
                    }
                    18 => {
                        let Value::Mapping(m) = own else { unreachable!() };
                        let mut e = Mapping::new();
                        e.extend(m);
                        let v: Vec<Value> = e.into_values().collect();
                        drop(Value::from(v));
                    }
                    19 => drop(singleton_map_recursive::serialize(&*r, serde_yaml::value::Serializer)),
                    20 => drop(IgnoredAny::deserialize(&*r)),
                    _ => {
                        let m = r.as_mapping().unwrap();
                        drop(m.iter().filter(|(k, v)| k == v).count() + m.keys().len() + m.values().count());
                    }
                }
            })
        })
    };
    grows(c, &format!("{name} keys {keys} of {sh:?}"), n, &make)?;
    c.label(if parsed.get() { "parsed" } else { "not-parsed" });
    Ok(())
}

// ------------------------------------------------------------------- typed

#[derive(Serialize, Deserialize, Clone, PartialEq)]
enum Pick {
    Unit,
    New(u32),
    Two(u8, String),
    Fields { a: Option<i64>, b: Vec<bool> },
}
#[derive(Serialize, Deserialize, Clone, PartialEq)]
struct Item {
    id: u64,
    name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    opt: Option<f64>,
    pick: Pick,
}
#[derive(Serialize, Deserialize, Clone, PartialEq)]
struct Flat {
    id: u64,
    #[serde(flatten)]
    rest: BTreeMap<String, Value>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq)]
#[serde(untagged)]
enum Loose {
    Num(u64),
    Text(String),
    List(Vec<Loose>),
}
#[derive(Serialize, Deserialize, Clone, PartialEq)]
struct All {
    items: Vec<Item>,
    flat: Vec<Flat>,
    loose: Vec<Loose>,
    by_name: BTreeMap<String, (i8, char, bool)>,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    maps: Vec<Pick>,
    long: String,
    wide: Vec<i128>,
}
fn all(n: usize, what: u8, long: usize) -> All {
    let pick = |i: usize| match i % 4 {
        0 => Pick::Unit,
        1 => Pick::New(i as u32),
        2 => Pick::Two(i as u8, format!("t{i}\nl")),
        _ => Pick::Fields { a: (i % 8 == 3).then_some(-(i as i64)), b: vec![true; i % 3] },
    };
    let some = |bit: u8| if what & bit != 0 { n } else { 0 };
    All {
        items: (0..some(1)).map(|i| Item { id: i as u64, name: format!("n {i}"), opt: (i % 3 == 0).then_some(i as f64), pick: pick(i) }).collect(),
        flat: (0..some(2)).map(|i| Flat { id: i as u64, rest: [(format!("r{i}"), Value::from(i))].into() }).collect(),
        loose: (0..some(4)).map(|i| if i % 3 == 0 { Loose::Num(i as u64) } else if i % 3 == 1 { Loose::Text(format!("{i}")) } else { Loose::List(vec![Loose::Num(1)]) }).collect(),
        by_name: (0..some(8)).map(|i| (format!("k{i:07}"), (i as i8, 'é', true))).collect(),
        maps: (0..some(16)).map(pick).collect(),
        long: (0..some(32)).map(|i| ["word ", "é", "line\n", "'", "\u{1}"][(i / 3) % long]).collect(),
        wide: (0..some(64)).map(|i| (i as i128) << (i % 90)).collect(),
    }
}

fn c32_typed(s: &mut Source, c: &mut Ctx) -> PResult {
    const OPS: [&str; 8] = ["from_str", "to_string", "to_value", "from_value", "from a Value's reference", "from_reader", "a type that does not fit at the end", "many documents"];
    let op = s.below(OPS.len());
    let (what, long) = (1u8 << s.below(7), 1 + s.below(5));
    c.input(&format!("{} of part {what} {long}", OPS[op]));
    c.nt_if(true);
    c.label(OPS[op]);
    let n = 2500 + s.below(1500);
    let make = |n: usize| -> Op {
        let data = Rc::new(all(n, what, long));
        let mut text = serde_yaml::to_string(&*data).unwrap();
        let value = if matches!(op, 3 | 4) { serde_yaml::to_value(&*data).unwrap() } else { Value::Null };
        if op == 6 {
            text = text.replace("wide:", "wide: [1, x]\nnone:");
        }
        let text = Rc::new(text);
        let value = Rc::new(value);
        Box::new(move || {
            let (data, text, value) = (Rc::clone(&data), Rc::clone(&text), Rc::clone(&value));
            let own = if op == 3 { Value::clone(&value) } else { Value::Null };
            Box::new(move || {
                match op {
                    0 => assert!(serde_yaml::from_str::<All>(&text).is_ok()),
                    1 => drop(serde_yaml::to_string(&*data)),
                    2 => drop(serde_yaml::to_value(&*data)),
                    3 => drop(serde_yaml::from_value::<All>(own)),
                    4 => drop(All::deserialize(&*value)),
                    5 => drop(serde_yaml::from_reader::<_, All>(Pieces(text.as_bytes(), 100))),
                    6 => drop(serde_yaml::from_str::<All>(&text).map_err(|e| e.to_string())),
                    _ => {
                        let mut w = Serializer::new(Vec::new());
                        data.items.iter().for_each(|x| x.serialize(&mut w).unwrap());
                        data.maps.iter().for_each(|x| x.serialize(&mut w).unwrap());
                        data.wide.iter().for_each(|x| x.serialize(&mut w).unwrap());
                        data.flat.iter().for_each(|x| x.serialize(&mut w).unwrap());
                        let t = w.into_inner().unwrap();
                        Deserializer::from_slice(&t).for_each(|d| drop(Value::deserialize(d)));
                    }
                };
            })
        })
    };
    grows(c, &format!("{} of part {what} {long}", OPS[op]), n, &make)
}

// ------------------------------------------------------------------- depth

#[derive(Serialize, Deserialize, Clone, PartialEq, Default)]
struct Chain {
    id: u8,
    next: Option<Box<Chain>>,
    #[serde(default)]
    tail: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq)]
enum Link {
    End,
    Both { left: Box<Link>, n: u8 },
    Pair(u8, Box<Link>),
}
fn chains(d: usize) -> Chain {
    (0..d).fold(Chain::default(), |c, i| Chain { id: i as u8, next: Some(Box::new(c)), tail: vec![1, 2] })
}
fn links(d: usize) -> Link {
    (0..d).fold(Link::End, |l, i| if i % 2 == 0 { Link::Pair(1, Box::new(l)) } else { Link::Both { left: Box::new(l), n: 1 } })
}
fn deep(kinds: &[usize], d: usize) -> Value {
    let mut v = Value::from(1);
    for i in 0..d {
        let mut m = Mapping::new();
        v = match kinds[i % kinds.len()] {
            0 => Value::Sequence(vec![v]),
            1 => Value::Sequence(vec![1.into(), v, "x".into()]),
            2 => {
                m.insert("a".into(), v);
                Value::Mapping(m)
            }
            3 => {
                m.insert("b".into(), 1.into());
                m.insert("a".into(), v);
                m.insert("c".into(), Value::Null);
                Value::Mapping(m)
            }
            4 => Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("t"), value: Value::Sequence(vec![v]) })),
            5 => {
                m.insert("<<".into(), Value::Mapping(Mapping::from_iter([("d".into(), 1.into())])));
                m.insert("e".into(), v);
                Value::Mapping(m)
            }
            _ => {
                m.insert(v, 1.into());
                Value::Mapping(m)
            }
        };
    }
    v
}
fn flow(kinds: &[usize], d: usize) -> String {
    let (mut t, mut e) = (String::new(), String::new());
    for i in (0..d).rev() {
        let (a, b) = match kinds[i % kinds.len()] {
            0 => ("[", "]"),
            1 => ("[1, ", ", x]"),
            2 => ("{a: ", "}"),
            3 => ("{b: 1, a: ", ", c: ~}"),
            4 => ("!t [", "]"),
            5 => ("{<<: {d: 1}, e: ", "}"),
            _ => ("{? ", " : 1}"),
        };
        t.push_str(a);
        e.insert_str(0, b);
    }
    t + "1" + &e
}

/// Eight times as deep is eight times the data as well.
fn c32_depth(s: &mut Source, c: &mut Ctx) -> PResult {
    const OPS: [&str; 20] = [
        "Value", "ignored", "reader", "an error in the middle", "a syntax error in the middle", "a type that does not fit in the middle", "typed", "enums", "typed from_value", "typed reference", "typed to_value", "enums from_value", "to_value", "from_value", "deserialize a reference",
        "clone, == and cmp", "apply_merge", "singleton_map_recursive", "walk", "debug",
    ];
    let op = s.below(OPS.len());
    let mut kinds = vec![];
    while s.more(kinds.len(), 2, 4) || kinds.is_empty() {
        // A key below a key is hashed once for each level.
        kinds.push(s.below(6));
    }
    let many = 200 + s.below(200);
    let name = OPS[op];
    c.input(&format!("{name} of {many} times {kinds:?}"));
    c.nt_if(true);
    c.label(name);
    let make = |d: usize| -> Op {
        let text = match op {
            3 => flow(&kinds, d).replace('1', "*none"),
            4 => flow(&kinds, d).replace('1', "}1"),
            _ => flow(&kinds, d),
        };
        let v = deep(&kinds, d);
        let (chain, link) = (chains(d / 2), links(d / 2));
        let chain_text = chain_flow(&chain);
        let (cv, lv) = (serde_yaml::to_value(&chain).unwrap(), serde_yaml::to_value(&link).unwrap());
        let link_text = link_flow(d / 2);
        let all = Rc::new((text, v, chain, link, chain_text, cv, lv, link_text));
        Box::new(move || {
            let all = Rc::clone(&all);
            let own: Vec<Value> = match op {
                8 => vec![all.5.clone(); many],
                11 => vec![all.6.clone(); many],
                13 | 15 | 16 => vec![all.1.clone(); many],
                _ => vec![],
            };
            Box::new(move || {
                let (text, v, chain, _, chain_text, cv, _, link_text) = &*all;
                let mut own = own.into_iter();
                for _ in 0..many {
                    match op {
                        0 => drop(serde_yaml::from_str::<Value>(text).unwrap()),
                        1 => drop(serde_yaml::from_str::<IgnoredAny>(text)),
                        2 => drop(serde_yaml::from_reader::<_, Value>(text.as_bytes())),
                        3 | 4 => drop(serde_yaml::from_str::<Value>(text).map_err(|e| e.to_string())),
                        5 => drop(serde_yaml::from_str::<Chain>(&chain_text.replace("null", "[1]")).map_err(|e| e.to_string())),
                        6 => assert!(serde_yaml::from_str::<Chain>(chain_text).unwrap().id as usize % 256 == chain.id as usize),
                        7 => drop(serde_yaml::from_str::<Link>(link_text).unwrap()),
                        8 => drop(serde_yaml::from_value::<Chain>(own.next().unwrap()).unwrap()),
                        9 => drop(Chain::deserialize(cv).unwrap()),
                        10 => drop(serde_yaml::to_value(chain)),
                        11 => drop(serde_yaml::from_value::<Link>(own.next().unwrap()).unwrap()),
                        12 => drop(serde_yaml::to_value(v)),
                        13 => drop(serde_yaml::from_value::<Value>(own.next().unwrap())),
                        14 => drop(Value::deserialize(v)),
                        15 => {
                            let o = own.next().unwrap();
                            assert!(o == *v && v.clone() == o);
                            drop(o.partial_cmp(v));
                        }
                        16 => drop(own.next().unwrap().apply_merge()),
                        17 => drop(singleton_map_recursive::serialize(v, serde_yaml::value::Serializer)),
                        18 => drop(walk(v)),
                        _ => drop(format!("{v:?}")),
                    }
                }
            })
        })
    };
    grows(c, &format!("{name} of {many} times {kinds:?}"), 15, &make)
}
/// Flow style takes no more room for what lies deeper.
fn chain_flow(c: &Chain) -> String {
    let (mut t, mut e) = (String::new(), String::new());
    let mut c = c;
    while let Some(next) = &c.next {
        write!(t, "{{id: {}, next: ", c.id).unwrap();
        e.push_str(", tail: [1, 2]}");
        c = next;
    }
    t + "{id: 0, next: null}" + &e
}
fn link_flow(d: usize) -> String {
    let (mut t, mut e) = (String::new(), String::new());
    for i in (0..d).rev() {
        t.push_str(if i % 2 == 0 { "!Pair [1, " } else { "!Both {n: 1, left: " });
        e.insert(0, if i % 2 == 0 { ']' } else { '}' });
    }
    t + "End" + &e
}
