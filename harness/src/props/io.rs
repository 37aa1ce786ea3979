//! C08–C11: readers, document streams, the multi-document serializer, writers
//! that fail.

use super::trace::Script;
use crate::engine::*;
use crate::fuzz;
use crate::gen::{self, VOpts};
use crate::model::*;
use crate::refyaml;
use crate::ty::{self, show_ty, show_val, veq, Seed, Ty, Val, T_ALL, TV};
use crate::writer::{self, W_ALL};
use crate::{ensure, fail};
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use serde_yaml::{Deserializer, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            level: "exploration",
            rule: "A case is a text (written, mutated or arbitrary bytes, some longer than the parser's buffers) with a target type, read from a str, a slice and readers with random chunk sizes and interruptions, whole or document by document, or from a reader that fails after some bytes; non-trivial = the text has at least three bytes and the reader delivered it in at least two pieces or failed.",
            assumptions: &[],
            subs: vec![
                Sub { name: "sources", quick: 1_000_000, thorough: 25_000_000, f: c08_sources },
                Sub { name: "faults", quick: 700_000, thorough: 17_500_000, f: c08_faults },
                Sub { name: "trace", quick: 300_000, thorough: 7_500_000, f: c08_trace },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c08 },
            ],
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "A case is a stream of zero to six written documents (some unfit for the type, with undefined aliases, or broken), or of up to 1500 short ones, or an arbitrary text, iterated lazily, collected first, or asked for as one value, compared with each document alone and with an independent reading; non-trivial = at least two documents.",
            assumptions: &["unsafe-libyaml's event stream defines where documents begin and end."],
            subs: vec![
                Sub { name: "streams", quick: 500_000, thorough: 12_500_000, f: c09_streams },
                Sub { name: "typed", quick: 400_000, thorough: 10_000_000, f: c09_typed },
                Sub { name: "arbitrary", quick: 700_000, thorough: 17_500_000, f: c09_arbitrary },
                Sub { name: "many", quick: 8_000, thorough: 250_000, f: c09_many },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c09 },
            ],
        },
        Prop {
            id: "C10",
            level: "exploration",
            rule: "A case is a history of up to eight values (random schemas or Values; now and then hundreds of small ones) serialized through one Serializer, with flushes between, over several kinds of writer, ending in into_inner or drop; non-trivial = at least two documents.",
            assumptions: &[],
            subs: vec![
                Sub { name: "history", quick: 900_000, thorough: 22_500_000, f: c10_history },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c10 },
            ],
        },
        Prop {
            id: "C11",
            level: "fault_enumeration",
            rule: "A case is a value (or a few documents) and a writer that takes bytes in pieces of random sizes, is interrupted, and fails in a random way at random byte counts (every count, for outputs up to 48 bytes); non-trivial = a fault fired after at least one byte or a short write happened.",
            assumptions: &[],
            subs: vec![
                Sub { name: "single", quick: 500_000, thorough: 12_500_000, f: c11_single },
                Sub { name: "history", quick: 400_000, thorough: 10_000_000, f: c11_history },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c11 },
            ],
        },
    ]
}

// ---------------------------------------------------------------- readers

/// Serves bytes in pieces; may be interrupted between them, and may fail.
struct Chunked<'a> {
    data: &'a [u8],
    at: usize,
    sizes: Vec<usize>,
    interrupts: Vec<bool>,
    n: usize,
    fail_at: Option<(usize, io::ErrorKind)>,
    fired: Rc<Cell<bool>>,
    pieces: Rc<Cell<usize>>,
    sticky: bool,
}
impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let i = self.n;
        self.n += 1;
        if !self.interrupts.is_empty() && self.interrupts[i % self.interrupts.len()] {
            let k = i % self.interrupts.len();
            self.interrupts[k] = false;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        let mut left = self.data.len() - self.at;
        if let Some((f, kind)) = self.fail_at {
            if self.at >= f && (self.sticky || !self.fired.get()) {
                self.fired.set(true);
                return Err(io::Error::new(kind, Attic("the disk is on fire")));
            }
            if !self.fired.get() {
                left = f - self.at;
            }
        }
        let want = if self.sizes.is_empty() { left } else { self.sizes[i % self.sizes.len()] };
        let k = want.min(left).min(buf.len());
        buf[..k].copy_from_slice(&self.data[self.at..self.at + k]);
        self.at += k;
        self.pieces.set(self.pieces.get() + 1);
        Ok(k)
    }
}
fn reader<'a>(s: &mut Source, data: &'a [u8]) -> Chunked<'a> {
    let mut sizes = Vec::new();
    let n = s.below(4);
    for _ in 0..n {
        sizes.push(match s.below(4) {
            0 => 1,
            1 => 1 + s.below(8),
            2 => 1 + s.below(64),
            _ => 1 + s.below(9000),
        });
    }
    // A text of tens of kilobytes in one-byte pieces is slow and adds nothing.
    if data.len() > 4000 && sizes.iter().all(|x| *x < 500) {
        sizes = vec![1000];
    }
    let m = s.below(4);
    let interrupts = (0..m).map(|_| s.chance(1, 2)).collect();
    Chunked {
        data,
        at: 0,
        sizes,
        interrupts,
        n: 0,
        fail_at: None,
        fired: Rc::new(Cell::new(false)),
        pieces: Rc::new(Cell::new(0)),
        sticky: true,
    }
}

/// Make a text longer than the buffers of the parser.
fn enlarge(s: &mut Source, b: Vec<u8>) -> Vec<u8> {
    let mut out = Vec::new();
    match s.below(3) {
        0 => {
            // many copies as documents
            let n = 1 + 20_000 / (b.len() + 5);
            for _ in 0..n.min(200) {
                out.extend_from_slice(b"---\n");
                out.extend_from_slice(&b);
                if b.last() != Some(&b'\n') {
                    out.push(b'\n');
                }
            }
        }
        1 => {
            let n = 16_300 + s.below(300);
            out.push(b'#');
            for i in 0..n {
                out.push(if i % 70 == 69 { b'\n' } else { b'#' });
            }
            if out.last() != Some(&b'\n') {
                out.push(b'\n');
            }
            out.extend_from_slice(&b);
        }
        _ => {
            let n = 8_000 + s.below(20_000);
            out.extend_from_slice(b"- ");
            out.extend((0..n).map(|i| b'a' + (i % 7) as u8));
            out.extend_from_slice("é☃".as_bytes());
            out.push(b'\n');
            out.extend_from_slice(&b);
        }
    }
    out
}

/// Give the text a last byte, and often a length, that a reader of blocks might
/// treat in a special way.
fn sized(s: &mut Source, b: Vec<u8>) -> Vec<u8> {
    let end: &[u8] = *s.pick(&[b"\0" as &[u8], b"\0\0", b"\n\0", b"\n", b"\r", b"\r\n", b" ", b"\x1a", b"\x04", b"\xff", b"\xe2\x98", b"\xef\xbb\xbf", b"\n...", b"\n---", b"\n...\n\0", b"\xc2\x85", b"x"]);
    let target = (1usize << s.range(3, 13)) + s.below(3) - 1;
    let mut out = Vec::new();
    if let Some(missing) = target.checked_sub(b.len() + end.len()) {
        if missing >= 2 && s.chance(4, 5) {
            let fill = *s.pick(b"#xx \t");
            if s.bool() && fill != b'\t' {
                out.push(if fill == b'x' { b'#' } else { fill });
                out.resize(missing - 1, fill);
                out.push(b'\n');
                out.extend_from_slice(&b);
            } else {
                out.extend_from_slice(&b);
                out.push(if fill == b'#' { b'\n' } else { fill });
                out.resize(b.len() + missing, fill);
            }
            out.extend_from_slice(end);
            return out;
        }
    }
    out.extend_from_slice(&b);
    out.extend_from_slice(end);
    out
}

type Out<T> = Result<T, (String, Option<(usize, usize, usize)>)>;
fn out<T>(r: Result<T, serde_yaml::Error>) -> Out<T> {
    r.map_err(|e| (format!("{e} / {e:?}"), e.location().map(|l| (l.index(), l.line(), l.column()))))
}
fn agree<T>(a: &Out<T>, b: &Out<T>, eq: impl Fn(&T, &T) -> bool) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => eq(x, y),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

/// A text to read, with a type it may fit.
fn typed_input(s: &mut Source) -> (Vec<u8>, Ty) {
    let t = ty::gen_ty(s, &T_ALL, 1 + (s.size / 30) as usize);
    if s.chance(1, 2) {
        let v = ty::gen_val(s, &t);
        let text = serde_yaml::to_string(&TV(&t, &v)).unwrap_or_default();
        let mut b = text.into_bytes();
        if s.chance(1, 3) && !b.is_empty() {
            let i = s.below(b.len());
            b[i] = *s.pick(&[b'\n', b'!', b'*', b'1', b'-', b'[', b'"', 0xff, 0]);
        }
        (b, t)
    } else {
        (fuzz::bytes(s), t)
    }
}

fn many(ty: &Ty, de: Deserializer, max: usize) -> Vec<Out<Val>> {
    de.take(max).map(|d| out(Seed(ty).deserialize(d))).collect()
}

fn c08_sources(s: &mut Source, c: &mut Ctx) -> PResult {
    let (mut b, t) = if s.bool() { typed_input(s) } else { (fuzz::bytes(s), Ty::Any) };
    if s.chance(1, 60) {
        b = enlarge(s, b);
        c.label("large");
    } else if s.chance(1, 12) {
        b = sized(s, b);
        c.label("sized");
        c.label_if(b.len() % 512 == 0, "whole-blocks");
    }
    c.input(&format!("{:?} as {}", String::from_utf8_lossy(&b), show_ty(&t)));
    let slice = out(ty::from_slice(&t, &b));
    c.label(if slice.is_ok() { "ok" } else { "error" });
    if let Ok(text) = std::str::from_utf8(&b) {
        let a = out(ty::from_str(&t, text));
        ensure!(c, agree(&a, &slice, veq), "str-vs-slice", "from_str {a:?}\nfrom_slice {slice:?}");
        if s.chance(1, 4) {
            let a = out(serde_yaml::from_str::<Value>(text).map(|v| MV::of(&v)));
            let d = out(serde_yaml::from_slice::<Value>(&b).map(|v| MV::of(&v)));
            ensure!(c, agree(&a, &d, same), "str-vs-slice-value", "from_str {a:?}\nfrom_slice {d:?}");
        }
    }
    let r = reader(s, &b);
    let pieces = r.pieces.clone();
    let rd = if s.bool() {
        out(Seed(&t).deserialize(Deserializer::from_reader(r)))
    } else if matches!(t, Ty::Any) {
        out(serde_yaml::from_reader::<_, Value>(r).map(|v| Val::Any(MV::of(&v))))
    } else {
        let mut r = r;
        out(Seed(&t).deserialize(Deserializer::from_reader(&mut r)))
    };
    c.nt_if(b.len() >= 3 && pieces.get() >= 2);
    ensure!(c, agree(&rd, &slice, veq), "reader-vs-slice", "from_reader {rd:?}\nfrom_slice {slice:?}");
    if s.chance(1, 2) {
        let a = many(&t, Deserializer::from_slice(&b), 6);
        let d = many(&t, Deserializer::from_reader(reader(s, &b)), 6);
        ensure!(c, a.len() == d.len() && a.iter().zip(&d).all(|(x, y)| agree(x, y, veq)), "iterate-reader-vs-slice", "documents from the reader {d:?}\nfrom the slice {a:?}");
        c.label_if(a.len() > 1, "several-documents");
        if let Ok(text) = std::str::from_utf8(&b) {
            let e = many(&t, Deserializer::from_str(text), 6);
            ensure!(c, a.len() == e.len() && a.iter().zip(&e).all(|(x, y)| agree(x, y, veq)), "iterate-str-vs-slice", "documents from the str {e:?}\nfrom the slice {a:?}");
        }
    }
    Ok(())
}

/// The same requests, whatever they are, get the same answers from all.
fn c08_trace(s: &mut Source, c: &mut Ctx) -> PResult {
    let b = if s.bool() { typed_input(s).0 } else { fuzz::bytes(s) };
    c.input(&format!("{:?}", String::from_utf8_lossy(&b)));
    let script = Script::draw(s);
    let show = |r: Result<(), serde_yaml::Error>| r.map_err(|e| (e.to_string(), e.location().map(|l| (l.index(), l.line(), l.column()))));
    let (a, p) = script.run(Deserializer::from_slice(&b));
    let p = show(p);
    c.label(if p.is_ok() { "trace-ok" } else { "trace-error" });
    if let Ok(text) = std::str::from_utf8(&b) {
        let (d, q) = script.run(Deserializer::from_str(text));
        let q = show(q);
        ensure!(c, a == d && p == q, "trace-str-vs-slice", "from_str {q:?} after {d}\nfrom_slice {p:?} after {a}");
    }
    let r = reader(s, &b);
    let pieces = r.pieces.clone();
    let (d, q) = script.run(Deserializer::from_reader(r));
    let q = show(q);
    c.nt_if(b.len() >= 3 && pieces.get() >= 2);
    ensure!(c, a == d && p == q, "trace-reader-vs-slice", "from_reader {q:?} after {d}\nfrom_slice {p:?} after {a}");
    // Document by document.
    let mut all = Vec::new();
    for d in Deserializer::from_slice(&b).take(4) {
        let (a, p) = script.run(d);
        all.push((a, show(p)));
    }
    let mut got = Vec::new();
    for d in Deserializer::from_reader(reader(s, &b)).take(4) {
        let (a, p) = script.run(d);
        got.push((a, show(p)));
    }
    ensure!(c, all == got, "trace-documents", "from_reader {got:?}\nfrom_slice {all:?}");
    Ok(())
}

fn c08_faults(s: &mut Source, c: &mut Ctx) -> PResult {
    let (mut b, t) = if s.bool() { typed_input(s) } else { (fuzz::bytes(s), Ty::Any) };
    if s.chance(1, 80) {
        b = enlarge(s, b);
        c.label("large");
    }
    let at = match s.below(4) {
        0 => b.len(),
        1 => 0,
        _ => s.below(b.len() + 1),
    };
    let kind = *s.pick(&[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::ConnectionReset, io::ErrorKind::InvalidData, io::ErrorKind::TimedOut, io::ErrorKind::PermissionDenied, io::ErrorKind::BrokenPipe]);
    let mut r = reader(s, &b);
    r.fail_at = Some((at, kind));
    r.sticky = s.bool();
    c.input(&format!("{:?} failing with {kind:?} at {at} as {}", String::from_utf8_lossy(&b), show_ty(&t)));
    c.nt_if(at > 0 && b.len() >= 3);
    let fired = r.fired.clone();
    let how = s.below(4);
    let mut cause = true;
    let first = match how {
        0 => {
            let x = Seed(&t).deserialize(Deserializer::from_reader(r));
            cause = x.as_ref().err().is_none_or(told_cause);
            out(x)
        }
        1 => {
            let x = serde_yaml::from_reader::<_, Value>(r);
            cause = x.as_ref().err().is_none_or(told_cause);
            out(x.map(|v| Val::Any(MV::of(&v))))
        }
        2 => {
            // Each item of the stream is the same failure.
            let mut d = Deserializer::from_reader(r);
            let x = match d.next() {
                Some(x) => Value::deserialize(x),
                None => fail!("read-failure-hidden", "the iterator is empty although the reader failed"),
            };
            cause = x.as_ref().err().is_none_or(told_cause);
            out(x.map(|v| Val::Any(MV::of(&v))))
        }
        _ => {
            let mut items = many(&t, Deserializer::from_reader(r), 2).into_iter();
            match items.next() {
                Some(x) => {
                    // Whatever follows, no data follows a failed read.
                    for y in items {
                        ensure!(c, y.is_err(), "data-after-read-failure", "{y:?}");
                    }
                    x
                }
                None => fail!("read-failure-hidden", "the iterator is empty although the reader failed"),
            }
        }
    };
    ensure!(c, fired.get(), "reader-not-exhausted", "the reader was not read to its failure at {at}: {first:?}");
    match first {
        Err((m, l)) => {
            ensure!(c, m.contains("the disk is on fire"), "read-failure-message", "the error does not tell the reader's: {m}");
            ensure!(c, cause, "read-failure-cause", "the cause of the reader's error cannot be found from {m}");
            ensure!(c, l.is_none(), "read-failure-location", "an input/output error has location {l:?}");
        }
        Ok(v) => fail!("read-failure-ignored", "the reader failed at {at} and yet the result is {}", show_val(&v)),
    }
    Ok(())
}

// ---------------------------------------------------------------- documents

enum Expect {
    Value(MV),
    /// Fails, and nothing is promised about the documents after it.
    Broken,
}

fn iterate<'a>(s: &mut Source, text: &'a str) -> Deserializer<'a> {
    match s.below(3) {
        0 => Deserializer::from_str(text),
        1 => Deserializer::from_slice(text.as_bytes()),
        _ => Deserializer::from_reader(text.as_bytes()),
    }
}

/// Streams of hundreds of documents.
fn c09_many(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = match s.below(3) {
        0 => *s.pick(&[127, 128, 129, 255, 256, 257, 511, 512, 513, 1024]),
        1 => 1 + s.below(300),
        _ => 1 + s.below(1500),
    };
    let kinds: Vec<usize> = (0..1 + s.below(3)).map(|_| s.below(9)).collect();
    let mut text = String::new();
    let mut want: Vec<MV> = Vec::new();
    for i in 0..n {
        let kind = *s.pick(&kinds);
        let (body, v) = match kind {
            0 => (format!("--- {i}\n"), MV::Int(i as i128)),
            1 => (format!("---\nk: {i}\n"), MV::Map(vec![(MV::str("k"), MV::Int(i as i128))])),
            2 => ("---\n".to_owned(), MV::Null),
            3 => (format!("--- &a {i}\n"), MV::Int(i as i128)),
            4 => (format!("--- [&a {i}, *a ]\n"), MV::Seq(vec![MV::Int(i as i128), MV::Int(i as i128)])),
            5 => (format!("--- |\n text {i}\n"), MV::Str(format!("text {i}\n"))),
            6 => (format!("--- !t\n- {i}\n...\n"), MV::Tag("t".into(), Box::new(MV::Seq(vec![MV::Int(i as i128)])))),
            // Only the first document may go without its marker.
            7 if i == 0 => (format!("{{k: {i}}}\n...\n"), MV::Map(vec![(MV::str("k"), MV::Int(i as i128))])),
            7 => (format!("--- {{k: {i}}}\n...\n"), MV::Map(vec![(MV::str("k"), MV::Int(i as i128))])),
            _ => ("--- # nothing\n...\n".to_owned(), MV::Null),
        };
        text.push_str(&body);
        want.push(v);
    }
    let misfit = if s.bool() { Some(s.below(n)) } else { None };
    c.input(&format!("{n} documents of kinds {kinds:?}: {:?}", clip200(&text)));
    c.nt_if(n > 8);
    let mut k = 0;
    for d in iterate(s, &text).take(n + 2) {
        if k >= n {
            fail!("document-extra", "{n} documents are read as more");
        }
        if misfit == Some(k) {
            let r = <std::collections::BTreeMap<u8, u8>>::deserialize(d);
            // An empty document is an empty mapping.
            ensure!(c, r.is_err() || matches!(want[k], MV::Null), "misfit-accepted", "document {k} is {} and is read as {r:?}", show(&want[k]));
        } else {
            match Value::deserialize(d) {
                Ok(v) => ensure!(c, same(&MV::of(&v), &want[k]), "document-differs", "document {k} of {n} is {} instead of {}", show(&MV::of(&v)), show(&want[k])),
                Err(e) => fail!("document-error", "document {k} of {n}: {e}"),
            }
        }
        k += 1;
    }
    ensure!(c, k == n, "document-missing", "{k} of {n} documents");
    let one = serde_yaml::from_str::<Value>(&text);
    ensure!(c, one.is_ok() == (n == 1), "single-of-many", "{n} documents as one: {one:?}");
    Ok(())
}

fn c09_streams(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = s.weighted(&[1, 3, 5, 4, 2, 1, 1]);
    let o = VOpts { max_depth: 1 + (s.size / 25) as usize, max_len: 5, ..VOpts::full(s) };
    let mut docs: Vec<(String, Expect)> = Vec::new();
    let mut w = W_ALL;
    w.breaks = false;
    let broken_at = if s.chance(1, 4) { Some(s.below(n + 1)) } else { None };
    for i in 0..n {
        if broken_at == Some(i) {
            let t = s.pick(&["--- [a, b\n", "--- - }\n", "---\n- *zz\n", "---\na: *b\n", "--- *x\n", "--- \"abc\n", "---\n- a\nb\n", "---\n? [*a\n", "--- @\n", "---\n\ta: b\n- c\n"]);
            docs.push((t.to_string(), Expect::Broken));
            continue;
        }
        let mut v = gen::value(s, &o);
        writer::share(s, &mut v);
        docs.push((writer::doc(s, &v, w, i == 0, i + 1 == n), Expect::Value(v)));
    }
    let mut text: String = docs.iter().map(|d| d.0.as_str()).collect();
    if n == 0 {
        text = s.pick(&["", "\n", "# c\n", " \n\n", "\u{feff}", "# a\n\n# b", "   "]).to_string();
        docs.push((String::new(), Expect::Value(MV::Null)));
    }
    c.input(&format!("{text:?}"));
    // The writer is not a perfect judge of what libyaml accepts.
    let ref_docs = refyaml::documents(text.as_bytes());
    let good_docs = docs.iter().take_while(|d| matches!(d.1, Expect::Value(_))).count();
    let hit = ref_docs.len() >= docs.len().min(good_docs + 1)
        && docs[..good_docs].iter().zip(&ref_docs).all(|((_, e), r)| match e {
            Expect::Value(v) => refyaml::doc_value(r).is_ok_and(|x| same(&x, v)),
            Expect::Broken => true,
        });
    if !hit {
        c.label("writer-miss");
        c.discard = true;
        return Ok(());
    }
    c.nt_if(n >= 2);
    c.label_if(broken_at.is_some_and(|b| b < n), "broken");
    let collected = s.chance(1, 3);
    let skip = if s.chance(1, 4) { Some(s.below(n + 1)) } else { None };
    let mut it = iterate(s, &text);
    let mut items: Vec<Result<MV, String>> = Vec::new();
    let want = docs.len();
    let get = |d: Deserializer| Value::deserialize(d).map(|v| MV::of(&v)).map_err(|e| e.to_string());
    if collected {
        c.label("collected");
        let ds: Vec<Deserializer> = it.by_ref().take(want + 2).collect();
        let k = ds.len();
        // Deserialize the last first.
        let mut r: Vec<_> = ds.into_iter().rev().map(get).collect();
        r.reverse();
        items.extend(r);
        let _ = k;
    } else {
        for i in 0..want + 2 {
            match it.next() {
                Some(d) => {
                    if skip == Some(i) {
                        // dropped unread
                        drop(d);
                        items.push(Err("skipped".into()));
                    } else if s.chance(1, 8) {
                        // A document is no stream of other documents.
                        let mut d = d;
                        match d.next() {
                            Some(x) => items.push(get(x)),
                            None => items.push(get(d)),
                        }
                    } else {
                        items.push(get(d));
                    }
                }
                None => break,
            }
        }
    }
    let mut i = 0;
    for (text, e) in &docs {
        match e {
            Expect::Value(v) => {
                if items.len() <= i {
                    fail!("document-missing", "document {i} is not there: {items:?}");
                }
                if collected || skip != Some(i) {
                    match &items[i] {
                        Ok(g) => ensure!(c, same(g, v), "document-differs", "document {i} is {}\ninstead of {}", show(g), show(v)),
                        Err(m) => fail!("document-error", "document {i} fails: {m}\n{text}"),
                    }
                }
            }
            Expect::Broken => {
                if items.len() <= i {
                    fail!("broken-document-hidden", "document {i} is broken but the iteration just ends: {items:?}");
                }
                ensure!(c, items[i].is_err(), "broken-document-accepted", "document {i} {text:?} is read as {:?}", items[i]);
                for x in &items[i..] {
                    ensure!(c, x.is_err(), "data-after-broken-document", "after the broken document {i} comes {x:?}");
                }
                i = items.len();
                break;
            }
        }
        i += 1;
    }
    // One value from what is left of a stream.
    let mut rest = iterate(s, &text);
    let gone = s.range(1, n + 2);
    for _ in 0..gone {
        rest.next();
    }
    if let Ok(v) = get(rest) {
        let left = &docs[gone.min(docs.len())..];
        let ok = match left {
            [] => same(&v, &MV::Null),
            [(_, Expect::Value(w))] => same(&v, w),
            _ => false,
        };
        ensure!(c, ok, "rest-of-stream", "after {gone} of {} documents one value is read: {}", docs.len(), show(&v));
    } else {
        c.checked();
    }
    ensure!(c, items.len() == i, "extra-documents", "{} documents where {i} are written: {items:?}", items.len());
    // One value from the whole stream.
    let one = match s.below(3) {
        0 => serde_yaml::from_str::<Value>(&text),
        1 => serde_yaml::from_slice::<Value>(text.as_bytes()),
        _ => serde_yaml::from_reader::<_, Value>(text.as_bytes()),
    };
    let good = docs.len() == 1 && matches!(docs[0].1, Expect::Value(_));
    match (one, &docs[0].1) {
        (Ok(v), Expect::Value(w)) if good => ensure!(c, same(&MV::of(&v), w), "single-differs", "{v:?}"),
        (Ok(v), _) => fail!("several-documents-accepted", "one value from {} documents: {v:?}", docs.len()),
        (Err(e), _) => ensure!(c, !good, "single-error", "{e}"),
    }
    if n == 0 {
        c.label("empty-stream");
        ensure!(c, serde_yaml::from_str::<bool>(&text).is_err(), "empty-as-bool", "an empty stream is a bool");
        ensure!(c, serde_yaml::from_str::<i64>(&text).is_err(), "empty-as-int", "an empty stream is an integer");
        ensure!(c, serde_yaml::from_str::<f64>(&text).is_err(), "empty-as-float", "an empty stream is a float");
        ensure!(c, serde_yaml::from_str::<String>(&text).is_err(), "empty-as-string", "an empty stream is a string");
        ensure!(c, serde_yaml::from_str::<char>(&text).is_err(), "empty-as-char", "an empty stream is a char");
        ensure!(c, serde_yaml::from_str::<(i32, i32)>(&text).is_err(), "empty-as-pair", "an empty stream is a pair");
        ensure!(c, matches!(serde_yaml::from_str::<Option<i32>>(&text), Ok(None)), "empty-as-option", "an empty stream is not None");
        ensure!(c, serde_yaml::from_str::<()>(&text).is_ok(), "empty-as-unit", "an empty stream is not a unit");
        ensure!(c, serde_yaml::from_str::<Vec<i32>>(&text).is_ok_and(|v| v.is_empty()), "empty-as-vec", "an empty stream is not an empty list");
        ensure!(c, serde_yaml::from_str::<BTreeMap<i32, i32>>(&text).is_ok_and(|v| v.is_empty()), "empty-as-map", "an empty stream is not an empty map");
    }
    Ok(())
}

fn c09_typed(s: &mut Source, c: &mut Ctx) -> PResult {
    // Each document is read as a type; its outcome must be that of the
    // document alone.
    let n = 1 + s.weighted(&[1, 4, 4, 2, 1]);
    let t0 = ty::gen_ty(s, &T_ALL, 2);
    let mut w = W_ALL;
    w.breaks = false;
    let mut docs: Vec<(String, Ty)> = Vec::new();
    for i in 0..n {
        let t = if s.chance(1, 4) { ty::gen_ty(s, &T_ALL, 2) } else { t0.clone() };
        let text = match s.below(3) {
            0 => {
                let v = ty::gen_val(s, &t);
                let body = super::ystr(&TV(&t, &v))?;
                format!("---\n{body}")
            }
            1 => {
                let v = ty::gen_val(s, &t);
                let m = super::text::lower(&t, &v);
                if super::text::big(&m) {
                    "--- 1\n".to_string()
                } else {
                    writer::doc(s, &m, w, i == 0, i + 1 == n)
                }
            }
            _ => {
                let v = gen::value(s, &VOpts { max_depth: 2, max_len: 4, ..VOpts::full(s) });
                writer::doc(s, &v, w, i == 0, i + 1 == n)
            }
        };
        docs.push((text, t));
    }
    let text: String = docs.iter().map(|d| d.0.as_str()).collect();
    c.input(&format!("{text:?} as {:?}", docs.iter().map(|d| show_ty(&d.1)).collect::<Vec<_>>()));
    c.nt_if(n >= 2);
    // The writer is not a perfect judge of what libyaml accepts.
    let seen = refyaml::documents(text.as_bytes());
    if seen.len() != n || seen.iter().any(|d| d.bad.is_some()) {
        c.label("writer-miss");
        c.discard = true;
        return Ok(());
    }
    let alone: Vec<Out<Val>> = docs.iter().map(|(d, t)| out(ty::from_str(t, d))).collect();
    c.label_if(alone.iter().any(|a| a.is_err()), "some-fail");
    c.label_if(alone.iter().any(|a| a.is_err()) && alone.last().unwrap().is_ok(), "fail-then-ok");
    let mut it = iterate(s, &text);
    for (i, a) in alone.iter().enumerate() {
        let d = match it.next() {
            Some(d) => d,
            None => fail!("document-missing", "document {i} of {n} is missing"),
        };
        let g = out(Seed(&docs[i].1).deserialize(d));
        match (a, &g) {
            (Ok(x), Ok(y)) => ensure!(c, veq(x, y), "typed-document-differs", "document {i} is {} alone and {} in the stream", show_val(x), show_val(y)),
            (Err((x, _)), Err((y, _))) => {
                c.checked();
                // Messages differ in their line numbers only.
                let strip = |m: &str| m.chars().filter(|c| !c.is_ascii_digit()).collect::<String>().split(" at line").next().unwrap().to_string();
                if strip(x) != strip(y) && !x.contains("position") && !x.contains("line") {
                    fail!("typed-document-error-differs", "document {i} alone: {x}\nin the stream: {y}");
                }
            }
            _ => fail!("typed-document-outcome", "document {i} alone: {a:?}\nin the stream: {g:?}"),
        }
    }
    ensure!(c, it.next().is_none(), "extra-documents", "more than {n} documents");
    if n >= 2 {
        for (_, t) in docs.iter().take(2) {
            ensure!(c, ty::from_str(t, &text).is_err(), "several-documents-accepted", "one {} from {n} documents", show_ty(t));
        }
    }
    Ok(())
}

fn c09_arbitrary(s: &mut Source, c: &mut Ctx) -> PResult {
    let b = if s.chance(1, 3) {
        let k = 2 + s.below(3);
        let mut t = Vec::new();
        for _ in 0..k {
            t.extend_from_slice(&fuzz::bytes(s));
            t.extend_from_slice(s.pick(&["\n---\n", "\n...\n", "\n--- ", "\n...\n---\n", "\n"]).as_bytes());
        }
        t
    } else {
        fuzz::bytes(s)
    };
    c.input(&format!("{:?}", String::from_utf8_lossy(&b)));
    let docs = refyaml::documents(&b);
    c.nt_if(docs.len() >= 2);
    c.label(match docs.len() {
        1 => "1-document",
        2 => "2-documents",
        3 => "3-documents",
        _ => "4+-documents",
    });
    let mut it = Deserializer::from_slice(&b);
    let mut over = false;
    for (i, d) in docs.iter().enumerate() {
        let item = match it.next() {
            Some(x) => x,
            None => fail!("document-missing", "document {i} of {} is missing", docs.len()),
        };
        let got = Value::deserialize(item);
        let want = refyaml::doc_value(d);
        match (&got, &want) {
            (Ok(g), Ok(w)) => ensure!(c, same(&MV::of(g), w), "document-differs", "document {i} is {g:?}\ninstead of {}", show(w)),
            (Err(_), Err(_)) => c.checked(),
            (Ok(g), Err(e)) => fail!("bad-document-accepted", "document {i} ({e:?}) is read as {g:?}"),
            (Err(e), Ok(w)) => fail!("document-error", "document {i} should be {}: {e}", show(w)),
        }
        over = d.bad.is_some();
    }
    if over {
        for x in it.take(2) {
            let x = Value::deserialize(x);
            ensure!(c, x.is_err(), "data-after-broken-document", "{x:?}");
        }
    } else {
        ensure!(c, it.next().is_none(), "extra-documents", "more than {} documents", docs.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Default)]
struct Shared {
    data: Rc<RefCell<Vec<u8>>>,
    flushes: Rc<Cell<usize>>,
    drops: Rc<Cell<usize>>,
}
struct SharedW(Shared, u64);
impl Write for SharedW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.data.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flushes.set(self.0.flushes.get() + 1);
        Ok(())
    }
}
impl Drop for SharedW {
    fn drop(&mut self) {
        self.0.drops.set(self.0.drops.get() + 1);
    }
}

/// A value to serialize, typed or as a Value.
#[derive(Clone)]
pub enum Item {
    Typed(Ty, Val),
    Plain(MV, Value),
}
impl Serialize for Item {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Item::Typed(t, v) => TV(t, v).serialize(s),
            Item::Plain(_, v) => v.serialize(s),
        }
    }
}
pub fn item(s: &mut Source) -> Item {
    if s.bool() {
        let m = gen::value(s, &VOpts { max_depth: 3, max_len: 4, ..VOpts::full(s) });
        let v = m.to_value();
        Item::Plain(m, v)
    } else {
        let t = ty::gen_ty(s, &T_ALL, 2);
        let v = ty::gen_val(s, &t);
        Item::Typed(t, v)
    }
}
fn show_item(i: &Item) -> String {
    match i {
        Item::Typed(_, v) => show_val(v),
        Item::Plain(m, _) => show(m),
    }
}

/// Check one document of a stream text and return the rest.
fn take_doc<'a>(c: &mut Ctx, rest: &'a str, alone: &str, first: bool) -> Result<&'a str, Fail> {
    let body = if first {
        rest
    } else if let Some(r) = rest.strip_prefix("---\n").or_else(|| rest.strip_prefix("--- ")) {
        r
    } else {
        fail!("no-separator", "no document separator before {rest:?}");
    };
    c.checked();
    match body.strip_prefix(alone) {
        Some(r) => Ok(r),
        None => fail!("document-text-differs", "alone the document is\n{alone}\nin the stream comes\n{body}"),
    }
}

fn c10_history(s: &mut Source, c: &mut Ctx) -> PResult {
    let mut n = s.weighted(&[1, 2, 4, 4, 3, 2, 1, 1, 1]);
    let mut items: Vec<Item> = (0..n).map(|_| item(s)).collect();
    if s.chance(1, 1500) {
        // Many, of few kinds.
        let m = *s.pick(&[60, 127, 128, 129, 255, 256, 257, 600]);
        items.truncate(3);
        items.push(Item::Plain(MV::str("a\n"), Value::from("a\n")));
        let few = items.len();
        items = (0..m).map(|_| items[s.below(few)].clone()).collect();
        n = m;
        c.label("many");
    }
    // Values too deep to be read back are written all the same.
    let mut deep = None;
    if n > 0 && s.chance(1, 300) {
        let most = *s.pick(&[60, 500]);
        let d = 100 + s.below(most);
        let mut v = gen::value(s, &VOpts { max_depth: 1, max_len: 2, ..VOpts::full(s) });
        for _ in 0..d {
            v = if s.bool() { MV::Seq(vec![v]) } else { MV::Map(vec![(MV::str("k"), v)]) };
        }
        let at = s.below(n);
        let x = v.to_value();
        items[at] = Item::Plain(v, x);
        deep = Some(at);
        c.label("deep");
    }
    let mut alone = Vec::new();
    for i in &items {
        alone.push(super::ystr(i)?);
    }
    c.input(&format!("[{}]", items.iter().map(show_item).collect::<Vec<_>>().join("; ")));
    c.nt_if(n >= 2);
    let sh = Shared::default();
    let kind = s.below(4);
    let end = s.below(3);
    c.label(["plain-writer", "buffered", "boxed", "borrowed-vec"][kind]);
    let text = |d: &Shared| String::from_utf8_lossy(&d.data.borrow()).into_owned();
    let check_at = |c: &mut Ctx, t: &str, done: usize, at_end: bool| -> PResult {
        let mut rest = t;
        for (i, a) in alone[..done].iter().enumerate() {
            rest = take_doc(c, rest, a, i == 0)?;
        }
        // The end of the stream may be marked, as after open-ended scalars.
        if at_end && done > 0 && rest == "...\n" {
            rest = "";
        }
        ensure!(c, rest.is_empty(), "extra-text", "after {done} documents there is also {rest:?}");
        Ok(())
    };
    let check = |c: &mut Ctx, t: &str, done: usize| check_at(c, t, done, false);
    macro_rules! drive {
        ($ser:expr, $buffered:expr) => {{
            let ser = $ser;
            for (i, it) in items.iter().enumerate() {
                if let Err(e) = it.serialize(&mut *ser) {
                    fail!("serialize-error", "document {i}: {e}");
                }
                if !$buffered {
                    check(c, &text(&sh), i + 1)?;
                }
                if s.chance(1, 3) {
                    let before = sh.flushes.get();
                    if let Err(e) = ser.flush() {
                        fail!("flush-error", "{e}");
                    }
                    check(c, &text(&sh), i + 1)?;
                    ensure!(c, sh.flushes.get() > before, "flush-not-passed-on", "the writer's flush was not called");
                    c.label("flush");
                }
            }
        }};
    }
    match kind {
        0 => {
            let mut ser = serde_yaml::Serializer::new(SharedW(sh.clone(), 0x5eed));
            if s.chance(1, 4) && ser.flush().is_err() {
                fail!("flush-error", "before any document");
            }
            drive!(&mut ser, false);
            if end > 0 {
                match ser.into_inner() {
                    Ok(w) => {
                        ensure!(c, w.1 == 0x5eed && sh.drops.get() == 0, "into_inner", "the writer was dropped or is not the same");
                        check_at(c, &text(&sh), n, true)?;
                        drop(w);
                    }
                    Err(e) => fail!("into_inner-error", "{e}"),
                }
            } else {
                drop(ser);
            }
            ensure!(c, sh.drops.get() == 1, "writer-drops", "the writer was dropped {} times", sh.drops.get());
        }
        1 => {
            let cap = *s.pick(&[8192, 1, 16]);
            let mut ser = serde_yaml::Serializer::new(io::BufWriter::with_capacity(cap, SharedW(sh.clone(), 1)));
            drive!(&mut ser, true);
            match end {
                0 => drop(ser),
                1 => match ser.into_inner() {
                    Ok(w) => {
                        if let Err(e) = w.into_inner() {
                            fail!("bufwriter", "{e}");
                        }
                    }
                    Err(e) => fail!("into_inner-error", "{e}"),
                },
                _ => {
                    if let Err(e) = ser.flush() {
                        fail!("flush-error", "{e}");
                    }
                    check(c, &text(&sh), n)?;
                }
            }
        }
        2 => {
            let w: Box<dyn Write> = Box::new(SharedW(sh.clone(), 2));
            let mut ser = serde_yaml::Serializer::new(w);
            drive!(&mut ser, false);
            if end > 0 {
                if let Err(e) = ser.into_inner() {
                    fail!("into_inner-error", "{e}");
                }
            }
        }
        _ => {
            let mut v = Vec::new();
            let mut ser = serde_yaml::Serializer::new(&mut v);
            for it in &items {
                if let Err(e) = it.serialize(&mut ser) {
                    fail!("serialize-error", "{e}");
                }
                if s.chance(1, 4) && ser.flush().is_err() {
                    fail!("flush-error", "flush to a Vec");
                }
            }
            if end > 0 {
                if let Err(e) = ser.into_inner() {
                    fail!("into_inner-error", "{e}");
                }
            } else {
                drop(ser);
            }
            sh.data.borrow_mut().extend_from_slice(&v);
        }
    }
    let t = text(&sh);
    check_at(c, &t, n, true)?;
    // And it reads back as what was written.
    let mut it = Deserializer::from_str(&t);
    for (i, x) in items.iter().enumerate() {
        let d = match it.next() {
            Some(d) => d,
            None => fail!("stream-document-missing", "document {i} is missing from\n{t}"),
        };
        match x {
            Item::Typed(ty, v) => match Seed(ty).deserialize(d) {
                Ok(g) => ensure!(c, veq(&g, v), "stream-document-differs", "document {i} is read back as {}\n{t}", show_val(&g)),
                Err(e) => fail!("stream-document-error", "document {i}: {e}\n{t}"),
            },
            Item::Plain(m, _) if deep == Some(i) => {
                let refs = refyaml::documents(t.as_bytes());
                ensure!(c, refs.len() == n && refyaml::deep_value(&refs[i]).is_ok_and(|x| same(&x, m)), "stream-deep-document", "document {i} of\n{t}");
            }
            Item::Plain(m, _) => match Value::deserialize(d) {
                Ok(g) => ensure!(c, same(&MV::of(&g), m), "stream-document-differs", "document {i} is read back as {g:?}\n{t}"),
                Err(e) => fail!("stream-document-error", "document {i}: {e}\n{t}"),
            },
        }
    }
    if n > 0 {
        ensure!(c, it.next().is_none(), "stream-extra-document", "{t}");
    } else {
        ensure!(c, t.is_empty(), "empty-stream-text", "{t:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Err(io::ErrorKind),
    Zero,
}

struct Faulty {
    got: Rc<RefCell<Vec<u8>>>,
    limit: usize,
    fault: Fault,
    sizes: Vec<usize>,
    interrupts: u64,
    n: usize,
    fired: Rc<Cell<bool>>,
    short: Rc<Cell<bool>>,
    /// keep failing after the first time
    sticky: bool,
    flush_fails: bool,
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let i = self.n;
        self.n += 1;
        if i < 64 && self.interrupts >> i & 1 == 1 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        if b.is_empty() {
            return Ok(0);
        }
        let mut got = self.got.borrow_mut();
        let mut left = usize::MAX;
        if self.sticky || !self.fired.get() {
            left = self.limit.saturating_sub(got.len());
            if left == 0 {
                self.fired.set(true);
                return match self.fault {
                    Fault::Err(k) => Err(io::Error::new(k, Attic("no space in the attic"))),
                    Fault::Zero => Ok(0),
                };
            }
        }
        let want = if self.sizes.is_empty() { b.len() } else { self.sizes[i % self.sizes.len()] };
        let k = want.min(left).min(b.len());
        if k < b.len() {
            self.short.set(true);
        }
        got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails {
            return Err(io::Error::new(io::ErrorKind::Other, "the pipes are clogged"));
        }
        Ok(())
    }
}

struct Probe {
    got: Rc<RefCell<Vec<u8>>>,
    fired: Rc<Cell<bool>>,
    short: Rc<Cell<bool>>,
}
fn faulty(s: &mut Source, limit: usize) -> (Faulty, Probe) {
    let fault = match s.below(4) {
        3 => Fault::Zero,
        _ => Fault::Err(*s.pick(&[io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero, io::ErrorKind::PermissionDenied, io::ErrorKind::OutOfMemory, io::ErrorKind::UnexpectedEof])),
    };
    let m = s.below(3);
    let sizes = (0..m).map(|_| 1 + s.below(12)).collect();
    let interrupts = if s.chance(1, 3) { s.u64() & s.u64() } else { 0 };
    let p = Probe {
        got: Rc::default(),
        fired: Rc::default(),
        short: Rc::default(),
    };
    let f = Faulty {
        got: p.got.clone(),
        limit,
        fault,
        sizes,
        interrupts,
        n: 0,
        fired: p.fired.clone(),
        short: p.short.clone(),
        sticky: s.bool(),
        flush_fails: false,
    };
    (f, p)
}

/// A caller's error with a cause of its own.
#[derive(Debug)]
struct Attic(&'static str);
impl std::fmt::Display for Attic {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Attic {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        match self.0 {
            "the beams are rotten" => None,
            _ => Some(&Attic("the beams are rotten")),
        }
    }
}
/// The cause of the caller's error can be found from the error reported.
fn told_cause(e: &serde_yaml::Error) -> bool {
    let mut at: Option<&dyn std::error::Error> = Some(e);
    while let Some(x) = at {
        if x.to_string() == "the beams are rotten" {
            return true;
        }
        at = x.source();
    }
    false
}

fn message_ok(f: Fault, e: &serde_yaml::Error) -> bool {
    match f {
        Fault::Err(_) => e.to_string() == "no space in the attic" && told_cause(e),
        Fault::Zero => !e.to_string().is_empty(),
    }
}

fn big_item(s: &mut Source) -> Item {
    // Output longer than the emitter's buffer.
    let n = 3_000 + s.below(40_000);
    let m = match s.below(3) {
        0 => MV::Str("xyz ".repeat(n / 4)),
        1 => MV::Seq((0..n / 40).map(|i| MV::Map(vec![(MV::str("key"), MV::Str(format!("some text {i}")))])).collect()),
        _ => MV::Map((0..n / 30).map(|i| (MV::Str(format!("k{i}")), MV::Str("a\nb\n".into()))).collect()),
    };
    let v = m.to_value();
    Item::Plain(m, v)
}

fn c11_single(s: &mut Source, c: &mut Ctx) -> PResult {
    let large = s.chance(1, 60);
    let it = if large { big_item(s) } else { item(s) };
    let whole = super::ystr(&it)?;
    let w = whole.as_bytes();
    let mut limits = if w.len() <= 48 {
        (0..=w.len() + 1).collect::<Vec<_>>()
    } else {
        let mut v = vec![0, 1, w.len() - 1, w.len(), w.len() + 5];
        for _ in 0..3 {
            v.push(s.below(w.len()));
        }
        v
    };
    if large {
        c.label("large");
        limits.extend([16_383, 16_384, 16_385, 32_768].into_iter().filter(|l| *l < w.len()));
    }
    c.input(&format!("{} -> {} bytes", clip200(&show_item(&it)), w.len()));
    for limit in limits {
        let (f, p) = faulty(s, limit);
        let fault = f.fault;
        let r = if s.bool() { serde_yaml::to_writer(f, &it) } else {
            let mut f = f;
            serde_yaml::to_writer(&mut f, &it)
        };
        let got = p.got.borrow();
        c.nt_if((p.fired.get() && !got.is_empty()) || p.short.get());
        c.label(if p.fired.get() { "fault-fired" } else { "no-fault" });
        ensure!(c, w.starts_with(&got), "not-a-prefix", "limit {limit}: the writer got {:?}\nthe text is {whole:?}", String::from_utf8_lossy(&got));
        match r {
            Ok(()) => ensure!(c, got.len() == w.len(), "success-with-missing-bytes", "limit {limit} {fault:?}: success but the writer got only {} of {} bytes", got.len(), w.len()),
            Err(e) => {
                ensure!(c, p.fired.get(), "error-without-fault", "limit {limit}: {e}");
                ensure!(c, message_ok(fault, &e), "writer-error-lost", "limit {limit} {fault:?}: the error is {e}");
                ensure!(c, e.location().is_none(), "writer-error-location", "a writer's error has a location");
            }
        }
    }
    Ok(())
}

fn clip200(t: &str) -> String {
    t.chars().take(200).collect()
}

fn c11_history(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = 1 + s.below(4);
    let items: Vec<Item> = (0..n).map(|_| if s.chance(1, 100) { big_item(s) } else { item(s) }).collect();
    let mut v = Vec::new();
    let mut whole = Vec::new();
    let mut ends = Vec::new();
    {
        let cell = Rc::new(RefCell::new(Vec::new()));
        struct To(Rc<RefCell<Vec<u8>>>);
        impl Write for To {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                self.0.borrow_mut().extend_from_slice(b);
                Ok(b.len())
            }
            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }
        let mut ser = serde_yaml::Serializer::new(To(cell.clone()));
        for it in &items {
            if let Err(e) = it.serialize(&mut ser) {
                fail!("serialize-error", "{e}");
            }
            ends.push(cell.borrow().len());
        }
        v.extend_from_slice(&cell.borrow());
        // Taking the writer back may end the stream with more bytes.
        if let Err(e) = ser.into_inner() {
            fail!("into_inner-error", "{e}");
        }
        whole.extend_from_slice(&cell.borrow());
    }
    ensure!(c, whole.starts_with(&v), "into_inner-rewrites", "{:?} becomes {:?}", String::from_utf8_lossy(&v), String::from_utf8_lossy(&whole));
    let limit = match s.below(5) {
        1 => v.len() + s.below(whole.len() - v.len() + 2),
        0 => {
            let k = *s.pick(&ends);
            (k + s.below(3)).saturating_sub(1)
        }
        _ => s.below(v.len() + 2),
    };
    let (mut f, p) = faulty(s, limit);
    f.flush_fails = s.chance(1, 4);
    let (fault, flush_fails) = (f.fault, f.flush_fails);
    c.input(&format!("[{}] limit {limit} of {} {fault:?} flush_fails {flush_fails}", items.iter().map(show_item).map(|t| clip200(&t)).collect::<Vec<_>>().join("; "), v.len()));
    let mut ser = serde_yaml::Serializer::new(f);
    let mut failed = false;
    let mut after = false;
    for (i, it) in items.iter().enumerate() {
        match it.serialize(&mut ser) {
            Ok(()) => {
                if !failed {
                    ensure!(c, p.got.borrow().len() == ends[i], "success-with-missing-bytes", "document {i}: success but the writer got {} of {} bytes", p.got.borrow().len(), ends[i]);
                }
            }
            Err(e) => {
                ensure!(c, p.fired.get() || failed, "error-without-fault", "document {i}: {e}");
                if !failed {
                    ensure!(c, message_ok(fault, &e), "writer-error-lost", "document {i}: {fault:?} becomes {e}");
                }
                failed = true;
                break;
            }
        }
        if s.chance(1, 3) {
            match ser.flush() {
                Ok(()) => ensure!(c, !flush_fails, "flush-error-lost", "the writer's flush failed"),
                Err(e) => {
                    ensure!(c, flush_fails, "flush-error-without-fault", "{e}");
                    ensure!(c, e.to_string() == "the pipes are clogged", "flush-error-lost", "the error is {e}");
                }
            }
        }
    }
    c.nt_if((p.fired.get() && !p.got.borrow().is_empty()) || p.short.get());
    c.label(if failed { "fault-fired" } else { "no-fault" });
    ensure!(c, p.fired.get() == failed, "fault-hidden", "the writer failed but every document reported success");
    if failed && p.fired.get() && s.chance(1, 3) {
        after = true;
    }
    let before = p.got.borrow().len();
    if after {
        // Nothing is promised about what this adds, but it must not crash.
        let _ = ser.into_inner();
        c.label("into_inner-after-fault");
    } else if !failed && s.bool() {
        c.label("into_inner");
        match ser.into_inner() {
            Ok(_) => {
                ensure!(c, !flush_fails, "flush-error-lost", "into_inner succeeds though the writer's flush fails");
                let got = p.got.borrow();
                ensure!(c, got[..] == whole[..], "success-with-missing-bytes", "into_inner succeeds but the writer got {} of {} bytes", got.len(), whole.len());
            }
            Err(e) if p.fired.get() => ensure!(c, message_ok(fault, &e), "writer-error-lost", "into_inner: {fault:?} becomes {e}"),
            Err(e) => ensure!(c, flush_fails && e.to_string() == "the pipes are clogged", "error-without-fault", "into_inner: {e}"),
        }
        let got = p.got.borrow();
        ensure!(c, whole.starts_with(&got), "not-a-prefix", "the writer got {:?}\nof {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&whole));
        return Ok(());
    } else {
        drop(ser);
        ensure!(c, p.got.borrow().len() == before, "drop-writes", "dropping the serializer wrote more");
    }
    let got = p.got.borrow();
    let got = if after { &got[..before] } else { &got[..] };
    ensure!(c, v.starts_with(got), "not-a-prefix", "the writer got {:?}\nof {:?}", String::from_utf8_lossy(got), String::from_utf8_lossy(&v));
    Ok(())
}
