//! Reading text as types: strictness, places of errors, borrowing, lost data,
//! ignored content and aliases.

use super::robust;
use super::trace::Script;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::near::{self, any_node, any_scalar, Near, Raw, Rn};
use crate::refty::{self, Stop};
use crate::refyaml::{self, Bad, Doc, Kind, Mark, Style};
use crate::ty::{self, show_ty, show_val, veq, Seed, TOpts, Ty, Val, Var, T_ALL};
use crate::{ensure, fail, fuzz};
use serde::de::DeserializeSeed;
use serde::Deserialize;
use serde_yaml::{Deserializer, Value};
use std::borrow::Cow;


pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            level: "exploration",
            rule: "A case is a document written for a random type with one or a few nodes that do not fit (or with a syntax error), with comments, multi-byte text and aliases around; non-trivial = reading fails at a node that is not the root.",
            assumptions: &["unsafe-libyaml's marks say where each node begins."],
            subs: vec![
                Sub { name: "types", quick: 1_500_000, thorough: 37_500_000, f: c19_types },
                Sub { name: "arbitrary", quick: 1_000_000, thorough: 25_000_000, f: c19_arbitrary },
                Sub { name: "values", quick: 200_000, thorough: 5_000_000, f: c19_values },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c19 },
            ],
        },
        Prop {
            id: "C20",
            level: "exploration",
            rule: "A case is a document of scalars in all styles, keys included, read as borrowed and as owned strings, from a str, a slice and a reader; non-trivial = at least one string was borrowed and at least one was not.",
            assumptions: &[],
            subs: vec![
                Sub { name: "borrow", quick: 1_600_000, thorough: 40_000_000, f: c20_borrow },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c20 },
            ],
        },
        Prop {
            id: "C21",
            level: "exploration",
            rule: "A case is a well-formed document for a random type to which exactly one surplus or missing element, entry, key or document is introduced; non-trivial = the intact document is accepted and its defective form was tried.",
            assumptions: &[],
            subs: vec![
                Sub { name: "typed", quick: 700_000, thorough: 17_500_000, f: c21_typed },
                Sub { name: "keys", quick: 500_000, thorough: 12_500_000, f: c21_keys },
                Sub { name: "early", quick: 400_000, thorough: 10_000_000, f: c21_early },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c21 },
            ],
        },
        Prop {
            id: "C22",
            level: "exploration",
            rule: "A case is a document for a random type with structs, and the same with entries of unknown names and arbitrary content added, up to nests of 700 levels, lists of 700 aliases and exponential alias trees; non-trivial = at least one entry was added and the document is accepted.",
            assumptions: &[],
            subs: vec![
                Sub { name: "extras", quick: 800_000, thorough: 20_000_000, f: c22_extras },
                Sub { name: "any", quick: 900_000, thorough: 22_500_000, f: c22_any },
                Sub { name: "bulk", quick: 6_000, thorough: 200_000, f: c22_bulk },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c22 },
            ],
        },
        Prop {
            id: "C23",
            level: "exploration",
            rule: "A case is a document with anchors, redefinitions and aliases on nodes of every kind (keys, values, items, tagged nodes), or with up to hundreds of anchors, read as a Value and as types, compared with the document in which each alias is replaced by a copy; non-trivial = at least one alias was resolved, or an undefined alias refused.",
            assumptions: &["unsafe-libyaml's event stream gives anchor and alias names."],
            subs: vec![
                Sub { name: "values", quick: 700_000, thorough: 17_500_000, f: c23_values },
                Sub { name: "many", quick: 8_000, thorough: 250_000, f: c23_many },
                Sub { name: "typed", quick: 800_000, thorough: 20_000_000, f: c23_typed },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c23 },
            ],
        },
        Prop {
            id: "C26",
            level: "exploration",
            rule: "A case is a scalar (any text, style and tag) or small collection in some position, read as each of a dozen types, or a document for a random type with a few misfits, compared with a reference reading; non-trivial = a scalar of at least one character or a document of at least three nodes with an expectation.",
            assumptions: &[],
            subs: vec![
                Sub { name: "scalars", quick: 1_500_000, thorough: 37_500_000, f: c26_scalars },
                Sub { name: "shapes", quick: 1_000_000, thorough: 25_000_000, f: c26_shapes },
            ],
        },
    ]
}

fn clipped(t: &str) -> String {
    t.chars().take(1500).collect()
}

fn at_node(c: &mut Ctx, e: &serde_yaml::Error, mark: Mark, path: &str, text: &str) -> PResult {
    let msg = e.to_string();
    let l = match e.location() {
        Some(l) => l,
        None => fail!("location-missing", "no location in {msg:?}; expected {mark:?} path {path:?}\n{text}"),
    };
    ensure!(
        c,
        (l.index(), l.line(), l.column()) == (mark.index, mark.line + 1, mark.column + 1),
        "location-wrong",
        "{msg:?} is located at index {} line {} column {}, but the node is at {mark:?}\n{text}",
        l.index(),
        l.line(),
        l.column()
    );
    ensure!(c, l.index() >= text.len() || robust::line_column(text, l.index()) == (l.line(), l.column()), "location-inconsistent", "index {} is line {:?}, not {} {}\n{text}", l.index(), robust::line_column(text, l.index()), l.line(), l.column());
    if !path.is_empty() {
        ensure!(c, msg.starts_with(&format!("{path}: ")), "path-wrong", "{msg:?} does not start with the path {path:?}\n{text}");
    }
    if mark.line != 0 || mark.column != 0 {
        let tail = format!(" at line {} column {}", mark.line + 1, mark.column + 1);
        ensure!(c, msg.ends_with(&tail), "message-location", "{msg:?} does not end with {tail:?}\n{text}");
    }
    Ok(())
}

/// The library against the reference, errors with their places.
fn compare(c: &mut Ctx, text: &str, t: &Ty, places: bool) -> Result<Option<bool>, Fail> {
    let docs = refyaml::documents(text.as_bytes());
    let want = refty::single(&docs, t);
    let got = ty::from_str(t, text);
    match (&want, got) {
        (Err(Stop::Unsure), _) => {
            c.label("unsure");
            Ok(None)
        }
        (Ok(w), Ok(g)) => {
            ensure!(c, veq(w, &g), "typed-reading", "{} read as\n{}\ninstead of\n{}\n{text}", show_ty(t), show_val(&g), show_val(w));
            Ok(Some(true))
        }
        (Ok(w), Err(e)) => fail!("typed-refused", "{} should be\n{}\nbut: {e}\n{text}", show_ty(t), show_val(w)),
        (Err(Stop::Err(e)), Ok(g)) => fail!("typed-accepted", "{} should be refused ({}), but is read as\n{}\n{text}", show_ty(t), e.kind, show_val(&g)),
        (Err(Stop::Err(w)), Err(e)) => {
            c.checked();
            if places && w.placed {
                if let Some((mark, path)) = &w.at {
                    at_node(c, &e, *mark, path, text).map_err(|f| match w.finding {
                        Some(sig) => Fail { sig: sig.to_string(), ..f },
                        None => f,
                    })?;
                    let m = e.to_string();
                    ensure!(c, m.contains(w.kind), "message-kind", "{m:?} is about an {:?}\n{text}", w.kind);
                    c.label("placed");
                    c.label_if(mark.index > 0, "placed-inside");
                    c.label_if(!path.is_empty(), "placed-path");
                    c.nt_if(mark.index > 0 && !path.is_empty());
                }
            }
            Ok(Some(false))
        }
    }
}

fn near_doc(s: &mut Source, t: &Ty, slop: u64, share: u64) -> (String, usize) {
    let mut n = Near::new(slop, share);
    let r = n.node(s, t);
    (near::document(s, &r), n.deviations)
}

// ---------------------------------------------------------------- C19

fn c19_types(s: &mut Source, c: &mut Ctx) -> PResult {
    let d = 1 + (s.size / 25) as usize;
    let t = if s.chance(1, 12) { ty::gen_ty(s, &T_ALL, d) } else { ty::composite(s, &T_ALL, d) };
    let share = *s.pick(&[0, 60, 200]);
    let slop = *s.pick(&[40, 100, 200]);
    let mut text = String::new();
    for _ in 0..4 {
        let (x, n) = near_doc(s, &t, slop, share);
        text = x;
        if n > 0 {
            break;
        }
    }
    c.input(&format!("{} from {text:?}", show_ty(&t)));
    match compare(c, &text, &t, true)? {
        Some(true) => c.label("accepted"),
        Some(false) => c.label("refused"),
        None => {}
    }
    Ok(())
}

fn c19_arbitrary(s: &mut Source, c: &mut Ctx) -> PResult {
    let text = fuzz::text(s);
    let t = if s.chance(1, 3) { ty::gen_ty(s, &T_ALL, 2) } else { Ty::Any };
    c.input(&format!("{} from {text:?}", show_ty(&t)));
    let docs = refyaml::documents(text.as_bytes());
    let got = ty::from_str(&t, &text);
    let e = match got {
        Ok(_) => {
            c.label("accepted");
            return Ok(());
        }
        Err(e) => e,
    };
    let msg = e.to_string();
    let dbg = format!("{e:?}");
    ensure!(c, !msg.is_empty() && !dbg.is_empty(), "empty-message", "an error without a message\n{text}");
    if let Some(l) = e.location() {
        ensure!(c, l.index() <= text.len() && l.line() >= 1 && l.column() >= 1, "location-outside", "index {} line {} column {} in {} bytes: {msg}\n{text}", l.index(), l.line(), l.column(), text.len());
    }
    if docs.len() == 1 {
        match &docs[0].bad {
            Some(bad) => {
                // Nothing can fail earlier when everything is ignored.
                let (m, what) = match bad {
                    Bad::Parse(p) => (p.mark, p.problem.as_str()),
                    Bad::UnknownAnchor(m) => (*m, "unknown anchor"),
                };
                c.label(if let Bad::Parse(_) = bad { "syntax" } else { "unknown-anchor" });
                c.nt_if(m.index > 0);
                let i = match ty::from_str(&Ty::Ignored, &text) {
                    Ok(_) => fail!("bad-document-ignored", "{bad:?} goes unnoticed when the document is ignored\n{text}"),
                    Err(i) => i,
                };
                if let Bad::Parse(p) = bad {
                    let at = |m: &refyaml::Mark| format!("line {} column {}", m.line + 1, m.column + 1);
                    let msg = i.to_string();
                    let first = (p.mark.line, p.mark.column) == (0, 0);
                    if !first {
                        ensure!(c, msg.contains(&at(&p.mark)), "syntax-error-text", "the parser reports {p:?}, the message is {msg:?}\n{text}");
                    } else if let Some(n) = p.offset.filter(|n| *n != 0) {
                        ensure!(c, msg.contains(&format!("position {n}")), "encoding-error-text", "the parser reports {p:?}, the message is {msg:?}\n{text}");
                    }
                    if let Some((what, m)) = &p.context {
                        ensure!(c, msg.contains(what.as_str()), "syntax-error-context", "the parser reports {p:?}, the message is {msg:?}\n{text}");
                        if (m.line, m.column) != (p.mark.line, p.mark.column) && (m.line, m.column) != (0, 0) {
                            c.label("context");
                            let tail = msg.rsplit(what.as_str()).next().unwrap_or("");
                            ensure!(c, tail.contains(&at(m)), "syntax-error-context-place", "the parser reports {p:?}, the message is {msg:?}\n{text}");
                        }
                    }
                }
                for (e, exact) in [(&i, true), (&e, false)] {
                    let there = e.location().is_some_and(|l| (l.index(), l.line(), l.column()) == (m.index, m.line + 1, m.column + 1));
                    let early = !exact && e.location().is_some_and(|l| l.index() <= m.index);
                    let silent = !exact && e.location().is_none();
                    ensure!(c, there || early || silent, "syntax-error-place", "the parser reports {bad:?}, the error is {:?} at {:?}\n{text}", e.to_string(), e.location());
                    ensure!(c, !exact || e.to_string().contains(what), "syntax-error-problem", "the parser reports {bad:?}, the error is {:?}\n{text}", e.to_string());
                }
            }
            None => {
                compare(c, &text, &t, true)?;
            }
        }
    }
    Ok(())
}

fn c19_values(s: &mut Source, c: &mut Ctx) -> PResult {
    // Without any text there is no place.
    let t = ty::gen_ty(s, &T_ALL, 2);
    let o = gen::VOpts { max_depth: 2, max_len: 4, ..gen::VOpts::full(s) };
    let v = if s.bool() {
        gen::value(s, &o)
    } else {
        let (text, _) = near_doc(s, &t, 100, 0);
        match refyaml::single(&refyaml::documents(text.as_bytes())) {
            Ok(v) => v,
            Err(_) => {
                c.discard = true;
                return Ok(());
            }
        }
    };
    if super::text::big(&v) {
        c.discard = true;
        return Ok(());
    }
    c.input(&format!("{} from {}", show_ty(&t), show(&v)));
    let v = v.to_value();
    for r in [ty::from_value(&t, v.clone()), ty::from_value_ref(&t, &v)] {
        if let Err(e) = r {
            c.nt();
            ensure!(c, e.location().is_none(), "location-without-text", "{e:?} has location {:?}", e.location());
            ensure!(c, !e.to_string().is_empty() && !format!("{e:?}").is_empty(), "empty-message", "no message");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

/// A string read by borrowing, or owned when that is impossible.
#[derive(Debug)]
enum Str<'a> {
    Borrowed(&'a str),
    Owned(String),
    Not,
}
impl<'de> Deserialize<'de> for Str<'de> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Str<'de>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a string")
            }
            fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Str<'de>, E> {
                Ok(Str::Borrowed(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<Str<'de>, E> {
                Ok(Str::Owned(v.to_string()))
            }
        }
        d.deserialize_str(V)
    }
}

/// As the type of any node: `deserialize_any`, with strings kept.
#[derive(Debug)]
struct AnyStr<'a>(Str<'a>);
impl<'de> Deserialize<'de> for AnyStr<'de> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = AnyStr<'de>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_borrowed_str<E>(self, v: &'de str) -> Result<AnyStr<'de>, E> {
                Ok(AnyStr(Str::Borrowed(v)))
            }
            fn visit_str<E>(self, v: &str) -> Result<AnyStr<'de>, E> {
                Ok(AnyStr(Str::Owned(v.to_string())))
            }
            fn visit_bool<E>(self, _: bool) -> Result<AnyStr<'de>, E> {
                Ok(AnyStr(Str::Not))
            }
            fn visit_u64<E>(self, _: u64) -> Result<AnyStr<'de>, E> {
                Ok(AnyStr(Str::Not))
            }
            fn visit_i64<E>(self, _: i64) -> Result<AnyStr<'de>, E> {
                Ok(AnyStr(Str::Not))
            }
            fn visit_u128<E>(self, _: u128) -> Result<AnyStr<'de>, E> {
                Ok(AnyStr(Str::Not))
            }
            fn visit_i128<E>(self, _: i128) -> Result<AnyStr<'de>, E> {
                Ok(AnyStr(Str::Not))
            }
            fn visit_f64<E>(self, _: f64) -> Result<AnyStr<'de>, E> {
                Ok(AnyStr(Str::Not))
            }
            fn visit_unit<E>(self) -> Result<AnyStr<'de>, E> {
                Ok(AnyStr(Str::Not))
            }
            fn visit_none<E>(self) -> Result<AnyStr<'de>, E> {
                Ok(AnyStr(Str::Not))
            }
        }
        d.deserialize_any(V)
    }
}

fn inside(text: &[u8], part: &str) -> bool {
    let (a, b) = (text.as_ptr() as usize, part.as_ptr() as usize);
    b >= a && b + part.len() <= a + text.len()
}

/// A simple one-line scalar in its source: what its text is.
fn simple_source(src: &str) -> Option<&str> {
    if let Some(r) = src.strip_prefix('\'').and_then(|r| r.strip_suffix('\'')) {
        if r.chars().all(|c| c == ' ' || (c.is_alphanumeric() || ".:-_/#,[]{}\"".contains(c))) {
            return Some(r);
        }
        return None;
    }
    if let Some(r) = src.strip_prefix('"').and_then(|r| r.strip_suffix('"')) {
        if r.chars().all(|c| c == ' ' || (c.is_alphanumeric() || ".:-_/#,[]{}'".contains(c))) {
            return Some(r);
        }
        return None;
    }
    if !src.is_empty() && src.chars().all(|c| c.is_alphanumeric() || "._/".contains(c)) {
        return Some(src);
    }
    None
}

fn c20_borrow(s: &mut Source, c: &mut Ctx) -> PResult {
    // A flat document of scalars, or one scalar.
    let shape = s.below(4);
    let mut n = Vec::new();
    while s.more(n.len(), 4, 8) {
        // Keys on several lines are refused where the key has no question mark.
        let multi = if shape >= 2 && n.len() % 2 == 0 { s.chance(1, 60) } else { s.chance(1, 4) };
        let mut r = if multi {
            // multi-line flow scalars
            let a = gen::word(s);
            let b = gen::word(s);
            // Outside of block collections no indentation is needed, so that
            // the folded text is as long as its source.
            let gap = if s.chance(if shape == 0 { 3 } else { 1 }, 5) { "" } else { "     " };
            let brk = *s.pick(&["\n", "\n", "\n", "\n", "\n\n", " \n", "\r", "\t\n"]);
            near::atom(&match s.below(5) {
                0 => format!("'{a}{brk}{gap}{b}'"),
                1 => format!("\"{a}{brk}{gap}{b}\""),
                2 => format!("\"{a}\\\n{gap}{b}\""),
                3 => format!("'{a}{brk}{gap}'"),
                _ => format!("{a}{brk}{gap}{b}"),
            })
        } else {
            let t = gen::string(s);
            near::styled(s, &t)
        };
        match s.weighted(&[16, 2, 3, 1, 1, 1]) {
            1 => r.props = "!!str ".into(),
            2 => r.props = format!("&k{} ", n.len()),
            3 => r.props = format!("!{} ", gen::word(s)),
            4 => r.props = format!("&k{} !!str ", n.len()),
            5 => r.props = "!<tag:yaml.org,2002:str> ".into(),
            _ => {}
        }
        n.push(r);
        if s.chance(1, 8) && n.last().unwrap().props.starts_with("&k") {
            let name = format!("k{}", n.len() - 1);
            n.push(Rn { props: String::new(), body: Raw::Alias(name) });
        }
    }
    let root = match shape {
        0 => match n.into_iter().next() {
            Some(r) if !matches!(r.body, Raw::Alias(_)) => r,
            _ => near::atom("x"),
        },
        1 => Rn { props: String::new(), body: Raw::Seq(n) },
        _ => {
            let mut m = Vec::new();
            let mut it = n.into_iter();
            while let (Some(k), Some(v)) = (it.next(), it.next()) {
                m.push((k, v));
            }
            Rn { props: String::new(), body: Raw::Map(m) }
        }
    };
    let mut text = near::document(s, &root);
    if s.chance(1, 10) {
        text = text.replace('\n', "\r\n");
    }
    if s.chance(1, 12) && !text.starts_with('\u{feff}') {
        text.insert(0, '\u{feff}');
    }
    c.input(&format!("{text:?}"));
    let docs = refyaml::documents(text.as_bytes());
    if docs.len() != 1 || docs[0].bad.is_some() {
        c.label("writer-miss");
        c.discard = true;
        return Ok(());
    }
    let doc = &docs[0];
    let resolve = |id: usize| match doc.nodes[id].kind {
        Kind::Alias(t) => t,
        _ => id,
    };
    // All scalars in reading order.
    let ids: Vec<usize> = match &doc.nodes[doc.root].kind {
        Kind::Scalar(..) => vec![doc.root],
        Kind::Seq(v) => v.clone(),
        Kind::Map(v) => v.iter().flat_map(|(a, b)| [*a, *b]).collect(),
        _ => vec![],
    };
    let ids: Vec<usize> = ids.into_iter().map(resolve).collect();
    if ids.iter().any(|&i| !matches!(doc.nodes[i].kind, Kind::Scalar(..))) {
        c.discard = true;
        return Ok(());
    }
    fn read<'de, T: Deserialize<'de>>(doc: &Doc, d: Deserializer<'de>) -> Result<Vec<T>, serde_yaml::Error> {
        struct Pairs<T>(std::marker::PhantomData<T>);
        impl<'de, T: Deserialize<'de>> serde::de::Visitor<'de> for Pairs<T> {
            type Value = Vec<T>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Vec<T>, A::Error> {
                let mut v = Vec::new();
                while let Some((k, x)) = a.next_entry::<T, T>()? {
                    v.push(k);
                    v.push(x);
                }
                Ok(v)
            }
        }
        match &doc.nodes[doc.root].kind {
            Kind::Scalar(..) => Ok(vec![T::deserialize(d)?]),
            Kind::Seq(_) => Vec::<T>::deserialize(d),
            _ => serde::Deserializer::deserialize_map(d, Pairs(std::marker::PhantomData)),
        }
    }
    let bytes = text.as_bytes();
    let want: Vec<&str> = ids
        .iter()
        .map(|&i| match &doc.nodes[i].kind {
            Kind::Scalar(v, _) => std::str::from_utf8(v).unwrap(),
            _ => unreachable!(),
        })
        .collect();
    let show_want = || format!("{want:?}\n{text}");
    // Owned strings.
    match read::<String>(doc, Deserializer::from_str(&text)) {
        Ok(g) => ensure!(c, g == want, "owned-differs", "{g:?} instead of {}", show_want()),
        Err(e) => fail!("owned-error", "{e}: {}", show_want()),
    }
    // Borrowed where possible.
    let from_slice = s.bool();
    let de = || if from_slice { Deserializer::from_slice(bytes) } else { Deserializer::from_str(&text) };
    let got = match read::<Str>(doc, de()) {
        Ok(g) => g,
        Err(e) => fail!("borrow-error", "{e}: {}", show_want()),
    };
    let (mut borrowed, mut owned) = (0, 0);
    ensure!(c, got.len() == want.len(), "borrow-count", "{got:?} instead of {}", show_want());
    for (i, g) in got.iter().enumerate() {
        let node = &doc.nodes[ids[i]];
        let style = match &node.kind {
            Kind::Scalar(_, st) => *st,
            _ => unreachable!(),
        };
        match g {
            Str::Borrowed(b) => {
                borrowed += 1;
                ensure!(c, *b == want[i], "borrowed-differs", "{b:?} instead of {:?}\n{text}", want[i]);
                ensure!(c, inside(bytes, b), "borrowed-outside", "{b:?} does not lie in the input\n{text}");
                let off = b.as_ptr() as usize - bytes.as_ptr() as usize;
                ensure!(c, off >= node.mark.index && off + b.len() <= node.end.index, "borrowed-elsewhere", "{b:?} at {off} is not in its own node {}..{}\n{text}", node.mark.index, node.end.index);
                ensure!(c, !matches!(style, Style::Literal | Style::Folded) || b.is_empty(), "borrowed-block", "{b:?} of a block scalar is borrowed\n{text}");
            }
            Str::Owned(o) => {
                owned += 1;
                ensure!(c, o == want[i], "unborrowed-differs", "{o:?} instead of {:?}\n{text}", want[i]);
                let src = text.get(node.mark.index..node.end.index).unwrap_or("");
                // A tag or an anchor before a scalar changes nothing about its text.
                let mut bare = src;
                while bare.starts_with(['!', '&']) {
                    match bare.split_once([' ', '\t', '\n', '\r']) {
                        Some((_, rest)) => bare = rest.trim_start_matches([' ', '\t', '\n', '\r']),
                        None => break,
                    }
                }
                if let Some(t) = simple_source(bare) {
                    ensure!(c, t != want[i] || t.is_empty(), "not-borrowed", "{src} could be borrowed\n{text}");
                }
            }
            Str::Not => unreachable!(),
        }
    }
    c.nt_if(borrowed > 0 && owned > 0);
    c.label_if(borrowed > 0, "borrowed");
    c.label_if(owned > 0, "owned");
    // &str: exactly the borrowable ones.
    let r: Result<Vec<&str>, _> = read(doc, de());
    match r {
        Ok(g) => {
            ensure!(c, owned == 0, "ref-str-accepted", "{g:?} although {owned} strings are not in the text\n{text}");
            ensure!(c, g == want && g.iter().all(|b| inside(bytes, b)), "ref-str-differs", "{g:?} instead of {}", show_want());
        }
        Err(e) => ensure!(c, owned > 0, "ref-str-error", "{e}: {}", show_want()),
    }
    // Cow through a borrowing struct field, as derive does it.
    #[derive(Deserialize)]
    struct Field<'a>(#[serde(borrow)] Cow<'a, str>);
    match read::<Field>(doc, de()) {
        Ok(g) => {
            for (i, f) in g.iter().enumerate() {
                ensure!(c, f.0 == want[i], "cow-differs", "{:?} instead of {:?}\n{text}", f.0, want[i]);
                if let (Cow::Borrowed(b), true) = (&f.0, !want[i].is_empty()) {
                    ensure!(c, inside(bytes, b), "cow-outside", "{b:?}\n{text}");
                }
            }
        }
        Err(e) => fail!("cow-error", "{e}: {}", show_want()),
    }
    // The same through deserialize_any.
    if ids.iter().all(|&i| refyaml::local_tag(&doc.nodes[i].tag).is_none()) {
        if let Ok(g) = read::<AnyStr>(doc, de()) {
            for (i, f) in g.iter().enumerate() {
                match &f.0 {
                    Str::Borrowed(b) => ensure!(c, *b == want[i] && inside(bytes, b), "any-borrowed-differs", "{b:?} instead of {:?}\n{text}", want[i]),
                    Str::Owned(o) => ensure!(c, o == want[i], "any-owned-differs", "{o:?} instead of {:?}\n{text}", want[i]),
                    Str::Not => {}
                }
            }
        }
    }
    // From a reader nothing can be borrowed past the read.
    let r: Result<Vec<Str>, _> = read(doc, Deserializer::from_reader(bytes));
    match r {
        Ok(g) => {
            for (i, f) in g.iter().enumerate() {
                match f {
                    Str::Owned(o) => ensure!(c, o == want[i], "reader-differs", "{o:?} instead of {:?}\n{text}", want[i]),
                    _ => fail!("reader-borrowed", "a string borrowed from a reader\n{text}"),
                }
            }
        }
        Err(e) => fail!("reader-error", "{e}: {}", show_want()),
    }
    Ok(())
}


// ---------------------------------------------------------------- C21

/// Types without 'Any'-like slack, for structural defects.
const T_STRICT: TOpts = TOpts {
    any: false,
    f32: true,
    big_ints: true,
    enums: true,
    nested_enum: false,
    bytes: false,
    complex_keys: false,
};

/// A place where a defect can be introduced.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Defect {
    ExtraItem,
    MissingItem,
    DuplicateField,
    MissingField,
    UnitContent,
}

/// Introduce the `at`-th possible defect; returns what was done.
fn spoil(s: &mut Source, t: &Ty, n: &mut Rn, at: &mut usize) -> Option<Defect> {
    let mut hit = |at: &mut usize| {
        if *at == 0 {
            true
        } else {
            *at -= 1;
            false
        }
    };
    match (t, &mut n.body) {
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), Raw::Seq(v)) => {
            if hit(at) {
                v.push(any_node(s, 1));
                return Some(Defect::ExtraItem);
            }
            if !v.is_empty() && hit(at) {
                v.pop();
                return Some(Defect::MissingItem);
            }
            ts.iter().zip(v).find_map(|(t, x)| spoil(s, t, x, at))
        }
        (Ty::Struct(fs), Raw::Map(v)) => spoil_fields(s, fs, v, at),
        (Ty::Seq(t), Raw::Seq(v)) => v.iter_mut().find_map(|x| spoil(s, t, x, at)),
        (Ty::Map(_, t), Raw::Map(v)) => v.iter_mut().find_map(|(_, x)| spoil(s, t, x, at)),
        (Ty::Newtype(t), _) => spoil(s, t, n, at),
        (Ty::Opt(t), _) => {
            // An absent option has nothing to spoil.
            if matches!(&n.body, Raw::Atom(x) if x.is_empty() || crate::scalar::is_null(x)) {
                None
            } else {
                spoil(s, t, n, at)
            }
        }
        (Ty::Unit | Ty::UnitStruct, Raw::Atom(_)) => {
            if hit(at) {
                n.body = if s.bool() { Raw::Atom("x".into()) } else { Raw::Seq(vec![near::atom("1")]) };
                return Some(Defect::UnitContent);
            }
            None
        }
        (Ty::Enum(vs), _) => {
            let name = n.props.trim().trim_start_matches('!').to_string();
            let var = vs.iter().find(|v| v.0 == name);
            match (var.map(|v| &v.1), &mut n.body) {
                (Some(Var::Unit), Raw::Atom(_)) => {
                    if hit(at) {
                        n.body = if s.bool() { Raw::Atom("x".into()) } else { Raw::Map(vec![(near::atom("a"), near::atom("b"))]) };
                        return Some(Defect::UnitContent);
                    }
                    None
                }
                (Some(Var::Tuple(ts)), Raw::Seq(v)) => {
                    if hit(at) {
                        v.push(any_node(s, 1));
                        return Some(Defect::ExtraItem);
                    }
                    if !v.is_empty() && hit(at) {
                        v.pop();
                        return Some(Defect::MissingItem);
                    }
                    ts.iter().zip(v).find_map(|(t, x)| spoil(s, t, x, at))
                }
                (Some(Var::Struct(fs)), Raw::Map(v)) => spoil_fields(s, fs, v, at),
                (Some(Var::New(t)), _) => {
                    let t = t.clone();
                    spoil(s, &t, n, at)
                }
                _ => None,
            }
        }
        _ => None,
    }
}

fn spoil_fields(s: &mut Source, fs: &[(&'static str, Ty)], v: &mut Vec<(Rn, Rn)>, at: &mut usize) -> Option<Defect> {
    let key_of = |r: &Rn| -> Option<String> {
        let mut out = String::new();
        match &r.body {
            Raw::Atom(t) => out.push_str(t),
            _ => return None,
        }
        match refyaml::single(&refyaml::documents(format!("[{out}]").as_bytes())) {
            Ok(MV::Seq(x)) if x.len() == 1 => match &x[0] {
                MV::Str(t) => Some(t.clone()),
                _ => None,
            },
            _ => None,
        }
    };
    if !v.is_empty() {
        if *at == 0 {
            // The same name in any spelling.
            let i = s.below(v.len());
            let k = match key_of(&v[i].0) {
                Some(k) if s.bool() => near::styled(s, &k),
                _ => v[i].0.clone(),
            };
            let x = if s.bool() { v[i].1.clone() } else { any_node(s, 1) };
            let j = s.below(v.len() + 1);
            v.insert(j, (k, x));
            return Some(Defect::DuplicateField);
        }
        *at -= 1;
        if *at == 0 {
            let i = s.below(v.len());
            let needed = key_of(&v[i].0).and_then(|k| fs.iter().find(|f| f.0 == k)).is_some_and(|f| !matches!(f.1, Ty::Opt(_)));
            if needed {
                v.remove(i);
                return Some(Defect::MissingField);
            }
            return None;
        }
        *at -= 1;
    }
    v.iter_mut().find_map(|(k, x)| {
        let k = key_of(k)?;
        let f = fs.iter().find(|f| f.0 == k)?;
        spoil(s, &f.1, x, at)
    })
}

fn c21_typed(s: &mut Source, c: &mut Ctx) -> PResult {
    let d = 1 + (s.size / 25) as usize;
    let other = s.chance(1, 10);
    let (mut t, mut text, mut what, mut bad);
    let mut tries = 0;
    loop {
        tries += 1;
        t = if other { ty::gen_ty(s, &T_STRICT, d) } else { ty::composite(s, &T_STRICT, d) };
        let mut n = Near::new(0, 0);
        n.extras = s.chance(1, 4);
        let good = n.node(s, &t);
        text = near::document(s, &good);
        bad = good.clone();
        what = None;
        if other {
            break;
        }
        let mut k = s.below(8);
        loop {
            let mut at = k;
            what = spoil(s, &t, &mut bad, &mut at);
            if what.is_some() || k == 0 {
                break;
            }
            k /= 2;
        }
        if what.is_some() || tries == 5 {
            break;
        }
    }
    let docs = refyaml::documents(text.as_bytes());
    match refty::single(&docs, &t) {
        Ok(_) => {}
        Err(_) => {
            c.label("writer-miss");
            c.discard = true;
            return Ok(());
        }
    }
    if let Err(e) = ty::from_str(&t, &text) {
        fail!("intact-refused", "{}: {e}\n{text}", show_ty(&t));
    }
    let text = match what {
        Some(_) => near::document(s, &bad),
        None => {
            // Another document, or content after the end.
            let t2 = match s.below(4) {
                0 => s.pick(&["---\n", "--- ~\n", "--- x\n", "...\n---\n", "--- []\n", "--- {}\n", "--- ''\n", "--- !t\n", "--- &a\n...\n", "---\n---\n"]).to_string(),
                1 => format!("---\n{}", text.trim_start_matches('\u{feff}').trim_start_matches("---")),
                2 => format!("---\n{}", fuzz::text(s)),
                _ => {
                    let v = gen::value(s, &gen::VOpts { max_depth: 2, max_len: 3, ..gen::VOpts::full(s) });
                    let mut w = crate::writer::W_ALL;
                    w.breaks = false;
                    crate::writer::doc(s, &v, w, false, true)
                }
            };
            let base = if text.ends_with('\n') { text.clone() } else { format!("{text}\n") };
            format!("{base}{t2}")
        }
    };
    c.input(&format!("{what:?} {} from {text:?}", show_ty(&t)));
    c.label(&match what {
        Some(d) => format!("{d:?}"),
        None => "ExtraDocument".into(),
    });
    let docs = refyaml::documents(text.as_bytes());
    let want = refty::single(&docs, &t);
    match want {
        Err(Stop::Err(_)) => {}
        _ => {
            // The change happened to make another fitting document.
            c.label("no-defect");
            return Ok(());
        }
    }
    c.nt();
    match ty::from_str(&t, &text) {
        Ok(v) => fail!("defect-accepted", "{what:?} in {} is accepted as\n{}\n{text}", show_ty(&t), show_val(&v)),
        Err(_) => c.checked(),
    }
    if docs.len() == 1 && docs[0].bad.is_none() {
        if let Some(Defect::ExtraItem | Defect::MissingItem | Defect::DuplicateField | Defect::MissingField) = what {
            // Through a Value as well, where the document has one.
            match serde_yaml::from_str::<Value>(&text) {
                Ok(v) => {
                    if let Ok(x) = ty::from_value(&t, v.clone()) {
                        fail!("defect-accepted-value", "{what:?} in {} is accepted from a Value as\n{}\n{text}", show_ty(&t), show_val(&x));
                    }
                    if let Ok(x) = ty::from_value_ref(&t, &v) {
                        fail!("defect-accepted-value-ref", "{what:?} in {} is accepted from a borrowed Value as\n{}\n{text}", show_ty(&t), show_val(&x));
                    }
                    c.checked();
                }
                Err(_) => {}
            }
        }
    }
    Ok(())
}

/// Strict structs, as derive makes them with deny_unknown_fields.
#[derive(Deserialize, Debug)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Deny {
    #[serde(default)]
    a: Option<serde_yaml::Value>,
    #[serde(default)]
    b: Option<serde_yaml::Value>,
}

fn c21_keys(s: &mut Source, c: &mut Ctx) -> PResult {
    // A mapping somewhere in which a key occurs twice, written differently.
    let o = gen::VOpts { max_depth: 2, max_len: 4, ..gen::VOpts::full(s) };
    let mut v = gen::value(s, &o);
    let mut keys = Vec::new();
    if s.chance(1, 2) {
        let k = gen::value(s, &gen::VOpts { max_depth: 1, max_len: 3, ..o });
        keys.push((k, gen::scalar(s, &o)));
        v = MV::Map(vec![(MV::str("m"), MV::Map(keys.clone())), (MV::str("n"), v)]);
    }
    let _ = keys;
    // Duplicate an entry of a random mapping.
    fn maps(v: &MV) -> usize {
        match v {
            MV::Map(m) => (!m.is_empty()) as usize + m.iter().map(|(a, b)| maps(a) + maps(b)).sum::<usize>(),
            MV::Seq(x) => x.iter().map(maps).sum(),
            MV::Tag(_, x) => maps(x),
            _ => 0,
        }
    }
    fn dup(s: &mut Source, v: &mut MV, at: &mut usize) -> bool {
        match v {
            MV::Map(m) => {
                if !m.is_empty() {
                    if *at == 0 {
                        let i = s.below(m.len());
                        let mut k = m[i].0.clone();
                        if let MV::Map(e) = &mut k {
                            // the same mapping, in another order
                            if s.bool() {
                                e.reverse();
                            }
                        }
                        if let MV::Float(f) = &k {
                            if *f == 0.0 && s.bool() {
                                k = MV::Float(-f);
                            }
                        }
                        let x = if s.bool() { m[i].1.clone() } else { MV::Int(s.below(9) as i128) };
                        let j = s.below(m.len() + 1);
                        m.insert(j, (k, x));
                        return true;
                    }
                    *at -= 1;
                }
                m.iter_mut().any(|(a, b)| dup(s, a, at) || dup(s, b, at))
            }
            MV::Seq(x) => x.iter_mut().any(|y| dup(s, y, at)),
            MV::Tag(_, x) => dup(s, x, at),
            _ => false,
        }
    }
    let n = maps(&v);
    if n == 0 {
        c.discard = true;
        return Ok(());
    }
    let mut at = s.below(n);
    let mut w = v.clone();
    dup(s, &mut w, &mut at);
    let good = crate::writer::write(s, &v, crate::writer::W_ALL).text;
    let text = crate::writer::write(s, &w, crate::writer::W_ALL).text;
    c.input(&format!("{text:?}"));
    if !refyaml::single(&refyaml::documents(good.as_bytes())).is_ok_and(|x| same(&x, &v)) {
        c.label("writer-miss");
        c.discard = true;
        return Ok(());
    }
    let docs = refyaml::documents(text.as_bytes());
    if docs.len() != 1 || docs[0].bad.is_some() || !matches!(refyaml::doc_value(&docs[0]), Err(refyaml::No::Dup)) {
        c.label("no-duplicate");
        c.discard = true;
        return Ok(());
    }
    c.nt();
    match serde_yaml::from_str::<Value>(&good) {
        Ok(g) => ensure!(c, same(&MV::of(&g), &v), "intact-differs", "{}\n{good}", show(&v)),
        Err(e) => fail!("intact-refused", "{e}\n{good}"),
    }
    match serde_yaml::from_str::<Value>(&text) {
        Ok(g) => fail!("duplicate-accepted", "duplicate keys are read as {g:?}\n{text}"),
        Err(e) => ensure!(c, e.to_string().contains("duplicate"), "duplicate-message", "{e}\n{text}"),
    }
    if let MV::Map(m) = &w {
        if has_dup(m) {
            c.label("at-root");
            if let Ok(g) = serde_yaml::from_str::<serde_yaml::Mapping>(&text) {
                fail!("duplicate-accepted-mapping", "duplicate keys are read as {g:?}\n{text}");
            }
            c.checked();
        }
    }
    // Denied fields.
    let mut fields = vec!["a: 1"];
    if s.bool() {
        fields.push("b: [x]");
    }
    let extra = *s.pick(&["", "c: 1", "? [x]\n: 1", "A: ~", "\"a\": 2", "'': 1", "1: 2", "? {q: r}\n: s", "!t a: 3"]);
    if !extra.is_empty() {
        let i = s.below(fields.len() + 1);
        fields.insert(i, extra);
    }
    let text = fields.join("\n") + "\n";
    let r = serde_yaml::from_str::<Deny>(&text);
    ensure!(c, r.is_ok() == extra.is_empty(), "denied-field", "{r:?} from\n{text}");
    Ok(())
}

// ---------------------------------------------------------------- C22

fn without_extras(n: &Rn) -> Rn {
    let body = match &n.body {
        Raw::Seq(v) => Raw::Seq(v.iter().map(without_extras).collect()),
        Raw::Map(v) => Raw::Map(
            v.iter()
                .filter(|(k, _)| !matches!(&k.body, Raw::Atom(t) if t.starts_with("zz_x")))
                .map(|(k, x)| (without_extras(k), without_extras(x)))
                .collect(),
        ),
        b => b.clone(),
    };
    Rn { props: n.props.clone(), body }
}

fn c22_extras(s: &mut Source, c: &mut Ctx) -> PResult {
    let mut t = ty::gen_ty(s, &T_ALL, 1 + (s.size / 25) as usize);
    if !ty::any_ty(&t, &mut |t| matches!(t, Ty::Struct(_))) {
        let fields = vec![("a", t), ("b", Ty::Str), ("c", Ty::Int(32, true))];
        t = Ty::Struct(fields[..1 + s.below(3)].to_vec());
    }
    let share = *s.pick(&[0, 0, 120]);
    let mut n = Near::new(0, share);
    n.extras = true;
    let mut full = n.node(s, &t);
    near::settle(s, &mut full);
    let text = near::document(s, &full);
    c.input(&format!("{} from {text:?}", show_ty(&t)));
    c.label_if(n.extra_count > 0, "extras");
    let r = compare(c, &text, &t, false)?;
    if share == 0 {
        let bare = near::document(s, &without_extras(&full));
        let (a, b) = (ty::from_str(&t, &text), ty::from_str(&t, &bare));
        let readable = |t: &str| {
            let d = refyaml::documents(t.as_bytes());
            d.len() == 1 && d[0].bad.is_none()
        };
        if readable(&text) && readable(&bare) {
            match (&a, &b) {
                (Ok(x), Ok(y)) => ensure!(c, veq(x, y), "extras-change-result", "with the unknown entries: {}\nwithout: {}\n{text}\n{bare}", show_val(x), show_val(y)),
                (Err(_), Err(_)) => {}
                (Ok(x), Err(e)) => fail!("extras-needed", "without unknown entries: {e}; with: {}\n{text}\n{bare}", show_val(x)),
                (Err(e), Ok(x)) => fail!("extras-refused", "with unknown entries: {e}; without: {}\n{text}\n{bare}", show_val(x)),
            }
        }
    }
    c.nt_if(n.extra_count > 0 && r == Some(true));
    c.label_if(r == Some(true), "accepted");
    // Through Values.
    if r == Some(true) {
        if let Ok(v) = serde_yaml::from_str::<Value>(&text) {
            let direct = ty::from_str(&t, &text).unwrap();
            let bytes = |t: &Ty| ty::any_ty(t, &mut |t| matches!(t, Ty::Str | Ty::Char | Ty::F32 | Ty::F64 | Ty::Enum(_) | Ty::Int(128, _))
                || matches!(t, Ty::Struct(f) if f.iter().any(|f| !matches!(crate::scalar::resolve(f.0), crate::scalar::Sc::Str)) ));
            if !bytes(&t) {
                match ty::from_value_ref(&t, &v) {
                    Ok(x) => ensure!(c, veq(&x, &direct), "extras-value-differs", "{} instead of {}\n{text}", show_val(&x), show_val(&direct)),
                    Err(e) => fail!("extras-value-refused", "{e}\n{text}"),
                }
            }
        }
    }
    Ok(())
}

/// Something large to ignore. `names` are the anchors before it.
fn bulk(s: &mut Source, names: &[String], id: usize) -> String {
    let many = |s: &mut Source| *s.pick(&[3, 30, 130, 300, 700]);
    match s.below(6) {
        0 => {
            let d = many(s);
            format!("{}{}", "[".repeat(d), "]".repeat(d))
        }
        1 => {
            let d = many(s);
            let key = *s.pick(&["{k: ", "{a: 1, b: ", "!t {k: ", "[1, ", "!u [", "{? ", "[? 1 : "]);
            let end = if key.contains('{') { "}" } else { "]" };
            format!("{}1{}", key.repeat(d), end.repeat(d))
        }
        2 if !names.is_empty() => {
            let mut t = "[".to_owned();
            for _ in 0..many(s) {
                t.push('*');
                t.push_str(s.pick(names).as_str());
                t.push_str(" , ");
            }
            t + "]"
        }
        3 => {
            // Each twice the one before.
            let mut t = format!("[&{id}b0 [1, 2]");
            for k in 1..2 + s.below(40) {
                t.push_str(&format!(", &{id}b{k} [*{id}b{0} , *{id}b{0} ]", k - 1));
            }
            t + "]"
        }
        4 => {
            // The same key again and again.
            let n = many(s);
            format!("{{{}}}", "k: 1, ".repeat(n))
        }
        _ => {
            let d = 1 + s.below(60);
            format!("{}{}{}", "{k: [".repeat(d), if names.is_empty() { "~".to_owned() } else { format!("*{} ", s.pick(names)) }, "]}".repeat(d))
        }
    }
}

/// However much is ignored, and however often, the rest reads as without it.
fn c22_bulk(s: &mut Source, c: &mut Ctx) -> PResult {
    let item = Ty::Struct(vec![("a", Ty::Int(16, false)), ("b", Ty::Opt(Box::new(Ty::Str)))]);
    let over = s.weighted(&[4, 2, 1]);
    let outer = match over {
        0 => 0,
        1 => s.below(20),
        _ => 100 + s.below(24),
    };
    let mut t = Ty::Struct(vec![("items", Ty::Seq(Box::new(item)))]);
    for _ in 0..outer {
        t = Ty::Seq(Box::new(t));
    }
    let mut names: Vec<String> = Vec::new();
    // The text with what is ignored, and with nulls in its place.
    let (mut full, mut bare) = ("[".repeat(outer), "[".repeat(outer));
    let both = |full: &mut String, bare: &mut String, x: &str| {
        full.push_str(x);
        bare.push_str(x);
    };
    both(&mut full, &mut bare, "{");
    let mut bulks = 0;
    let mut id = 0;
    let mut ignored = |s: &mut Source, full: &mut String, bare: &mut String, names: &[String]| {
        bulks += 1;
        full.push_str(&format!("zz_x{bulks}: {}, ", bulk(s, names, bulks)));
        bare.push_str(&format!("zz_x{bulks}: ~, "));
    };
    if s.bool() {
        both(&mut full, &mut bare, "zz_x0: &x 1, ");
        names.push("x".to_owned());
    }
    if s.bool() {
        ignored(s, &mut full, &mut bare, &names);
    }
    both(&mut full, &mut bare, "items: [");
    let mut items: Vec<String> = Vec::new();
    for _ in 0..1 + s.below(5) {
        if !items.is_empty() && s.bool() {
            let name = s.pick(&items).clone();
            for _ in 0..*s.pick(&[1, 3, 20, 150, 500]) {
                both(&mut full, &mut bare, &format!("*{name} , "));
            }
            continue;
        }
        id += 1;
        both(&mut full, &mut bare, &format!("&i{id} {{"));
        let first = s.bool();
        let a = format!("a: {id}, ");
        if first {
            both(&mut full, &mut bare, &a);
        }
        if s.chance(3, 4) {
            ignored(s, &mut full, &mut bare, &names);
        }
        if s.bool() {
            both(&mut full, &mut bare, "b: text, ");
        }
        if !first {
            both(&mut full, &mut bare, &a);
        }
        both(&mut full, &mut bare, "}, ");
        items.push(format!("i{id}"));
        names.push(format!("i{id}"));
    }
    both(&mut full, &mut bare, "], ");
    if s.bool() {
        ignored(s, &mut full, &mut bare, &names);
    }
    both(&mut full, &mut bare, &format!("}}{}\n", "]".repeat(outer)));
    let brief: String = full.chars().take(2000).collect();
    c.input(&format!("{} bytes: {brief:?}", full.len()));
    let (a, b) = (ty::from_str(&t, &full), ty::from_str(&t, &bare));
    let all = ty::from_str(&Ty::Ignored, &full);
    ensure!(c, all.is_ok(), "ignored-whole", "{all:?}");
    match (&a, &b) {
        (Ok(x), Ok(y)) => ensure!(c, veq(x, y), "bulk-changes-result", "with it: {}\nwithout: {}", show_val(x), show_val(y)),
        (Err(e), _) => fail!("bulk-refused", "with what is ignored: {e}"),
        // Without, the document is smaller, and may be followed less.
        (Ok(_), Err(e)) if e.to_string().contains("repetition limit") => c.label("limit-without"),
        (Ok(_), Err(e)) => fail!("bulk-needed", "without what is ignored: {e}"),
    }
    let bytes = ty::from_slice(&t, full.as_bytes());
    ensure!(c, bytes.is_ok(), "bulk-refused", "from bytes: {bytes:?}");
    c.nt_if(bulks > 0 && full.len() > bare.len() + 60);
    Ok(())
}

fn ignoring(s: &mut Source, depth: usize) -> Ty {
    match s.weighted(&[4, 3, 3, 3, 1, 2]) {
        1 if depth > 0 => Ty::Seq(Box::new(ignoring(s, depth - 1))),
        2 if depth > 0 => Ty::Map(Box::new(if s.bool() { Ty::Ignored } else { Ty::Str }), Box::new(ignoring(s, depth - 1))),
        3 if depth > 0 => {
            let mut f = Vec::new();
            for n in ["a", "b", "c"] {
                if s.bool() {
                    let t = ignoring(s, depth - 1);
                    let t = if s.chance(2, 3) && !ty::nullable(&t) { Ty::Opt(Box::new(t)) } else { t };
                    f.push((n, t));
                }
            }
            Ty::Struct(f)
        }
        4 if depth > 0 => Ty::Tuple(vec![ignoring(s, depth - 1), ignoring(s, depth - 1)]),
        5 => Ty::Any,
        _ => Ty::Ignored,
    }
}

fn c22_any(s: &mut Source, c: &mut Ctx) -> PResult {
    let t = ignoring(s, 3);
    let text = match s.below(3) {
        0 => fuzz::text(s),
        1 => {
            let o = gen::VOpts { max_depth: 3, max_len: 4, ..gen::VOpts::full(s) };
            let mut v = gen::value(s, &o);
            if s.bool() {
                v = MV::Map(vec![(MV::str("a"), v), (MV::str("b"), gen::value(s, &o)), (MV::str("d"), gen::value(s, &o))]);
            }
            crate::writer::share(s, &mut v);
            crate::writer::write(s, &v, crate::writer::W_ALL).text
        }
        _ => near_doc(s, &t, 20, 100).0,
    };
    c.input(&format!("{} from {text:?}", show_ty(&t)));
    let r = compare(c, &text, &t, false)?;
    c.label(match r {
        Some(true) => "accepted",
        Some(false) => "refused",
        None => "unsure",
    });
    c.nt_if(r == Some(true) && text.len() > 6);
    // Ignoring documents of a stream leaves the others alone.
    if s.chance(1, 4) {
        let docs = refyaml::documents(text.as_bytes());
        let it = Deserializer::from_str(&text);
        let mut k = 0;
        for (i, d) in it.take(docs.len()).enumerate() {
            k += 1;
            if i % 2 == 0 {
                let r = Seed(&Ty::Ignored).deserialize(d);
                ensure!(c, r.is_ok() == docs[i].bad.is_none(), "ignored-document", "document {i}: {r:?}, bad: {:?}\n{text}", docs[i].bad);
            } else {
                let r = Value::deserialize(d);
                match (r, refyaml::doc_value(&docs[i])) {
                    (Ok(g), Ok(w)) => ensure!(c, same(&MV::of(&g), &w), "document-after-ignored", "{g:?} instead of {}\n{text}", show(&w)),
                    (Err(_), Err(_)) => {}
                    (g, w) => fail!("document-after-ignored-outcome", "{g:?} instead of {w:?}\n{text}"),
                }
            }
        }
        ensure!(c, k == docs.len(), "documents-missing", "{k} of {} documents\n{text}", docs.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

/// An arbitrary node with anchors and aliases. `known` are the names defined
/// so far, in order.
fn shared_node(s: &mut Source, depth: usize, known: &mut Vec<String>) -> Rn {
    let name = |s: &mut Source| if s.chance(1, 6) { gen::anchor(s) } else { s.pick(&["a", "b", "a1", "long-anchor_name", "0", "ab"]).to_string() };
    if s.chance(1, 4) {
        if !known.is_empty() && s.chance(9, 10) {
            let i = s.below(known.len());
            return Rn { props: String::new(), body: Raw::Alias(known[i].clone()) };
        }
        if s.chance(1, 20) {
            return Rn { props: String::new(), body: Raw::Alias(name(s)) };
        }
    }
    let mut props = String::new();
    if s.chance(2, 5) {
        let n = name(s);
        props = format!("&{n} ");
        if !known.contains(&n) {
            known.push(n);
        }
    }
    let tag = if s.chance(1, 6) { *s.pick(&["!A ", "!b ", "!!str ", "!!map ", "!<x:y> "]) } else { "" };
    if s.bool() {
        props.push_str(tag);
    } else {
        props.insert_str(0, tag);
    }
    let body = match s.weighted(&[5, 3, 4]) {
        1 if depth > 0 => {
            let mut v = vec![];
            while s.more(v.len(), 3, 6) {
                v.push(shared_node(s, depth - 1, known));
            }
            Raw::Seq(v)
        }
        2 if depth > 0 => {
            let mut v = vec![];
            while s.more(v.len(), 3, 6) {
                let k = if s.chance(1, 3) {
                    shared_node(s, depth - 1, known)
                } else {
                    near::atom(&gen::word(s))
                };
                v.push((k, shared_node(s, depth - 1, known)));
            }
            Raw::Map(v)
        }
        _ => {
            let t = if s.bool() { gen::word(s) } else { gen::string(s).chars().take(30).collect() };
            let n = near::styled(s, &t);
            match (&n.body, s.below(6)) {
                (Raw::Atom(_), 0) => Raw::Atom(s.pick(&["1", "~", "true", "1.5", "''"]).to_string()),
                _ => n.body,
            }
        }
    };
    Rn { props, body }
}

enum Known {
    /// Still being defined.
    Open,
    Whole(Rn),
}

#[derive(PartialEq, Debug)]
enum Unexpandable {
    Undefined,
    Recursive,
    Huge,
}

fn split_props(p: &str) -> (Option<String>, String) {
    let mut anchor = None;
    let mut rest = String::new();
    for w in p.split(' ').filter(|w| !w.is_empty()) {
        match w.strip_prefix('&') {
            Some(a) => anchor = Some(a.to_string()),
            None => {
                rest.push_str(w);
                rest.push(' ');
            }
        }
    }
    (anchor, rest)
}

/// Replace every alias by a copy, in document order.
fn expand(n: &Rn, env: &mut Vec<(String, Known)>, budget: &mut usize, count: &mut usize) -> Result<Rn, Unexpandable> {
    if *budget == 0 {
        return Err(Unexpandable::Huge);
    }
    *budget -= 1;
    if let Raw::Alias(a) = &n.body {
        *count += 1;
        return match env.iter().rev().find(|e| e.0 == *a) {
            None => Err(Unexpandable::Undefined),
            Some((_, Known::Open)) => Err(Unexpandable::Recursive),
            Some((_, Known::Whole(r))) => {
                let k = size(r);
                if *budget < k {
                    return Err(Unexpandable::Huge);
                }
                *budget -= k;
                Ok(r.clone())
            }
        };
    }
    let (anchor, props) = split_props(&n.props);
    let slot = anchor.map(|a| {
        env.push((a, Known::Open));
        env.len() - 1
    });
    let body = match &n.body {
        Raw::Seq(v) => Raw::Seq(v.iter().map(|x| expand(x, env, budget, count)).collect::<Result<_, _>>()?),
        Raw::Map(v) => {
            let mut m = Vec::new();
            for (k, x) in v {
                let k = expand(k, env, budget, count)?;
                m.push((k, expand(x, env, budget, count)?));
            }
            Raw::Map(m)
        }
        b => b.clone(),
    };
    let r = Rn { props, body };
    if let Some(i) = slot {
        env[i].1 = Known::Whole(r.clone());
    }
    Ok(r)
}
fn size(n: &Rn) -> usize {
    match &n.body {
        Raw::Seq(v) => 1 + v.iter().map(size).sum::<usize>(),
        Raw::Map(v) => 1 + v.iter().map(|(a, b)| size(a) + size(b)).sum::<usize>(),
        _ => 1,
    }
}

fn parses(text: &str) -> bool {
    let (_, e) = refyaml::events(text.as_bytes());
    e.is_none()
}

fn c23_check(s: &mut Source, c: &mut Ctx, root: &Rn, t: &Ty) -> PResult {
    let mut root = root.clone();
    near::settle(s, &mut root);
    let root = &root;
    let text = near::document(s, root);
    c.input(&format!("{} from {:?}", show_ty(t), clipped(&text)));
    if !parses(&text) {
        c.label("writer-miss");
        c.discard = true;
        return Ok(());
    }
    let mut count = 0;
    let e = expand(root, &mut Vec::new(), &mut 3000, &mut count);
    let got = ty::from_str(t, &text);
    match e {
        Err(Unexpandable::Huge) => {
            c.discard = true;
            return Ok(());
        }
        Err(Unexpandable::Undefined) => {
            c.label("undefined");
            c.nt();
            // Whatever is asked for.
            for t in [t, &Ty::Any, &Ty::Ignored] {
                match ty::from_str(t, &text) {
                    Ok(v) => fail!("undefined-alias-accepted", "{} has an undefined alias and is read as {}", text, show_val(&v)),
                    Err(_) => c.checked(),
                }
            }
        }
        Err(Unexpandable::Recursive) => {
            c.label("recursive");
            if let Ty::Any = t {
                c.nt();
                match got {
                    Ok(v) => fail!("recursive-alias-accepted", "{} contains itself and is read as {}", text, show_val(&v)),
                    Err(_) => c.checked(),
                }
            }
        }
        Ok(full) => {
            let plain = near::document(s, &full);
            if !parses(&plain) {
                c.label("writer-miss");
                c.discard = true;
                return Ok(());
            }
            c.label_if(count > 0, "aliases");
            c.label_if(count > 3, "several-aliases");
            c.nt_if(count > 0);
            let want = ty::from_str(t, &plain);
            match (got, want) {
                (Ok(g), Ok(w)) => {
                    c.label("accepted");
                    ensure!(c, veq(&g, &w), "alias-differs", "with aliases\n{}\nwith copies\n{}\n{text}\n{plain}", show_val(&g), show_val(&w));
                }
                (Err(g), Err(w)) => {
                    c.checked();
                    if matches!(t, Ty::Any) {
                        let (g, w) = (g.to_string(), w.to_string());
                        let head = |m: &str| m.split(" at line").next().unwrap().rsplit(": ").next().unwrap().to_string();
                        ensure!(c, head(&g) == head(&w), "alias-error-differs", "with aliases: {g}\nwith copies: {w}\n{text}");
                    }
                }
                (Ok(g), Err(w)) => fail!("alias-accepted", "with copies: {w}\nwith aliases: {}\n{text}\n{plain}", show_val(&g)),
                (Err(g), Ok(w)) => fail!("alias-refused", "with aliases: {g}\nwith copies: {}\n{text}\n{plain}", show_val(&w)),
            }
            if count == 0 {
                return Ok(());
            }
            // The same, whatever is asked for.
            let script = Script::draw(s);
            let (a, p) = script.run(serde_yaml::Deserializer::from_str(&text));
            let (b, q) = script.run(serde_yaml::Deserializer::from_str(&plain));
            ensure!(c, a == b && p.is_ok() == q.is_ok(), "alias-trace", "with aliases {p:?} after {a}\nwith copies {q:?} after {b}\n{text}\n{plain}");
        }
    }
    Ok(())
}

/// Hundreds of anchors, names defined again, aliases in any order.
fn c23_many(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = match s.below(3) {
        0 => *s.pick(&[255, 256, 257, 258, 512, 700]),
        1 => 1 + s.below(40),
        _ => 1 + s.below(900),
    };
    let most = *s.pick(&[3, 300, 2000]);
    let names = 1 + s.below(most);
    let before = if s.chance(1, 4) { gen::anchor(s) } else { "a".to_owned() };
    let mut known: Vec<(usize, usize)> = Vec::new();
    let (mut text, mut plain) = (String::new(), String::new());
    let kinds: Vec<usize> = (0..1 + s.below(3)).map(|_| s.below(5)).collect();
    let node = |kind: usize, i: usize| match kind {
        0 => format!("{i}"),
        1 => format!("[{i}, x]"),
        2 => format!("{{k: {i}}}"),
        3 => format!("!t {i}"),
        _ => format!("\"s{i}\""),
    };
    let mut aliases = 0;
    for i in 0..n {
        if !known.is_empty() && s.chance(1, 3) {
            // Early, late or any.
            let at = match s.below(3) {
                0 => s.below(known.len().min(3)),
                1 => known.len() - 1 - s.below(known.len().min(3)),
                _ => s.below(known.len()),
            };
            let (name, of) = known[at];
            text.push_str(&format!("- *{before}{name}\n"));
            plain.push_str(&format!("- {}\n", node(kinds[of % kinds.len()], of)));
            aliases += 1;
            continue;
        }
        let name = if s.chance(3, 4) { i % names } else { s.below(names) };
        let x = node(kinds[i % kinds.len()], i);
        text.push_str(&format!("- &{before}{name} {x}\n"));
        plain.push_str(&format!("- {x}\n"));
        match known.iter_mut().find(|k| k.0 == name) {
            Some(k) => k.1 = i,
            None => known.push((name, i)),
        }
    }
    c.input(&format!("{n} items, {names} names, {aliases} aliases, kinds {kinds:?}"));
    c.nt_if(aliases > 0);
    let (a, b) = (serde_yaml::from_str::<Value>(&text), serde_yaml::from_str::<Value>(&plain));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (a.as_sequence().unwrap(), b.as_sequence().unwrap());
            ensure!(c, a.len() == b.len(), "many-length", "{} and {} items", a.len(), b.len());
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                ensure!(c, same(&MV::of(x), &MV::of(y)), "many-alias-differs", "item {i} is {x:?} instead of {y:?}");
            }
        }
        (Err(e), _) => fail!("many-alias-refused", "{e}"),
        (_, Err(e)) => fail!("many-copies-refused", "{e}"),
    }
    if kinds == [0] {
        let (a, b) = (serde_yaml::from_str::<Vec<u16>>(&text), serde_yaml::from_str::<Vec<u16>>(&plain));
        match (a, b) {
            (Ok(a), Ok(b)) => ensure!(c, a == b, "many-typed", "{a:?} instead of {b:?}"),
            (a, b) => fail!("many-typed-refused", "{a:?} and {b:?}"),
        }
    }
    Ok(())
}

fn c23_values(s: &mut Source, c: &mut Ctx) -> PResult {
    let root = shared_node(s, 2 + (s.size / 40) as usize, &mut vec![]);
    c23_check(s, c, &root, &Ty::Any)
}

fn c23_typed(s: &mut Source, c: &mut Ctx) -> PResult {
    let d = 1 + (s.size / 25) as usize;
    let t = if s.chance(1, 4) { ignoring(s, 2) } else { ty::composite(s, &T_ALL, d) };
    // The same type in several places, for anchors to be of use.
    let b = Box::new(t);
    let t = match s.below(5) {
        0 => Ty::Seq(b),
        1 => Ty::Struct(vec![("a", (*b).clone()), ("b", Ty::Seq(b.clone())), ("c", *b)]),
        2 => Ty::Tuple(vec![(*b).clone(), (*b).clone(), Ty::Newtype(b)]),
        3 => Ty::Map(Box::new(Ty::Str), b),
        _ => *b,
    };
    let slop = *s.pick(&[0, 0, 0, 20]);
    let share = *s.pick(&[300, 600, 150]);
    let mut n = Near::new(slop, share);
    n.extras = s.chance(1, 3);
    let root = n.node(s, &t);
    c23_check(s, c, &root, &t)
}

// ---------------------------------------------------------------- C26

fn primitive(s: &mut Source) -> Ty {
    let t = match s.below(14) {
        0 => Ty::Bool,
        1 => Ty::Int(8, s.bool()),
        2 => Ty::Int(16, s.bool()),
        3 => Ty::Int(32, s.bool()),
        4 => Ty::Int(64, s.bool()),
        5 => Ty::Int(128, s.bool()),
        6 => Ty::F64,
        7 => Ty::F32,
        8 => Ty::Char,
        9 => Ty::Str,
        10 => Ty::Unit,
        11 => Ty::UnitStruct,
        12 => match s.below(6) {
            0 => Ty::Seq(Box::new(Ty::Str)),
            1 => Ty::Map(Box::new(Ty::Str), Box::new(Ty::Str)),
            2 => Ty::Struct(vec![("a", Ty::Opt(Box::new(Ty::Str)))]),
            3 => Ty::Tuple(vec![]),
            4 => Ty::Tuple(vec![Ty::Str]),
            _ => Ty::TupleStruct(vec![Ty::Int(8, true), Ty::Str]),
        },
        _ => Ty::Enum(vec![("A", Var::Unit), ("foo", Var::New(Box::new(Ty::Str))), ("1", Var::Unit), ("a", Var::Tuple(vec![])), ("null", Var::Unit)]),
    };
    if s.chance(1, 5) && !ty::nullable(&t) {
        Ty::Opt(Box::new(t))
    } else if s.chance(1, 12) {
        Ty::Newtype(Box::new(t))
    } else {
        t
    }
}

fn c26_scalars(s: &mut Source, c: &mut Ctx) -> PResult {
    let mut n = if s.chance(1, 10) { any_node(s, 1) } else { any_scalar(s) };
    let block = s.chance(1, 12);
    if block {
        if let Raw::Atom(t) = &n.body {
            let t = t.clone();
            if t.chars().all(|c| ('!'..='~').contains(&c)) && !t.is_empty() {
                n.body = Raw::Block(*s.pick(&["|-", "|", ">-"]), vec![t]);
            }
        }
    }
    if s.chance(1, 40) {
        n = near::atom("");
    }
    let place = s.below(6);
    let doc = match place {
        0 | 1 => n,
        2 => Rn { props: String::new(), body: Raw::Seq(vec![near::atom("x"), n]) },
        3 => Rn { props: String::new(), body: Raw::Map(vec![(near::atom("k"), n)]) },
        4 => Rn { props: String::new(), body: Raw::Map(vec![(n, near::atom("x"))]) },
        _ => {
            n.props = "!A ".into();
            n
        }
    };
    let text = if s.chance(1, 60) { s.pick(&["", "\n", "# c\n", "---\n", "...\n", "--- # c\n"]).to_string() } else { near::document(s, &doc) };
    c.input(&format!("{text:?}"));
    let docs = refyaml::documents(text.as_bytes());
    c.nt_if(docs.len() == 1 && docs[0].bad.is_none() && docs[0].nodes.iter().any(|n| matches!(&n.kind, Kind::Scalar(v, _) if !v.is_empty())));
    for _ in 0..6 {
        let p = primitive(s);
        let t = match place {
            0 | 1 => p,
            2 => Ty::Tuple(vec![Ty::Str, p]),
            3 => Ty::Map(Box::new(Ty::Str), Box::new(p)),
            4 => Ty::Map(Box::new(p), Box::new(Ty::Str)),
            _ => {
                if ty::taggy(&p) {
                    continue;
                }
                Ty::Enum(vec![("A", Var::New(Box::new(p)))])
            }
        };
        match compare(c, &text, &t, false)? {
            Some(true) => c.label("accepted"),
            Some(false) => c.label("refused"),
            None => {}
        }
    }
    Ok(())
}

fn c26_shapes(s: &mut Source, c: &mut Ctx) -> PResult {
    let d = 1 + (s.size / 25) as usize;
    let t = if s.chance(1, 12) { ty::gen_ty(s, &T_ALL, d) } else { ty::composite(s, &T_ALL, d) };
    let slop = *s.pick(&[0, 20, 60, 200]);
    let share = *s.pick(&[0, 0, 100]);
    let (text, dev) = near_doc(s, &t, slop, share);
    c.input(&format!("{} from {text:?}", show_ty(&t)));
    let docs = refyaml::documents(text.as_bytes());
    let n = docs.first().map_or(0, |d| d.nodes.len());
    match compare(c, &text, &t, false)? {
        Some(true) => {
            c.label("accepted");
            c.label_if(dev > 0, "accepted-with-deviation");
            c.nt_if(n >= 3);
        }
        Some(false) => {
            c.label("refused");
            c.nt_if(n >= 3);
        }
        None => {}
    }
    Ok(())
}

// ------------------------------------------------- C21, stopping early

/// How a visitor goes through a value: how many elements of each collection
/// it takes, and by which method it asks for each node.
struct Plan<'a> {
    v: &'a MV,
    take: usize,
    how: usize,
    kids: Vec<Plan<'a>>,
}

fn plan<'a>(s: &mut Source, v: &'a MV, stop: u64) -> Plan<'a> {
    let kids: Vec<Plan> = match v {
        MV::Seq(x) => x.iter().map(|x| plan(s, x, stop)).collect(),
        MV::Map(x) => x.iter().map(|x| plan(s, &x.1, stop)).collect(),
        MV::Tag(_, x) => vec![plan(s, x, stop)],
        _ => vec![],
    };
    let take = if v.is_coll() && !kids.is_empty() && s.chance(stop, 100) { s.below(kids.len()) } else { kids.len() };
    let mut how = s.below(8);
    if let (MV::Tag(_, x), 2) = (v, how) {
        // the tag is overlooked when a collection is asked for as one
        if !matches!((&**x, kids[0].how), (MV::Seq(_), 0..=2) | (MV::Map(_), 0 | 1)) {
            how = 5;
        }
    }
    Plan { v, take, how, kids }
}

/// What is read, and whether anything was left over on the way.
fn taken(p: &Plan) -> (MV, bool) {
    let mut left = p.take < p.kids.len();
    let mut go = |p: &Plan| {
        let (v, l) = taken(p);
        left |= l;
        v
    };
    let v = match p.v {
        MV::Seq(_) => MV::Seq(p.kids[..p.take].iter().map(&mut go).collect()),
        MV::Map(m) => MV::Map(p.kids[..p.take].iter().zip(m).map(|(p, m)| (m.0.clone(), go(p))).collect()),
        MV::Tag(t, x) => {
            let inner = match (&**x, p.how) {
                // the content's own plan is one for the visitor of the variant
                (MV::Null, 4) => MV::Null,
                _ => go(&p.kids[0]),
            };
            if p.how == 2 {
                inner
            } else {
                MV::Tag(t.clone(), Box::new(inner))
            }
        }
        v => v.clone(),
    };
    (v, left)
}

impl<'a, 'de> DeserializeSeed<'de> for &Plan<'a> {
    type Value = MV;
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<MV, D::Error> {
        match (self.v, self.how) {
            (MV::Seq(_), 0) => d.deserialize_seq(self),
            (MV::Seq(_), 1) => d.deserialize_tuple(self.take, self),
            (MV::Seq(_), 2) => d.deserialize_tuple_struct("T", self.take, self),
            (MV::Map(_), 0) => d.deserialize_map(self),
            (MV::Map(_), 1) => d.deserialize_struct("S", &["a", "b"], self),
            (MV::Seq(_) | MV::Map(_), 3) => d.deserialize_newtype_struct("N", self),
            (MV::Tag(..), 0 | 1) => d.deserialize_enum("E", &["A", "B"], self),
            (MV::Tag(..), 2) => self.kids[0].deserialize(d),
            _ => d.deserialize_any(self),
        }
    }
}

impl<'a, 'de> serde::de::Visitor<'de> for &Plan<'a> {
    type Value = MV;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("the planned value")
    }
    fn visit_unit<E>(self) -> Result<MV, E> {
        Ok(MV::Null)
    }
    fn visit_bool<E>(self, v: bool) -> Result<MV, E> {
        Ok(MV::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<MV, E> {
        Ok(MV::Int(v as i128))
    }
    fn visit_u64<E>(self, v: u64) -> Result<MV, E> {
        Ok(MV::Int(v as i128))
    }
    fn visit_f64<E>(self, v: f64) -> Result<MV, E> {
        Ok(MV::Float(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<MV, E> {
        Ok(MV::str(v))
    }
    fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<MV, D::Error> {
        d.deserialize_any(self)
    }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<MV, A::Error> {
        let mut v = vec![];
        for k in self.kids.iter().take(self.take) {
            match a.next_element_seed(k)? {
                Some(x) => v.push(x),
                None => break,
            }
        }
        Ok(MV::Seq(v))
    }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<MV, A::Error> {
        let mut v = vec![];
        for (i, k) in self.kids.iter().take(self.take).enumerate() {
            let key = if i % 2 == 0 {
                match a.next_key::<Value>()? {
                    Some(key) => (key, a.next_value_seed(k)?),
                    None => break,
                }
            } else {
                match a.next_entry_seed(std::marker::PhantomData::<Value>, k)? {
                    Some(x) => x,
                    None => break,
                }
            };
            v.push((MV::of(&key.0), key.1));
        }
        Ok(MV::Map(v))
    }
    fn visit_enum<A: serde::de::EnumAccess<'de>>(self, a: A) -> Result<MV, A::Error> {
        use serde::de::VariantAccess;
        let (t, a) = a.variant::<String>()?;
        let MV::Tag(_, x) = self.v else {
            return Err(serde::de::Error::custom("no tag here"));
        };
        let k = &self.kids[0];
        let inner = match (&**x, self.how) {
            (MV::Null, 4) => {
                a.unit_variant()?;
                MV::Null
            }
            (MV::Seq(_), 1 | 4) => a.tuple_variant(k.take, k)?,
            (MV::Map(_), 1 | 4) => a.struct_variant(&["a"], k)?,
            _ => a.newtype_variant_seed(k)?,
        };
        Ok(MV::Tag(t, Box::new(inner)))
    }
}

/// A visitor that takes less than there is gets an error, from text, from a
/// Value and from a borrowed Value.
fn c21_early(s: &mut Source, c: &mut Ctx) -> PResult {
    let o = gen::VOpts { max_depth: 3, max_len: 4, ..gen::VOpts::full(s) };
    let v = gen::collection(s, &o);
    let stop = *s.pick(&[0, 10, 30]);
    let p = plan(s, &v, stop);
    let text = crate::writer::write(s, &v, crate::writer::W_ALL).text;
    c.input(&format!("{text:?}"));
    if !refyaml::single(&refyaml::documents(text.as_bytes())).is_ok_and(|x| same(&x, &v)) {
        c.discard = true;
        return Ok(());
    }
    let (want, left) = taken(&p);
    c.nt_if(left || stop == 0 && v.nodes() > 1);
    c.label(if left { "left-over" } else { "complete" });
    let value = v.to_value();
    for (from, r) in [
        ("text", p.deserialize(Deserializer::from_str(&text))),
        ("reader", p.deserialize(Deserializer::from_reader(text.as_bytes()))),
        ("reference", p.deserialize(&value)),
        ("value", p.deserialize(value.clone())),
    ] {
        match r {
            Ok(g) => {
                ensure!(c, !left, "left-over-accepted", "from {from}, of {} only {} is read, without an error\n{text}", show(&v), show(&g));
                ensure!(c, same(&g, &want), "early-data", "from {from}, {} is read instead of {}\n{text}", show(&g), show(&want));
            }
            Err(e) => ensure!(c, left, "complete-refused", "from {from}, everything is asked for: {e}\n{text}"),
        }
    }
    Ok(())
}
