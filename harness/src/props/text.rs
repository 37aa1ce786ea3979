//! C01 typed round trip, C02 value round trip, C03 strings, C04 numbers,
//! C05 plain scalars, C24 presentation.

use super::ystr;
use crate::engine::*;
use crate::gen::{self, VOpts};
use crate::model::{feq, same, show, MV};
use crate::refyaml::{self, Kind, No, Style};
use crate::scalar::{self, Sc};
use crate::ty::{self, show_ty, show_val, veq, Ty, Val, TV, T_ALL};
use crate::writer::{self, W_ALL};
use crate::{ensure, fail, fuzz};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_yaml::Value;
use std::fmt::Debug;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "A case is a random schema (scalars of every width, options, sequences, tuples, maps with arbitrary keys, newtypes, structs, enums of all four variant kinds, Value) with a random value of it, or a value of one of the derived types; non-trivial = the value has a collection, an enum or a string that needs quoting.",
            assumptions: &["Options over types that may themselves be written as null, and enums directly inside newtype variants, are outside the domain: the format has no representation for them."],
            subs: vec![
                Sub { name: "dynamic", quick: 2_800_000, thorough: 60_000_000, f: c01_dynamic },
                Sub { name: "derive", quick: 500_000, thorough: 12_500_000, f: super::derive::c01_derive },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c01 },
            ],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "A case is a random Value (any nesting, any key, tags, every number class, difficult strings); non-trivial = it has a collection, tag or non-finite/boundary number.",
            assumptions: &[],
            subs: vec![
                Sub { name: "value", quick: 800_000, thorough: 20_000_000, f: c02_value },
                Sub { name: "parts", quick: 200_000, thorough: 5_000_000, f: c02_parts },
                Sub { name: "tags", quick: 150_000, thorough: 3_750_000, f: c02_tags },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c02 },
            ],
        },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "A case is a string (lookalikes of other scalars, controls, line breaks, leading/trailing white space, any Unicode, lengths around the simple-key limit) in one of the positions a string can take, or a block of 64 consecutive code points; non-trivial = the string is not a plain ASCII word.",
            assumptions: &[],
            subs: vec![
                Sub { name: "positions", quick: 2_000_000, thorough: 40_000_000, f: c03_positions },
                Sub { name: "codepoints", quick: 17_408, thorough: 34_816, f: c03_codepoints },
                Sub { name: "huge", quick: 16, thorough: 64, f: c03_huge },
            ],
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "A case is an integer of a random width (clustered at every type boundary) or a float (random bits, boundaries), its emitted text and one alternative spelling read as every numeric type; non-trivial = magnitude above 1000 or a non-integer float.",
            assumptions: &["Rust's standard decimal parser is the reference for decimal fractions."],
            subs: vec![
                Sub { name: "ints", quick: 1_500_000, thorough: 37_500_000, f: c04_ints },
                Sub { name: "floats", quick: 1_500_000, thorough: 37_500_000, f: c04_floats },
                Sub { name: "misspelled", quick: 500_000, thorough: 12_500_000, f: c04_misspelled },
            ],
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "A case is a string used as a plain scalar (enumerated over a 26-symbol alphabet up to length 4, or built from number pieces and lookalikes) at the top level, in collections, as a key, with core tags or with quotes, or in a run of several readings that must not affect each other; non-trivial = the string is not a plain lower-case word.",
            assumptions: &["unsafe-libyaml decides where a plain scalar begins and ends."],
            subs: vec![
                Sub { name: "enumerated", quick: 60_000, thorough: 60_000, f: c05_enumerated },
                Sub { name: "generated", quick: 4_500_000, thorough: 100_000_000, f: c05_generated },
            ],
        },
        Prop {
            id: "C24",
            level: "exploration",
            rule: "A case is a random value written by an independent writer in a random presentation (block/flow, scalar styles, escapes, folding, aliases, tags, comments, directives, line breaks), or mutated/arbitrary text; non-trivial = the text uses at least three presentation features, or is text the independent reading accepts as a collection.",
            assumptions: &["unsafe-libyaml's event stream defines the structure of the text; the composition into values is re-stated independently."],
            subs: vec![
                Sub { name: "written", quick: 700_000, thorough: 17_500_000, f: c24_written },
                Sub { name: "typed", quick: 500_000, thorough: 12_500_000, f: c24_typed },
                Sub { name: "arbitrary", quick: 1_800_000, thorough: 45_000_000, f: c24_arbitrary },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c24 },
            ],
        },
    ]
}

fn quoting(t: &str) -> bool {
    !t.chars().all(|c| c.is_ascii_lowercase())
}

// ---------------------------------------------------------------- C01

fn c01_dynamic(s: &mut Source, c: &mut Ctx) -> PResult {
    let depth = 1 + (s.size / 25) as usize;
    let t = ty::gen_ty(s, &T_ALL, depth);
    let v = ty::gen_val(s, &t);
    c.input(&format!("{} = {}", show_ty(&t), show_val(&v)));
    c.nt_if(ty::any_ty(&t, &mut |t| matches!(t, Ty::Seq(_) | Ty::Map(..) | Ty::Struct(_) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Enum(_))) || matches!(&v, Val::Str(t) if quoting(t)));
    let text = ystr(&TV(&t, &v))?;
    c.label_if(text.contains('!'), "tagged");
    c.label_if(text.lines().count() > 5, "over-5-lines");
    let got = match ty::from_str(&t, &text) {
        Ok(g) => g,
        Err(e) => fail!("typed-reread-error", "emitted text is rejected: {e}\n{text}"),
    };
    ensure!(c, veq(&got, &v), "typed-roundtrip", "read back {}\nfrom\n{text}", show_val(&got));
    // The same through a writer and a reader.
    let mut w = Vec::new();
    if let Err(e) = serde_yaml::to_writer(&mut w, &TV(&t, &v)) {
        fail!("to_writer-error", "{e}");
    }
    ensure!(c, w == text.as_bytes(), "to_writer-differs", "to_writer gives other text:\n{}\nvs\n{text}", String::from_utf8_lossy(&w));
    use serde::de::DeserializeSeed;
    match ty::Seed(&t).deserialize(serde_yaml::Deserializer::from_reader(&w[..])) {
        Ok(g) => ensure!(c, veq(&g, &v), "typed-roundtrip-reader", "read back {} from\n{text}", show_val(&g)),
        Err(e) => fail!("typed-reread-error-reader", "{e}\n{text}"),
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02_value(s: &mut Source, c: &mut Ctx) -> PResult {
    let o = VOpts::full(s);
    let m = gen::value(s, &o);
    c.input(&show(&m));
    c.nt_if(m.any(&mut |x| x.is_coll() || matches!(x, MV::Tag(..)) || matches!(x, MV::Float(f) if !f.is_finite()) || matches!(x, MV::Int(i) if i.unsigned_abs() > 1 << 31)));
    c.label_if(m.any(&mut |x| matches!(x, MV::Tag(..))), "tag");
    c.label_if(m.any(&mut |x| matches!(x, MV::Map(p) if p.iter().any(|(k, _)| k.is_coll()))), "collection-key");
    c.label_if(m.depth() >= 4, "depth>=4");
    let v = m.to_value();
    let text = ystr(&v)?;
    // An independent reading of the emitted text.
    let docs = refyaml::documents(text.as_bytes());
    match refyaml::single(&docs) {
        Ok(r) => ensure!(c, same(&r, &m), "emitted-text-wrong", "the emitted text denotes {}\n{text}", show(&r)),
        Err(e) => fail!("emitted-text-invalid", "the emitted text has no value ({e:?}):\n{text}"),
    }
    let back: Value = match serde_yaml::from_str(&text) {
        Ok(b) => b,
        Err(e) => fail!("value-reread-error", "emitted text is rejected: {e}\n{text}"),
    };
    let b = MV::of(&back);
    ensure!(c, same(&b, &m), "value-roundtrip", "read back {}\nfrom\n{text}", show(&b));
    ensure!(c, back == v, "value-roundtrip-eq", "{back:?} != {v:?}");
    let again = ystr(&back)?;
    ensure!(c, again == text, "emission-not-idempotent", "first:\n{text}\nsecond:\n{again}");
    Ok(())
}

fn c02_parts(s: &mut Source, c: &mut Ctx) -> PResult {
    let o = VOpts { max_depth: 2, ..VOpts::full(s) };
    let m = gen::value(s, &o);
    c.input(&show(&m));
    let v = m.to_value();
    let whole = ystr(&v)?;
    // Parts of a value serialize as the value that holds them.
    match &v {
        Value::Mapping(x) => {
            c.nt();
            c.label("mapping");
            let t = ystr(x)?;
            ensure!(c, t == whole, "mapping-text", "Mapping gives\n{t}\nValue gives\n{whole}");
            let b: serde_yaml::Mapping = match serde_yaml::from_str(&t) {
                Ok(b) => b,
                Err(e) => fail!("mapping-reread-error", "{e}\n{t}"),
            };
            let b = MV::of(&Value::Mapping(b));
            ensure!(c, same(&b, &m), "mapping-roundtrip", "read back {} from\n{t}", show(&b));
        }
        Value::Tagged(x) => {
            c.nt();
            c.label("tagged");
            let t = ystr(&**x)?;
            ensure!(c, t == whole, "tagged-text", "TaggedValue gives\n{t}\nValue gives\n{whole}");
            let b: serde_yaml::value::TaggedValue = match serde_yaml::from_str(&t) {
                Ok(b) => b,
                Err(e) => fail!("tagged-reread-error", "{e}\n{t}"),
            };
            let b = MV::of(&Value::Tagged(Box::new(b)));
            ensure!(c, same(&b, &m), "tagged-roundtrip", "read back {} from\n{t}", show(&b));
        }
        Value::Number(x) => {
            c.nt();
            c.label("number");
            let t = ystr(x)?;
            ensure!(c, t == whole, "number-text", "Number gives\n{t}\nValue gives\n{whole}");
            let b: serde_yaml::Number = match serde_yaml::from_str(&t) {
                Ok(b) => b,
                Err(e) => fail!("number-reread-error", "{e}\n{t}"),
            };
            let b = MV::of(&Value::Number(b));
            ensure!(c, same(&b, &m), "number-roundtrip", "read back {} from\n{t}", show(&b));
        }
        Value::Sequence(x) => {
            c.nt();
            c.label("sequence");
            let t = ystr(x)?;
            ensure!(c, t == whole, "sequence-text", "Sequence gives\n{t}\nValue gives\n{whole}");
            let b: serde_yaml::Sequence = match serde_yaml::from_str(&t) {
                Ok(b) => b,
                Err(e) => fail!("sequence-reread-error", "{e}\n{t}"),
            };
            let b = MV::of(&Value::Sequence(b));
            ensure!(c, same(&b, &m), "sequence-roundtrip", "read back {} from\n{t}", show(&b));
        }
        _ => {}
    }
    Ok(())
}

fn tag_round(c: &mut Ctx, t: &str, inner: &MV) -> PResult {
    let m = MV::Tag(t.to_string(), Box::new(inner.clone()));
    let sig = |what: &str| {
        // Two ways in which libyaml cannot carry a tag name; see known-findings.txt.
        if t.contains('\0') {
            "tag-with-nul".to_string()
        } else if t.contains([',', '[', ']']) {
            "tag-with-flow-indicator".to_string()
        } else {
            what.to_string()
        }
    };
    let text = ystr(&m.to_value())?;
    match serde_yaml::from_str::<Value>(&text) {
        Ok(b) => ensure!(c, same(&MV::of(&b), &m), sig("tag-roundtrip"), "tag {t:?} comes back as {}\n{text}", show(&MV::of(&b))),
        Err(e) => fail!(sig("tag-reread-error"), "tag {t:?}: {e}\n{text}"),
    }
    Ok(())
}

fn c02_tags(s: &mut Source, c: &mut Ctx) -> PResult {
    let inner = match s.below(6) {
        0 => MV::Null,
        1 => MV::Int(7),
        2 => MV::Seq(vec![]),
        3 => MV::Map(vec![(MV::str("k"), MV::Seq(vec![MV::Null]))]),
        4 => MV::str("a\nb"),
        _ => MV::str("1"),
    };
    c.nt();
    let block = (s.index % 17_408) as u32;
    let shape = s.below(3);
    c.input(&format!("tags with code points {:#x}.., shape {shape}, over {}", block * 64, show(&inner)));
    let mut special = Vec::new();
    for i in 0..64 {
        if let Some(ch) = char::from_u32(block * 64 + i) {
            let t = match shape {
                0 => format!("a{ch}"),
                1 => format!("{ch}z"),
                _ => format!("x{ch}{ch}y"),
            };
            if t.starts_with('!') {
                continue; // the leading '!' is insignificant
            }
            if matches!(ch, '\0' | ',' | '[' | ']') {
                special.push(t);
            } else {
                tag_round(c, &t, &inner)?;
            }
        }
    }
    if !special.is_empty() {
        let t = special[s.below(special.len())].clone();
        c.input(&format!("special {t:?}"));
        tag_round(c, &t, &inner)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn str_at(t: &str, pos: usize) -> (Ty, Val, MV) {
    let sv = || Val::Str(t.to_string());
    let sm = || MV::Str(t.to_string());
    let st = || Ty::Str;
    match pos {
        0 => (st(), sv(), sm()),
        1 => (Ty::Seq(Box::new(st())), Val::Seq(vec![sv(), sv()]), MV::Seq(vec![sm(), sm()])),
        2 => (
            Ty::Map(Box::new(st()), Box::new(st())),
            Val::Map(vec![(sv(), sv())]),
            MV::Map(vec![(sm(), sm())]),
        ),
        3 => (
            Ty::Map(Box::new(st()), Box::new(Ty::Int(32, true))),
            Val::Map(vec![(sv(), Val::Int(false, 1)), (Val::Str(format!("{t}z")), Val::Int(false, 2))]),
            MV::Map(vec![(sm(), MV::Int(1)), (MV::Str(format!("{t}z")), MV::Int(2))]),
        ),
        4 => (Ty::Struct(vec![("f", st()), ("g", st())]), Val::Prod(vec![sv(), sv()]), MV::Map(vec![(MV::str("f"), sm()), (MV::str("g"), sm())])),
        5 => (
            Ty::Enum(vec![("V", ty::Var::New(Box::new(st())))]),
            Val::Var(0, Box::new(sv())),
            MV::Tag("V".into(), Box::new(sm())),
        ),
        6 => (Ty::Opt(Box::new(st())), Val::Some(Box::new(sv())), sm()),
        7 => (
            Ty::Seq(Box::new(Ty::Seq(Box::new(Ty::Map(Box::new(st()), Box::new(Ty::Seq(Box::new(st())))))))),
            Val::Seq(vec![Val::Seq(vec![Val::Map(vec![(sv(), Val::Seq(vec![sv(), sv()]))])])]),
            MV::Seq(vec![MV::Seq(vec![MV::Map(vec![(sm(), MV::Seq(vec![sm(), sm()]))])])]),
        ),
        8 => (
            Ty::Enum(vec![("V", ty::Var::Struct(vec![("a", st()), ("b", Ty::Opt(Box::new(st())))]))]),
            Val::Var(0, Box::new(Val::Prod(vec![sv(), Val::Some(Box::new(sv()))]))),
            MV::Tag("V".into(), Box::new(MV::Map(vec![(MV::str("a"), sm()), (MV::str("b"), sm())]))),
        ),
        9 => (
            Ty::Map(Box::new(Ty::Seq(Box::new(st()))), Box::new(st())),
            Val::Map(vec![(Val::Seq(vec![sv()]), sv())]),
            MV::Map(vec![(MV::Seq(vec![sm()]), sm())]),
        ),
        _ => (
            Ty::Enum(vec![("V", ty::Var::Tuple(vec![st(), st()]))]),
            Val::Var(0, Box::new(Val::Prod(vec![sv(), sv()]))),
            MV::Tag("V".into(), Box::new(MV::Seq(vec![sm(), sm()]))),
        ),
    }
}

fn check_string(c: &mut Ctx, t: &str, pos: usize) -> PResult {
    let (ty_, v, m) = str_at(t, pos);
    for via_value in [false, true] {
        let text = if via_value { ystr(&m.to_value())? } else { ystr(&TV(&ty_, &v))? };
        match refyaml::single(&refyaml::documents(text.as_bytes())) {
            Ok(r) => ensure!(c, same(&r, &m), "string-emitted-wrong", "emitted text denotes {}\n{text}", show(&r)),
            Err(e) => fail!("string-emitted-invalid", "emitted text has no value ({e:?})\n{text}"),
        }
        match ty::from_str(&ty_, &text) {
            Ok(g) => ensure!(c, veq(&g, &v), "string-typed", "typed read back {} from\n{text}", show_val(&g)),
            Err(e) => fail!("string-typed-error", "{e}\n{text}"),
        }
        match serde_yaml::from_str::<Value>(&text) {
            Ok(g) => ensure!(c, same(&MV::of(&g), &m), "string-value", "value read back {g:?} from\n{text}"),
            Err(e) => fail!("string-value-error", "{e}\n{text}"),
        }
    }
    Ok(())
}

fn c03_positions(s: &mut Source, c: &mut Ctx) -> PResult {
    let t = gen::string(s);
    let pos = s.below(11);
    c.input(&format!("{t:?} at position {pos}"));
    c.nt_if(quoting(&t));
    c.label_if(t.contains('\n'), "line-break");
    c.label_if(t.len() > 1000, "long");
    c.label_if(!matches!(scalar::resolve(&t), Sc::Str), "lookalike");
    check_string(c, &t, pos)?;
    // A char is a string of one.
    if let (Some(ch), 1) = (t.chars().next(), t.chars().count()) {
        let text = ystr(&ch)?;
        match serde_yaml::from_str::<char>(&text) {
            Ok(g) => ensure!(c, g == ch, "char", "read back {g:?} from\n{text}"),
            Err(e) => fail!("char-error", "{e}\n{text}"),
        }
        match serde_yaml::from_str::<Value>(&text) {
            Ok(Value::String(g)) => ensure!(c, g == t, "char-value", "read back {g:?} from\n{text}"),
            o => fail!("char-value-other", "{o:?} from\n{text}"),
        }
    }
    Ok(())
}

fn c03_codepoints(s: &mut Source, c: &mut Ctx) -> PResult {
    let block = (s.index % 17_408) as u32; // 0x110000 / 64
    let shape = s.below(6);
    c.input(&format!("code points {:#x}.., shape {shape}", block * 64));
    c.nt();
    let mut all: Vec<String> = Vec::new();
    for i in 0..64 {
        if let Some(ch) = char::from_u32(block * 64 + i) {
            all.push(match shape {
                0 => format!("{ch}"),
                1 => format!("a{ch}"),
                2 => format!("{ch}a"),
                3 => format!("a{ch}b"),
                4 => format!("a\n{ch}b"),
                _ => format!("- {ch}"),
            });
        }
    }
    if all.is_empty() {
        c.label("surrogates");
        return Ok(());
    }
    let text = ystr(&all)?;
    match serde_yaml::from_str::<Vec<String>>(&text) {
        Ok(g) => {
            if let Some(i) = (0..all.len()).find(|&i| g.get(i) != Some(&all[i])) {
                fail!("codepoint", "{:?} read back as {:?}", all[i], g.get(i));
            }
            ensure!(c, g.len() == all.len(), "codepoint-count", "{} vs {}", g.len(), all.len());
        }
        Err(e) => fail!("codepoint-error", "{e}\n{text}"),
    }
    if s.chance(1, 2) {
        let m: Vec<(String, i32)> = all.iter().cloned().zip(0..).collect();
        let mut map = serde_yaml::Mapping::new();
        for (k, v) in &m {
            map.insert(k.as_str().into(), (*v).into());
        }
        let text = ystr(&map)?;
        match serde_yaml::from_str::<serde_yaml::Mapping>(&text) {
            Ok(g) => {
                for (k, v) in &m {
                    ensure!(c, g.get(k.as_str()) == Some(&Value::from(*v)), "codepoint-key", "key {k:?} is gone from\n{text}");
                }
            }
            Err(e) => fail!("codepoint-key-error", "{e}\n{text}"),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

/// Reading `text` as every numeric type gives the number or an error, never
/// another number.
fn check_int_reads(c: &mut Ctx, text: &str, neg: bool, m: u128) -> PResult {
    let signed = scalar::signed(neg, m);
    macro_rules! t {
        ($t:ty, $name:expr) => {{
            let want: Option<$t> = signed.and_then(|x| <$t>::try_from(x).ok()).or_else(|| if neg && m != 0 { None } else { <$t>::try_from(m).ok() });
            let got = serde_yaml::from_str::<$t>(text);
            match (want, &got) {
                (Some(w), Ok(g)) => ensure!(c, w == *g, concat!("int-", $name), "{text:?} as {} gives {g}", $name),
                (None, Err(_)) => c.checked(),
                (Some(_), Err(e)) => fail!(concat!("int-rejected-", $name), "{text:?} as {} is rejected: {e}", $name),
                (None, Ok(g)) => fail!(concat!("int-wrapped-", $name), "{text:?} as {} gives {g}", $name),
            }
        }};
    }
    t!(i8, "i8");
    t!(i16, "i16");
    t!(i32, "i32");
    t!(i64, "i64");
    t!(i128, "i128");
    t!(u8, "u8");
    t!(u16, "u16");
    t!(u32, "u32");
    t!(u64, "u64");
    t!(u128, "u128");
    if neg && m > 1 << 127 {
        // An integer of no Rust type: as a Value a float or a string, like any
        // number beyond 128 bits.
        return Ok(());
    }
    // As a Value: exactly that integer, or an error when it does not fit.
    let fits = if neg && m != 0 { m <= 1 << 63 } else { m <= u64::MAX as u128 };
    match serde_yaml::from_str::<Value>(text) {
        Ok(v) => {
            let g = MV::of(&v);
            let w = MV::Int(signed.unwrap_or(i128::MAX));
            ensure!(c, fits && same(&g, &w), "int-value", "{text:?} as Value gives {v:?}");
            let (u, i) = (v.as_u64(), v.as_i64());
            ensure!(c, u == signed.and_then(|x| u64::try_from(x).ok()), "int-as_u64", "{text:?}: as_u64 {u:?}");
            ensure!(c, i == signed.and_then(|x| i64::try_from(x).ok()), "int-as_i64", "{text:?}: as_i64 {i:?}");
            // and from the Value to every width
            macro_rules! tv {
                ($t:ty, $name:expr) => {{
                    let want = signed.and_then(|x| <$t>::try_from(x).ok());
                    let got = serde_yaml::from_value::<$t>(v.clone());
                    match (want, &got) {
                        (Some(w), Ok(g)) => ensure!(c, w == *g, concat!("value-int-", $name), "{v:?} as {} gives {g}", $name),
                        (None, Err(_)) => c.checked(),
                        (Some(_), Err(e)) => fail!(concat!("value-int-rejected-", $name), "{v:?} as {}: {e}", $name),
                        (None, Ok(g)) => fail!(concat!("value-int-wrapped-", $name), "{v:?} as {} gives {g}", $name),
                    }
                }};
            }
            tv!(i8, "i8");
            tv!(i16, "i16");
            tv!(i32, "i32");
            tv!(i64, "i64");
            tv!(u8, "u8");
            tv!(u16, "u16");
            tv!(u32, "u32");
            tv!(u64, "u64");
        }
        Err(e) => ensure!(c, !fits, "int-value-rejected", "{text:?} as Value: {e}"),
    }
    Ok(())
}

fn c04_ints(s: &mut Source, c: &mut Ctx) -> PResult {
    let bits = *s.pick(&[32u8, 8, 16, 64, 128]);
    let signed = s.bool();
    let t = Ty::Int(bits, signed);
    let v = ty::gen_val(s, &t);
    let Val::Int(neg, m) = v else { unreachable!() };
    c.input(&format!("{} as {}", show_val(&v), show_ty(&t)));
    c.nt_if(m > 1000);
    c.label_if(m > u64::MAX as u128, "beyond-64-bit");
    let text = ystr(&TV(&t, &v))?;
    match ty::from_str(&t, &text) {
        Ok(g) => ensure!(c, veq(&g, &v), "int-roundtrip", "read back {} from {text:?}", show_val(&g)),
        Err(e) => fail!("int-roundtrip-error", "{e} from {text:?}"),
    }
    let shown = format!("{}{m}\n", if neg { "-" } else { "" });
    ensure!(c, text == shown, "int-text", "emitted {text:?}");
    check_int_reads(c, &text, neg, m)?;
    if m < 1 << 127 {
        let alt = writer::int_spelling(s, if neg { -(m as i128) } else { m as i128 });
        c.input(&alt);
        check_int_reads(c, &alt, neg, m)?;
        if let Ok(n) = alt.parse::<serde_yaml::Number>() {
            let want = scalar::signed(neg, m).unwrap();
            let ok = n.as_i64().map(i128::from) == Some(want) || n.as_u64().map(i128::from) == Some(want);
            ensure!(c, ok, "number-parse", "{alt:?} parses to Number {n:?}");
        } else {
            let fits = if neg { m <= 1 << 63 } else { m <= u64::MAX as u128 };
            ensure!(c, !fits, "number-parse-rejected", "{alt:?} is rejected by Number::from_str");
        }
    }
    Ok(())
}

/// Spellings near those of numbers: they are integers by the fixed grammar, or
/// no integer of any type.
fn c04_misspelled(s: &mut Source, c: &mut Ctx) -> PResult {
    const ALPHABET: &[char] = &['-', '+', '0', '1', '2', '7', '8', '9', 'a', 'f', 'F', 'x', 'o', 'b', 'X', 'O', 'B', '_', '.', 'e', '\u{661}'];
    let start = match s.below(4) {
        0 => gen::numberish(s),
        1 => s.pick(&["0x", "0o", "0b", "-0x", "-0o", "-0b", "+0x", "+0b", "-", "+", ""]).to_string(),
        _ => {
            let i = gen::value_int(s);
            writer::int_spelling(s, i)
        }
    };
    let mut t: Vec<char> = start.chars().collect();
    for _ in 0..s.range(1, 3) {
        let at = if s.chance(2, 3) { s.below(4).min(t.len()) } else { s.below(t.len() + 1) };
        let ch = *s.pick(ALPHABET);
        match s.below(5) {
            0 if at < t.len() => {
                t.remove(at);
            }
            1 if at < t.len() => t[at] = ch,
            2 if at < t.len() => t.swap(0, at),
            _ => t.insert(at, ch),
        }
    }
    let text: String = t.into_iter().collect();
    c.input(&text);
    match sole_scalar(&text) {
        Some((v, Style::Plain)) if v == text.as_bytes() => {}
        _ => return Ok(()),
    }
    c.nt();
    if let Some((neg, Some(m))) = scalar::integer(&text) {
        c.label("integer");
        return check_int_reads(c, &text, neg, m);
    }
    c.label("no-integer");
    macro_rules! t {
        ($($t:ty)*) => {$(
            let got = serde_yaml::from_str::<$t>(&text);
            ensure!(c, got.is_err(), concat!("no-int-", stringify!($t)), "{text:?} as {} gives {got:?}", stringify!($t));
        )*};
    }
    t!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);
    if let Ok(n) = text.parse::<serde_yaml::Number>() {
        ensure!(c, n.is_f64(), "no-int-number", "{text:?} parses to the Number {n:?}");
    }
    match serde_yaml::from_str::<Value>(&text) {
        Ok(v) => ensure!(c, !v.is_i64() && !v.is_u64(), "no-int-value", "{text:?} as Value gives {v:?}"),
        Err(_) => c.checked(),
    }
    Ok(())
}

fn c04_floats(s: &mut Source, c: &mut Ctx) -> PResult {
    let f = gen::f64s(s);
    c.input(&format!("{f:?}"));
    c.nt_if(f.fract() != 0.0 || !f.is_finite());
    c.label_if(!f.is_finite(), "non-finite");
    c.label_if(f.abs() >= 1e16 || (f != 0.0 && f.abs() < 1e-5), "exponent");
    let text = ystr(&f)?;
    let vtext = ystr(&Value::from(f))?;
    for t in [&text, &vtext] {
        match serde_yaml::from_str::<f64>(t) {
            Ok(g) => ensure!(c, feq(f, g), "f64-roundtrip", "read back {g:?} from {t:?}"),
            Err(e) => fail!("f64-roundtrip-error", "{e} from {t:?}"),
        }
        match serde_yaml::from_str::<Value>(t) {
            Ok(v) => ensure!(c, same(&MV::of(&v), &MV::Float(f)), "f64-value", "as Value: {v:?} from {t:?}"),
            Err(e) => fail!("f64-value-error", "{e} from {t:?}"),
        }
        // A float never comes back as an integer, even when integral.
        let i = serde_yaml::from_str::<i64>(t);
        ensure!(c, i.is_err(), "f64-as-int", "{t:?} as i64 gives {i:?}");
    }
    let n = serde_yaml::Number::from(f);
    match n.to_string().parse::<serde_yaml::Number>() {
        Ok(g) => ensure!(c, g.is_f64() && feq(g.as_f64().unwrap(), f), "f64-number", "{n} parses to {g:?}"),
        Err(e) => fail!("f64-number-error", "{n}: {e}"),
    }
    let g = f as f32;
    let t32 = ystr(&g)?;
    match serde_yaml::from_str::<f32>(&t32) {
        Ok(h) => ensure!(c, g.to_bits() == h.to_bits() || (g.is_nan() && h.is_nan()), "f32-roundtrip", "{g:?} read back {h:?} from {t32:?}"),
        Err(e) => fail!("f32-roundtrip-error", "{e} from {t32:?}"),
    }
    match serde_yaml::from_value::<f32>(serde_yaml::to_value(g).unwrap()) {
        Ok(h) => ensure!(c, g.to_bits() == h.to_bits() || (g.is_nan() && h.is_nan()), "f32-value", "{g:?} through a Value gives {h:?}"),
        Err(e) => fail!("f32-value-error", "{e}"),
    }
    let alt = writer::float_spelling(s, f);
    c.input(&alt);
    match serde_yaml::from_str::<f64>(&alt) {
        Ok(g) => ensure!(c, feq(f, g), "f64-spelling", "{alt:?} reads as {g:?}"),
        Err(e) => fail!("f64-spelling-error", "{alt:?}: {e}"),
    }
    match serde_yaml::from_str::<Value>(&alt) {
        Ok(v) => ensure!(c, same(&MV::of(&v), &MV::Float(f)), "f64-spelling-value", "{alt:?} as Value: {v:?}"),
        Err(e) => fail!("f64-spelling-value-error", "{alt:?}: {e}"),
    }
    // long decimal expansions: correct rounding and overflow to a non-number
    if s.chance(1, 4) {
        let mut d = String::new();
        for _ in 0..s.range(1, 40) {
            d.push((b'1' + s.below(9) as u8) as char);
        }
        d.push('.');
        for _ in 0..s.range(1, 30) {
            d.push((b'0' + s.below(10) as u8) as char);
        }
        if s.bool() {
            d.push_str(&format!("e{}", s.draw(700) as i64 - 350));
        }
        c.input(&d);
        c.label("long-decimal");
        let want: f64 = d.parse().unwrap();
        let got = serde_yaml::from_str::<f64>(&d);
        match got {
            Ok(g) => ensure!(c, want.is_finite() && feq(g, want), "f64-decimal", "{d} reads as {g:?}"),
            Err(e) => ensure!(c, want.is_infinite(), "f64-decimal-error", "{d}: {e}"),
        }
        match serde_yaml::from_str::<Value>(&d) {
            Ok(v) => {
                let w = if want.is_finite() { MV::Float(want) } else { MV::Str(d.clone()) };
                ensure!(c, same(&MV::of(&v), &w), "f64-decimal-value", "{d} as Value: {v:?}");
            }
            Err(e) => fail!("f64-decimal-value-error", "{d}: {e}"),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

/// The single node of a one-scalar document, if that is what the text is.
fn sole_scalar(text: &str) -> Option<(Vec<u8>, Style)> {
    let d = refyaml::documents(text.as_bytes());
    if d.len() != 1 || d[0].bad.is_some() {
        return None;
    }
    match &d[0].nodes[d[0].root].kind {
        Kind::Scalar(v, st) if d[0].nodes.len() == 1 => Some((v.clone(), *st)),
        _ => None,
    }
}

fn expect(c: &mut Ctx, text: &str, want: &Option<MV>, what: &str) -> PResult {
    let got = serde_yaml::from_str::<Value>(text);
    match (want, got) {
        (Some(w), Ok(g)) => {
            let g = MV::of(&g);
            ensure!(c, same(&g, w), format!("plain-{what}"), "{text:?} reads as {} instead of {}", show(&g), show(w));
        }
        (None, Err(_)) => c.checked(),
        (Some(w), Err(e)) => fail!(format!("plain-rejected-{what}"), "{text:?} is rejected ({e}) instead of {}", show(w)),
        (None, Ok(g)) => fail!(format!("plain-accepted-{what}"), "{text:?} reads as {g:?} though no Value can hold it"),
    }
    Ok(())
}

fn tagged_int(t: &str) -> Option<MV> {
    let (n, m) = scalar::int128(t)?;
    scalar::signed(n, m).filter(|v| *v <= u64::MAX as i128 && *v >= i64::MIN as i128).map(MV::Int)
}

fn check_plain(c: &mut Ctx, t: &str, ctx: usize) -> PResult {
    let want = scalar::value(t);
    // (On one line: where another begins, the position decides what is skipped.)
    let usable = !t.contains(['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}']) && matches!(sole_scalar(t), Some((v, Style::Plain)) if v == t.as_bytes());
    if usable {
        expect(c, t, &want, "top")?;
        // deserialize_any through other visitors agrees
        match (&want, serde_yaml::from_str::<serde_yaml::Number>(t)) {
            (Some(MV::Int(_) | MV::Float(_)), Err(e)) => fail!("plain-number", "{t:?} as Number: {e}"),
            (Some(MV::Null | MV::Bool(_) | MV::Str(_)), Ok(n)) => fail!("plain-number-from-other", "{t:?} as Number: {n:?}"),
            _ => c.checked(),
        }
        match (&want, serde_yaml::from_str::<bool>(t)) {
            (Some(MV::Bool(b)), Ok(g)) => ensure!(c, g == *b, "plain-bool", "{t:?} as bool: {g}"),
            (Some(MV::Bool(_)), Err(e)) => fail!("plain-bool-rejected", "{t:?}: {e}"),
            (_, Ok(g)) => fail!("plain-bool-from-other", "{t:?} as bool: {g}"),
            _ => c.checked(),
        }
        match (&want, serde_yaml::from_str::<Option<String>>(t)) {
            (Some(MV::Null), Ok(g)) => ensure!(c, g.is_none(), "plain-null-some", "{t:?} as Option<String>: {g:?}"),
            (_, Ok(g)) => ensure!(c, g.as_deref() == Some(t), "plain-some", "{t:?} as Option<String>: {g:?}"),
            (_, Err(e)) => fail!("plain-option-error", "{t:?}: {e}"),
        }
    }
    let w1 = |m: Option<MV>| m.map(|m| MV::Seq(vec![m]));
    match ctx {
        0 => {}
        1 if usable => {
            let text = format!("- {t}\n- {t}\n");
            let w = want.clone().map(|m| MV::Seq(vec![m.clone(), m]));
            if matches!(refyaml::documents(text.as_bytes()).first(), Some(d) if d.bad.is_none() && d.nodes.len() == 3) {
                expect(c, &text, &w, "item")?;
            }
        }
        2 if usable => {
            let text = format!("{t}: {t}\n");
            let d = refyaml::documents(text.as_bytes());
            if d.len() == 1 && d[0].bad.is_none() && d[0].nodes.len() == 3 {
                let w = want.clone().map(|m| MV::Map(vec![(m.clone(), m)]));
                expect(c, &text, &w, "key")?;
            }
        }
        3 if writer::plain_ok(t, true) => {
            expect(c, &format!("[{t}]"), &w1(want.clone()), "flow")?;
            expect(c, &format!("{{x: {t} }}"), &want.clone().map(|m| MV::Map(vec![(MV::str("x"), m)])), "flow-value")?;
        }
        4 if usable => {
            // a local tag keeps the resolution of the plain scalar
            let text = format!("!t {t}");
            let w = want.clone().map(|m| MV::Tag("t".into(), Box::new(m)));
            expect(c, &text, &w, "local-tag")?;
        }
        5 if usable && !t.is_empty() => {
            expect(c, &format!("!!str {t}"), &Some(MV::str(t)), "str-tag")?;
            expect(c, &format!("!!int {t}"), &tagged_int(t), "int-tag")?;
            expect(c, &format!("!!bool {t}"), &scalar::boolean(t).map(MV::Bool), "bool-tag")?;
            expect(c, &format!("!!null {t}"), &if scalar::is_null(t) { Some(MV::Null) } else { None }, "null-tag")?;
            expect(c, &format!("!!float {t}"), &scalar::float(t).map(MV::Float), "float-tag")?;
        }
        _ => {
            // quoted: always a string
            if t.chars().all(|ch| (' '..='~').contains(&ch)) {
                // with a core tag: of its type, or refused
                let forced: [(&str, Option<MV>); 5] = [
                    ("!!str", Some(MV::str(t))),
                    ("!!int", tagged_int(t)),
                    ("!!bool", scalar::boolean(t).map(MV::Bool)),
                    ("!!null", if scalar::is_null(t) && !t.is_empty() { Some(MV::Null) } else { None }),
                    ("!!float", scalar::float(t).map(MV::Float)),
                ];
                for (tag, w) in &forced {
                    expect(c, &format!("{tag} '{}'", t.replace('\'', "''")), w, "tagged-single")?;
                    expect(c, &format!("{tag} \"{}\"", t.replace('\\', "\\\\").replace('"', "\\\"")), w, "tagged-double")?;
                    if !t.is_empty() && !t.starts_with(' ') {
                        expect(c, &format!("{tag} |-\n  {t}\n"), w, "tagged-literal")?;
                        if !t.ends_with(' ') {
                            expect(c, &format!("{tag} >-\n  {t}\n"), w, "tagged-folded")?;
                        }
                    }
                }
                expect(c, &format!("'{}'", t.replace('\'', "''")), &Some(MV::str(t)), "single")?;
                expect(c, &format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\"")), &Some(MV::str(t)), "double")?;
                if !t.is_empty() && !t.starts_with(' ') {
                    expect(c, &format!("|-\n  {t}\n"), &Some(MV::str(t)), "literal")?;
                    if !t.ends_with(' ') {
                        expect(c, &format!(">-\n  {t}\n"), &Some(MV::str(t)), "folded")?;
                    }
                }
            }
        }
    }
    Ok(())
}

const ALPHA: &[u8] = b"0123789xobefnaiNltrus.+-_~E ";

fn c05_enumerated(s: &mut Source, c: &mut Ctx) -> PResult {
    // 28 symbols; each case covers one two-symbol prefix block of strings up
    // to length 4, split in parts.
    let n = ALPHA.len() as u64;
    let total = n + n * n + n * n * n + n * n * n * n;
    let part = total.div_ceil(60_000);
    let at = (s.index % 60_000) * part;
    let ctx = s.below(7);
    c.nt();
    let mut first = String::new();
    for i in at..(at + part).min(total) {
        let mut t = String::new();
        let (mut x, mut len) = (i, 1);
        let mut block = n;
        while x >= block {
            x -= block;
            block *= n;
            len += 1;
        }
        for _ in 0..len {
            t.push(ALPHA[(x % n) as usize] as char);
            x /= n;
        }
        if first.is_empty() {
            first = t.clone();
        }
        check_plain(c, &t, if i == at { ctx } else { 0 })?;
    }
    c.input(&format!("{part} strings from {first:?}"));
    Ok(())
}

/// Scalars that are alike, one after the other in one document.
fn c05_run(s: &mut Source, c: &mut Ctx) -> PResult {
    let mut t = if s.bool() { gen::numberish(s) } else { s.pick(gen::LOOKALIKES).to_string() };
    let mut list = Vec::new();
    for _ in 0..2 + s.below(6) {
        if writer::plain_ok(&t, true) && !t.is_empty() {
            list.push(t.clone());
        }
        // Another of mostly the same length.
        let mut v: Vec<char> = t.chars().collect();
        let at = s.below(v.len() + 1);
        let ch = *s.pick(&['0', '1', '9', '.', 'e', 'x', '-', '+', '_', 'o', 'a', 'E', 'f', 'n', 'N']);
        match s.weighted(&[8, 1, 1]) {
            0 if at < v.len() => v[at] = ch,
            1 if at < v.len() => {
                v.remove(at);
            }
            _ => v.insert(at, ch),
        }
        t = v.into_iter().collect();
    }
    let text = if s.bool() { format!("[{}]\n", list.join(" , ")) } else { list.iter().map(|t| format!("- {t}\n")).collect() };
    c.input(&format!("{text:?}"));
    c.label("run");
    let docs = refyaml::documents(text.as_bytes());
    let whole = docs.len() == 1 && docs[0].bad.is_none() && docs[0].nodes.len() == list.len() + 1;
    if !whole || list.len() < 2 {
        c.discard = true;
        return Ok(());
    }
    c.nt();
    let want: Option<Vec<MV>> = list.iter().map(|t| scalar::value(t)).collect();
    expect(c, &text, &want.map(MV::Seq), "run")
}

fn c05_generated(s: &mut Source, c: &mut Ctx) -> PResult {
    if s.chance(1, 6) {
        return c05_run(s, c);
    }
    let t = match s.weighted(&[5, 4, 2]) {
        0 => gen::numberish(s),
        1 => s.pick(gen::LOOKALIKES).to_string(),
        _ => gen::string(s),
    };
    let ctx = s.below(7);
    c.input(&format!("{t:?} context {ctx}"));
    c.nt_if(quoting(&t));
    c.label(match scalar::resolve(&t) {
        Sc::Null => "null",
        Sc::Bool(_) => "bool",
        Sc::Int(..) => "int",
        Sc::Float(_) => "float",
        Sc::Str => "str",
    });
    check_plain(c, &t, ctx)
}

// ---------------------------------------------------------------- C24

fn c24_written(s: &mut Source, c: &mut Ctx) -> PResult {
    let o = VOpts::full(s);
    let mut m = gen::value(s, &o);
    writer::share(s, &mut m);
    let w = writer::write(s, &m, W_ALL);
    c.input(&format!("{:?}", w.text));
    for f in &w.feats {
        c.label(f);
    }
    c.nt_if(w.feats.len() >= 3);
    // The writer is trusted only as far as the independent reading confirms it.
    match refyaml::single(&refyaml::documents(w.text.as_bytes())) {
        Ok(r) if same(&r, &m) => {}
        _ => {
            c.label("writer-miss");
            c.discard = true;
            return Ok(());
        }
    }
    match serde_yaml::from_str::<Value>(&w.text) {
        Ok(g) => ensure!(c, same(&MV::of(&g), &m), "presentation", "reads as {}\ninstead of {}\n{}", show(&MV::of(&g)), show(&m), w.text),
        Err(e) => fail!("presentation-error", "{e}\n{}", w.text),
    }
    Ok(())
}

/// The tree a typed value denotes.
pub fn lower(t: &Ty, v: &Val) -> MV {
    lowered(t, v, false)
}

/// The same, with the integers that a Value cannot hold as their digits.
pub fn lowered(t: &Ty, v: &Val, digits: bool) -> MV {
    let lower = |t: &Ty, v: &Val| lowered(t, v, digits);
    match (t, v) {
        (Ty::Bool, Val::Bool(b)) => MV::Bool(*b),
        (Ty::Int(..), Val::Int(n, m)) if digits && wide(*n, *m) => MV::Str(format!("{}{m}", if *n { "-" } else { "" })),
        (Ty::Int(..), Val::Int(n, m)) => MV::Int(scalar::signed(*n, *m).unwrap_or(i128::MAX)),
        (Ty::F32, Val::F32(f)) => MV::Float(*f as f64),
        (Ty::F64, Val::F64(f)) => MV::Float(*f),
        (Ty::Char, Val::Char(c)) => MV::Str(c.to_string()),
        (Ty::Str, Val::Str(s)) => MV::Str(s.clone()),
        (Ty::Opt(t), Val::Some(v)) => lower(t, v),
        (Ty::Seq(t), Val::Seq(v)) => MV::Seq(v.iter().map(|x| lower(t, x)).collect()),
        (Ty::Tuple(t) | Ty::TupleStruct(t), Val::Prod(v)) => MV::Seq(t.iter().zip(v).map(|(t, x)| lower(t, x)).collect()),
        (Ty::Map(k, t), Val::Map(v)) => MV::Map(v.iter().map(|(a, b)| (lower(k, a), lower(t, b))).collect()),
        (Ty::Newtype(t), Val::New(v)) => lower(t, v),
        (Ty::Struct(f), Val::Prod(v)) => MV::Map(f.iter().zip(v).map(|((n, t), x)| (MV::str(n), lower(t, x))).collect()),
        (Ty::Enum(vs), Val::Var(i, v)) => {
            let name = vs[*i].0;
            match (&vs[*i].1, &**v) {
                (ty::Var::Unit, _) => MV::str(name),
                (ty::Var::New(t), v) => MV::Tag(name.into(), Box::new(lower(t, v))),
                (ty::Var::Tuple(t), Val::Prod(v)) => MV::Tag(name.into(), Box::new(MV::Seq(t.iter().zip(v).map(|(t, x)| lower(t, x)).collect()))),
                (ty::Var::Struct(f), Val::Prod(v)) => MV::Tag(name.into(), Box::new(MV::Map(f.iter().zip(v).map(|((n, t), x)| (MV::str(n), lower(t, x))).collect()))),
                _ => unreachable!(),
            }
        }
        (Ty::Any, Val::Any(m)) => m.clone(),
        _ => MV::Null,
    }
}

/// Beyond the range of Number.
pub fn wide(neg: bool, m: u128) -> bool {
    m > if neg { 1 << 63 } else { u64::MAX as u128 }
}

/// Integers that only a typed read can hold.
pub fn big(m: &MV) -> bool {
    m.any(&mut |x| matches!(x, MV::Int(i) if *i > u64::MAX as i128 || *i < i64::MIN as i128))
}

fn c24_typed(s: &mut Source, c: &mut Ctx) -> PResult {
    let depth = 1 + (s.size / 25) as usize;
    let t = ty::gen_ty(s, &T_ALL, depth);
    let v = ty::gen_val(s, &t);
    if ty::any_ty(&t, &mut |t| matches!(t, Ty::Int(128, _))) {
        c.label("128-bit");
        c.discard = true;
        return Ok(());
    }
    let m = lower(&t, &v);
    let w = writer::write(s, &m, W_ALL);
    c.input(&format!("{} from {:?}", show_ty(&t), w.text));
    for f in &w.feats {
        c.label(f);
    }
    c.nt_if(w.feats.len() >= 3);
    match refyaml::single(&refyaml::documents(w.text.as_bytes())) {
        Ok(r) if same(&r, &m) => {}
        // Mappings with keys equal as Values but distinct as typed keys have
        // no Value; their text is still fine, but the writer is unconfirmed.
        _ => {
            c.label("writer-miss");
            c.discard = true;
            return Ok(());
        }
    }
    match ty::from_str(&t, &w.text) {
        Ok(g) => ensure!(c, veq(&g, &v), "typed-presentation", "reads as {}\ninstead of {}\n{}", show_val(&g), show_val(&v), w.text),
        Err(e) => fail!("typed-presentation-error", "{e}\n{}\nexpected {}", w.text, show_val(&v)),
    }
    Ok(())
}

fn c24_arbitrary(s: &mut Source, c: &mut Ctx) -> PResult {
    let b = if s.chance(1, 8) { fuzz::bytes(s) } else { fuzz::text(s).into_bytes() };
    c.input(&format!("{:?}", String::from_utf8_lossy(&b)));
    let docs = refyaml::documents(&b);
    let want = refyaml::single(&docs);
    match &want {
        Ok(m) => {
            c.label("valid");
            c.label_if(m.is_coll(), "valid-collection");
            c.nt_if(m.is_coll() || matches!(m, MV::Tag(..)));
        }
        Err(e) => c.label(match e {
            No::Bad if docs.len() > 1 => "several-documents",
            No::Bad => "malformed",
            No::Depth => "deep",
            No::Repetition => "repetition",
            No::Dup => "duplicate-key",
            No::BadScalar => "bad-scalar",
            No::EmptyTag => "empty-tag",
        }),
    }
    let got = serde_yaml::from_slice::<Value>(&b);
    if !b.starts_with(b"\xEF\xBB\xBF") && s.chance(1, 5) {
        // A byte order mark in front changes nothing.
        let mut marked = b"\xEF\xBB\xBF".to_vec();
        marked.extend_from_slice(&b);
        let other = serde_yaml::from_slice::<Value>(&marked);
        match (&got, &other) {
            (Ok(x), Ok(y)) => ensure!(c, same(&MV::of(x), &MV::of(y)), "bom-value", "{x:?}\nwith a byte order mark {y:?}"),
            (Err(x), Err(y)) => {
                let at = |e: &serde_yaml::Error| e.location().map(|l| (l.index(), l.line(), l.column()));
                ensure!(c, at(x).map(|(i, l, c)| (i + 3, l, c)) == at(y), "bom-location", "{x:?}: {:?}\nwith a byte order mark {:?}", at(x), at(y));
                let (x, y) = (x.to_string(), y.to_string());
                ensure!(c, x == y || y.contains("at position"), "bom-message", "{x}\nwith a byte order mark {y}");
            }
            _ => fail!("bom-outcome", "{got:?}\nwith a byte order mark {other:?}"),
        }
    }
    match (want, got) {
        (Ok(w), Ok(g)) => ensure!(c, same(&MV::of(&g), &w), "arbitrary-value", "reads as {}\ninstead of {}", show(&MV::of(&g)), show(&w)),
        (Err(_), Err(_)) => c.checked(),
        (Ok(w), Err(e)) => fail!("arbitrary-rejected", "rejected ({e}) instead of {}", show(&w)),
        (Err(e), Ok(g)) => fail!(format!("arbitrary-accepted-{e:?}").split('(').next().unwrap(), "accepted as {g:?}, expected an error ({e:?})"),
    }
    Ok(())
}

#[allow(unused)]
fn unused<T: Serialize + DeserializeOwned + Debug>() {}

/// Strings whose length does not fit the integers that the emitter counts
/// with. They are all NULs, untouched memory, so that they cost nothing.
fn c03_huge(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = match s.index % 4 {
        0 => (1usize << 31) - 1 + s.below(3),
        1 => (1 << 31) + s.below(1 << 30),
        _ => (1 << 32) + s.below(40),
    };
    let shape = s.below(4);
    c.input(&format!("a string of {n} NULs, shape {shape}"));
    c.nt();
    let big = String::from_utf8(vec![0; n]).unwrap();
    let mut out = Vec::new();
    let (r, least) = match shape {
        0 => (serde_yaml::to_writer(&mut out, &big), n),
        1 => (serde_yaml::to_writer(&mut out, &("first", &big, "last")), n + 9),
        2 => {
            let r = serde_yaml::to_writer(&mut out, &Value::String(big));
            (r, n)
        }
        _ => (serde_yaml::to_writer(&mut out, &Some(std::iter::once((&big, 1)).collect::<std::collections::BTreeMap<_, _>>())), n + 2),
    };
    if r.is_ok() {
        c.label("written");
        ensure!(c, out.len() >= least, "huge-string-cut", "only {} bytes are written: {:?}", out.len(), String::from_utf8_lossy(&out[..out.len().min(60)]));
    } else {
        c.label("refused");
        c.checked();
    }
    Ok(())
}
