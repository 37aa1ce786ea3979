//! What Values say about themselves, and what they are made from.

use super::values::{check_accessors, untag, untag_mut};
use crate::engine::*;
use crate::gen::{self, VOpts};
use crate::model::*;
use crate::{ensure, fail};
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};
use std::borrow::Cow;
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        level: "exploration",
        rule: "A case is a Value of any shape, nested tags included, every node of which is asked through every accessor, changed through the mutable ones, compared with primitives of all types near to and far from it, and printed (also into a formatter that fails); or plain Rust data converted in every way that there is. Non-trivial = the Value is a collection, tagged or a number, or the conversion is of a collection or a number.",
        assumptions: &[],
        subs: vec![
            Sub { name: "accessors", quick: 700_000, thorough: 20_000_000, f: c29_accessors },
            Sub { name: "conversions", quick: 1_500_000, thorough: 40_000_000, f: c29_conversions },
            Sub { name: "tags", quick: 1_000_000, thorough: 25_000_000, f: c29_tags },
        ],
    }]
}

/// Sprinkle tags, one over the other too.
fn tags(s: &mut Source, m: &mut MV) {
    match m {
        MV::Seq(v) => v.iter_mut().for_each(|x| tags(s, x)),
        MV::Map(v) => v.iter_mut().for_each(|x| tags(s, &mut x.1)),
        MV::Tag(_, x) => tags(s, x),
        _ => {}
    }
    if s.chance(1, 6) {
        let inner = std::mem::replace(m, MV::Null);
        *m = MV::Tag(gen::word(s).replace('!', ""), Box::new(inner));
        if matches!(m, MV::Tag(n, _) if n.is_empty()) {
            *m = match std::mem::replace(m, MV::Null) {
                MV::Tag(_, x) => MV::Tag("t".into(), x),
                x => x,
            };
        }
    }
}

fn walk(m: &MV, v: &Value, f: &mut dyn FnMut(&MV, &Value) -> PResult) -> PResult {
    f(m, v)?;
    match (m, v) {
        (MV::Seq(a), Value::Sequence(b)) => {
            for (x, y) in a.iter().zip(b) {
                walk(x, y, f)?;
            }
        }
        (MV::Map(a), Value::Mapping(b)) => {
            for (x, y) in a.iter().zip(b) {
                walk(&x.0, y.0, f)?;
                walk(&x.1, y.1, f)?;
            }
        }
        (MV::Tag(_, x), Value::Tagged(t)) => walk(x, &t.value, f)?,
        _ => {}
    }
    Ok(())
}

/// Comparison with primitives, whatever the value is.
fn compare(s: &mut Source, c: &mut Ctx, m: &MV, v: &Value) -> PResult {
    let u = untag(m);
    let i = match u {
        MV::Int(i) => Some(*i),
        _ => None,
    };
    let f = match u {
        MV::Int(i) => Some(*i as f64),
        MV::Float(f) => Some(*f),
        _ => None,
    };
    // A number in the neighbourhood, or any.
    let near: i128 = match (i, s.below(3)) {
        (Some(i), 0) => i,
        (Some(i), 1) => i + s.below(5) as i128 - 2,
        (None, 0 | 1) if f.is_some() => f.unwrap() as i64 as i128,
        _ => {
            let (n, m) = gen::int_in(s, i64::MIN as i128, u64::MAX as u128);
            if n {
                -(m as i128)
            } else {
                m as i128
            }
        }
    };
    let mut copy = v.clone();
    macro_rules! ints {
        ($($t:ty)*) => {$({
            let x = near as $t;
            let want = i == Some(x as i128);
            ensure!(c, (*v == x) == want && (v == x) == want, "eq-int", "{} == {x}{}", show(m), stringify!($t));
            let r = &mut copy;
            ensure!(c, (r == x) == want, "eq-int-mut", "{} == {x}{}", show(m), stringify!($t));
        })*};
    }
    ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
    let x = match s.below(3) {
        0 => near as f64,
        1 => f.unwrap_or(0.0),
        _ => gen::f64s(s),
    };
    let want = f.is_some_and(|f| f == x);
    ensure!(c, (*v == x) == want && (v == x) == want && (&mut copy == x) == want, "eq-float", "{} == {x:?}", show(m));
    let x = x as f32;
    let want = f.is_some_and(|f| f == f64::from(x));
    ensure!(c, (*v == x) == want && (v == x) == want && (&mut copy == x) == want, "eq-float32", "{} == {x:?}f32", show(m));
    for b in [true, false] {
        let want = matches!(u, MV::Bool(x) if *x == b);
        ensure!(c, (*v == b) == want, "eq-bool", "{} == {b}", show(m));
    }
    let own = if let MV::Str(t) = u { t.clone() } else { String::new() };
    let other = match s.below(4) {
        0 => own.clone(),
        1 => format!("{own} "),
        2 => own.chars().skip(1).collect(),
        _ => match u {
            MV::Int(i) => i.to_string(),
            MV::Bool(b) => b.to_string(),
            MV::Null => "null".into(),
            _ => gen::word(s),
        },
    };
    let want = matches!(u, MV::Str(t) if *t == other);
    ensure!(c, (*v == other) == want && (*v == other.as_str()) == want && (*v == *other.as_str()) == want, "eq-str", "{} == {other:?}", show(m));
    Ok(())
}

/// Accepts so many bytes.
struct Short(usize);
impl fmt::Write for Short {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        match self.0.checked_sub(t.len()) {
            Some(n) => {
                self.0 = n;
                Ok(())
            }
            None => Err(fmt::Error),
        }
    }
}

fn printing(s: &mut Source, c: &mut Ctx, v: &Value) -> PResult {
    let mut one = String::new();
    ensure!(c, write!(one, "{v:?}").is_ok() && !one.is_empty(), "debug-fails", "{one}");
    let mut more = String::new();
    ensure!(c, write!(more, "{v:#?}").is_ok() && !more.is_empty(), "debug-fails", "{more}");
    let n = s.below(one.len());
    ensure!(c, write!(Short(n), "{v:?}").is_err() && write!(Short(one.len()), "{v:?}").is_ok(), "debug-into-short", "of {} bytes, {n} fit: {one}", one.len());
    if let Value::Mapping(m) = v {
        ensure!(c, format!("{m:?}") == one, "debug-mapping", "{m:?} against {one}");
    }
    if let Value::Tagged(t) = v {
        ensure!(c, format!("{t:?}") == one, "debug-tagged", "{t:?} against {one}");
    }
    Ok(())
}

fn c29_accessors(s: &mut Source, c: &mut Ctx) -> PResult {
    let o = VOpts { nest: true, ..VOpts::full(s) };
    let mut m = gen::value(s, &o);
    if s.bool() {
        tags(s, &mut m);
    }
    c.input(&show(&m));
    c.nt_if(!matches!(m, MV::Null | MV::Bool(_) | MV::Str(_)));
    c.label_if(matches!(&m, MV::Tag(_, x) if matches!(**x, MV::Tag(..))), "tag-of-tag");
    let v = m.to_value();
    // Every node, those in keys too.
    walk(&m, &v, &mut |m, v| {
        check_accessors(c, m, v)?;
        compare(s, c, m, v)?;
        let u = untag(m);
        match (v.as_sequence(), u) {
            (Some(x), MV::Seq(y)) => ensure!(c, x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(&MV::of(p), q)), "as_sequence", "{}", show(m)),
            (None, MV::Seq(_)) | (Some(_), _) => fail!("as_sequence", "{}", show(m)),
            _ => {}
        }
        match (v.as_mapping(), u) {
            (Some(x), MV::Map(_)) => ensure!(c, same(&MV::of(&Value::Mapping(x.clone())), u), "as_mapping", "{}", show(m)),
            (None, MV::Map(_)) | (Some(_), _) => fail!("as_mapping", "{}", show(m)),
            _ => {}
        }
        let kinds = [v.is_null(), v.is_bool(), v.is_number(), v.is_string(), v.is_sequence(), v.is_mapping()];
        ensure!(c, kinds.iter().filter(|k| **k).count() == 1, "one-kind", "{kinds:?} of {}", show(m));
        ensure!(c, v.is_number() == v.as_f64().is_some() && v.is_number() == (v.is_i64() || v.is_u64() || v.is_f64()), "number-kinds", "{}", show(m));
        Ok(())
    })?;
    printing(s, c, &v)?;
    // Through the mutable ones.
    let mut w = v.clone();
    let extra = gen::scalar(s, &o);
    let seq = w.as_sequence_mut().map(|q| q.push(extra.to_value())).is_some();
    let key = gen::scalar(s, &o);
    let map = w.as_mapping_mut().map(|q| q.insert(key.to_value(), extra.to_value())).is_some();
    ensure!(c, seq == matches!(untag(&m), MV::Seq(_)) && map == matches!(untag(&m), MV::Map(_)), "as_mut", "{} sequence {seq} mapping {map}", show(&m));
    let mut n = m.clone();
    match untag_mut(&mut n) {
        MV::Seq(x) => x.push(extra.clone()),
        MV::Map(x) => match x.iter_mut().find(|e| loosely(&e.0, &key)) {
            Some(e) => e.1 = extra.clone(),
            None => x.push((key.clone(), extra.clone())),
        },
        _ => {}
    }
    ensure!(c, same(&MV::of(&w), &n), "as_mut-change", "{w:?} instead of {}", show(&n));
    if seq || map {
        c.label("changed");
    }
    Ok(())
}

fn number(s: &mut Source) -> i128 {
    let (n, m) = gen::int_in(s, i64::MIN as i128, u64::MAX as u128);
    if n {
        -(m as i128)
    } else {
        m as i128
    }
}

fn c29_conversions(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = number(s);
    let kind = s.below(17);
    let mut len = 0;
    while s.more(len, 3, 8) {
        len += 1;
    }
    let is = |c: &mut Ctx, what: &str, got: Value, want: MV| -> PResult {
        ensure!(c, same(&MV::of(&got), &want), "conversion", "{what}: {got:?} instead of {}", show(&want));
        Ok(())
    };
    macro_rules! int {
        ($t:ty) => {{
            let x = n as $t;
            let want = MV::Int(x as i128);
            c.input(&format!("{x}{}", stringify!($t)));
            c.nt();
            is(c, "Value::from", Value::from(x), want.clone())?;
            is(c, "Number::from", Value::Number(Number::from(x)), want.clone())?;
            is(c, "to_value", serde_yaml::to_value(x).unwrap(), want.clone())?;
            ensure!(c, Value::from(x) == x, "conversion-equal", "{x}");
            let v: Vec<$t> = (0..len).map(|i| x.wrapping_add(i as $t)).collect();
            let all = MV::Seq(v.iter().map(|x| MV::Int(*x as i128)).collect());
            is(c, "from Vec", Value::from(v.clone()), all.clone())?;
            is(c, "from slice", Value::from(&v[..]), all.clone())?;
            is(c, "collect", v.iter().copied().collect(), all.clone())?;
            is(c, "collect filtered", v.iter().copied().filter(|_| true).collect(), all)?;
        }};
    }
    match kind {
        0 => int!(i8),
        1 => int!(i16),
        2 => int!(i32),
        3 => int!(i64),
        4 => int!(isize),
        5 => int!(u8),
        6 => int!(u16),
        7 => int!(u32),
        8 => int!(u64),
        9 => int!(usize),
        10 => {
            let f = gen::f64s(s);
            c.input(&format!("{f:?}f64"));
            c.nt();
            is(c, "f64", Value::from(f), MV::Float(f))?;
            is(c, "Number", Value::Number(Number::from(f)), MV::Float(f))?;
            is(c, "Vec", Value::from(vec![f; len]), MV::Seq(vec![MV::Float(f); len]))?;
            if f.is_nan() {
                let x = Number::from(f).as_f64().unwrap();
                ensure!(c, x.is_nan() && x.to_bits() == Number::from(-f).as_f64().unwrap().to_bits(), "one-nan", "{x:?}");
            }
        }
        11 => {
            let f = if s.bool() { gen::f64s(s) as f32 } else { f32::from_bits(s.draw(1 << 32) as u32) };
            c.input(&format!("{f:?}f32"));
            c.nt();
            is(c, "f32", Value::from(f), MV::Float(f.into()))?;
            is(c, "Number", Value::Number(Number::from(f)), MV::Float(f.into()))?;
        }
        12 => {
            let b = s.bool();
            c.input(&format!("{b}"));
            is(c, "bool", Value::from(b), MV::Bool(b))?;
            is(c, "Vec", Value::from(vec![b; len]), MV::Seq(vec![MV::Bool(b); len]))?;
            is(c, "default", Value::default(), MV::Null)?;
            ensure!(c, Value::from(b) == b, "conversion-equal", "{b}");
        }
        13 => {
            let t = gen::string(s);
            c.input(&format!("{t:?}"));
            c.nt_if(len > 0);
            let want = MV::Str(t.clone());
            is(c, "&str", Value::from(t.as_str()), want.clone())?;
            is(c, "String", Value::from(t.clone()), want.clone())?;
            is(c, "borrowed Cow", Value::from(Cow::Borrowed(t.as_str())), want.clone())?;
            is(c, "owned Cow", Value::from(Cow::<str>::Owned(t.clone())), want.clone())?;
            is(c, "Vec", Value::from(vec![t.clone(); len]), MV::Seq(vec![want.clone(); len]))?;
            is(c, "slice", Value::from(&vec![t.as_str(); len][..]), MV::Seq(vec![want.clone(); len]))?;
            is(c, "chars", t.chars().map(|c| c.to_string()).collect(), MV::Seq(t.chars().map(|c| MV::Str(c.to_string())).collect()))?;
            ensure!(c, Value::from(t.as_str()) == t, "conversion-equal", "{t:?}");
        }
        _ => {
            let o = VOpts { max_depth: 2, nest: true, ..VOpts::full(s) };
            let v: Vec<MV> = (0..len).map(|_| gen::value(s, &o)).collect();
            c.input(&v.iter().map(show).collect::<Vec<_>>().join(", "));
            c.nt_if(len > 0);
            let real: Vec<Value> = v.iter().map(|x| x.to_value()).collect();
            let want = MV::Seq(v.clone());
            is(c, "Vec<Value>", Value::from(real.clone()), want.clone())?;
            is(c, "&[Value]", Value::from(&real[..]), want.clone())?;
            is(c, "collect", real.iter().cloned().collect(), want.clone())?;
            is(c, "Vec<Vec<Value>>", Value::from(vec![real.clone(), vec![]]), MV::Seq(vec![want, MV::Seq(vec![])]))?;
            // A mapping, from pairs; the last of equal keys counts, in the
            // first one's place.
            let mut pairs: Vec<(MV, MV)> = Vec::new();
            for p in v.chunks(2) {
                let (k, x) = (p[0].clone(), p.last().unwrap().clone());
                match pairs.iter_mut().find(|e| loosely(&e.0, &k)) {
                    Some(e) => e.1 = x,
                    None => pairs.push((k, x)),
                }
            }
            let m: Mapping = real.chunks(2).map(|p| (p[0].clone(), p.last().unwrap().clone())).collect();
            is(c, "Mapping", Value::from(m.clone()), MV::Map(pairs.clone()))?;
            let mut grown = Mapping::with_capacity(len);
            grown.extend(m);
            is(c, "extended Mapping", Value::Mapping(grown), MV::Map(pairs))?;
        }
    }
    Ok(())
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn c29_tags(s: &mut Source, c: &mut Ctx) -> PResult {
    let pool: Vec<String> = (0..3)
        .map(|_| {
            let w = match s.below(4) {
                0 => gen::string(s),
                1 => gen::word(s),
                2 => s.pick(&["a", "b", "ab", "é", "!", "!!", "a!", "int", "!a"]).to_string(),
                _ => "x".into(),
            };
            if w.is_empty() {
                "y".into()
            } else {
                w
            }
        })
        .collect();
    c.input(&format!("{pool:?}"));
    c.nt_if(pool[0] != pool[1]);
    // The leading '!' is not significant, unless it is all there is.
    let bare = |t: &str| match t.strip_prefix('!') {
        Some("") | None => t.to_string(),
        Some(t) => t.to_string(),
    };
    for a in &pool {
        let ta = Tag::new(a.as_str());
        let shown = format!("!{}", bare(a));
        ensure!(c, ta.to_string() == shown && format!("{ta:?}") == shown, "tag-display", "{ta} instead of {shown}");
        let banged = Tag::new(format!("!{a}"));
        if !a.starts_with('!') {
            ensure!(c, banged == ta && ta == banged && hash(&banged) == hash(&ta) && banged.cmp(&ta).is_eq(), "tag-bang", "{banged:?} and {ta:?}");
            ensure!(c, banged == *a && banged == a.as_str() && ta == format!("!{a}"), "tag-bang-str", "{a:?}");
        }
        for b in &pool {
            let tb = Tag::new(b.clone());
            let want = bare(a) == bare(b);
            ensure!(c, (ta == tb) == want && (ta == *b) == want && (ta == b.as_str()) == want, "tag-equal", "{a:?} {b:?}");
            ensure!(c, ta.cmp(&tb) == bare(a).cmp(&bare(b)) && ta.partial_cmp(&tb) == Some(ta.cmp(&tb)), "tag-order", "{a:?} {b:?}");
            ensure!(c, !want || hash(&ta) == hash(&tb), "tag-hash", "{a:?} {b:?}");
        }
        // Through a Value and back.
        let v = Value::Tagged(Box::new(TaggedValue { tag: ta.clone(), value: Value::from(a.as_str()) }));
        ensure!(c, v.as_str() == Some(a) && v == *a, "tagged-content", "{v:?}");
        // Both go by the displayed tag, of which one '!' is dropped again.
        if a.starts_with("!!") {
            continue;
        }
        let x = match serde_yaml::to_value(&v) {
            Ok(x) => x,
            Err(e) => fail!("tagged-to_value", "{v:?}: {e}"),
        };
        ensure!(c, x == v, "tagged-to_value", "{x:?} instead of {v:?}");
        let t: TaggedValue = match serde_yaml::from_value(v.clone()) {
            Ok(t) => t,
            Err(e) => fail!("tagged-from_value", "{v:?}: {e}"),
        };
        ensure!(c, t.tag == ta && t.value == *a, "tagged-from_value", "{t:?} from {v:?}");
    }
    // An empty one does not exist.
    ensure!(c, caught(|| Tag::new("")).is_err(), "empty-tag", "made");
    Ok(())
}
