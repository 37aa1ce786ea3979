//! C12 conversion, C13 owned and borrowed, C14 mapping model, C15 laws,
//! C16 indexing, C17 merge keys, C27 numbers.

use super::derive::{derived, Body};
use super::ystr;
use crate::engine::*;
use crate::gen::{self, VOpts};
use crate::model::{feq, loosely, same, show, MV};
use crate::scalar;
use super::trace::Script;
use crate::ty::{self, show_ty, show_val, veq, TOpts, Ty, Val, TV, T_ALL};
use crate::{ensure, fail};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_yaml::mapping::Entry;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};
use std::cmp::Ordering;
use std::fmt::Debug;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            level: "exploration",
            rule: "A case is a random schema with a random value of it, or a value of one of the derived types, converted to a Value and back and compared with the text round trip; non-trivial = it has a collection or an enum.",
            assumptions: &["Integers beyond the 64-bit range are held by a Value as the string of their digits and are not converted back; 32-bit floats widen, so they are left out of the comparison with the text."],
            subs: vec![
                Sub { name: "dynamic", quick: 3_000_000, thorough: 75_000_000, f: c12_dynamic },
                Sub { name: "derive", quick: 1_200_000, thorough: 30_000_000, f: c12_derive },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c12 },
            ],
        },
        Prop {
            id: "C13",
            level: "exploration",
            rule: "A case is a random schema and a Value that fits it, nearly fits it (a few edits) or is unrelated, read both from the owned Value and from a reference to it; non-trivial = the Value has a collection or tag.",
            assumptions: &[],
            subs: vec![
                Sub { name: "agree", quick: 4_500_000, thorough: 110_000_000, f: c13_agree },
                Sub { name: "derive", quick: 600_000, thorough: 15_000_000, f: c13_derive },
                Sub { name: "trace", quick: 1_000_000, thorough: 25_000_000, f: c13_trace },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c13 },
            ],
        },
        Prop {
            id: "C14",
            level: "exploration",
            rule: "A case is a random sequence of Mapping operations over a small pool of keys of every kind, compared step by step with a list of pairs; non-trivial = at least five operations of which one removed an entry.",
            assumptions: &[],
            subs: vec![
                Sub { name: "history", quick: 3_000_000, thorough: 75_000_000, f: c14_history },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c14 },
            ],
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "A case is three related Values (copies with permuted mappings, altered zeros and NaNs, small edits); non-trivial = a pair is equal without being the same tree, or differs in one place.",
            assumptions: &[],
            subs: vec![
                Sub { name: "laws", quick: 2_000_000, thorough: 50_000_000, f: c15_laws },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c15 },
            ],
        },
        Prop {
            id: "C16",
            level: "exploration",
            rule: "A case is a random Value and a list of lookups and assignments along random paths of string, integer and Value keys, compared with a model; non-trivial = at least one lookup finds something.",
            assumptions: &[],
            subs: vec![
                Sub { name: "paths", quick: 4_000_000, thorough: 100_000_000, f: c16_paths },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c16 },
            ],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "A case is a random Value with `<<` keys over mappings, sequences of mappings, nested merges, and misuse, merged and compared with a recursive reference; non-trivial = a merge key is present.",
            assumptions: &["The order of entries after a merge is not specified."],
            subs: vec![
                Sub { name: "tree", quick: 3_000_000, thorough: 75_000_000, f: c17_tree },
                Sub { name: "text", quick: 800_000, thorough: 20_000_000, f: c17_text },
                Sub { name: "large", quick: 96, thorough: 4_000, f: super::scale::c17 },
            ],
        },
        Prop {
            id: "C27",
            level: "exploration",
            rule: "A case is a pair of numbers (integers of any magnitude clustered at type boundaries, floats by bits) and their spellings; non-trivial = not both small non-negative integers.",
            assumptions: &[],
            subs: vec![
                Sub { name: "numbers", quick: 4_000_000, thorough: 100_000_000, f: c27_numbers },
                Sub { name: "parse", quick: 4_000_000, thorough: 100_000_000, f: c27_parse },
            ],
        },
    ]
}

// ---------------------------------------------------------------- C12

pub const T_VALUE: TOpts = TOpts { big_ints: true, nested_enum: true, bytes: true, ..T_ALL };

fn structured(t: &Ty) -> bool {
    ty::any_ty(t, &mut |t| matches!(t, Ty::Seq(_) | Ty::Map(..) | Ty::Struct(_) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Enum(_)))
}

fn c12_dynamic(s: &mut Source, c: &mut Ctx) -> PResult {
    let depth = 1 + (s.size / 25) as usize;
    let t = ty::gen_ty(s, &T_VALUE, depth);
    let v = ty::gen_val(s, &t);
    c.input(&format!("{} = {}", show_ty(&t), show_val(&v)));
    c.nt_if(structured(&t));
    let x = match serde_yaml::to_value(TV(&t, &v)) {
        Ok(x) => x,
        Err(e) => fail!("to_value-error", "{e}"),
    };
    let over = wide(&v);
    c.label_if(over, "beyond-64-bit");
    let lossless = lossless_keys(&t);
    let want = super::text::lowered(&t, &v, true);
    let bytes = ty::any_ty(&t, &mut |t| matches!(t, Ty::Bytes));
    if lossless {
        // Bytes are the only type whose tree is not the plain reading of the schema.
        if !bytes {
            ensure!(c, same(&MV::of(&x), &want), "to_value", "to_value gives {x:?}\ninstead of {}", show(&want));
        }
        for (kind, r) in [("value", ty::from_value(&t, x.clone())), ("value-ref", ty::from_value_ref(&t, &x))] {
            match r {
                Ok(g) => ensure!(c, veq(&g, &v), format!("{kind}-roundtrip"), "read back {}\nfrom {x:?}", show_val(&g)),
                Err(_) if over => c.checked(),
                Err(e) => fail!(format!("from_{kind}-error"), "{e}\nfrom {x:?}"),
            }
        }
    } else {
        c.label("keys-may-collapse");
    }
    // The text and the Value denote the same thing.
    let f32s = ty::any_ty(&t, &mut |t| matches!(t, Ty::F32));
    if !f32s && !bytes && lossless {
        match serde_yaml::to_string(&TV(&t, &v)) {
            Ok(text) => {
                c.label("text");
                match serde_yaml::from_str::<Value>(&text) {
                    Ok(y) => ensure!(c, !over && same(&MV::of(&x), &MV::of(&y)), "text-differs", "to_value {x:?}\ntext {y:?}\n{text}"),
                    // no Value holds the integers of the text
                    Err(_) if over => c.checked(),
                    Err(e) => fail!("text-error", "{e}\n{text}"),
                }
            }
            Err(e) => {
                // Only nested enums have no text.
                c.label("no-text");
                ensure!(c, e.to_string().contains("nested enums"), "text-only-error", "{e}");
            }
        }
    }
    Ok(())
}

/// Holds an integer that a Value cannot.
fn wide(v: &Val) -> bool {
    match v {
        Val::Int(n, m) => super::text::wide(*n, *m),
        Val::Some(v) | Val::New(v) | Val::Var(_, v) => wide(v),
        Val::Seq(v) | Val::Prod(v) => v.iter().any(wide),
        Val::Map(v) => v.iter().any(|(a, b)| wide(a) || wide(b)),
        _ => false,
    }
}

/// Keys of distinct typed values that are equal as Values would merge (0.0 and
/// -0.0), which is the documented equality of Value.
pub fn lossless_keys(t: &Ty) -> bool {
    fn floaty(t: &Ty) -> bool {
        ty::any_ty(t, &mut |t| matches!(t, Ty::F32 | Ty::F64 | Ty::Any))
    }
    // mapping keys are compared without order, too
    fn mappy(t: &Ty) -> bool {
        ty::any_ty(t, &mut |t| matches!(t, Ty::Map(..)))
    }
    !ty::any_ty(t, &mut |t| matches!(t, Ty::Map(k, _) if floaty(k) || mappy(k)))
}

struct ValueRound<'a>(&'a mut Ctx);
impl Body for ValueRound<'_> {
    fn run<T: Serialize + DeserializeOwned + Debug + PartialEq>(&mut self, _s: &mut Source, name: &'static str, v: T) -> PResult {
        let c = &mut *self.0;
        c.input(&format!("{name} {v:?}"));
        c.label(name);
        c.nt();
        // these hold integers that no Value can
        let over = name == "wide-ints";
        let x = match serde_yaml::to_value(&v) {
            Ok(x) => x,
            Err(e) => fail!(format!("derived-to_value-error-{name}"), "{e}"),
        };
        match serde_yaml::from_value::<T>(x.clone()) {
            Ok(g) => ensure!(c, g == v, format!("derived-value-roundtrip-{name}"), "read back {g:?}\nfrom {x:?}"),
            Err(_) if over => c.checked(),
            Err(e) => fail!(format!("derived-from_value-error-{name}"), "{e}\nfrom {x:?}"),
        }
        match T::deserialize(&x) {
            Ok(g) => ensure!(c, g == v, format!("derived-value-ref-roundtrip-{name}"), "read back {g:?}\nfrom {x:?}"),
            Err(_) if over => c.checked(),
            Err(e) => fail!(format!("derived-from_value-ref-error-{name}"), "{e}\nfrom {x:?}"),
        }
        let text = ystr(&v)?;
        match serde_yaml::from_str::<Value>(&text) {
            Ok(y) => ensure!(c, x == y, format!("derived-text-differs-{name}"), "to_value {x:?}\ntext {y:?}\n{text}"),
            Err(_) if over => c.checked(),
            Err(e) => fail!(format!("derived-text-error-{name}"), "{e}\n{text}"),
        }
        Ok(())
    }
}

fn c12_derive(s: &mut Source, c: &mut Ctx) -> PResult {
    derived(s, &mut ValueRound(c))
}

// ---------------------------------------------------------------- C13

/// A small change somewhere in the tree.
pub fn edit(s: &mut Source, m: &mut MV) {
    let n = m.nodes();
    let mut at = s.below(n) as i64;
    fn walk<'a>(m: &'a mut MV, at: &mut i64) -> Option<&'a mut MV> {
        if *at == 0 {
            return Some(m);
        }
        *at -= 1;
        match m {
            MV::Seq(v) => {
                for x in v {
                    if let Some(r) = walk(x, at) {
                        return Some(r);
                    }
                }
                None
            }
            MV::Map(v) => {
                for (k, x) in v {
                    if let Some(r) = walk(k, at) {
                        return Some(r);
                    }
                    if let Some(r) = walk(x, at) {
                        return Some(r);
                    }
                }
                None
            }
            MV::Tag(_, v) => walk(v, at),
            _ => None,
        }
    }
    let Some(x) = walk(m, &mut at) else { return };
    let o = VOpts { max_depth: 1, max_len: 3, tags: true, floats: true, any_keys: true, nest: false };
    match (s.below(7), x) {
        (0, x) => *x = gen::value(s, &o),
        (1, MV::Seq(v)) => v.push(gen::value(s, &o)),
        (2, MV::Seq(v)) => {
            v.pop();
        }
        (1 | 3, MV::Map(v)) => v.push((MV::Str(gen::word(s)), gen::value(s, &o))),
        (2, MV::Map(v)) => {
            if !v.is_empty() {
                let i = s.below(v.len());
                v.remove(i);
            }
        }
        (4, MV::Map(v)) if v.len() > 1 => v.swap(0, 1),
        (_, x @ MV::Tag(..)) => {
            if let MV::Tag(_, i) = x {
                let i = (**i).clone();
                if !matches!(i, MV::Tag(..)) || s.bool() {
                    *x = i;
                }
            }
        }
        (5, x) if !matches!(x, MV::Tag(..)) => *x = MV::Tag(ty::variant_name(s).trim_start_matches('!').to_string() + "x", Box::new(x.clone())),
        (6, MV::Str(t)) => t.push('x'),
        (_, x) => *x = gen::scalar(s, &o),
    }
}

fn c13_agree(s: &mut Source, c: &mut Ctx) -> PResult {
    let depth = 1 + (s.size / 25) as usize;
    let t = ty::gen_ty(s, &T_VALUE, depth);
    let mut m = match s.below(8) {
        0 => gen::value(s, &VOpts { nest: true, ..VOpts::full(s) }),
        _ => {
            let v = ty::gen_val(s, &t);
            match serde_yaml::to_value(TV(&t, &v)) {
                Ok(x) => MV::of(&x),
                Err(e) => fail!("to_value-error", "{e}"),
            }
        }
    };
    let edits = s.below(4);
    for _ in 0..edits {
        edit(s, &mut m);
    }
    let x = m.to_value();
    c.input(&format!("{} from {}", show_ty(&t), show(&m)));
    c.nt_if(m.is_coll() || matches!(m, MV::Tag(..)));
    let a = ty::from_value(&t, x.clone());
    let b = ty::from_value_ref(&t, &x);
    match (&a, &b) {
        (Ok(p), Ok(q)) => {
            c.label("both-accept");
            ensure!(c, veq(p, q), "owned-ref-value", "owned gives {}\nreference gives {}", show_val(p), show_val(q));
        }
        (Err(d), Err(e)) => {
            c.label("both-reject");
            ensure!(c, d.to_string() == e.to_string(), "owned-ref-message", "owned fails: {d}\nreference fails: {e}");
        }
        (Ok(p), Err(e)) => fail!("ref-rejects", "owned gives {}\nreference fails: {e}", show_val(p)),
        (Err(e), Ok(p)) => fail!("owned-rejects", "reference gives {}\nowned fails: {e}", show_val(p)),
    }
    ensure!(c, same(&MV::of(&x), &MV::of(&m.to_value())), "reading-changes-value", "the Value changed while being read");
    // Reading a Value as a Value is the identity.
    match Value::deserialize(&x) {
        Ok(y) => ensure!(c, same(&MV::of(&y), &MV::of(&x)), "value-of-ref", "{y:?} from {x:?}"),
        Err(e) => fail!("value-of-ref-error", "{e} from {x:?}"),
    }
    match serde_yaml::from_value::<Value>(x.clone()) {
        Ok(y) => ensure!(c, same(&MV::of(&y), &MV::of(&x)), "value-of-owned", "{y:?} from {x:?}"),
        Err(e) => fail!("value-of-owned-error", "{e} from {x:?}"),
    }
    Ok(())
}

/// The same requests to a Value and to a reference to it get the same
/// answers, whatever is asked for.
fn c13_trace(s: &mut Source, c: &mut Ctx) -> PResult {
    let m = match s.below(3) {
        0 => gen::value(s, &VOpts { nest: true, ..VOpts::full(s) }),
        _ => {
            let t = ty::gen_ty(s, &T_VALUE, 1 + (s.size / 25) as usize);
            let v = ty::gen_val(s, &t);
            match serde_yaml::to_value(TV(&t, &v)) {
                Ok(x) => MV::of(&x),
                Err(e) => fail!("to_value-error", "{e}"),
            }
        }
    };
    let x = m.to_value();
    c.input(&show(&m));
    c.nt_if(m.is_coll() || matches!(m, MV::Tag(..)));
    let script = Script::draw(s);
    let (a, p) = script.run(x.clone());
    let (b, q) = script.run(&x);
    ensure!(c, a == b, "owned-ref-calls", "owned says {a}\nreference says {b}");
    c.label(if p.is_ok() { "trace-ok" } else { "trace-error" });
    let (p, q) = (p.map_err(|e| e.to_string()), q.map_err(|e| e.to_string()));
    ensure!(c, p == q, "owned-ref-outcome", "owned gives {p:?}\nreference gives {q:?} after {a}");
    match &x {
        Value::Tagged(t) => {
            let (d, p) = script.run((**t).clone());
            let (e, q) = script.run(&**t);
            ensure!(c, d == e, "tagged-owned-ref-calls", "an owned TaggedValue says {d}\nreference says {e}");
            let (p, q) = (p.map_err(|e| e.to_string()), q.map_err(|e| e.to_string()));
            ensure!(c, p == q, "tagged-owned-ref-outcome", "owned TaggedValue gives {p:?}\nreference gives {q:?} after {d}");
            match (TaggedValue::deserialize(&x), serde_yaml::from_value::<TaggedValue>(x.clone())) {
                (Ok(p), Ok(q)) => ensure!(c, same(&MV::of(&Value::Tagged(Box::new(p))), &m) && same(&MV::of(&Value::Tagged(Box::new(q))), &m), "tagged-identity", "{x:?} is not itself as a TaggedValue"),
                (p, q) => fail!("tagged-refused", "{p:?} {q:?}"),
            }
        }
        Value::Number(n) => {
            let (d, p) = script.run(n.clone());
            let (e, q) = script.run(n);
            ensure!(c, d == e, "number-owned-ref-calls", "an owned Number says {d}\nreference says {e}");
            let (p, q) = (p.map_err(|e| e.to_string()), q.map_err(|e| e.to_string()));
            ensure!(c, p == q, "number-owned-ref-outcome", "owned Number gives {p:?}\nreference gives {q:?} after {d}");
        }
        _ => {}
    }
    let (d, r) = script.run(serde::de::IntoDeserializer::into_deserializer(x));
    ensure!(c, d == a && r.map_err(|e| e.to_string()) == p, "into-deserializer", "into_deserializer says {d}\nowned says {a}");
    Ok(())
}

struct AgreeRound<'a>(&'a mut Ctx);
impl Body for AgreeRound<'_> {
    fn run<T: Serialize + DeserializeOwned + Debug + PartialEq>(&mut self, s: &mut Source, name: &'static str, v: T) -> PResult {
        let c = &mut *self.0;
        let mut m = match serde_yaml::to_value(&v) {
            Ok(x) => MV::of(&x),
            Err(e) => fail!(format!("derived-to_value-error-{name}"), "{e}"),
        };
        for _ in 0..s.below(4) {
            edit(s, &mut m);
        }
        let x = m.to_value();
        c.input(&format!("{name} from {}", show(&m)));
        c.nt_if(m.is_coll() || matches!(m, MV::Tag(..)));
        match (serde_yaml::from_value::<T>(x.clone()), T::deserialize(&x)) {
            (Ok(p), Ok(q)) => {
                c.label("both-accept");
                // a NaN from an edit is not equal to itself
                let nan = m.any(&mut |x| matches!(x, MV::Float(f) if f.is_nan()));
                ensure!(c, p == q || nan, format!("derived-owned-ref-{name}"), "owned gives {p:?}\nreference gives {q:?}");
            }
            (Err(d), Err(e)) => {
                c.label("both-reject");
                ensure!(c, d.to_string() == e.to_string(), format!("derived-message-{name}"), "owned fails: {d}\nreference fails: {e}");
            }
            (Ok(p), Err(e)) => fail!(format!("derived-ref-rejects-{name}"), "owned gives {p:?}\nreference fails: {e}"),
            (Err(e), Ok(p)) => fail!(format!("derived-owned-rejects-{name}"), "reference gives {p:?}\nowned fails: {e}"),
        }
        ensure!(c, same(&MV::of(&x), &MV::of(&m.to_value())), "derived-reading-changes-value", "the Value changed while being read");
        Ok(())
    }
}

/// Types read through serde's own buffering (flatten, untagged, internally
/// tagged) as well.
fn c13_derive(s: &mut Source, c: &mut Ctx) -> PResult {
    derived(s, &mut AgreeRound(c))
}

/// A call with a key in any of the kinds a Mapping takes.
macro_rules! keyed {
    ($s:expr, $m:ident.$f:ident, $k:expr, $kv:expr) => {{
        let way = $s.below(5);
        match ($k, way) {
            (MV::Str(t), 0) => $m.$f(t.as_str()),
            (MV::Str(t), 1) => $m.$f(t.clone()),
            (MV::Str(t), 2) => $m.$f(&t),
            (_, 3) => $m.$f($kv.clone()),
            _ => $m.$f(&$kv),
        }
    }};
}

// ---------------------------------------------------------------- C14

fn key_pool(s: &mut Source) -> Vec<MV> {
    let mut pool = vec![
        MV::str("a"),
        MV::str("b"),
        MV::Int(0),
        MV::Int(1),
        MV::str("0"),
        MV::Null,
        MV::str("null"),
        MV::Float(0.0),
        MV::Float(-0.0),
        MV::Float(f64::NAN),
        MV::Float(1.0),
        MV::Bool(true),
        MV::str(""),
        MV::Seq(vec![]),
        MV::Seq(vec![MV::Int(1)]),
        MV::Map(vec![]),
        MV::Map(vec![(MV::str("x"), MV::Int(1)), (MV::str("y"), MV::Int(2))]),
        MV::Map(vec![(MV::str("y"), MV::Int(2)), (MV::str("x"), MV::Int(1))]),
        MV::Tag("t".into(), Box::new(MV::str("a"))),
        MV::Tag("t".into(), Box::new(MV::Null)),
        MV::Int(-1),
    ];
    let o = VOpts { max_depth: 2, max_len: 3, tags: true, floats: true, any_keys: true, nest: true };
    for _ in 0..s.below(4) {
        pool.push(gen::value(s, &o));
    }
    pool
}

fn position(m: &[(MV, MV)], k: &MV) -> Option<usize> {
    m.iter().position(|(q, _)| loosely(q, k))
}

fn same_entries(c: &mut Ctx, m: &Mapping, model: &[(MV, MV)], what: &str) -> PResult {
    ensure!(c, m.len() == model.len(), "mapping-len", "after {what}: len {} instead of {}", m.len(), model.len());
    ensure!(c, m.is_empty() == model.is_empty(), "mapping-is_empty", "after {what}");
    for (i, (k, v)) in m.iter().enumerate() {
        ensure!(
            c,
            same(&MV::of(k), &model[i].0) && same(&MV::of(v), &model[i].1),
            "mapping-entries",
            "after {what}: entry {i} is {k:?}: {v:?} instead of {}: {}",
            show(&model[i].0),
            show(&model[i].1)
        );
    }
    Ok(())
}

/// The iterators say truly how much is left.
fn iterators(c: &mut Ctx, m: &mut Mapping) -> PResult {
    let n = m.len();
    macro_rules! counts {
        ($($what:literal $it:expr;)*) => {$(
            let mut it = $it;
            for left in (0..=n).rev() {
                ensure!(c, it.len() == left && it.size_hint() == (left, Some(left)), concat!("mapping-", $what, "-left"), "{:?} with {left} of {n} left", it.size_hint());
                ensure!(c, it.next().is_some() == (left > 0), concat!("mapping-", $what, "-end"), "{left} of {n} left");
            }
        )*};
    }
    counts! {
        "iter" m.iter();
        "ref" (&*m).into_iter();
        "iter_mut" m.iter_mut();
        "ref-mut" (&mut *m).into_iter();
        "keys" m.keys();
        "values" m.values();
        "values_mut" m.values_mut();
        "into_iter" m.clone().into_iter();
        "into_keys" m.clone().into_keys();
        "into_values" m.clone().into_values();
    }
    Ok(())
}

fn c14_history(s: &mut Source, c: &mut Ctx) -> PResult {
    let pool = key_pool(s);
    let mut m = if s.bool() { Mapping::new() } else { Mapping::with_capacity(s.below(20)) };
    let mut model: Vec<(MV, MV)> = Vec::new();
    let mut n = 0;
    let mut removed = false;
    let mut log = Vec::new();
    while s.more(n, 8, 60) {
        n += 1;
        let k = if s.chance(1, 3) && !model.is_empty() {
            model[s.below(model.len())].0.clone()
        } else {
            pool[s.below(pool.len())].clone()
        };
        let kv = k.to_value();
        let at = position(&model, &k);
        let nv = MV::Int(n as i128);
        let op = s.below(21);
        let what;
        let remove = |model: &mut Vec<(MV, MV)>, swap: bool| at.map(|i| if swap { model.swap_remove(i) } else { model.remove(i) });
        match op {
            0..=4 => {
                what = format!("insert {}", show(&k));
                let old = m.insert(kv, nv.to_value());
                let want = at.map(|i| std::mem::replace(&mut model[i].1, nv.clone()));
                if at.is_none() {
                    model.push((k.clone(), nv));
                }
                ensure!(c, old == want.as_ref().map(MV::to_value), "mapping-insert", "{what} returned {old:?}");
            }
            5 | 6 => {
                let swap = s.bool();
                let plain = swap && s.bool();
                what = format!("{} {}", if plain { "remove" } else if swap { "swap_remove" } else { "shift_remove" }, show(&k));
                let got = if plain {
                    keyed!(s, m.remove, &k, kv)
                } else if swap {
                    keyed!(s, m.swap_remove, &k, kv)
                } else {
                    keyed!(s, m.shift_remove, &k, kv)
                };
                let want = remove(&mut model, swap);
                removed |= want.is_some();
                ensure!(c, got == want.as_ref().map(|e| e.1.to_value()), "mapping-remove", "{what} returned {got:?}");
            }
            7 | 8 => {
                let swap = s.bool();
                let plain = swap && s.bool();
                what = format!("{} {}", if plain { "remove_entry" } else if swap { "swap_remove_entry" } else { "shift_remove_entry" }, show(&k));
                let got = if plain {
                    keyed!(s, m.remove_entry, &k, kv)
                } else if swap {
                    keyed!(s, m.swap_remove_entry, &k, kv)
                } else {
                    keyed!(s, m.shift_remove_entry, &k, kv)
                };
                let want = remove(&mut model, swap);
                removed |= want.is_some();
                let ok = match (&got, &want) {
                    (Some((a, b)), Some((p, q))) => same(&MV::of(a), p) && same(&MV::of(b), q),
                    (None, None) => true,
                    _ => false,
                };
                ensure!(c, ok, "mapping-remove_entry", "{what} returned {got:?}");
            }
            9 => {
                what = format!("get_mut {}", show(&k));
                let got = if at.is_some() && s.bool() {
                    Some(match &k {
                        MV::Str(t) if s.bool() => &mut m[t.as_str()],
                        _ => &mut m[&kv],
                    })
                } else {
                    keyed!(s, m.get_mut, &k, kv)
                };
                match (got, at) {
                    (Some(g), Some(i)) => {
                        ensure!(c, same(&MV::of(g), &model[i].1), "mapping-get_mut", "{what} gives {g:?}");
                        *g = nv.to_value();
                        model[i].1 = nv;
                    }
                    (None, None) => c.checked(),
                    (g, _) => fail!("mapping-get_mut-presence", "{what} gives {g:?}"),
                }
            }
            10..=12 => {
                what = format!("entry {} kind {op}", show(&k));
                match m.entry(kv.clone()) {
                    Entry::Occupied(mut e) => {
                        let Some(i) = at else { fail!("mapping-entry-occupied", "{what} is occupied") };
                        ensure!(c, same(&MV::of(e.key()), &model[i].0), "mapping-entry-key", "{what}: key {:?}", e.key());
                        ensure!(c, same(&MV::of(e.get()), &model[i].1), "mapping-entry-get", "{what}: value {:?}", e.get());
                        match op {
                            10 => {
                                let old = e.insert(nv.to_value());
                                ensure!(c, same(&MV::of(&old), &model[i].1), "mapping-entry-insert", "{what}: old {old:?}");
                                model[i].1 = nv;
                            }
                            11 => {
                                if s.bool() {
                                    let v = e.remove();
                                    let w = model.swap_remove(i);
                                    ensure!(c, same(&MV::of(&v), &w.1), "mapping-entry-remove", "{what}: {v:?}");
                                } else {
                                    let (a, v) = e.remove_entry();
                                    let w = model.swap_remove(i);
                                    ensure!(c, same(&MV::of(&v), &w.1) && same(&MV::of(&a), &w.0), "mapping-entry-remove_entry", "{what}: {v:?}");
                                }
                                removed = true;
                            }
                            _ => {
                                *e.get_mut() = nv.to_value();
                                let g = e.into_mut();
                                ensure!(c, same(&MV::of(g), &nv), "mapping-entry-into_mut", "{what}: {g:?}");
                                model[i].1 = nv;
                            }
                        }
                    }
                    Entry::Vacant(e) => {
                        if at.is_some() {
                            fail!("mapping-entry-vacant", "{what} is vacant");
                        }
                        ensure!(c, same(&MV::of(e.key()), &k), "mapping-vacant-key", "{what}: key {:?}", e.key());
                        if op == 11 {
                            let back = e.into_key();
                            ensure!(c, same(&MV::of(&back), &k), "mapping-vacant-into_key", "{what}: {back:?}");
                        } else {
                            let g = e.insert(nv.to_value());
                            ensure!(c, same(&MV::of(g), &nv), "mapping-vacant-insert", "{what}: {g:?}");
                            model.push((k.clone(), nv));
                        }
                    }
                }
            }
            13 | 14 => {
                what = format!("entry {} or_insert, kind {op}", show(&k));
                let modify = s.bool();
                let e = m.entry(kv.clone());
                ensure!(c, loosely(&MV::of(e.key()), &k), "mapping-entry-any-key", "{what}: key {:?}", e.key());
                let e = if modify { e.and_modify(|v| *v = Value::from("modified")) } else { e };
                let mut called = false;
                let g = if op == 13 {
                    e.or_insert(nv.to_value())
                } else {
                    e.or_insert_with(|| {
                        called = true;
                        nv.to_value()
                    })
                };
                match at {
                    Some(i) => {
                        if modify {
                            model[i].1 = MV::str("modified");
                        }
                        ensure!(c, same(&MV::of(g), &model[i].1), "mapping-or_insert-existing", "{what}: {g:?}");
                        ensure!(c, !called, "mapping-or_insert_with-called", "{what}");
                    }
                    None => {
                        ensure!(c, same(&MV::of(g), &nv), "mapping-or_insert-new", "{what}: {g:?}");
                        model.push((k.clone(), nv));
                    }
                }
            }
            15 => {
                let r = s.below(4);
                what = format!("retain, kind {r}");
                let before = model.len();
                let keep = |k: &MV, v: &MV| match r {
                    0 => matches!(k, MV::Str(_)),
                    1 => matches!(v, MV::Int(i) if i % 2 == 0),
                    2 => !k.is_coll(),
                    _ => true,
                };
                let mut order = Vec::new();
                m.retain(|k, v| {
                    let (a, b) = (MV::of(k), MV::of(v));
                    let keep = keep(&a, &b);
                    order.push(a);
                    if r == 3 {
                        *v = Value::from("kept");
                    }
                    keep
                });
                ensure!(c, order.len() == model.len() && order.iter().zip(&model).all(|(a, b)| same(a, &b.0)), "mapping-retain-order", "{what}: visited {order:?}");
                model.retain(|(k, v)| keep(k, v));
                if r == 3 {
                    for e in &mut model {
                        e.1 = MV::str("kept");
                    }
                }
                removed |= model.len() < before;
            }
            16 => {
                what = "extend".to_string();
                let mut add = Vec::new();
                for j in 0..s.below(4) {
                    add.push((pool[s.below(pool.len())].clone(), MV::Int(1000 + j as i128)));
                }
                m.extend(add.iter().map(|(a, b)| (a.to_value(), b.to_value())));
                for (a, b) in add {
                    match position(&model, &a) {
                        Some(i) => model[i].1 = b,
                        None => model.push((a, b)),
                    }
                }
            }
            17 => {
                what = "iter_mut and values_mut".to_string();
                iterators(c, &mut m)?;
                for (i, (k, v)) in m.iter_mut().enumerate() {
                    ensure!(c, i < model.len() && same(&MV::of(k), &model[i].0), "mapping-iter_mut", "{what}: {i} {k:?}");
                    if i % 3 == 0 {
                        *v = Value::from(i as u64 * 7);
                        model[i].1 = MV::Int(i as i128 * 7);
                    }
                }
                for (i, v) in m.values_mut().enumerate() {
                    if i % 3 == 1 {
                        *v = Value::Null;
                        model[i].1 = MV::Null;
                    }
                }
                for (i, (_, v)) in (&mut m).into_iter().enumerate() {
                    ensure!(c, same(&MV::of(v), &model[i].1), "mapping-into-iter-mut", "{what}: {i} {v:?}");
                }
            }
            18 => {
                what = "clone, rebuild, compare".to_string();
                let d = m.clone();
                ensure!(c, d == m, "mapping-clone-eq", "{what}");
                let e: Mapping = model.iter().rev().map(|(a, b)| (a.to_value(), b.to_value())).collect();
                ensure!(c, e == m && m == e, "mapping-eq-unordered", "{what}: {e:?} vs {m:?}");
                ensure!(c, hash_of(&e) == hash_of(&m), "mapping-hash-unordered", "{what}: {e:?} vs {m:?}");
                // Collected, later entries replace earlier ones in their places.
                let mut twice: Vec<(MV, MV)> = Vec::new();
                let mut once: Vec<(MV, MV)> = Vec::new();
                for j in 0..s.below(6) {
                    let (k, v) = (pool[s.below(pool.len())].clone(), MV::Int(2000 + j as i128));
                    match position(&once, &k) {
                        Some(i) => once[i].1 = v.clone(),
                        None => once.push((k.clone(), v.clone())),
                    }
                    twice.push((k, v));
                }
                let n = twice.len();
                let f: Mapping = match s.below(3) {
                    0 => twice.iter().map(|(a, b)| (a.to_value(), b.to_value())).collect(),
                    1 => twice.iter().filter(|_| n > 0).map(|(a, b)| (a.to_value(), b.to_value())).collect(),
                    _ => Mapping::from_iter(twice.iter().map(|(a, b)| (a.to_value(), b.to_value())).collect::<Vec<_>>()),
                };
                same_entries(c, &f, &once, "collected")?;
                ensure!(c, d.into_keys().map(|k| MV::of(&k)).zip(&model).all(|(a, b)| same(&a, &b.0)), "mapping-into_keys", "{what}");
                ensure!(c, m.clone().into_values().map(|k| MV::of(&k)).zip(&model).all(|(a, b)| same(&a, &b.1)), "mapping-into_values", "{what}");
                let it = m.clone().into_iter();
                ensure!(c, it.len() == model.len(), "mapping-into_iter-len", "{what}");
                ensure!(c, it.zip(&model).all(|(a, b)| same(&MV::of(&a.0), &b.0) && same(&MV::of(&a.1), &b.1)), "mapping-into_iter", "{what}");
            }
            19 => {
                what = "capacity management".to_string();
                m.reserve(s.below(50));
                ensure!(c, m.capacity() >= m.len(), "mapping-capacity", "{what}");
                m.shrink_to_fit();
            }
            _ => {
                if s.chance(1, 4) {
                    what = "clear".to_string();
                    removed |= !model.is_empty();
                    m.clear();
                    model.clear();
                } else {
                    what = "keys and values".to_string();
                    ensure!(c, m.keys().len() == model.len() && m.values().len() == model.len(), "mapping-keys-len", "{what}");
                    ensure!(c, m.keys().zip(&model).all(|(a, b)| same(&MV::of(a), &b.0)), "mapping-keys", "{what}");
                    ensure!(c, m.values().zip(&model).all(|(a, b)| same(&MV::of(a), &b.1)), "mapping-values", "{what}");
                }
            }
        }
        log.push(what);
        same_entries(c, &m, &model, log.last().unwrap())?;
        // Lookups of the key just used and of another one.
        for k in [&k, &pool[s.below(pool.len())]] {
            let kv = k.to_value();
            let want = position(&model, k).map(|i| &model[i].1);
            let got = keyed!(s, m.get, k, kv);
            let ok = match (got, want) {
                (Some(a), Some(b)) => same(&MV::of(a), b),
                (None, None) => true,
                _ => false,
            };
            ensure!(c, ok, "mapping-get", "get {} gives {got:?} after {:?}", show(k), log);
            ensure!(c, keyed!(s, m.contains_key, k, kv) == want.is_some(), "mapping-contains_key", "{} after {:?}", show(k), log);
            if let MV::Str(t) = k {
                let got = m.get(t.as_str());
                ensure!(c, got == m.get(&kv) && m.get(t) == got, "mapping-get-str", "get {t:?} gives {got:?} after {:?}", log);
                ensure!(c, m.contains_key(t.as_str()) == want.is_some(), "mapping-contains_key-str", "{t:?} after {:?}", log);
                if want.is_some() {
                    ensure!(c, Some(&m[t.as_str()]) == got, "mapping-index", "{t:?} after {:?}", log);
                    ensure!(c, Some(&m[t]) == got && Some(&m[&kv]) == got, "mapping-index-kinds", "{t:?} after {:?}", log);
                }
            }
        }
    }
    c.input(&log.join("; "));
    c.nt_if(n >= 5 && removed);
    c.label_if(removed, "removal");
    c.label_if(n >= 20, "20+ operations");
    Ok(())
}

// ---------------------------------------------------------------- C15

/// A copy that should be equal: mappings reordered, zeros and NaNs varied.
fn equal_variant(s: &mut Source, m: &MV) -> MV {
    match m {
        MV::Float(f) if *f == 0.0 && s.bool() => MV::Float(-*f),
        MV::Float(f) if f.is_nan() && s.bool() => MV::Float(f64::from_bits(0xfff8_0000_0000_0001)),
        MV::Seq(v) => MV::Seq(v.iter().map(|x| equal_variant(s, x)).collect()),
        MV::Map(v) => {
            let p = gen::permutation(s, v.len());
            MV::Map(p.into_iter().map(|i| (equal_variant(s, &v[i].0), equal_variant(s, &v[i].1))).collect())
        }
        MV::Tag(t, v) => MV::Tag(t.clone(), Box::new(equal_variant(s, v))),
        x => x.clone(),
    }
}

fn nanless(m: &MV) -> bool {
    !m.any(&mut |x| matches!(x, MV::Float(f) if f.is_nan()))
}

/// A mapping whose keys are numbers of all kinds, or differ in a number they
/// hold.
fn number_keys(s: &mut Source) -> MV {
    let mut out: Vec<(MV, MV)> = Vec::new();
    for _ in 0..s.range(2, 6) {
        let n = match s.below(6) {
            0 | 1 => MV::Float(f64::NAN),
            2 => MV::Float(*s.pick(&[0.0, -1.0, 1.0, 2.5, f64::INFINITY, f64::NEG_INFINITY])),
            3 => MV::Float(gen::f64s(s)),
            4 => MV::Int(*s.pick(&[-1, 0, 1, i64::MIN as i128, u64::MAX as i128])),
            _ => MV::Int(gen::value_int(s)),
        };
        // Keys that differ only far inside of themselves.
        let n = if s.chance(1, 6) { MV::Null } else { n };
        let k = match s.below(12) {
            0 => MV::Seq(vec![n]),
            1 => MV::Tag("t".to_string(), Box::new(n)),
            2 => MV::Map(vec![(MV::str("k"), n)]),
            3 => MV::Seq(vec![MV::Float(f64::NAN), n]),
            4 => MV::Seq(vec![MV::Seq(vec![MV::Null, MV::Bool(true)]), n, MV::Null]),
            5 => MV::Tag("t".to_string(), Box::new(MV::Seq(vec![MV::Tag("u".to_string(), Box::new(MV::str("x"))), n]))),
            6 => MV::Map(vec![(MV::Seq(vec![MV::Int(1), n]), MV::Null), (MV::Seq(vec![MV::Int(1), MV::str("x")]), MV::Null)]),
            _ => n,
        };
        if !out.iter().any(|(x, _)| loosely(x, &k)) {
            out.push((k, MV::Int(s.below(3) as i128)));
        }
    }
    MV::Map(out)
}

fn c15_laws(s: &mut Source, c: &mut Ctx) -> PResult {
    let o = VOpts { max_depth: 3, max_len: 4, nest: true, ..VOpts::full(s) };
    let a = if s.chance(1, 16) {
        gen::wide(s, &o)
    } else if s.chance(1, 6) {
        number_keys(s)
    } else {
        gen::value(s, &o)
    };
    let mut others: Vec<MV> = Vec::new();
    let mut kinds = Vec::new();
    for _ in 0..2 {
        let base = if s.bool() || others.is_empty() { a.clone() } else { others[0].clone() };
        let k = s.below(4);
        let x = match k {
            0 | 1 => equal_variant(s, &base),
            2 => {
                let mut x = equal_variant(s, &base);
                edit(s, &mut x);
                if x.any(&mut |q| matches!(q, MV::Map(v) if crate::model::has_dup(v))) {
                    x = base;
                }
                x
            }
            _ => gen::value(s, &o),
        };
        kinds.push(k);
        others = vec![others.pop(), Some(x)].into_iter().flatten().collect();
    }
    let t: Vec<MV> = vec![a, others[0].clone(), others[others.len() - 1].clone()];
    let v: Vec<Value> = t.iter().map(MV::to_value).collect();
    c.input(&format!("{} ~ {} ~ {}", show(&t[0]), show(&t[1]), show(&t[2])));
    c.nt_if(!same(&t[0], &t[1]) || !same(&t[0], &t[2]));
    let s2 = |x: Ordering| x.reverse();
    for i in 0..3 {
        ensure!(c, v[i] == v[i].clone(), "eq-reflexive", "{} is not equal to itself", show(&t[i]));
        ensure!(c, v[i].partial_cmp(&v[i]) == Some(Ordering::Equal), "cmp-reflexive", "{} compares {:?} to itself", show(&t[i]), v[i].partial_cmp(&v[i]));
        for j in 0..3 {
            let eq = v[i] == v[j];
            let want = loosely(&t[i], &t[j]);
            c.label_if(i < j && want && !same(&t[i], &t[j]), "equal-not-identical");
            ensure!(c, eq == want, "eq", "{} == {} gives {eq}", show(&t[i]), show(&t[j]));
            ensure!(c, (v[i] != v[j]) == !eq, "ne", "{} != {}", show(&t[i]), show(&t[j]));
            if eq {
                ensure!(c, hash_of(&v[i]) == hash_of(&v[j]), "hash", "equal values hash differently: {} and {}", show(&t[i]), show(&t[j]));
            }
            let (p, q) = (v[i].partial_cmp(&v[j]), v[j].partial_cmp(&v[i]));
            ensure!(c, (p == Some(Ordering::Equal)) == eq, "cmp-eq", "{} and {}: == is {eq}, partial_cmp {p:?}", show(&t[i]), show(&t[j]));
            ensure!(c, p == q.map(s2), "cmp-antisymmetric", "{} vs {}: {p:?} and {q:?}", show(&t[i]), show(&t[j]));
            if nanless(&t[i]) && nanless(&t[j]) {
                ensure!(c, p.is_some(), "cmp-total-without-nan", "{} vs {}: {p:?}", show(&t[i]), show(&t[j]));
            }
            for k in 0..3 {
                let r = v[j].partial_cmp(&v[k]);
                if p == Some(Ordering::Less) && matches!(r, Some(Ordering::Less | Ordering::Equal)) && nanless(&t[i]) && nanless(&t[j]) && nanless(&t[k]) {
                    let z = v[i].partial_cmp(&v[k]);
                    ensure!(c, z == Some(Ordering::Less), "cmp-transitive", "{} < {} <= {}, but {z:?}", show(&t[i]), show(&t[j]), show(&t[k]));
                }
            }
        }
    }
    // Tags compare without their leading '!'.
    let name = gen::tag(s);
    if !name.starts_with('!') {
        let (p, q) = (Tag::new(name.clone()), Tag::new(format!("!{name}")));
        ensure!(c, p == q && hash_of(&p) == hash_of(&q) && p.cmp(&q) == Ordering::Equal, "tag-bang", "{p:?} vs {q:?}");
        ensure!(c, p == name.as_str() && q == name.as_str() && p == *format!("!{name}"), "tag-str", "{p:?} vs {name:?}");
        ensure!(c, p.to_string() == q.to_string() && p.to_string() == format!("!{name}"), "tag-display", "{p} {q}");
        let x = TaggedValue { tag: p, value: v[0].clone() };
        let y = TaggedValue { tag: q, value: v[0].clone() };
        ensure!(c, x == y && hash_of(&x) == hash_of(&y) && x.partial_cmp(&y) == Some(Ordering::Equal), "tagged-eq", "{x:?} vs {y:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug)]
enum Ix {
    S(String),
    N(usize),
    V(MV),
}

pub fn untag(m: &MV) -> &MV {
    match m {
        MV::Tag(_, v) => untag(v),
        m => m,
    }
}
pub fn untag_mut(m: &mut MV) -> &mut MV {
    match m {
        MV::Tag(_, v) => untag_mut(v),
        m => m,
    }
}

fn model_get<'a>(m: &'a MV, ix: &Ix) -> Option<&'a MV> {
    match (untag(m), ix) {
        (MV::Seq(v), Ix::N(i)) => v.get(*i),
        (MV::Map(v), ix) => {
            let k = match ix {
                Ix::S(t) => MV::Str(t.clone()),
                Ix::N(n) => MV::Int(*n as i128),
                Ix::V(k) => k.clone(),
            };
            position(v, &k).map(|i| &v[i].1)
        }
        _ => None,
    }
}

fn model_slot<'a>(m: &'a mut MV, ix: &Ix) -> Option<&'a mut MV> {
    if matches!((&*m, ix), (MV::Null, Ix::S(_) | Ix::V(_))) {
        *m = MV::Map(vec![]);
    }
    match (untag_mut(m), ix) {
        (MV::Seq(v), Ix::N(i)) => v.get_mut(*i),
        (MV::Map(v), ix) => {
            let k = match ix {
                Ix::S(t) => MV::Str(t.clone()),
                Ix::N(n) => MV::Int(*n as i128),
                Ix::V(k) => k.clone(),
            };
            let i = match position(v, &k) {
                Some(i) => i,
                None => {
                    v.push((k, MV::Null));
                    v.len() - 1
                }
            };
            Some(&mut v[i].1)
        }
        _ => None,
    }
}

fn lib_get<'a>(v: &'a Value, ix: &Ix) -> Option<&'a Value> {
    match ix {
        Ix::S(t) => v.get(t.as_str()),
        Ix::N(n) => v.get(*n),
        Ix::V(k) => v.get(k.to_value()),
    }
}

fn pick_ix(s: &mut Source, m: &MV) -> Ix {
    match untag(m) {
        MV::Seq(v) if s.chance(5, 6) => {
            let extra = s.below(3);
            Ix::N(s.below(v.len() + 1 + extra))
        }
        MV::Map(v) if !v.is_empty() && s.chance(5, 6) => {
            let k = v[s.below(v.len())].0.clone();
            match k {
                MV::Str(t) if s.chance(3, 4) => Ix::S(t),
                MV::Int(i) if i >= 0 && i <= u64::MAX as i128 && s.chance(3, 4) => Ix::N(i as usize),
                k => Ix::V(equal_variant(s, &k)),
            }
        }
        _ => match s.below(3) {
            0 => Ix::S(gen::string(s)),
            1 => Ix::N(s.below(5)),
            _ => Ix::V(gen::scalar(s, &VOpts { tags: false, max_depth: 0, floats: true, any_keys: true, nest: false, max_len: 0 })),
        },
    }
}

fn c16_paths(s: &mut Source, c: &mut Ctx) -> PResult {
    let o = VOpts { max_len: 4, nest: true, ..VOpts::full(s) };
    let mut m = if s.chance(3, 4) { gen::collection(s, &o) } else { gen::value(s, &o) };
    let mut v = m.to_value();
    let mut log = vec![show(&m)];
    // accessors
    check_accessors(c, &m, &v)?;
    let mut n = 0;
    while s.more(n, 3, 10) {
        n += 1;
        let write = s.chance(1, 2);
        let mut path = Vec::new();
        {
            let mut at = &m;
            while s.more(path.len(), 2, 6) {
                let ix = pick_ix(s, at);
                let next = model_get(at, &ix);
                path.push(ix);
                match next {
                    Some(x) => at = x,
                    None => break,
                }
            }
        }
        log.push(format!("{}{:?}", if write { "set " } else { "get " }, path));
        if !write {
            let mut want = Some(&m);
            let mut got = Some(&v);
            let mut idx: &Value = &v;
            for ix in &path {
                want = want.and_then(|x| model_get(x, ix));
                got = got.and_then(|x| lib_get(x, ix));
                idx = match ix {
                    Ix::S(t) => {
                        if s.bool() {
                            &idx[t.as_str()]
                        } else {
                            &idx[t.clone()]
                        }
                    }
                    Ix::N(n) => &idx[*n],
                    Ix::V(k) => &idx[k.to_value()],
                };
            }
            let ok = match (got, want) {
                (Some(a), Some(b)) => same(&MV::of(a), b),
                (None, None) => true,
                _ => false,
            };
            ensure!(c, ok, "get-path", "{path:?} in {} gives {got:?}", show(&m));
            c.nt_if(want.is_some() && !path.is_empty());
            let w = want.cloned().unwrap_or(MV::Null);
            ensure!(c, same(&MV::of(idx), &w), "index-path", "{path:?} in {} gives {idx:?}", show(&m));
            if let (Some(x), Some(_)) = (got, want) {
                check_accessors(c, want.unwrap(), x)?;
            }
            // get_mut finds the same place, and writing there changes only it.
            let mut gm = Some(&mut v);
            for ix in &path {
                let form = s.below(3);
                gm = gm.and_then(|x| match ix {
                    Ix::S(t) => match form {
                        0 => x.get_mut(t.as_str()),
                        1 => x.get_mut(t.clone()),
                        _ => x.get_mut(t),
                    },
                    Ix::N(n) => x.get_mut(*n),
                    Ix::V(k) => match form {
                        0 => x.get_mut(&k.to_value()),
                        _ => x.get_mut(k.to_value()),
                    },
                });
            }
            let ok = match (&gm, want) {
                (Some(a), Some(b)) => same(&MV::of(a), b),
                (None, None) => true,
                _ => false,
            };
            ensure!(c, ok, "get_mut-path", "{path:?} in {} gives {gm:?}", show(&m));
            if let (Some(g), true) = (gm, s.chance(1, 4)) {
                *g = Value::from(-(n as i64));
                let mut copy = m.clone();
                {
                    let mut at = &mut copy;
                    for ix in &path {
                        at = model_slot(at, ix).unwrap();
                    }
                    *at = MV::Int(-(n as i128));
                }
                m = copy;
                ensure!(c, same(&MV::of(&v), &m), "get_mut-write", "{path:?}: {v:?} instead of {}", show(&m));
            } else {
                ensure!(c, same(&MV::of(&v), &m), "get_mut-changes", "{path:?}: {v:?} instead of {}", show(&m));
            }
        } else if !path.is_empty() {
            // Assign through IndexMut where the model says it is allowed.
            let mut copy = m.clone();
            let allowed = {
                let mut at = Some(&mut copy);
                for ix in &path {
                    at = at.and_then(|x| model_slot(x, ix));
                }
                match at {
                    Some(x) => {
                        *x = MV::Int(n as i128);
                        true
                    }
                    None => false,
                }
            };
            c.label(if allowed { "assign" } else { "assign-refused" });
            c.nt_if(allowed);
            let forms: Vec<bool> = path.iter().map(|_| s.bool()).collect();
            let done = caught(|| {
                let mut at = &mut v;
                for (ix, f) in path.iter().zip(&forms) {
                    at = match ix {
                        Ix::S(t) => {
                            if *f {
                                &mut at[t.as_str()]
                            } else {
                                &mut at[t]
                            }
                        }
                        Ix::N(n) => &mut at[*n],
                        Ix::V(k) => &mut at[k.to_value()],
                    };
                }
                *at = Value::from(n as u64);
            });
            match done {
                Ok(()) => ensure!(c, allowed, "assign-accepted", "{path:?} in {} gives {v:?}", show(&m)),
                Err((at, e)) => ensure!(c, !allowed, "assign-panics", "{path:?} in {}: {e} at {at}", show(&m)),
            }
            // A refused assignment changes nothing but the entries made on the way.
            m = copy;
            ensure!(c, same(&MV::of(&v), &m), if allowed { "assign-path" } else { "refused-changes" }, "{path:?}: {v:?} instead of {}", show(&m));
        }
    }
    c.input(&log.join("; "));
    Ok(())
}

pub fn check_accessors(c: &mut Ctx, m: &MV, v: &Value) -> PResult {
    let u = untag(m);
    let sh = || show(m);
    ensure!(c, v.is_null() == matches!(u, MV::Null) && v.as_null().is_some() == v.is_null(), "as_null", "{}", sh());
    ensure!(c, v.is_bool() == matches!(u, MV::Bool(_)), "is_bool", "{}", sh());
    ensure!(c, v.as_bool() == if let MV::Bool(b) = u { Some(*b) } else { None }, "as_bool", "{}", sh());
    ensure!(c, v.is_number() == matches!(u, MV::Int(_) | MV::Float(_)), "is_number", "{}", sh());
    let i = if let MV::Int(i) = u { Some(*i) } else { None };
    ensure!(c, v.as_i64() == i.and_then(|i| i.try_into().ok()) && v.is_i64() == v.as_i64().is_some(), "as_i64", "{}", sh());
    ensure!(c, v.as_u64() == i.and_then(|i| i.try_into().ok()) && v.is_u64() == v.as_u64().is_some(), "as_u64", "{}", sh());
    let f = match u {
        MV::Int(i) => Some(*i as f64),
        MV::Float(f) => Some(*f),
        _ => None,
    };
    ensure!(c, v.as_f64().map(f64::to_bits) == f.map(f64::to_bits) || v.as_f64().is_some_and(f64::is_nan), "as_f64", "{}", sh());
    ensure!(c, v.is_f64() == matches!(u, MV::Float(_)), "is_f64", "{}", sh());
    ensure!(c, v.as_str() == if let MV::Str(t) = u { Some(t.as_str()) } else { None }, "as_str", "{}", sh());
    ensure!(c, v.is_string() == matches!(u, MV::Str(_)), "is_string", "{}", sh());
    ensure!(c, v.is_sequence() == matches!(u, MV::Seq(_)) && v.is_sequence() == v.as_sequence().is_some(), "is_sequence", "{}", sh());
    ensure!(c, v.is_mapping() == matches!(u, MV::Map(_)) && v.is_mapping() == v.as_mapping().is_some(), "is_mapping", "{}", sh());
    if let (Some(x), MV::Seq(y)) = (v.as_sequence(), u) {
        ensure!(c, x.len() == y.len(), "as_sequence", "{}", sh());
    }
    if let (Some(x), MV::Map(y)) = (v.as_mapping(), u) {
        ensure!(c, x.len() == y.len(), "as_mapping", "{}", sh());
    }
    // Comparison with plain Rust values.
    if let MV::Str(t) = u {
        ensure!(c, *v == t.as_str() && *v == *t && v == t, "eq-str", "{}", sh());
        ensure!(c, *v != format!("{t}x").as_str(), "eq-str-other", "{}", sh());
    }
    ensure!(c, (*v == true) == (u_bool(u) == Some(true)) && (*v == false) == (u_bool(u) == Some(false)), "eq-bool", "{}", sh());
    if let Some(i) = i {
        macro_rules! t {
            ($($t:ty)*) => {$(
                if let Ok(x) = <$t>::try_from(i) {
                    ensure!(c, *v == x, "eq-int", "{} == {x}", sh());
                    ensure!(c, *v != x.wrapping_add(1), "eq-int-other", "{} == {x}+1", sh());
                } else {
                    ensure!(c, *v != (i as $t), "eq-int-wrapped", "{} == {}", sh(), i as $t);
                }
            )*};
        }
        t!(i8 i16 i32 i64 u8 u16 u32 u64 isize usize);
    }
    if let MV::Float(f) = u {
        ensure!(c, (*v == *f) == (*f == *f), "eq-f64", "{}", sh());
    }
    Ok(())
}

fn u_bool(m: &MV) -> Option<bool> {
    if let MV::Bool(b) = m {
        Some(*b)
    } else {
        None
    }
}

// ---------------------------------------------------------------- C17

/// The reference: merged mappings are resolved first; explicit entries win
/// over merged ones, and earlier merged mappings over later ones.
fn merged(m: &MV) -> Result<MV, ()> {
    Ok(match m {
        MV::Seq(v) => MV::Seq(v.iter().map(merged).collect::<Result<_, _>>()?),
        MV::Tag(t, v) => MV::Tag(t.clone(), Box::new(merged(v)?)),
        MV::Map(v) => {
            let is_merge = |k: &MV| matches!(k, MV::Str(t) if t == "<<");
            let mut out: Vec<(MV, MV)> = Vec::new();
            for (k, x) in v.iter().filter(|e| !is_merge(&e.0)) {
                out.push((k.clone(), merged(x)?));
            }
            let mut sources = Vec::new();
            match v.iter().find(|e| is_merge(&e.0)).map(|e| &e.1) {
                None => {}
                Some(m @ MV::Map(_)) => sources.push(merged(m)?),
                Some(MV::Seq(q)) => {
                    for m in q {
                        match m {
                            MV::Map(_) => sources.push(merged(m)?),
                            _ => return Err(()),
                        }
                    }
                }
                Some(_) => return Err(()),
            }
            for src in sources {
                let MV::Map(e) = src else { unreachable!() };
                for (k, x) in e {
                    if position(&out, &k).is_none() {
                        out.push((k, x));
                    }
                }
            }
            MV::Map(out)
        }
        x => x.clone(),
    })
}

fn merge_map(s: &mut Source, d: usize) -> MV {
    let mut v: Vec<(MV, MV)> = Vec::new();
    let mut n = 0;
    while s.more(n, 3, 6) {
        n += 1;
        let k = match s.below(10) {
            0..=4 => MV::str(*s.pick(&["a", "b", "c", "d"])),
            5..=7 => MV::str("<<"),
            8 => MV::Int(s.below(3) as i128),
            _ => MV::Map(vec![(MV::str("<<"), MV::Int(1))]),
        };
        let x = if matches!(&k, MV::Str(t) if t == "<<") { merge_arg(s, d) } else { merge_tree(s, d) };
        if position(&v, &k).is_none() {
            v.push((k, x));
        }
    }
    MV::Map(v)
}

fn merge_arg(s: &mut Source, d: usize) -> MV {
    if d == 0 {
        return MV::Map(vec![(MV::str("a"), MV::Int(s.below(100) as i128))]);
    }
    match s.weighted(&[10, 8, 1, 1]) {
        0 => merge_map(s, d - 1),
        1 => {
            let mut v = Vec::new();
            while s.more(v.len(), 2, 4) {
                v.push(if s.chance(1, 40) {
                    MV::Tag("t".into(), Box::new(merge_map(s, d - 1)))
                } else if s.chance(1, 25) {
                    gen::scalar(s, &VOpts::full(s))
                } else if s.chance(1, 40) { MV::Seq(vec![]) } else { merge_map(s, d - 1) });
            }
            MV::Seq(v)
        }
        2 => gen::scalar(s, &VOpts::full(s)),
        _ => MV::Tag("t".into(), Box::new(merge_map(s, d - 1))),
    }
}

fn merge_tree(s: &mut Source, d: usize) -> MV {
    if d == 0 {
        return MV::Int(s.below(100) as i128);
    }
    match s.weighted(&[5, 6, 2, 1]) {
        0 => MV::Int(s.below(100) as i128),
        1 => merge_map(s, d - 1),
        2 => {
            let mut v = Vec::new();
            while s.more(v.len(), 2, 4) {
                v.push(merge_tree(s, d - 1));
            }
            MV::Seq(v)
        }
        _ => {
            let x = if s.bool() { merge_map(s, d - 1) } else { merge_tree(s, d - 1) };
            MV::Tag("t".into(), Box::new(x))
        }
    }
}

fn has_merge(m: &MV) -> bool {
    m.any(&mut |x| matches!(x, MV::Map(v) if v.iter().any(|(k, _)| matches!(k, MV::Str(t) if t == "<<"))))
}

fn check_merge(c: &mut Ctx, m: &MV, mut v: Value) -> PResult {
    let want = merged(m);
    c.nt_if(has_merge(m));
    c.label(if want.is_ok() { "mergeable" } else { "misuse" });
    match (want, v.apply_merge()) {
        (Ok(w), Ok(())) => {
            ensure!(c, loosely(&MV::of(&v), &w), "merge", "gives {v:?}\ninstead of {}", show(&w));
            let once = v.clone();
            match v.apply_merge() {
                Ok(()) => ensure!(c, v == once, "merge-idempotent", "twice: {v:?}\nonce: {once:?}"),
                Err(e) => fail!("merge-twice-error", "{e}: {once:?}"),
            }
            if !has_merge(m) {
                ensure!(c, same(&MV::of(&v), m), "merge-noop", "gives {v:?}");
            }
        }
        (Err(()), Err(e)) => {
            let told = e.to_string();
            ensure!(c, told.contains("merg") && !format!("{e:?}").is_empty() && e.location().is_none(), "merge-error-text", "the error says {told:?}, at {:?}", e.location());
        }
        (Ok(w), Err(e)) => fail!("merge-error", "fails ({e}) instead of {}", show(&w)),
        (Err(()), Ok(())) => fail!("merge-accepted", "misuse accepted, giving {v:?}"),
    }
    Ok(())
}

fn c17_tree(s: &mut Source, c: &mut Ctx) -> PResult {
    let d = 2 + (s.size / 30) as usize;
    let m = merge_tree(s, d);
    c.input(&show(&m));
    check_merge(c, &m, m.to_value())
}

/// Merges as they are written: anchors and aliases in block style.
fn c17_text(s: &mut Source, c: &mut Ctx) -> PResult {
    let n = s.range(2, 6);
    let mut text = String::new();
    let mut model: Vec<(MV, MV)> = Vec::new();
    for i in 0..n {
        text.push_str(&format!("n{i}: &n{i}\n"));
        let mut e: Vec<(MV, MV)> = Vec::new();
        let at = s.below(4);
        let keys = s.range(1, 4);
        for j in 0..=keys {
            if j == at && i > 0 {
                let k = s.below(3);
                if k == 0 {
                    let t = s.below(i);
                    text.push_str(&format!("  <<: *n{t}\n"));
                    e.push((MV::str("<<"), model[t].1.clone()));
                } else {
                    let list: Vec<usize> = (0..k).map(|_| s.below(i)).collect();
                    let names: Vec<String> = list.iter().map(|t| format!("*n{t}")).collect();
                    text.push_str(&format!("  <<: [{}]\n", names.join(", ")));
                    e.push((MV::str("<<"), MV::Seq(list.iter().map(|t| model[*t].1.clone()).collect())));
                }
                continue;
            }
            let name = *s.pick(&["a", "b", "c", "d", "e", "f"]);
            if position(&e, &MV::str(name)).is_none() {
                let v = s.below(100);
                text.push_str(&format!("  {name}: {v}\n"));
                e.push((MV::str(name), MV::Int(v as i128)));
            }
        }
        if e.is_empty() {
            text.push_str("  z: 0\n");
            e.push((MV::str("z"), MV::Int(0)));
        }
        model.push((MV::Str(format!("n{i}")), MV::Map(e)));
    }
    c.input(&text);
    let m = MV::Map(model);
    let v: Value = match serde_yaml::from_str(&text) {
        Ok(v) => v,
        Err(e) => fail!("merge-text-error", "{e}\n{text}"),
    };
    ensure!(c, same(&MV::of(&v), &m), "merge-text", "reads as {v:?}\n{text}");
    check_merge(c, &m, v)
}

// ---------------------------------------------------------------- C27

fn any_number(s: &mut Source) -> (MV, Number) {
    if s.chance(2, 5) {
        let f = gen::f64s(s);
        if s.chance(1, 4) {
            let f = f as f32;
            return (MV::Float(f.into()), Number::from(f));
        }
        (MV::Float(f), Number::from(f))
    } else {
        let i = gen::value_int(s);
        let n = if i >= 0 { Number::from(i as u64) } else { Number::from(i as i64) };
        (MV::Int(i), n)
    }
}

fn c27_numbers(s: &mut Source, c: &mut Ctx) -> PResult {
    let (a, x) = any_number(s);
    let (b, y) = match s.below(4) {
        0 => match &a {
            MV::Int(i) => (MV::Float(*i as f64), Number::from(*i as f64)),
            MV::Float(f) => (MV::Float(-*f), Number::from(-*f)),
            _ => unreachable!(),
        },
        1 => (a.clone(), x.clone()),
        _ => any_number(s),
    };
    c.input(&format!("{} and {}", show(&a), show(&b)));
    c.nt_if(!matches!((&a, &b), (MV::Int(0..=1000), MV::Int(0..=1000))));
    for (m, n) in [(&a, &x), (&b, &y)] {
        let i = if let MV::Int(i) = m { Some(*i) } else { None };
        ensure!(c, n.as_i64() == i.and_then(|i| i.try_into().ok()) && n.is_i64() == n.as_i64().is_some(), "number-i64", "{n:?}");
        ensure!(c, n.as_u64() == i.and_then(|i| i.try_into().ok()) && n.is_u64() == n.as_u64().is_some(), "number-u64", "{n:?}");
        ensure!(c, n.is_f64() == i.is_none(), "number-is_f64", "{n:?}");
        let f = match m {
            MV::Int(i) => *i as f64,
            MV::Float(f) => *f,
            _ => unreachable!(),
        };
        ensure!(c, n.as_f64().is_some_and(|g| feq(g, f)), "number-as_f64", "{n:?}");
        ensure!(c, n.is_nan() == f.is_nan() && n.is_finite() == f.is_finite() && n.is_infinite() == f.is_infinite(), "number-class", "{n:?}");
        // Display and FromStr are inverse.
        match n.to_string().parse::<Number>() {
            Ok(g) => ensure!(c, same(&crate::model::num(&g), m), "number-display", "{n} parses to {g:?}"),
            Err(e) => fail!("number-display-error", "{n}: {e}"),
        }
        // A Number serializes and reads like the primitive.
        let t = ystr(n)?;
        match serde_yaml::from_str::<Number>(&t) {
            Ok(g) => ensure!(c, same(&crate::model::num(&g), m), "number-text", "{t:?} reads as {g:?}"),
            Err(e) => fail!("number-text-error", "{t:?}: {e}"),
        }
        ensure!(c, t == format!("{n}\n"), "number-text-display", "{t:?} vs {n}");
        match f64::deserialize(n) {
            Ok(g) => ensure!(c, feq(g, f), "number-as-deserializer", "{n:?} gives {g:?}"),
            Err(e) => fail!("number-as-deserializer-error", "{n:?}: {e}"),
        }
        let near = match m {
            MV::Int(i) => *i as f32,
            _ => f as f32,
        };
        match (f32::deserialize(n), f32::deserialize(n.clone())) {
            (Ok(g), Ok(h)) => ensure!(c, (g == near || g.is_nan() && near.is_nan()) && g.to_bits() == h.to_bits(), "number-f32", "{n:?} gives {g:?} and {h:?}"),
            (g, h) => fail!("number-f32-error", "{n:?} gives {g:?} and {h:?}"),
        }
        macro_rules! w {
            ($($t:ty)*) => {$(
                let want = i.and_then(|i| <$t>::try_from(i).ok());
                let (g, h) = (<$t>::deserialize(n).ok(), <$t>::deserialize(n.clone()).ok());
                ensure!(c, g == want && h == want, "number-wide", "{n:?} as {} gives {g:?} and {h:?}", stringify!($t));
            )*};
        }
        w!(i128 u128);
        macro_rules! t {
            ($($t:ty)*) => {$(
                let want = i.and_then(|i| <$t>::try_from(i).ok());
                let got = <$t>::deserialize(n.clone());
                match (want, &got) {
                    (Some(w), Ok(g)) => ensure!(c, w == *g, "number-int", "{n:?} as {} gives {g}", stringify!($t)),
                    (None, Err(_)) => c.checked(),
                    (Some(_), Err(e)) => fail!("number-int-rejected", "{n:?} as {}: {e}", stringify!($t)),
                    // floats may be accepted by no integer type
                    (None, Ok(g)) => fail!("number-int-wrapped", "{n:?} as {} gives {g}", stringify!($t)),
                }
                let got = <$t>::deserialize(n);
                match (want, &got) {
                    (Some(w), Ok(g)) => ensure!(c, w == *g, "number-ref-int", "{n:?} as {} gives {g}", stringify!($t)),
                    (None, Err(_)) => c.checked(),
                    (Some(_), Err(e)) => fail!("number-ref-int-rejected", "{n:?} as {}: {e}", stringify!($t)),
                    (None, Ok(g)) => fail!("number-ref-int-wrapped", "{n:?} as {} gives {g}", stringify!($t)),
                }
                if let Some(w) = want {
                    ensure!(c, Number::from(w) == *n, "number-from", "Number::from({w}{}) is {:?}", stringify!($t), Number::from(w));
                    ensure!(c, Value::from(w) == Value::Number(n.clone()), "value-from", "Value::from({w}{})", stringify!($t));
                }
            )*};
        }
        t!(i8 i16 i32 i64 u8 u16 u32 u64 isize usize);
    }
    let eq = match (&a, &b) {
        (MV::Int(i), MV::Int(j)) => i == j,
        (MV::Float(f), MV::Float(g)) => f == g || (f.is_nan() && g.is_nan()),
        _ => false,
    };
    ensure!(c, (x == y) == eq && (y == x) == eq, "number-eq", "{x:?} == {y:?}");
    if eq {
        ensure!(c, hash_of(&x) == hash_of(&y), "number-hash", "{x:?} and {y:?}");
    }
    let p = x.partial_cmp(&y);
    match (&a, &b) {
        (MV::Int(i), MV::Int(j)) => ensure!(c, p == Some(i.cmp(j)), "number-cmp-int", "{x:?} vs {y:?}: {p:?}"),
        (MV::Float(f), MV::Float(g)) if !f.is_nan() && !g.is_nan() => ensure!(c, p == f.partial_cmp(g), "number-cmp-float", "{x:?} vs {y:?}: {p:?}"),
        _ => ensure!(c, p == y.partial_cmp(&x).map(Ordering::reverse) && (p == Some(Ordering::Equal)) == eq, "number-cmp-mixed", "{x:?} vs {y:?}: {p:?}"),
    }
    Ok(())
}

fn c27_parse(s: &mut Source, c: &mut Ctx) -> PResult {
    let t = match s.below(5) {
        0 => gen::string(s),
        1 => s.pick(gen::LOOKALIKES).to_string(),
        _ => gen::numberish(s),
    };
    c.input(&format!("{t:?}"));
    c.nt_if(!t.is_empty() && !t.chars().all(|c| c.is_ascii_digit()));
    let want = match scalar::value(&t) {
        Some(m @ (MV::Int(_) | MV::Float(_))) => Some(m),
        _ => None,
    };
    // An integer too large for 64 bits is accepted as neither.
    let got = t.parse::<Number>();
    match (want, &got) {
        (Some(w), Ok(g)) => ensure!(c, same(&crate::model::num(g), &w), "number-parse", "{t:?} parses to {g:?} instead of {}", show(&w)),
        (None, Err(_)) => c.checked(),
        (Some(w), Err(e)) => fail!("number-parse-rejected", "{t:?} is rejected ({e}) instead of {}", show(&w)),
        (None, Ok(g)) => fail!("number-parse-accepted", "{t:?} parses to {g:?}"),
    }
    c.label(if got.is_ok() { "number" } else { "not-a-number" });
    Ok(())
}

#[allow(unused)]
fn unused(_: Val) {}
