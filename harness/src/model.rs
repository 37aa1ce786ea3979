//! A model of YAML data that shares no code with the library.

use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};

#[derive(Clone, Debug)]
pub enum MV {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Seq(Vec<MV>),
    Map(Vec<(MV, MV)>),
    Tag(String, Box<MV>),
}

pub fn feq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// Strict structural equality: entry order, integer/float distinction and the
/// sign of zero all count; only NaN payloads do not.
pub fn same(a: &MV, b: &MV) -> bool {
    match (a, b) {
        (MV::Null, MV::Null) => true,
        (MV::Bool(x), MV::Bool(y)) => x == y,
        (MV::Int(x), MV::Int(y)) => x == y,
        (MV::Float(x), MV::Float(y)) => feq(*x, *y),
        (MV::Str(x), MV::Str(y)) => x == y,
        (MV::Seq(x), MV::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (MV::Map(x), MV::Map(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(&p.0, &q.0) && same(&p.1, &q.1))
        }
        (MV::Tag(t, x), MV::Tag(u, y)) => t == u && same(x, y),
        _ => false,
    }
}

/// Equality as the library documents it for values: mappings compare as sets
/// of entries, floats by value, all NaNs alike.
pub fn loosely(a: &MV, b: &MV) -> bool {
    match (a, b) {
        (MV::Float(x), MV::Float(y)) => x == y || (x.is_nan() && y.is_nan()),
        (MV::Seq(x), MV::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| loosely(p, q)),
        (MV::Map(x), MV::Map(y)) => {
            x.len() == y.len()
                && x.iter()
                    .all(|(k, v)| y.iter().any(|(l, w)| loosely(k, l) && loosely(v, w)))
        }
        (MV::Tag(t, x), MV::Tag(u, y)) => t == u && loosely(x, y),
        _ => same(a, b),
    }
}

pub fn has_dup(m: &[(MV, MV)]) -> bool {
    for i in 0..m.len() {
        for j in 0..i {
            if loosely(&m[i].0, &m[j].0) {
                return true;
            }
        }
    }
    false
}

impl MV {
    pub fn str(s: &str) -> MV {
        MV::Str(s.to_string())
    }
    pub fn to_value(&self) -> Value {
        match self {
            MV::Null => Value::Null,
            MV::Bool(b) => Value::Bool(*b),
            MV::Int(i) => Value::Number(if *i >= 0 {
                Number::from(u64::try_from(*i).expect("model int too large for a Value"))
            } else {
                Number::from(i64::try_from(*i).expect("model int too small for a Value"))
            }),
            MV::Float(f) => Value::Number(Number::from(*f)),
            MV::Str(s) => Value::String(s.clone()),
            MV::Seq(v) => Value::Sequence(v.iter().map(MV::to_value).collect()),
            MV::Map(v) => {
                let mut m = Mapping::new();
                for (k, x) in v {
                    m.insert(k.to_value(), x.to_value());
                }
                Value::Mapping(m)
            }
            MV::Tag(t, v) => Value::Tagged(Box::new(TaggedValue {
                tag: Tag::new(t.clone()),
                value: v.to_value(),
            })),
        }
    }
    pub fn of(v: &Value) -> MV {
        match v {
            Value::Null => MV::Null,
            Value::Bool(b) => MV::Bool(*b),
            Value::Number(n) => num(n),
            Value::String(s) => MV::Str(s.clone()),
            Value::Sequence(v) => MV::Seq(v.iter().map(MV::of).collect()),
            Value::Mapping(m) => MV::Map(m.iter().map(|(k, v)| (MV::of(k), MV::of(v))).collect()),
            Value::Tagged(t) => MV::Tag(tag_name(&t.tag), Box::new(MV::of(&t.value))),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            MV::Seq(v) => 1 + v.iter().map(MV::depth).max().unwrap_or(0),
            MV::Map(v) => 1 + v.iter().map(|(a, b)| a.depth().max(b.depth())).max().unwrap_or(0),
            MV::Tag(_, v) => v.depth(),
            _ => 0,
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            MV::Seq(v) => 1 + v.iter().map(MV::nodes).sum::<usize>(),
            MV::Map(v) => 1 + v.iter().map(|(a, b)| a.nodes() + b.nodes()).sum::<usize>(),
            MV::Tag(_, v) => 1 + v.nodes(),
            _ => 1,
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&MV) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            MV::Seq(v) => v.iter().any(|x| x.any(f)),
            MV::Map(v) => v.iter().any(|(a, b)| a.any(f) || b.any(f)),
            MV::Tag(_, v) => v.any(f),
            _ => false,
        }
    }
    pub fn is_coll(&self) -> bool {
        matches!(self, MV::Seq(_) | MV::Map(_))
    }
}

/// The tag's name without the insignificant leading '!'.
pub fn tag_name(t: &Tag) -> String {
    let s = t.to_string();
    s.strip_prefix('!').unwrap_or(&s).to_string()
}

pub fn num(n: &Number) -> MV {
    if let Some(u) = n.as_u64() {
        MV::Int(u as i128)
    } else if let Some(i) = n.as_i64() {
        // There is one Number for each integer, whatever it came from.
        if i >= 0 {
            return MV::Tag("a Number that denies being unsigned".into(), Box::new(MV::Int(i as i128)));
        }
        MV::Int(i as i128)
    } else {
        MV::Float(n.as_f64().unwrap_or(f64::NAN))
    }
}

/// Compact rendering for reports.
pub fn show(v: &MV) -> String {
    match v {
        MV::Null => "null".into(),
        MV::Bool(b) => b.to_string(),
        MV::Int(i) => i.to_string(),
        MV::Float(f) => format!("{f:?}f"),
        MV::Str(s) => format!("{s:?}"),
        MV::Seq(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        MV::Map(v) => format!(
            "{{{}}}",
            v.iter().map(|(k, v)| format!("{}: {}", show(k), show(v))).collect::<Vec<_>>().join(", ")
        ),
        MV::Tag(t, v) => format!("!{t} {}", show(v)),
    }
}
