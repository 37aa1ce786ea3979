//! Enums in their default form and in those of `serde_yaml::with`.

use super::calls::{calls, same_f32, Call, Expect};
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::refyaml;
use crate::ty::l2::{Seed, TV};
use crate::ty::{self, show_ty, show_val, veq, TOpts, Ty, Val, Var, T_ALL};
use crate::{ensure, fail};
use serde::de::DeserializeSeed;
use serde_yaml::{Deserializer, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        level: "exploration",
        rule: "A case is a generated type with enums at any place, each in its default form, through singleton_map or below singleton_map_recursive, and a value of it; the text and the Value must have the stated shape and read back as that value; or the same with one enum spoilt, which must be refused. Non-trivial = at least one variant with content is written.",
        assumptions: &[],
        subs: vec![
            Sub { name: "forms", quick: 1_800_000, thorough: 50_000_000, f: c18_forms },
            Sub { name: "misfits", quick: 1_800_000, thorough: 50_000_000, f: c18_misfits },
        ],
    }]
}

/// How an enum is written at a place.
#[derive(Copy, Clone, Debug, Default)]
pub struct Mode {
    site: bool,
    rec: bool,
}
impl Mode {
    pub fn map(self) -> bool {
        self.site || self.rec
    }
    pub fn below(self) -> Mode {
        Mode { site: false, ..self }
    }
    pub fn with(self, rec: bool) -> Mode {
        if rec {
            Mode { rec: true, ..self }
        } else {
            Mode { site: true, ..self }
        }
    }
}

/// Put enums through the forms here and there.
fn decorate(s: &mut Source, t: &mut Ty, share: u64) {
    each_mut(t, &mut |x| decorate(s, x, share));
    if forms(t) == 2 {
        return;
    }
    let has_enum = ty::any_ty(t, &mut |x| matches!(x, Ty::Enum(_)));
    let direct = enum_at(t);
    let (a, b) = match (direct, has_enum) {
        (true, _) => (share, 2),
        (_, true) => (1, 2),
        _ => (1, 0),
    };
    match s.weighted(&[12, a, b]) {
        0 => {}
        k => {
            let inner = std::mem::replace(t, Ty::Unit);
            *t = Ty::With(k == 2, Box::new(inner));
        }
    }
}
/// The most forms passed on a way down.
fn forms(t: &Ty) -> usize {
    let mut n = 0;
    each_mut(&mut t.clone(), &mut |x| n = n.max(forms(x)));
    n + matches!(t, Ty::With(..)) as usize
}
fn enum_at(t: &Ty) -> bool {
    match t {
        Ty::Enum(_) => true,
        Ty::Opt(t) => enum_at(t),
        _ => false,
    }
}
pub fn each_mut(t: &mut Ty, f: &mut dyn FnMut(&mut Ty)) {
    match t {
        Ty::Opt(t) | Ty::Seq(t) | Ty::Newtype(t) | Ty::With(_, t) => f(t),
        Ty::Tuple(v) | Ty::TupleStruct(v) => v.iter_mut().for_each(f),
        Ty::Map(k, v) => {
            f(k);
            f(v);
        }
        Ty::Struct(v) => v.iter_mut().for_each(|x| f(&mut x.1)),
        Ty::Enum(v) => {
            for (_, k) in v {
                match k {
                    Var::Unit => {}
                    Var::New(t) => f(t),
                    Var::Tuple(v) => v.iter_mut().for_each(&mut *f),
                    Var::Struct(v) => v.iter_mut().for_each(|x| f(&mut x.1)),
                }
            }
        }
        _ => {}
    }
}
/// Whether what is written at this very place may have a tag.
fn taggy(t: &Ty, m: Mode) -> bool {
    match t {
        Ty::Enum(_) => !m.map(),
        Ty::Any => true,
        Ty::Opt(t) => taggy(t, m),
        Ty::Newtype(t) => taggy(t, m.below()),
        Ty::With(r, t) => taggy(t, m.with(*r)),
        _ => false,
    }
}
/// A tag within a tag has no text: put a sequence in between.
fn separate(t: &mut Ty, m: Mode) {
    match t {
        Ty::With(r, t) => separate(t, m.with(*r)),
        Ty::Opt(t) => separate(t, m),
        Ty::Enum(v) => {
            for (_, k) in v {
                match k {
                    Var::New(t) => {
                        separate(t, m.below());
                        if !m.map() && taggy(t, m.below()) {
                            let inner = std::mem::replace(&mut **t, Ty::Unit);
                            **t = Ty::Seq(Box::new(inner));
                        }
                    }
                    Var::Unit => {}
                    // The fields are made into Values first, by themselves.
                    Var::Tuple(v) => v.iter_mut().for_each(|x| separate(x, m.below())),
                    Var::Struct(v) => v.iter_mut().for_each(|x| separate(&mut x.1, m.below())),
                }
            }
        }
        _ => each_mut(t, &mut |x| separate(x, m.below())),
    }
}

/// `singleton_map` on an enum below `singleton_map_recursive`.
pub fn site_in_rec(t: &Ty, m: Mode) -> bool {
    match t {
        Ty::With(r, t) => site_in_rec(t, m.with(*r)),
        Ty::Opt(t) => site_in_rec(t, m),
        Ty::Enum(_) if m.site && m.rec => true,
        _ => {
            let mut hit = false;
            each_mut(&mut t.clone(), &mut |x| hit |= site_in_rec(x, m.below()));
            hit
        }
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Spoil {
    Unknown,
    ExtraBefore,
    ExtraAfter,
    OtherForm,
    BareName,
    EmptyMap,
    Content,
    Longer,
    Shorter,
    Seq,
    Int,
}
const SPOILS: &[Spoil] = &[Spoil::Unknown, Spoil::ExtraBefore, Spoil::ExtraAfter, Spoil::OtherForm, Spoil::BareName, Spoil::EmptyMap, Spoil::Content, Spoil::Longer, Spoil::Shorter, Spoil::Seq, Spoil::Int];

#[derive(Default)]
pub struct Shape {
    /// Enums met so far, and those with content.
    met: usize,
    pub content: usize,
    spoil: Option<(usize, Spoil)>,
    /// What was spoilt, when it was.
    done: Option<String>,
}

fn key(n: &str) -> Call {
    Call::Str(n.to_string())
}
fn map(v: Vec<(Call, Call)>) -> Call {
    Call::Map(Some(v.len()), v, 0)
}

impl Shape {
    fn list<'a>(&mut self, t: impl IntoIterator<Item = &'a Ty>, v: &[Val], m: Mode) -> Vec<Call> {
        t.into_iter().zip(v).map(|(t, x)| self.of(t, x, m)).collect()
    }
    fn fields(&mut self, f: &[(&'static str, Ty)], v: &[Val], m: Mode) -> Vec<(&'static str, Call)> {
        f.iter().zip(v).map(|((n, t), x)| (*n, self.of(t, x, m))).collect()
    }
    /// The calls that write the value.
    pub fn of(&mut self, t: &Ty, v: &Val, m: Mode) -> Call {
        let b = m.below();
        match (t, v) {
            (Ty::With(r, t), v) => self.of(t, v, m.with(*r)),
            (Ty::Unit, _) => Call::Unit,
            (Ty::UnitStruct, _) => Call::UnitStruct,
            (Ty::Bool, Val::Bool(x)) => Call::Bool(*x),
            (Ty::Int(_, false), Val::Int(_, x)) => Call::U128(*x),
            (Ty::Int(..), Val::Int(n, x)) => Call::Int(128, true, if *n { (*x as i128).wrapping_neg() } else { *x as i128 }),
            (Ty::F32, Val::F32(f)) => Call::F32(*f),
            (Ty::F64, Val::F64(f)) => Call::F64(*f),
            (Ty::Char, Val::Char(c)) => Call::Char(*c),
            (Ty::Str, Val::Str(x)) => Call::Str(x.clone()),
            (Ty::Opt(_), Val::None) => Call::None,
            (Ty::Opt(t), Val::Some(v)) => Call::Some(Box::new(self.of(t, v, m))),
            (Ty::Newtype(t), Val::New(v)) => Call::New(Box::new(self.of(t, v, b))),
            (Ty::Seq(t), Val::Seq(v)) => Call::Seq(Some(v.len()), v.iter().map(|x| self.of(t, x, b)).collect(), 0),
            (Ty::Tuple(t), Val::Prod(v)) => Call::Tuple(v.len(), self.list(t, v, b)),
            (Ty::TupleStruct(t), Val::Prod(v)) => Call::TupStruct(v.len(), self.list(t, v, b)),
            (Ty::Map(k, t), Val::Map(v)) => Call::Map(
                Some(v.len()),
                v.iter()
                    .map(|(a, x)| {
                        let k = self.of(k, a, b);
                        (k, self.of(t, x, b))
                    })
                    .collect(),
                0,
            ),
            (Ty::Struct(f), Val::Prod(v)) => Call::Struct(v.len(), self.fields(f, v, b), 0),
            (Ty::Enum(vs), Val::Var(i, v)) => self.variant(vs, *i, v, m),
            (Ty::Any, Val::Any(x)) => Call::Value(Box::new((x.clone(), x.to_value()))),
            _ => unreachable!("{t:?} {v:?}"),
        }
    }
    fn variant(&mut self, vs: &[(&'static str, Var)], i: usize, v: &Val, m: Mode) -> Call {
        let name = vs[i].0;
        let spoil = match self.spoil {
            Some((n, k)) if n == self.met => Some(k),
            _ => None,
        };
        self.met += 1;
        if !matches!(vs[i].1, Var::Unit) {
            self.content += 1;
        }
        let b = m.below();
        let plain = |c: Call, name: &'static str| match (&vs[i].1, m.map(), c) {
            (Var::Unit, ..) => Call::UnitVar(name),
            (_, true, c) => map(vec![(key(name), c)]),
            (Var::New(_), _, c) => Call::NewVar(name, Box::new(c)),
            (_, _, Call::Tuple(n, c)) => Call::TupVar(name, n, c),
            (_, _, Call::Struct(n, c, _)) => Call::StructVar(name, n, c),
            (_, _, c) => Call::NewVar(name, Box::new(c)),
        };
        let content = match (&vs[i].1, v) {
            (Var::Unit, _) => Call::Unit,
            (Var::New(t), v) => self.of(t, v, b),
            (Var::Tuple(t), Val::Prod(v)) => Call::Tuple(v.len(), self.list(t, v, b)),
            (Var::Struct(f), Val::Prod(v)) => Call::Struct(v.len(), self.fields(f, v, b), 0),
            _ => unreachable!(),
        };
        let Some(k) = spoil else {
            return plain(content, name);
        };
        let unit = matches!(vs[i].1, Var::Unit);
        let spoilt = match k {
            Spoil::Unknown => Some(plain(content.clone(), "zz_unknown")),
            Spoil::ExtraBefore | Spoil::ExtraAfter if m.map() && !unit => {
                let other = vs.iter().map(|x| x.0).find(|x| *x != name).unwrap_or("zz_other");
                let mut e = vec![(key(name), content.clone()), (key(other), content.clone())];
                if k == Spoil::ExtraBefore {
                    e.reverse();
                }
                Some(map(e))
            }
            Spoil::OtherForm if m.map() => Some(Call::NewVar(name, Box::new(content.clone()))),
            Spoil::OtherForm => Some(map(vec![(key(name), content.clone())])),
            Spoil::BareName if !unit => Some(Call::UnitVar(name)),
            Spoil::EmptyMap => Some(map(vec![])),
            Spoil::Content if matches!(vs[i].1, Var::Tuple(_) | Var::Struct(_)) => Some(plain(key("zz"), name)),
            Spoil::Content if unit => Some(map(vec![(key(name), Call::Unit)])),
            Spoil::Longer | Spoil::Shorter => match content.clone() {
                Call::Tuple(n, mut v) if matches!(vs[i].1, Var::Tuple(_)) => {
                    let changed = if k == Spoil::Longer {
                        v.push(Call::Unit);
                        true
                    } else {
                        v.pop().is_some()
                    };
                    if changed {
                        Some(plain(Call::Tuple(n, v), name))
                    } else {
                        None
                    }
                }
                _ => None,
            },
            Spoil::Seq => Some(Call::Seq(Some(0), vec![], 0)),
            Spoil::Int => Some(Call::Int(32, true, 7)),
            _ => None,
        };
        match spoilt {
            Some(c) => {
                self.done = Some(format!("{k:?} of {name:?} in the {} form", if m.map() { "map" } else { "tag" }));
                c
            }
            None => plain(content, name),
        }
    }
}

pub fn typed(s: &mut Source) -> (Ty, Val) {
    let o = TOpts { big_ints: s.chance(1, 30), nested_enum: true, ..T_ALL };
    let depth = 1 + (s.size / 25) as usize;
    let mut t = if s.chance(2, 3) { ty::gen_enum(s, &o, depth) } else { ty::gen_ty(s, &o, depth + 1) };
    let share = *s.pick(&[12, 3, 40]);
    decorate(s, &mut t, share);
    separate(&mut t, Mode::default());
    let v = ty::gen_val(s, &t);
    (t, v)
}

fn lossless(t: &Ty) -> bool {
    super::values::lossless_keys(t)
}

fn read_all(t: &Ty, text: &str) -> Vec<(&'static str, Result<Val, serde_yaml::Error>)> {
    vec![("from_str", Seed(t).deserialize(Deserializer::from_str(text))), ("from_slice", Seed(t).deserialize(Deserializer::from_slice(text.as_bytes())))]
}

fn c18_forms(s: &mut Source, c: &mut Ctx) -> PResult {
    let (t, v) = typed(s);
    c.input(&format!("{} = {}", show_ty(&t), show_val(&v)));
    let mut sh = Shape::default();
    let call = sh.of(&t, &v, Mode::default());
    c.nt_if(sh.content > 0);
    let with = ty::any_ty(&t, &mut |x| matches!(x, Ty::With(..)));
    c.label_if(with, "with");
    // Known: written one way and read the other.
    let mixed = site_in_rec(&t, Mode::default());
    c.label_if(mixed, "map-in-rec");
    // Known: fields of variants are made into Values, which do not hold these.
    let wide = with && ty::any_ty(&t, &mut |x| matches!(x, Ty::Int(128, _)));
    c.label_if(wide, "128-bit");
    let sig = |s: &'static str| {
        if mixed {
            "map-in-recursive"
        } else if wide {
            "wide-int-in-variant"
        } else {
            s
        }
    };
    let text = match serde_yaml::to_string(&TV(&t, &v)) {
        Ok(x) => x,
        Err(e) => fail!(sig("write-error"), "{e}"),
    };
    let docs = refyaml::documents(text.as_bytes());
    ensure!(c, docs.len() == 1 && docs[0].bad.is_none(), "malformed-text", "{text}");
    let mut e = Expect { text: true, huge: false, dup: false };
    let want = match e.of(&call, false) {
        Ok(w) => w,
        Err(r) => fail!("harness", "{r:?}"),
    };
    if !mixed && !e.dup && !e.huge {
        match refyaml::doc_value(&docs[0]) {
            Ok(g) => ensure!(c, same_f32(&g, &want), sig("shape"), "the text holds {}\ninstead of {}\n{text}", show(&g), show(&want)),
            Err(e) => fail!("shape-unreadable", "{e:?}\n{text}"),
        }
    }
    if !with || (lossless(&t) && !e.dup) {
        for (how, g) in read_all(&t, &text) {
            match g {
                Ok(g) => ensure!(c, veq(&g, &v), sig("roundtrip"), "{how} gives {}\n{text}", show_val(&g)),
                Err(e) => fail!(sig("roundtrip-error"), "{how}: {e}\n{text}"),
            }
        }
    } else {
        c.label("keys-may-collapse");
    }
    if !lossless(&t) || e.dup || e.huge {
        return Ok(());
    }
    let x = match serde_yaml::to_value(TV(&t, &v)) {
        Ok(x) => x,
        Err(e) => fail!(sig("to_value-error"), "{e}"),
    };
    let mut e = Expect { text: false, huge: false, dup: false };
    let want = e.of(&call, false).unwrap_or(MV::Null);
    ensure!(c, mixed || wide || e.dup || same_f32(&MV::of(&x), &want), "value-shape", "to_value gives {x:?}\ninstead of {}", show(&want));
    for (how, g) in [("from_value", Seed(&t).deserialize(x.clone())), ("from_value of a reference", Seed(&t).deserialize(&x))] {
        match g {
            Ok(g) => ensure!(c, veq(&g, &v), sig("value-roundtrip"), "{how} gives {}\nfrom {x:?}", show_val(&g)),
            Err(e) => fail!(sig("value-roundtrip-error"), "{how}: {e}\nfrom {x:?}"),
        }
    }
    // The text as a Value, read as the type.
    if let Ok(y) = serde_yaml::from_str::<Value>(&text) {
        match Seed(&t).deserialize(y) {
            Ok(g) => ensure!(c, veq(&g, &v), sig("text-value-roundtrip"), "{}\nfrom {text}", show_val(&g)),
            Err(e) => fail!(sig("text-value-roundtrip-error"), "{e}\nfrom {text}"),
        }
    }
    Ok(())
}

fn c18_misfits(s: &mut Source, c: &mut Ctx) -> PResult {
    let (t, v) = typed(s);
    let mut sh = Shape::default();
    sh.of(&t, &v, Mode::default());
    if sh.met == 0 {
        c.label("no-enum");
        c.discard = true;
        return Ok(());
    }
    let met = sh.met;
    let mut found = None;
    for _ in 0..4 {
        let n = s.below(met);
        let k = *s.pick(SPOILS);
        let mut sh = Shape { spoil: Some((n, k)), ..Shape::default() };
        let call = sh.of(&t, &v, Mode::default());
        if let Some(what) = sh.done {
            found = Some((k, call, what));
            break;
        }
    }
    let Some((k, call, what)) = found else {
        c.label("inapplicable");
        c.discard = true;
        return Ok(());
    };
    c.input(&format!("{what} of {} = {}", show_ty(&t), show_val(&v)));
    c.nt_if(calls(&call) >= 2);
    c.label(&format!("{k:?}"));
    if let Ok(text) = serde_yaml::to_string(&call) {
        for (how, g) in read_all(&t, &text) {
            if let Ok(g) = g {
                fail!("misfit-accepted", "{what}: {how} gives {}\nfrom {text}", show_val(&g));
            }
            c.checked();
        }
    } else {
        c.label("no-text");
    }
    if !lossless(&t) {
        c.label("keys-may-collapse");
    } else if let Ok(x) = serde_yaml::to_value(&call) {
        if let Ok(g) = Seed(&t).deserialize(x.clone()) {
            fail!("misfit-value-accepted", "{what}: from_value gives {}\nfrom {x:?}", show_val(&g));
        }
        if let Ok(g) = Seed(&t).deserialize(&x) {
            fail!("misfit-value-accepted", "{what}: a reference gives {}\nfrom {x:?}", show_val(&g));
        }
        c.checked();
    }
    Ok(())
}

#[allow(unused)]
fn unused(s: &mut Source) {
    gen::string(s);
}
