//! Reference reading of a document as a dynamic type: what the documented
//! rules give for each node, with the place and path an error belongs to.

use crate::model::MV;
use crate::refyaml::{canon_tag, local_tag, Composer, Doc, Kind, Mark, No, Step, Style, STEP_CAP};
use crate::scalar;
use crate::ty::{Ty, Val, Var};

/// Why a node does not convert.
#[derive(Clone, Debug)]
pub struct Er {
    /// The start of the offending node and the path to it, once known.
    pub at: Option<(Mark, String)>,
    pub kind: &'static str,
    /// Whether the place is promised (some errors are raised where no node is
    /// at hand; they only promise to be errors).
    pub placed: bool,
    /// The name under which a wrong place is a known finding.
    pub finding: Option<&'static str>,
}

/// The reference has no opinion.
#[derive(Clone, Debug)]
pub enum Stop {
    Err(Er),
    Unsure,
}

pub type R<T> = Result<T, Stop>;

fn er<T>(kind: &'static str) -> R<T> {
    Err(Stop::Err(Er { at: None, kind, placed: true, finding: None }))
}
fn vague<T>(kind: &'static str) -> R<T> {
    Err(Stop::Err(Er { at: None, kind, placed: false, finding: None }))
}

pub struct Reader<'a> {
    pub doc: &'a Doc,
    jumps: usize,
    steps: usize,
    pub aliases_followed: usize,
}

fn core(tag: &Option<Vec<u8>>, name: &[u8]) -> bool {
    tag.as_ref().is_some_and(|t| t.strip_prefix(b"tag:yaml.org,2002:") == Some(name))
}

fn place<T>(r: R<T>, mark: Mark, path: &str) -> R<T> {
    r.map_err(|e| match e {
        Stop::Err(mut e) if e.at.is_none() => {
            // The root is not named, and what is inside of a key has no path.
            let p = if path == ROOT || path == "." || path.starts_with(KEY) { "" } else { path };
            e.at = Some((mark, p.to_string()));
            Stop::Err(e)
        }
        e => e,
    })
}

/// The path of the root, which no key can be mistaken for.
const ROOT: &str = "\0root\0";
const KEY: &str = "\0key\0";

fn child(path: &str, key: &str) -> String {
    if path == ROOT {
        key.to_string()
    } else {
        format!("{path}.{key}")
    }
}
fn item(path: &str, i: usize) -> String {
    if path == ROOT {
        format!(".[{i}]")
    } else {
        format!("{path}[{i}]")
    }
}

impl<'a> Reader<'a> {
    pub fn new(doc: &'a Doc) -> Self {
        Reader { doc, jumps: 0, steps: 0, aliases_followed: 0 }
    }

    fn jump(&mut self) -> R<()> {
        self.jumps += 1;
        self.aliases_followed += 1;
        if self.jumps > 100 * self.doc.events {
            return vague("repetition");
        }
        Ok(())
    }

    fn text(&self, id: usize) -> Option<&'a str> {
        match &self.doc.nodes[id].kind {
            Kind::Scalar(v, _) => std::str::from_utf8(v).ok(),
            _ => None,
        }
    }

    /// Follow an alias.
    fn target(&mut self, id: usize) -> R<(usize, bool)> {
        match self.doc.nodes[id].kind {
            Kind::Alias(t) => {
                self.jump()?;
                Ok((t, true))
            }
            _ => Ok((id, false)),
        }
    }

    /// The node read as the type. `spent` says that the node's tag has
    /// already been taken for a variant name.
    pub fn read(&mut self, ty: &Ty, id: usize, path: &str, spent: bool) -> R<Val> {
        self.steps += 1;
        if self.steps > STEP_CAP {
            return Err(Stop::Unsure);
        }
        match ty {
            Ty::Ignored => return Ok(Val::Ignored),
            Ty::Newtype(t) => return Ok(Val::New(Box::new(self.read(t, id, path, spent)?))),
            Ty::Bytes => return vague("bytes"),
            _ => {}
        }
        let (id, jumped) = self.target(id)?;
        let spent = spent && !jumped;
        let node = &self.doc.nodes[id];
        let mark = node.mark;
        if let Ty::Opt(t) = ty {
            let none = match &node.kind {
                Kind::Void => true,
                Kind::Scalar(v, Style::Plain) => match (&node.tag, spent) {
                    (Some(_), false) => {
                        if core(&node.tag, b"null") {
                            if !scalar::is_null(std::str::from_utf8(v).unwrap_or("x")) {
                                return place(er("expected null"), mark, path);
                            }
                            true
                        } else {
                            false
                        }
                    }
                    _ => v.is_empty() || scalar::is_null(std::str::from_utf8(v).unwrap_or("x")),
                },
                _ => false,
            };
            if none {
                return Ok(Val::None);
            }
            return Ok(Val::Some(Box::new(self.read(t, id, path, spent)?)));
        }
        if let Ty::Enum(vs) = ty {
            return self.variant(vs, id, path, spent);
        }
        if let Ty::Any = ty {
            let mut c = Composer::new(self.doc);
            c.jumps = self.jumps;
            let r = c.value(id, crate::refyaml::DEPTH, spent);
            self.jumps = c.jumps;
            return match r {
                Ok(v) => Ok(Val::Any(v)),
                Err(No::Repetition) if c.steps > STEP_CAP => Err(Stop::Unsure),
                Err(no) => match c.fail.take() {
                    Some((mark, steps)) => {
                        let mut p = path.to_string();
                        for s in steps.iter().rev() {
                            p = match s {
                                Step::Item(i) => item(&p, *i),
                                Step::Value(k) => self.key_path(&p, *k),
                                Step::Key => KEY.to_string(),
                            };
                        }
                        let kind = if no == No::Dup { "duplicate entry" } else { "invalid" };
                        place(er(kind), mark, &p)
                    }
                    None => vague("value"),
                },
            };
        }
        // A local tag on a node of a type that has no use for it: nothing is
        // promised either way.
        if !spent && local_tag(&node.tag).is_some() {
            return Err(Stop::Unsure);
        }
        let r = self.plain(ty, id, path, spent);
        if let Kind::Void = node.kind {
            // There is no node to point at.
            return r.map_err(|e| match e {
                Stop::Err(e) if e.at.is_none() => Stop::Err(Er { placed: false, ..e }),
                e => e,
            });
        }
        place(r, mark, path)
    }

    fn plain(&mut self, ty: &Ty, id: usize, path: &str, spent: bool) -> R<Val> {
        let node = &self.doc.nodes[id];
        let text = self.text(id);
        // Numbers and bools: plain, or literal with the very tag.
        let may = |name: &[u8]| match &node.kind {
            Kind::Scalar(_, Style::Plain) => true,
            Kind::Scalar(_, Style::Literal) => !spent && core(&node.tag, name),
            _ => false,
        };
        match ty {
            Ty::Unit | Ty::UnitStruct => match &node.kind {
                Kind::Void => Ok(Val::Unit),
                Kind::Scalar(v, Style::Plain) => {
                    let t = std::str::from_utf8(v).unwrap_or("x");
                    let ok = match (&node.tag, spent) {
                        (Some(_), false) => core(&node.tag, b"null") && scalar::is_null(t),
                        _ => t.is_empty() || scalar::is_null(t),
                    };
                    if ok {
                        Ok(Val::Unit)
                    } else {
                        er("invalid")
                    }
                }
                _ => er("invalid"),
            },
            Ty::Bool => match text.filter(|_| may(b"bool")).and_then(scalar::boolean) {
                Some(b) => Ok(Val::Bool(b)),
                None => self.misfit(id),
            },
            Ty::Int(bits, signed) => {
                let v = match text.filter(|_| may(b"int")).and_then(scalar::integer) {
                    Some(v) => v,
                    None => return self.misfit(id),
                };
                let fits = match (v, signed) {
                    ((neg, Some(m)), true) => scalar::signed(neg, m).filter(|i| *bits == 128 || (-(1i128 << (bits - 1))..1i128 << (bits - 1)).contains(i)).map(|i| Val::Int(i < 0, i.unsigned_abs())),
                    ((true, Some(m)), false) => (m == 0).then_some(Val::Int(false, 0)),
                    ((false, Some(m)), false) => Some(m).filter(|m| *bits == 128 || *m < 1u128 << bits).map(|m| Val::Int(false, m)),
                    _ => None,
                };
                match fits {
                    Some(v) => Ok(v),
                    None => self.misfit(id),
                }
            }
            Ty::F32 | Ty::F64 => {
                let t = match text.filter(|_| may(b"float")) {
                    Some(t) => t,
                    None => return self.misfit(id),
                };
                let digits = t.strip_prefix(['+', '-']).unwrap_or(t);
                if digits.len() > 1 && digits.starts_with('0') && digits.bytes().all(|b| b.is_ascii_digit()) {
                    return Err(Stop::Unsure);
                }
                if scalar::integer(t).is_some() && digits.bytes().any(|b| !b.is_ascii_digit()) {
                    // hexadecimal and the like as floats
                    return Err(Stop::Unsure);
                }
                match scalar::float(t) {
                    Some(f) if matches!(ty, Ty::F64) => Ok(Val::F64(f)),
                    Some(f) => Ok(Val::F32(f as f32)),
                    None => self.misfit(id),
                }
            }
            Ty::Char => match text {
                Some(t) => {
                    let mut c = t.chars();
                    match (c.next(), c.next()) {
                        (Some(x), None) => Ok(Val::Char(x)),
                        _ => er("invalid"),
                    }
                }
                None => self.misfit(id),
            },
            Ty::Str => match text {
                Some(t) => Ok(Val::Str(t.to_string())),
                None => self.misfit(id),
            },
            Ty::Seq(t) => {
                let mut out = Vec::new();
                for (i, c) in self.items(id)?.into_iter().enumerate() {
                    out.push(self.read(t, c, &item(path, i), false)?);
                }
                Ok(Val::Seq(out))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => self.tuple(ts, id, path),
            Ty::Map(kt, vt) => {
                let mut out = Vec::new();
                for (k, v) in self.entries(id)? {
                    let kv = self.read(kt, k, KEY, false)?;
                    let p = self.key_path(path, k);
                    out.push((kv, self.read(vt, v, &p, false)?));
                }
                Ok(Val::Map(out))
            }
            Ty::Struct(fs) => self.fields(fs, id, path),
            _ => unreachable!(),
        }
    }

    fn misfit<T>(&self, id: usize) -> R<T> {
        match &self.doc.nodes[id].kind {
            Kind::Void => vague("end of stream"),
            _ => er("invalid"),
        }
    }

    fn key_path(&self, path: &str, key: usize) -> String {
        child(path, self.text(key).unwrap_or("?"))
    }

    fn empty(&self, id: usize) -> bool {
        match &self.doc.nodes[id].kind {
            Kind::Void => true,
            Kind::Scalar(v, Style::Plain) => v.is_empty(),
            _ => false,
        }
    }
    fn items(&self, id: usize) -> R<Vec<usize>> {
        match &self.doc.nodes[id].kind {
            Kind::Seq(v) => Ok(v.clone()),
            _ if self.empty(id) => Ok(vec![]),
            _ => er("invalid"),
        }
    }
    fn entries(&self, id: usize) -> R<Vec<(usize, usize)>> {
        match &self.doc.nodes[id].kind {
            Kind::Map(v) => Ok(v.clone()),
            _ if self.empty(id) => Ok(vec![]),
            _ => er("invalid"),
        }
    }

    fn tuple(&mut self, ts: &[Ty], id: usize, path: &str) -> R<Val> {
        let items = self.items(id)?;
        let mut out = Vec::new();
        for (i, t) in ts.iter().enumerate() {
            match items.get(i) {
                Some(&c) => out.push(self.read(t, c, &item(path, i), false)?),
                None => return er("invalid length"),
            }
        }
        if items.len() > ts.len() {
            return er("invalid length");
        }
        Ok(Val::Prod(out))
    }

    fn fields(&mut self, fs: &[(&'static str, Ty)], id: usize, path: &str) -> R<Val> {
        let mut got: Vec<Option<Val>> = vec![None; fs.len()];
        for (k, v) in self.entries(id)? {
            let p = self.key_path(path, k);
            let (kid, _) = self.target(k)?;
            let name = match self.text(kid) {
                Some(t) => t,
                None => return place(er("invalid"), self.doc.nodes[kid].mark, path),
            };
            if let Some(i) = fs.iter().position(|f| f.0 == name) {
                if got[i].is_some() {
                    return er("duplicate field");
                }
                got[i] = Some(self.read(&fs[i].1, v, &p, false)?);
            }
        }
        let mut out = Vec::new();
        for (i, g) in got.into_iter().enumerate() {
            out.push(match g {
                Some(x) => x,
                None if matches!(fs[i].1, Ty::Opt(_)) => Val::None,
                None => return er("missing field"),
            });
        }
        Ok(Val::Prod(out))
    }

    fn variant(&mut self, vs: &[(&'static str, Var)], id: usize, path: &str, spent: bool) -> R<Val> {
        let node = &self.doc.nodes[id];
        let mark = node.mark;
        let find = |name: &str| vs.iter().position(|v| v.0 == name);
        let tag = if spent { None } else { local_tag(&node.tag) };
        if let Some(tag) = tag {
            let i = match find(tag) {
                Some(i) => i,
                None => {
                    let mut r = place(er("unknown variant"), mark, path);
                    if let Err(Stop::Err(e)) = &mut r {
                        e.finding = Some("unknown-tag-place");
                    }
                    return r;
                }
            };
            let inner = match &vs[i].1 {
                Var::Unit => place(self.plain(&Ty::Unit, id, path, true), mark, path)?,
                Var::New(t) => self.read(t, id, path, true)?,
                Var::Tuple(ts) => place(self.tuple(ts, id, path), mark, path)?,
                Var::Struct(fs) => place(self.fields(fs, id, path), mark, path)?,
            };
            return Ok(Val::Var(i, Box::new(inner)));
        }
        match (&node.kind, self.text(id)) {
            (_, Some("")) if spent => place(er("nested enum"), mark, path),
            (_, Some(t)) => match find(t) {
                None => place(er("unknown variant"), mark, path),
                Some(i) => match vs[i].1 {
                    Var::Unit => Ok(Val::Var(i, Box::new(Val::Unit))),
                    _ => place(er("invalid"), mark, path),
                },
            },
            (Kind::Void, _) => vague("end of stream"),
            _ if spent => place(er("nested enum"), mark, path),
            _ => place(er("invalid"), mark, path),
        }
    }
}

/// A whole stream read as one value of the type.
pub fn single(docs: &[Doc], ty: &Ty) -> R<Val> {
    if docs.len() != 1 || docs[0].bad.is_some() {
        return vague("stream");
    }
    Reader::new(&docs[0]).read(ty, docs[0].root, ROOT, false)
}

/// The value of a known tag, for reports.
pub fn tag_of(t: &Option<Vec<u8>>) -> String {
    local_tag(t).map(canon_tag).unwrap_or_default()
}

#[allow(dead_code)]
pub fn as_mv(v: &Val) -> Option<&MV> {
    match v {
        Val::Any(m) => Some(m),
        _ => None,
    }
}
