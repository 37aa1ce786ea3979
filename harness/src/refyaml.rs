//! An independent reading of YAML text: events from unsafe-libyaml (driven
//! directly, not through the library under test), composed into a node graph,
//! and the library's documented semantics re-stated over that graph.

use crate::model::{has_dup, MV};
use crate::scalar;
use std::collections::HashMap;
use std::mem::MaybeUninit;
use unsafe_libyaml as sys;

#[derive(Copy, Clone, Debug, PartialEq, Default)]
pub struct Mark {
    pub index: usize,
    pub line: usize,
    pub column: usize,
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Style {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}

#[derive(Clone, Debug)]
pub enum Ev {
    StreamStart,
    StreamEnd,
    DocStart,
    DocEnd,
    Alias(Vec<u8>),
    Scalar { anchor: Option<Vec<u8>>, tag: Option<Vec<u8>>, value: Vec<u8>, style: Style },
    SeqStart { anchor: Option<Vec<u8>>, tag: Option<Vec<u8>> },
    SeqEnd,
    MapStart { anchor: Option<Vec<u8>>, tag: Option<Vec<u8>> },
    MapEnd,
}

#[derive(Clone, Debug)]
pub struct ParseErr {
    pub problem: String,
    pub mark: Mark,
    /// Of an error in the encoding.
    pub offset: Option<u64>,
    /// What was being read, and where it began.
    pub context: Option<(String, Mark)>,
}

unsafe fn cstr(p: *const u8) -> Option<Vec<u8>> {
    if p.is_null() {
        return None;
    }
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    Some(std::slice::from_raw_parts(p, n).to_vec())
}

fn mk(m: sys::yaml_mark_t) -> Mark {
    Mark {
        index: m.index as usize,
        line: m.line as usize,
        column: m.column as usize,
    }
}

/// All events of the stream, with start and end marks, up to the end or the first error.
///
/// A byte order mark at the start is no part of the text, but of its length.
pub fn events(input: &[u8]) -> (Vec<(Ev, Mark, Mark)>, Option<ParseErr>) {
    if let Some(rest) = input.strip_prefix(b"\xEF\xBB\xBF") {
        let at = |m: &mut Mark| m.index += 3;
        let (mut ev, mut err) = content(rest);
        for (_, a, b) in &mut ev {
            at(a);
            at(b);
        }
        if let Some(e) = &mut err {
            at(&mut e.mark);
            e.offset = e.offset.map(|n| n + 3);
        }
        (ev, err)
    } else {
        content(input)
    }
}

fn content(input: &[u8]) -> (Vec<(Ev, Mark, Mark)>, Option<ParseErr>) {
    let mut out = Vec::new();
    unsafe {
        let mut p = Box::new(MaybeUninit::<sys::yaml_parser_t>::uninit());
        let parser = p.as_mut_ptr();
        assert!(sys::yaml_parser_initialize(parser).ok);
        sys::yaml_parser_set_encoding(parser, sys::YAML_UTF8_ENCODING);
        sys::yaml_parser_set_input_string(parser, input.as_ptr(), input.len() as u64);
        let mut err = None;
        loop {
            let mut e = MaybeUninit::<sys::yaml_event_t>::uninit();
            let e = e.as_mut_ptr();
            if sys::yaml_parser_parse(parser, e).fail {
                err = Some(ParseErr {
                    problem: cstr((*parser).problem as *const u8)
                        .map(|b| String::from_utf8_lossy(&b).into_owned())
                        .unwrap_or_default(),
                    mark: mk((*parser).problem_mark),
                    offset: matches!((*parser).error, sys::YAML_READER_ERROR).then_some((*parser).problem_offset),
                    context: cstr((*parser).context as *const u8).map(|b| (String::from_utf8_lossy(&b).into_owned(), mk((*parser).context_mark))),
                });
                break;
            }
            let ev = match (*e).type_ {
                sys::YAML_STREAM_START_EVENT => Ev::StreamStart,
                sys::YAML_STREAM_END_EVENT => Ev::StreamEnd,
                sys::YAML_DOCUMENT_START_EVENT => Ev::DocStart,
                sys::YAML_DOCUMENT_END_EVENT => Ev::DocEnd,
                sys::YAML_ALIAS_EVENT => Ev::Alias(cstr((*e).data.alias.anchor).unwrap()),
                sys::YAML_SCALAR_EVENT => Ev::Scalar {
                    anchor: cstr((*e).data.scalar.anchor),
                    tag: cstr((*e).data.scalar.tag),
                    value: std::slice::from_raw_parts((*e).data.scalar.value, (*e).data.scalar.length as usize).to_vec(),
                    style: match (*e).data.scalar.style {
                        sys::YAML_PLAIN_SCALAR_STYLE => Style::Plain,
                        sys::YAML_SINGLE_QUOTED_SCALAR_STYLE => Style::Single,
                        sys::YAML_DOUBLE_QUOTED_SCALAR_STYLE => Style::Double,
                        sys::YAML_LITERAL_SCALAR_STYLE => Style::Literal,
                        _ => Style::Folded,
                    },
                },
                sys::YAML_SEQUENCE_START_EVENT => Ev::SeqStart {
                    anchor: cstr((*e).data.sequence_start.anchor),
                    tag: cstr((*e).data.sequence_start.tag),
                },
                sys::YAML_SEQUENCE_END_EVENT => Ev::SeqEnd,
                sys::YAML_MAPPING_START_EVENT => Ev::MapStart {
                    anchor: cstr((*e).data.mapping_start.anchor),
                    tag: cstr((*e).data.mapping_start.tag),
                },
                sys::YAML_MAPPING_END_EVENT => Ev::MapEnd,
                _ => {
                    sys::yaml_event_delete(e);
                    break;
                }
            };
            let (a, b) = (mk((*e).start_mark), mk((*e).end_mark));
            sys::yaml_event_delete(e);
            let end = matches!(ev, Ev::StreamEnd);
            out.push((ev, a, b));
            if end {
                break;
            }
        }
        sys::yaml_parser_delete(parser);
        (out, err)
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Scalar(Vec<u8>, Style),
    Seq(Vec<usize>),
    Map(Vec<(usize, usize)>),
    /// Index of the anchored node.
    Alias(usize),
    /// An empty stream.
    Void,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub tag: Option<Vec<u8>>,
    pub mark: Mark,
    pub end: Mark,
    pub anchored: bool,
}

#[derive(Clone, Debug)]
pub enum Bad {
    Parse(ParseErr),
    UnknownAnchor(Mark),
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub nodes: Vec<Node>,
    pub root: usize,
    /// Number of node events: scalars, aliases, collection starts and ends.
    pub events: usize,
    pub bad: Option<Bad>,
}

/// The documents of a stream. The last one is `bad` if the stream is.
pub fn documents(input: &[u8]) -> Vec<Doc> {
    let (evs, err) = events(input);
    let mut docs: Vec<Doc> = Vec::new();
    let mut cur: Option<Doc> = None;
    let mut anchors: HashMap<Vec<u8>, usize> = HashMap::new();
    // open collections: (node index, pending key)
    let mut open: Vec<(usize, Option<usize>)> = Vec::new();
    let mut ended = false;
    for (ev, mark, end) in evs {
        let node = match ev {
            Ev::StreamStart => continue,
            Ev::StreamEnd => {
                ended = true;
                break;
            }
            Ev::DocStart => {
                cur = Some(Doc { nodes: vec![], root: 0, events: 0, bad: None });
                anchors.clear();
                open.clear();
                continue;
            }
            Ev::DocEnd => {
                docs.push(cur.take().unwrap());
                continue;
            }
            Ev::SeqEnd | Ev::MapEnd => {
                let d = cur.as_mut().unwrap();
                d.events += 1;
                open.pop();
                continue;
            }
            Ev::Alias(a) => match anchors.get(&a) {
                Some(&t) => (Kind::Alias(t), None, None),
                None => {
                    let mut d = cur.take().unwrap();
                    d.bad = Some(Bad::UnknownAnchor(mark));
                    docs.push(d);
                    return docs;
                }
            },
            Ev::Scalar { anchor, tag, value, style } => (Kind::Scalar(value, style), tag, anchor),
            Ev::SeqStart { anchor, tag } => (Kind::Seq(vec![]), tag, anchor),
            Ev::MapStart { anchor, tag } => (Kind::Map(vec![]), tag, anchor),
        };
        let d = cur.as_mut().unwrap();
        d.events += 1;
        let id = d.nodes.len();
        let (kind, tag, anchor) = node;
        if let Some(a) = &anchor {
            anchors.insert(a.clone(), id);
        }
        let coll = matches!(kind, Kind::Seq(_) | Kind::Map(_));
        d.nodes.push(Node { kind, tag, mark, end, anchored: anchor.is_some() });
        if let Some((parent, pending)) = open.last_mut() {
            let p = *parent;
            match &mut d.nodes[p].kind {
                Kind::Seq(v) => v.push(id),
                Kind::Map(v) => match pending.take() {
                    Some(k) => v.push((k, id)),
                    None => *pending = Some(id),
                },
                _ => unreachable!(),
            }
        }
        if coll {
            open.push((id, None));
        }
    }
    if let Some(e) = err {
        let mut d = cur.take().unwrap_or(Doc { nodes: vec![], root: 0, events: 0, bad: None });
        d.bad = Some(Bad::Parse(e));
        docs.push(d);
    } else if ended && docs.is_empty() {
        docs.push(Doc {
            nodes: vec![Node { kind: Kind::Void, tag: None, mark: Mark::default(), end: Mark::default(), anchored: false }],
            root: 0,
            events: 1,
            bad: None,
        });
    }
    docs
}

pub const DEPTH: usize = 128;

/// Why a document has no value.
#[derive(Clone, Debug, PartialEq)]
pub enum No {
    Bad,
    Depth,
    Repetition,
    Dup,
    BadScalar,
    EmptyTag,
}

/// How to get to the node at fault, from the inside out.
#[derive(Clone, Debug)]
pub enum Step {
    Item(usize),
    /// The value of the key that is this node.
    Value(usize),
    Key,
}

pub struct Composer<'a> {
    /// The node at fault, when one is.
    pub fail: Option<(Mark, Vec<Step>)>,
    pub doc: &'a Doc,
    pub jumps: usize,
    /// Work done, to keep the reference itself bounded.
    pub steps: usize,
}

/// `!tag` → the enum tag; None when the node is untagged for this purpose.
pub fn local_tag(tag: &Option<Vec<u8>>) -> Option<&str> {
    let t = tag.as_ref()?;
    let rest = t.strip_prefix(b"!")?;
    let name = if rest.is_empty() { &t[..] } else { rest };
    std::str::from_utf8(name).ok()
}

/// Canonical tag name, as `model::tag_name` gives it.
pub fn canon_tag(t: &str) -> String {
    match t.strip_prefix('!') {
        Some(r) if !r.is_empty() => r.to_string(),
        _ => t.to_string(),
    }
}

pub const STEP_CAP: usize = 400_000;

impl<'a> Composer<'a> {
    pub fn new(doc: &'a Doc) -> Self {
        Composer { fail: None, doc, jumps: 0, steps: 0 }
    }
    fn step<T>(&mut self, r: Result<T, No>, s: Step) -> Result<T, No> {
        if r.is_err() {
            if let Some((_, steps)) = &mut self.fail {
                steps.push(s);
            }
        }
        r
    }
    fn untagged_scalar(&self, v: &[u8], style: Style) -> Result<MV, No> {
        let s = std::str::from_utf8(v).map_err(|_| No::BadScalar)?;
        if style == Style::Plain {
            scalar::value(s).ok_or(No::BadScalar)
        } else {
            Ok(MV::Str(s.to_string()))
        }
    }
    fn tagged_scalar(&self, tag: &[u8], v: &[u8], style: Style) -> Result<MV, No> {
        let s = std::str::from_utf8(v).map_err(|_| No::BadScalar)?;
        let core = tag.strip_prefix(b"tag:yaml.org,2002:");
        match core {
            Some(b"bool") => scalar::boolean(s).map(MV::Bool).ok_or(No::BadScalar),
            Some(b"int") => {
                let (n, m) = scalar::int128(s).ok_or(No::BadScalar)?;
                let v = scalar::signed(n, m).ok_or(No::BadScalar)?;
                if v > u64::MAX as i128 || v < i64::MIN as i128 {
                    return Err(No::BadScalar);
                }
                Ok(MV::Int(v))
            }
            Some(b"float") => scalar_float_tagged(s).map(MV::Float).ok_or(No::BadScalar),
            Some(b"null") => {
                if scalar::is_null(s) {
                    Ok(MV::Null)
                } else {
                    Err(No::BadScalar)
                }
            }
            _ if tag.first() == Some(&b'!') && style == Style::Plain => self.untagged_scalar(v, style),
            _ => Ok(MV::Str(s.to_string())),
        }
    }
    /// What deserializing the node to a `Value` gives.
    pub fn value(&mut self, id: usize, depth: usize, tag_done: bool) -> Result<MV, No> {
        self.steps += 1;
        if self.steps > STEP_CAP {
            return Err(No::Repetition);
        }
        let n = &self.doc.nodes[id];
        if let Kind::Alias(t) = n.kind {
            self.jumps += 1;
            if self.jumps > 100 * self.doc.events {
                return Err(No::Repetition);
            }
            return self.value(t, depth, false);
        }
        if !tag_done {
            if let Some(t) = local_tag(&n.tag) {
                let t = canon_tag(t);
                return Ok(MV::Tag(t, Box::new(self.value(id, depth, true)?)));
            }
        }
        match &n.kind {
            Kind::Void => Ok(MV::Null),
            Kind::Scalar(v, style) => {
                let r = match (&n.tag, tag_done) {
                    (Some(tag), false) => self.tagged_scalar(tag, v, *style),
                    _ => self.untagged_scalar(v, *style),
                };
                if r.is_err() {
                    self.fail = Some((n.mark, vec![]));
                }
                r
            }
            Kind::Seq(v) => {
                if depth == 0 {
                    return Err(No::Depth);
                }
                let mut out = Vec::new();
                for (i, &c) in v.iter().enumerate() {
                    let r = self.value(c, depth - 1, false);
                    out.push(self.step(r, Step::Item(i))?);
                }
                Ok(MV::Seq(out))
            }
            Kind::Map(v) => {
                if depth == 0 {
                    return Err(No::Depth);
                }
                let mut out: Vec<(MV, MV)> = Vec::new();
                // (In large mappings the first fault is not sought.)
                let large = v.len() > 200;
                for &(k, x) in v {
                    let r = self.value(k, depth - 1, false);
                    let key = self.step(r, Step::Key)?;
                    // A key seen before is noticed before its value is read.
                    let dup = !large && out.iter().any(|(o, _): &(MV, MV)| crate::model::loosely(o, &key));
                    if dup {
                        self.fail = Some((n.mark, vec![]));
                        return Err(No::Dup);
                    }
                    let r = self.value(x, depth - 1, false);
                    if large && r.is_err() {
                        self.fail = None;
                    }
                    let x = self.step(r, Step::Value(k))?;
                    out.push((key, x));
                }
                if large && has_dup(&out) {
                    self.fail = None;
                    return Err(No::Dup);
                }
                Ok(MV::Map(out))
            }
            Kind::Alias(_) => unreachable!(),
        }
    }
}

/// `!!float` reads integers and leading zeros too.
fn scalar_float_tagged(s: &str) -> Option<f64> {
    scalar::float(s)
}

pub fn doc_value(d: &Doc) -> Result<MV, No> {
    if d.bad.is_some() {
        return Err(No::Bad);
    }
    Composer::new(d).value(d.root, DEPTH, false)
}

/// The same without a limit to the depth.
pub fn deep_value(d: &Doc) -> Result<MV, No> {
    if d.bad.is_some() {
        return Err(No::Bad);
    }
    Composer::new(d).value(d.root, 1 << 20, false)
}

/// What `from_slice::<Value>` gives.
pub fn single(docs: &[Doc]) -> Result<MV, No> {
    if docs.len() != 1 {
        return Err(No::Bad);
    }
    doc_value(&docs[0])
}
