//! Documents written for a type, mostly fitting it: every node in its own
//! spelling, with anchors, aliases, tags and comments, and here and there a
//! node that does not fit. What the text means is decided by `refyaml` and
//! `refty`, never by this generator.

use crate::engine::Source;
use crate::gen;
use crate::ty::{self, Ty, Var};
use crate::writer;

#[derive(Clone, Debug)]
pub enum Raw {
    /// Any scalar on one line, in its style.
    Atom(String),
    /// Header and lines of a block scalar.
    Block(&'static str, Vec<String>),
    Seq(Vec<Rn>),
    Map(Vec<(Rn, Rn)>),
    Alias(String),
}

#[derive(Clone, Debug)]
pub struct Rn {
    pub props: String,
    pub body: Raw,
}

fn rn(body: Raw) -> Rn {
    Rn { props: String::new(), body }
}
pub fn atom(t: &str) -> Rn {
    rn(Raw::Atom(t.to_string()))
}

pub struct Near {
    /// Names and the types of the nodes they stand for.
    anchors: Vec<(String, String)>,
    /// Out of 1000 nodes, how many deviate.
    pub slop: u64,
    /// Out of 1000 nodes, how many are anchored or aliases.
    pub share: u64,
    pub deviations: usize,
    /// Entries with unknown names added to structs.
    pub extras: bool,
    pub extra_count: usize,
}

pub fn double(s: &mut Source, t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' if s.bool() => o.push('\t'),
            ' '..='~' => {
                if s.chance(1, 40) {
                    o.push_str(&format!("\\x{:02x}", c as u32));
                } else {
                    o.push(c)
                }
            }
            c if c.is_alphanumeric() && s.chance(3, 4) => o.push(c),
            c => o.push_str(&format!("\\U{:08x}", c as u32)),
        }
    }
    o.push('"');
    o
}
pub fn single(t: &str) -> Option<String> {
    if t.chars().all(|c| (' '..='~').contains(&c) || c == 'é' || c.is_alphanumeric()) {
        Some(format!("'{}'", t.replace('\'', "''")))
    } else {
        None
    }
}

/// The text as a scalar in some style.
pub fn styled(s: &mut Source, t: &str) -> Rn {
    match s.weighted(&[6, 2, 3, 1]) {
        0 if writer::plain_ok(t, true) => rn(Raw::Atom(t.to_string())),
        1 => match single(t) {
            Some(q) => rn(Raw::Atom(q)),
            None => rn(Raw::Atom(double(s, t))),
        },
        3 if !t.is_empty() && t.chars().all(|c| (' '..='~').contains(&c) || c == '\n') && !t.starts_with([' ', '\n']) => {
            let (h, body): (&[&'static str], &str) = match t.strip_suffix('\n') {
                Some(b) => (&["|", "|+"], b),
                None => (&["|-"], t),
            };
            if body.is_empty() || body.ends_with([' ', '\n']) {
                return rn(Raw::Atom(double(s, t)));
            }
            let mut h = *s.pick(h);
            if !body.contains('\n') && s.bool() {
                h = if h == "|-" { ">-" } else { ">" };
            }
            rn(Raw::Block(h, body.split('\n').map(|x| x.to_string()).collect()))
        }
        _ => rn(Raw::Atom(double(s, t))),
    }
}

pub fn core_tag(s: &mut Source) -> &'static str {
    *s.pick(&["!!str ", "!!int ", "!!float ", "!!bool ", "!!null ", "!!seq ", "!!map ", "!!binary ", "!<tag:yaml.org,2002:int> ", "!<x:y> "])
}

/// A scalar of any text, style and tag.
pub fn any_scalar(s: &mut Source) -> Rn {
    let t = match s.weighted(&[6, 4, 4, 2, 2]) {
        0 => gen::numberish(s),
        1 => s.pick(&["null", "~", "Null", "NULL", "true", "false", "True", "FALSE", "yes", "no", "on", "nuLL", "tRue", ".inf", ".nan", "-.INF", "nan", "1", "0", "-1", "1.5", "-0", "+1", "a", "é", "", " ", "007", "0x1F", "0o17", "0b1", "1e3", "1_000", "256", "-129", "65536", "4294967296", "9223372036854775808", "18446744073709551616", "340282366920938463463374607431768211456"]).to_string(),
        2 => gen::string(s),
        3 => gen::word(s),
        _ => gen::any_char(s).to_string(),
    };
    let mut r = if s.chance(3, 5) && writer::plain_ok(&t, true) { rn(Raw::Atom(t)) } else { styled(s, &t) };
    match s.weighted(&[10, 4, 1]) {
        1 => r.props.push_str(core_tag(s)),
        2 => r.props.push_str(*s.pick(&["!A ", "!foo ", "! "])),
        _ => {}
    }
    r
}

pub fn any_node(s: &mut Source, depth: usize) -> Rn {
    match s.weighted(&[6, 2, 2]) {
        1 if depth > 0 => {
            let mut v = vec![];
            while s.more(v.len(), 1, 3) {
                v.push(any_node(s, depth - 1));
            }
            rn(Raw::Seq(v))
        }
        2 if depth > 0 => {
            let mut v = vec![];
            while s.more(v.len(), 1, 3) {
                let k = any_node(s, 0);
                v.push((k, any_node(s, depth - 1)));
            }
            rn(Raw::Map(v))
        }
        _ => any_scalar(s),
    }
}

/// A node nested further than any that is built may be.
pub fn deep_node(s: &mut Source) -> Rn {
    let levels = match s.below(4) {
        0 => 1 + s.below(60),
        1 => 120 + s.below(16),
        _ => 40 + s.below(240),
    };
    let kind = s.below(4);
    let mut n = any_node(s, 1);
    for _ in 0..levels {
        n = match kind {
            0 => rn(Raw::Seq(vec![n])),
            1 => rn(Raw::Map(vec![(atom("a"), n)])),
            2 => rn(Raw::Map(vec![(n, atom("a"))])),
            _ => match s.below(4) {
                0 => rn(Raw::Seq(vec![n])),
                1 => rn(Raw::Map(vec![(atom("a"), n)])),
                2 => rn(Raw::Seq(vec![atom("1"), n, atom("2")])),
                _ => rn(Raw::Map(vec![(atom("a"), n), (atom("b"), atom("c"))])),
            },
        };
    }
    n
}

impl Near {
    pub fn new(slop: u64, share: u64) -> Near {
        Near { anchors: vec![], slop, share, deviations: 0, extras: false, extra_count: 0 }
    }

    pub fn node(&mut self, s: &mut Source, t: &Ty) -> Rn {
        if self.share > 0 && s.chance(self.share, 1000) {
            if !self.anchors.is_empty() && s.chance(2, 3) {
                let me = ty::show_ty(t);
                let mut same: Vec<&String> = self.anchors.iter().filter(|a| a.1 == me).map(|a| &a.0).collect();
                if same.is_empty() && s.chance(1, 6) {
                    same = self.anchors.iter().map(|a| &a.0).collect();
                }
                if !same.is_empty() {
                    return rn(Raw::Alias(s.pick(&same).to_string()));
                }
            }
            // An anchor is known from its definition on, also inside itself.
            let name = gen::anchor(s);
            let mut n = self.bare(s, t);
            if !matches!(n.body, Raw::Alias(_)) {
                n.props = format!("&{name} {}", n.props);
                self.anchors.retain(|a| a.0 != name);
                self.anchors.push((name, ty::show_ty(t)));
            }
            return n;
        }
        self.bare(s, t)
    }

    fn bare(&mut self, s: &mut Source, t: &Ty) -> Rn {
        if self.slop > 0 && s.chance(self.slop, 1000) {
            self.deviations += 1;
            match s.below(4) {
                0 => return any_node(s, 2),
                1 | 2 => return any_scalar(s),
                _ => {
                    let mut n = self.fit(s, t);
                    n.props.push_str(if s.bool() { core_tag(s) } else { "!A " });
                    return n;
                }
            }
        }
        self.fit(s, t)
    }

    fn null(&mut self, s: &mut Source) -> Rn {
        atom(*s.pick(&["~", "null", "", "Null", "NULL"]))
    }

    fn list(&mut self, s: &mut Source, ts: &[Ty]) -> Rn {
        let mut v: Vec<Rn> = ts.iter().map(|t| self.node(s, t)).collect();
        if self.slop > 0 && s.chance(self.slop, 1000) {
            self.deviations += 1;
            if s.bool() {
                v.push(any_node(s, 1));
            } else {
                v.pop();
            }
        }
        rn(Raw::Seq(v))
    }

    fn name(&mut self, s: &mut Source, n: &str) -> Rn {
        styled(s, n)
    }

    fn fields(&mut self, s: &mut Source, fs: &[(&'static str, Ty)]) -> Rn {
        let mut order = gen::permutation(s, fs.len());
        if s.bool() {
            order.sort();
        }
        let mut v = Vec::new();
        for i in order {
            let (n, t) = &fs[i];
            if matches!(t, Ty::Opt(_)) && s.chance(1, 4) {
                continue;
            }
            let slip = self.slop > 0 && s.chance(self.slop, 1000);
            if slip {
                self.deviations += 1;
                match s.below(4) {
                    0 => continue,
                    1 => {
                        let k = any_node(s, 1);
                        v.push((k, any_node(s, 1)));
                    }
                    _ => {
                        let k = self.name(s, n);
                        v.push((k, self.node(s, t)));
                    }
                }
            }
            if self.extras && s.chance(1, 4) {
                self.extra_count += 1;
                let k = format!("zz_x{}", self.extra_count);
                let x = if s.chance(1, 60) { deep_node(s) } else { any_node(s, 2) };
                v.push((atom(&k), x));
            }
            let k = self.name(s, n);
            v.push((k, self.node(s, t)));
        }
        rn(Raw::Map(v))
    }

    fn fit(&mut self, s: &mut Source, t: &Ty) -> Rn {
        match t {
            Ty::Unit | Ty::UnitStruct => self.null(s),
            Ty::Ignored => {
                if s.chance(1, 60) {
                    return deep_node(s);
                }
                any_node(s, 2)
            }
            Ty::Bool => atom(*s.pick(&["true", "false", "True", "False", "TRUE", "FALSE"])),
            Ty::Int(b, true) => {
                let hi = (1u128 << (b - 1)) - 1;
                let lo = if *b == 128 { i128::MIN } else { -(1i128 << (b - 1)) };
                let (n, m) = gen::int_in(s, lo, hi);
                let i = if n { (m as i128).wrapping_neg() } else { m as i128 };
                atom(&writer::int_spelling(s, i))
            }
            Ty::Int(b, false) => {
                let hi = if *b == 128 { i128::MAX as u128 } else { (1u128 << b) - 1 };
                let (_, m) = gen::int_in(s, 0, hi);
                atom(&writer::int_spelling(s, m as i128))
            }
            Ty::F32 | Ty::F64 => {
                let f = gen::f64s(s);
                atom(&writer::float_spelling(s, f))
            }
            Ty::Char => {
                let c = gen::any_char(s).to_string();
                styled(s, &c)
            }
            Ty::Str => {
                let t = if s.chance(1, 3) { gen::word(s) } else { gen::string(s) };
                styled(s, &t)
            }
            Ty::Bytes => atom("abc"),
            Ty::Opt(t) => {
                if s.chance(1, 3) {
                    self.null(s)
                } else {
                    self.bare(s, t)
                }
            }
            Ty::Seq(t) => {
                if s.chance(1, 20) {
                    return atom("");
                }
                let mut v = Vec::new();
                if s.chance(1, 1500) && matches!(**t, Ty::Bool | Ty::Int(..) | Ty::Str) {
                    // Many alike.
                    let n = *s.pick(&[10, 100, 127, 128, 255, 256, 257, 300, 1000]);
                    let one = self.fit(s, t);
                    v.resize_with(n, || one.clone());
                    if self.slop > 0 && s.bool() {
                        self.deviations += 1;
                        v.push(any_scalar(s));
                    }
                }
                while s.more(v.len(), 2, 5) {
                    v.push(self.node(s, t));
                }
                rn(Raw::Seq(v))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => self.list(s, ts),
            Ty::Map(k, t) => {
                if s.chance(1, 20) {
                    return atom("");
                }
                let mut v = Vec::new();
                while s.more(v.len(), 2, 5) {
                    let key = self.node(s, k);
                    v.push((key, self.node(s, t)));
                }
                rn(Raw::Map(v))
            }
            Ty::Newtype(t) | Ty::With(_, t) => self.bare(s, t),
            Ty::Struct(fs) => self.fields(s, fs),
            Ty::Enum(vs) => {
                let (n, var) = &vs[s.below(vs.len())];
                let tag = |n: &str| {
                    if !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric()) {
                        format!("!{n} ")
                    } else {
                        let mut o = String::from("!<!");
                        for b in n.bytes() {
                            if b.is_ascii_alphanumeric() {
                                o.push(b as char);
                            } else {
                                o.push_str(&format!("%{b:02X}"));
                            }
                        }
                        o + "> "
                    }
                };
                let mut r = match var {
                    Var::Unit => {
                        if s.chance(2, 3) {
                            return self.name(s, n);
                        }
                        self.null(s)
                    }
                    Var::New(t) => {
                        // a tag must not meet another tag or an alias
                        let (h, w) = (self.share, self.slop);
                        self.share = 0;
                        self.slop = 0;
                        let mut r = self.fit(s, t);
                        self.share = h;
                        self.slop = w;
                        if ty::taggy(t) {
                            r.props.clear();
                        }
                        r
                    }
                    Var::Tuple(ts) => self.list(s, ts),
                    Var::Struct(fs) => self.fields(s, fs),
                };
                r.props = format!("{}{}", tag(n), r.props);
                r
            }
            Ty::Any => {
                let mut n = any_node(s, 2);
                if let Raw::Atom(_) = n.body {
                    if s.bool() {
                        n.props.clear();
                    }
                }
                n
            }
        }
    }
}

/// The tree with every tagged block scalar written with quotes: what such a
/// scalar means for some types depends on the style, and `flow` and `block`
/// write it in different ones. For trees that are written twice.
pub fn settle(s: &mut Source, n: &mut Rn) {
    let tagged = n.props.contains('!');
    match &mut n.body {
        Raw::Block(h, l) if tagged => {
            let end = if h.ends_with('-') { "" } else { "\n" };
            n.body = Raw::Atom(double(s, &(l.join("\n") + end)));
        }
        Raw::Seq(v) => v.iter_mut().for_each(|x| settle(s, x)),
        Raw::Map(v) => v.iter_mut().for_each(|(k, x)| {
            settle(s, k);
            settle(s, x);
        }),
        _ => {}
    }
}

// ------------------------------------------------------------- emission

fn flow(s: &mut Source, n: &Rn, out: &mut String, key: bool) {
    out.push_str(&n.props);
    let gap = |s: &mut Source, out: &mut String| {
        if key {
            return;
        }
        match s.weighted(&[20, 3, 1, 1]) {
            1 => out.push(' '),
            2 => out.push_str("\n  "),
            3 => out.push_str(" # é\n  "),
            _ => {}
        }
    };
    match &n.body {
        Raw::Atom(t) => out.push_str(t),
        Raw::Alias(a) => {
            out.push('*');
            out.push_str(a);
            out.push(' ');
        }
        Raw::Block(h, l) => {
            let end = if h.ends_with('-') { "" } else { "\n" };
            out.push_str(&double(s, &(l.join("\n") + end)))
        }
        Raw::Seq(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                gap(s, out);
                if matches!(&x.body, Raw::Atom(t) if t.is_empty()) && x.props.is_empty() {
                    // an empty node: flow sequences cannot have one alone
                    out.push_str("&_e ");
                } else {
                    flow(s, x, out, key);
                }
                gap(s, out);
            }
            out.push(']');
        }
        Raw::Map(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                gap(s, out);
                if !matches!(k.body, Raw::Atom(_) | Raw::Alias(_)) || matches!(&k.body, Raw::Atom(t) if t.is_empty() || t.len() > 900) {
                    out.push_str("? ");
                    flow(s, k, out, key);
                    out.push(' ');
                } else {
                    flow(s, k, out, true);
                }
                out.push_str(": ");
                gap(s, out);
                flow(s, x, out, key);
                gap(s, out);
            }
            out.push('}');
        }
    }
}

fn eol(s: &mut Source, out: &mut String) {
    match s.weighted(&[24, 2, 1, 1]) {
        1 => out.push_str(" # c é"),
        2 => out.push('\n'),
        3 => out.push_str("\n# 日本"),
        _ => {}
    }
    out.push('\n');
}

/// After an introducer (`-`, `key:`, `?`, `:` or `---`), without a space yet.
fn block(s: &mut Source, n: &Rn, indent: usize, out: &mut String) {
    let pad = " ".repeat(indent);
    match &n.body {
        Raw::Block(h, lines) => {
            out.push(' ');
            out.push_str(&n.props);
            out.push_str(h);
            out.push('\n');
            for l in lines {
                if !l.is_empty() {
                    out.push_str(&pad);
                    out.push_str(l);
                }
                out.push('\n');
            }
        }
        Raw::Seq(v) if !v.is_empty() && s.chance(1, 2) => {
            if !n.props.is_empty() {
                out.push(' ');
                out.push_str(n.props.trim_end());
            }
            eol(s, out);
            for x in v {
                out.push_str(&pad);
                out.push('-');
                let d = 1 + s.below(3);
                block(s, x, indent + d, out);
            }
        }
        Raw::Map(v) if !v.is_empty() && s.chance(1, 2) => {
            if !n.props.is_empty() {
                out.push(' ');
                out.push_str(n.props.trim_end());
            }
            eol(s, out);
            for (k, x) in v {
                out.push_str(&pad);
                let simple = match &k.body {
                    Raw::Atom(t) => !t.is_empty() && t.len() < 300,
                    Raw::Alias(_) => true,
                    _ => false,
                };
                if simple && !s.chance(1, 12) {
                    flow(s, k, out, true);
                } else {
                    out.push('?');
                    block(s, k, indent + 2, out);
                    out.push_str(&pad);
                }
                out.push(':');
                let d = 1 + s.below(3);
                block(s, x, indent + d, out);
            }
        }
        _ => {
            out.push(' ');
            if s.chance(1, 20) {
                out.push_str("\n ");
                out.push_str(&pad);
            }
            flow(s, n, out, false);
            eol(s, out);
        }
    }
}

/// The node as a document.
pub fn document(s: &mut Source, n: &Rn) -> String {
    let mut out = unmarked(s, n);
    if s.chance(1, 4000) {
        // Far from the start.
        let pad = match s.below(4) {
            0 => "\n".repeat(66_000),
            1 => "# a comment of one line, and then another\n".repeat(1600),
            2 => "\r\n".repeat(300),
            _ => format!("# {}\n", "é".repeat(40_000)),
        };
        out.insert_str(0, &pad);
    }
    if s.chance(1, 40) {
        out.insert(0, '\u{feff}');
    }
    out
}

fn unmarked(s: &mut Source, n: &Rn) -> String {
    let mut out = String::new();
    if s.chance(1, 10) {
        out.push_str("# é\n");
    }
    out.push_str("---");
    block(s, n, 0, &mut out);
    if s.chance(1, 2) {
        // Same text, without the marker where that is the same document.
        if let Some(r) = out.strip_prefix("---\n") {
            return r.to_string();
        }
        if let Some(r) = out.strip_prefix("--- ") {
            if !r.starts_with(['|', '>', '\n']) {
                return r.to_string();
            }
        }
    }
    out
}
