//! Writes a model value as YAML text in a randomly chosen presentation:
//! block or flow, every scalar style, escapes, folding, anchors and aliases,
//! tags in every spelling, comments, indentation widths, directives, document
//! markers and line-break conventions. Shares no code with the library.

use crate::engine::Source;
use crate::gen;
use crate::model::{feq, same, MV};
use crate::scalar;
use std::collections::BTreeSet;

#[derive(Clone, Copy)]
pub struct WOpts {
    pub aliases: bool,
    pub core_tags: bool,
    pub comments: bool,
    pub breaks: bool,
    /// Write the document start marker always.
    pub explicit: bool,
}

pub const W_ALL: WOpts = WOpts {
    aliases: true,
    core_tags: true,
    comments: true,
    breaks: true,
    explicit: false,
};

pub struct Writer {
    out: String,
    opts: WOpts,
    /// name, value, complete
    anchors: Vec<(String, MV, bool)>,
    after_block_scalar: bool,
    tag_handle: bool,
    flow_bias: u64,
    pub feats: BTreeSet<&'static str>,
}

#[derive(Copy, Clone, PartialEq)]
enum Lead {
    /// after `key:`
    Value,
    /// after `-`, `?` or an explicit `:`
    Dash,
    /// after `---` on the same line
    Marker,
    /// at the start of a line, nothing written yet
    Start,
}

fn plain_char(c: char) -> bool {
    matches!(c, ' '..='~' | '\u{a0}'..='\u{2027}' | '\u{202a}'..='\u{d7ff}' | '\u{e000}'..='\u{fefe}' | '\u{ff00}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

/// Can the text be a plain scalar?
pub fn plain_ok(t: &str, flow: bool) -> bool {
    let c: Vec<char> = t.chars().collect();
    if c.is_empty() || c[0] == ' ' || c[c.len() - 1] == ' ' || t.starts_with("---") || t.starts_with("...") {
        return false;
    }
    for i in 0..c.len() {
        let ch = c[i];
        if !plain_char(ch) {
            return false;
        }
        if flow && matches!(ch, ',' | '[' | ']' | '{' | '}') {
            return false;
        }
        if flow && ch == ':' {
            return false;
        }
        if ch == ':' && (i + 1 == c.len() || c[i + 1] == ' ') {
            return false;
        }
        if ch == '#' && i > 0 && c[i - 1] == ' ' {
            return false;
        }
    }
    match c[0] {
        ',' | '[' | ']' | '{' | '}' | '#' | '&' | '*' | '!' | '|' | '>' | '\'' | '"' | '%' | '@' | '`' => false,
        '-' | '?' | ':' => !flow && c.len() > 1 && c[1] != ' ',
        _ => true,
    }
}

pub fn int_spelling(s: &mut Source, i: i128) -> String {
    let m = i.unsigned_abs();
    let sign = if i < 0 { "-" } else { *s.pick(&["", "", "", "+"]) };
    match s.weighted(&[6, 2, 1, 1, 1]) {
        0 => format!("{sign}{m}"),
        1 => {
            let z = "0".repeat(s.below(3));
            if s.bool() {
                format!("{sign}0x{z}{m:x}")
            } else {
                format!("{sign}0x{z}{m:X}")
            }
        }
        2 => format!("{sign}0o{}{m:o}", "0".repeat(s.below(3))),
        3 => format!("{sign}0b{}{m:b}", "0".repeat(s.below(3))),
        _ => format!("{}{m}", if i < 0 { "-" } else { "+" }),
    }
}

pub fn float_spelling(s: &mut Source, f: f64) -> String {
    if f.is_nan() {
        return s.pick(&[".nan", ".NaN", ".NAN"]).to_string();
    }
    if f.is_infinite() {
        return if f > 0.0 {
            s.pick(&[".inf", ".Inf", ".INF", "+.inf", "+.Inf", "+.INF"]).to_string()
        } else {
            s.pick(&["-.inf", "-.Inf", "-.INF"]).to_string()
        };
    }
    let t = match s.below(6) {
        0 => format!("{f:?}"),
        1 => format!("{f:e}"),
        2 => format!("{f:E}"),
        3 => {
            let t = format!("{f:?}");
            if t.contains('e') {
                t
            } else {
                format!("{t}{}", "0".repeat(s.below(4)))
            }
        }
        4 => {
            let t = format!("{f:?}");
            if f.is_sign_negative() {
                t
            } else {
                format!("+{t}")
            }
        }
        _ => {
            let t = format!("{f:?}");
            if let Some(r) = t.strip_prefix("0.") {
                if r != "0" {
                    format!(".{r}")
                } else {
                    t
                }
            } else if let Some(r) = t.strip_suffix(".0") {
                format!("{r}.")
            } else {
                t
            }
        }
    };
    match scalar::resolve(&t) {
        scalar::Sc::Float(g) if feq(f, g) => t,
        _ => format!("{f:?}"),
    }
}

fn escape(s: &mut Source, c: char, out: &mut String) {
    let short = match c {
        '\0' => Some("\\0"),
        '\u{7}' => Some("\\a"),
        '\u{8}' => Some("\\b"),
        '\t' => Some("\\t"),
        '\n' => Some("\\n"),
        '\u{b}' => Some("\\v"),
        '\u{c}' => Some("\\f"),
        '\r' => Some("\\r"),
        '\u{1b}' => Some("\\e"),
        ' ' => Some("\\ "),
        '"' => Some("\\\""),
        '/' => Some("\\/"),
        '\\' => Some("\\\\"),
        '\u{85}' => Some("\\N"),
        '\u{a0}' => Some("\\_"),
        '\u{2028}' => Some("\\L"),
        '\u{2029}' => Some("\\P"),
        _ => None,
    };
    let n = c as u32;
    match short {
        Some(e) if !s.chance(1, 4) => out.push_str(e),
        _ => {
            let k = s.below(3);
            if n < 0x100 && k == 0 {
                out.push_str(&if s.bool() { format!("\\x{n:02x}") } else { format!("\\x{n:02X}") });
            } else if n < 0x10000 && k <= 1 {
                out.push_str(&if s.bool() { format!("\\u{n:04x}") } else { format!("\\u{n:04X}") });
            } else {
                out.push_str(&if s.bool() { format!("\\U{n:08x}") } else { format!("\\U{n:08X}") });
            }
        }
    }
}

impl Writer {
    fn new(opts: WOpts) -> Writer {
        Writer {
            out: String::new(),
            opts,
            anchors: Vec::new(),
            after_block_scalar: false,
            tag_handle: false,
            flow_bias: 1,
            feats: BTreeSet::new(),
        }
    }
    fn feat(&mut self, f: &'static str) {
        self.feats.insert(f);
    }
    fn column(&self) -> usize {
        match self.out.rfind('\n') {
            Some(i) => self.out[i + 1..].chars().count(),
            None => self.out.trim_start_matches('\u{feff}').chars().count(),
        }
    }
    fn pad(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    fn newline(&mut self, s: &mut Source) {
        if self.opts.comments && s.chance(1, 12) {
            self.feat("comment");
            if !self.out.ends_with(['\n', ' ']) {
                self.out.push(' ');
            }
            self.out.push_str(*s.pick(&["# c", "#", "# a: b", "# - x", "# \"", "# é", "#---", "# *x &y !z"]));
        } else if s.chance(1, 20) {
            self.out.push(' ');
        }
        self.out.push('\n');
        self.filler(s);
    }
    /// Blank and comment lines, at the start of a line.
    fn filler(&mut self, s: &mut Source) {
        if !self.opts.comments || self.after_block_scalar || !s.chance(1, 14) {
            return;
        }
        self.feat("comment-line");
        for _ in 0..s.range(1, 2) {
            if s.bool() {
                let n = s.below(6);
                self.pad(n);
                self.out.push_str(*s.pick(&["# c", "#", "# a: b", "#- x", "# --- é"]));
            }
            self.out.push('\n');
        }
    }
    fn tag_text(&mut self, s: &mut Source, t: &str) -> String {
        let esc = |t: &str, s: &mut Source| -> String {
            let mut o = String::new();
            for b in t.bytes() {
                let plain = b.is_ascii_alphanumeric() || b == b'-' || b == b'_' || b == b'.' || b == b'/';
                if plain && !s.chance(1, 40) {
                    o.push(b as char);
                } else {
                    o.push_str(&format!("%{b:02X}"));
                }
            }
            o
        };
        match s.weighted(&[8, 2, if self.tag_handle { 4 } else { 0 }]) {
            0 => {
                if t == "!" {
                    return "!".into();
                }
                let e = esc(t, s);
                format!("!{e}")
            }
            1 => {
                self.feat("verbatim-tag");
                if t == "!" {
                    return "!<!>".into();
                }
                let e = esc(t, s);
                format!("!<!{e}>")
            }
            _ => {
                self.feat("tag-handle");
                if let Some(r) = t.strip_prefix('T') {
                    if !r.is_empty() {
                        let e = esc(r, s);
                        return format!("!h!{e}");
                    }
                }
                let e = esc(t, s);
                format!("!{e}")
            }
        }
    }
    fn core(&mut self, s: &mut Source, name: &str) -> String {
        self.feat("core-tag");
        match s.weighted(&[4, 1]) {
            0 => format!("!!{name}"),
            _ => format!("!<tag:yaml.org,2002:{name}>"),
        }
    }
    fn anchor_name(&mut self, s: &mut Source) -> String {
        if s.chance(1, 4) && !self.anchors.is_empty() {
            self.feat("anchor-redefined");
            let i = s.below(self.anchors.len());
            return self.anchors[i].0.clone();
        }
        gen::anchor(s)
    }
    /// Register an anchor for the value at its start; returns a token to complete it.
    fn define(&mut self, name: &str, v: &MV) {
        self.anchors.retain(|a| a.0 != name);
        self.anchors.push((name.to_string(), v.clone(), false));
    }
    fn complete(&mut self, name: &str, v: &MV) {
        for a in &mut self.anchors {
            // A nested redefinition replaces the entry; it completed itself.
            if a.0 == name && !a.2 && same(&a.1, v) {
                a.2 = true;
            }
        }
    }
    fn alias_for(&mut self, s: &mut Source, v: &MV) -> Option<String> {
        if !self.opts.aliases {
            return None;
        }
        let c: Vec<usize> = (0..self.anchors.len()).filter(|&i| self.anchors[i].2 && same(&self.anchors[i].1, v)).collect();
        if c.is_empty() || !s.chance(3, 4) {
            return None;
        }
        let i = *s.pick(&c);
        self.feat("alias");
        Some(self.anchors[i].0.clone())
    }

    /// Properties for a node: anchor and tag text, and the value under the tag.
    fn props<'v>(&mut self, s: &mut Source, v: &'v MV) -> (Option<String>, Option<String>, &'v MV, bool) {
        let anchor = if self.opts.aliases && s.chance(1, 6) {
            self.feat("anchor");
            let n = self.anchor_name(s);
            self.define(&n, v);
            Some(n)
        } else {
            None
        };
        match v {
            MV::Tag(t, inner) => {
                let t = self.tag_text(s, t);
                (anchor, Some(t), inner, true)
            }
            _ => (anchor, None, v, false),
        }
    }
    fn put_props(&mut self, s: &mut Source, anchor: &Option<String>, tag: &Option<String>) -> bool {
        let mut p = Vec::new();
        if let Some(a) = anchor {
            p.push(format!("&{a}"));
        }
        if let Some(t) = tag {
            p.push(t.clone());
        }
        if p.len() == 2 && s.bool() {
            p.swap(0, 1);
        }
        let any = !p.is_empty();
        self.out.push_str(&p.join(" "));
        any
    }

    /// The core tag (if any) and text of a non-string scalar.
    fn plain_scalar(&mut self, s: &mut Source, v: &MV, tagged: bool, empty_ok: bool) -> (Option<String>, String) {
        let core = self.opts.core_tags && !tagged && s.chance(1, 14);
        match v {
            MV::Null => {
                if empty_ok && s.chance(1, 4) {
                    self.feat("empty-null");
                    return (None, String::new());
                }
                let t = s.pick(&["null", "~", "Null", "NULL"]).to_string();
                (if core { Some(self.core(s, "null")) } else { None }, t)
            }
            MV::Bool(b) => {
                let t = if *b { s.pick(&["true", "True", "TRUE"]) } else { s.pick(&["false", "False", "FALSE"]) };
                (if core { Some(self.core(s, "bool")) } else { None }, t.to_string())
            }
            MV::Int(i) => {
                let t = int_spelling(s, *i);
                (if core { Some(self.core(s, "int")) } else { None }, t)
            }
            MV::Float(f) => {
                let t = float_spelling(s, *f);
                (if core { Some(self.core(s, "float")) } else { None }, t)
            }
            _ => unreachable!(),
        }
    }

    fn dquote(&mut self, s: &mut Source, t: &str, fold: Option<usize>) -> String {
        self.feat("double-quoted");
        let c: Vec<char> = t.chars().collect();
        let mut o = String::from("\"");
        let esc_all = s.chance(1, 8);
        let mut i = 0;
        let mut since_break = 0;
        while i < c.len() {
            let ch = c[i];
            let must = !(plain_char(ch) || ch == '\t') || ch == '"' || ch == '\\';
            if let Some(ind) = fold {
                // fold a single space between two ordinary characters
                if ch == ' ' && i > 0 && i + 1 < c.len() && !c[i - 1].is_whitespace() && c[i - 1] != '\\' && !c[i + 1].is_whitespace() && since_break > 0 && s.chance(1, 6) {
                    self.feat("folded-quote");
                    o.push('\n');
                    o.push_str(&" ".repeat(ind));
                    since_break = 0;
                    i += 1;
                    continue;
                }
                if i > 0 && since_break > 0 && ch != ' ' && ch != '\t' && s.chance(1, 60) {
                    self.feat("escaped-break");
                    o.push_str("\\\n");
                    o.push_str(&" ".repeat(ind));
                    since_break = 0;
                }
            }
            let edge = ch == '\t' || (ch == ' ' && (i == 0 || i + 1 == c.len() || fold.is_some() && (since_break == 0)));
            if must || esc_all || (edge && s.bool()) || (edge && fold.is_some() && since_break == 0) || s.chance(1, 60) {
                escape(s, ch, &mut o);
            } else {
                o.push(ch);
            }
            since_break += 1;
            i += 1;
        }
        o.push('"');
        o
    }
    fn squote_ok(t: &str) -> bool {
        t.chars().all(plain_char)
    }
    fn squote(&mut self, s: &mut Source, t: &str, fold: Option<usize>) -> String {
        self.feat("single-quoted");
        let c: Vec<char> = t.chars().collect();
        let mut o = String::from("'");
        for (i, &ch) in c.iter().enumerate() {
            let inner = i > 0 && i + 1 < c.len() && !c[i - 1].is_whitespace() && !c[i + 1].is_whitespace();
            match (ch, fold) {
                ('\'', _) => o.push_str("''"),
                (' ', Some(ind)) if inner && s.chance(1, 6) => {
                    self.feat("folded-quote");
                    o.push('\n');
                    o.push_str(&" ".repeat(ind));
                }
                _ => o.push(ch),
            }
        }
        o.push('\'');
        o
    }
    fn fold_plain(&mut self, s: &mut Source, t: &str, ind: usize) -> String {
        let c: Vec<char> = t.chars().collect();
        let mut o = String::new();
        for (i, &ch) in c.iter().enumerate() {
            let inner = i > 0 && i + 1 < c.len() && !c[i - 1].is_whitespace() && c[i + 1].is_alphanumeric();
            if ch == ' ' && inner && s.chance(1, 8) {
                self.feat("multiline-plain");
                o.push('\n');
                o.push_str(&" ".repeat(ind));
            } else {
                o.push(ch);
            }
        }
        o
    }

    /// Tag text and text of a scalar that fits on one line unless `fold`.
    fn inline_scalar(&mut self, s: &mut Source, v: &MV, tagged: bool, flow: bool, empty_ok: bool, fold: Option<usize>) -> (Option<String>, String) {
        if let MV::Str(t) = v {
            let resolves = !matches!(scalar::resolve(t), scalar::Sc::Str);
            let plain = plain_ok(t, flow);
            if plain && !resolves && s.chance(2, 3) {
                self.feat("plain");
                let t = match fold {
                    Some(ind) => self.fold_plain(s, t, ind),
                    None => t.clone(),
                };
                if self.opts.core_tags && !tagged && s.chance(1, 30) {
                    return (Some(self.core(s, "str")), t);
                }
                return (None, t);
            }
            if plain && self.opts.core_tags && !tagged && s.chance(1, 6) {
                self.feat("str-tagged-plain");
                return (Some(self.core(s, "str")), t.clone());
            }
            if Self::squote_ok(t) && s.bool() {
                return (None, self.squote(s, t, fold));
            }
            return (None, self.dquote(s, t, fold));
        }
        self.feat("plain");
        self.plain_scalar(s, v, tagged, empty_ok)
    }

    /// Text of a node in flow (or single-line) form.
    fn flow(&mut self, s: &mut Source, v: &MV, ind: usize, oneline: bool, in_flow: bool, empty_ok: bool) {
        if let Some(a) = self.alias_for(s, v) {
            self.out.push('*');
            self.out.push_str(&a);
            // keep a following indicator from joining the name
            self.out.push(' ');
            return;
        }
        let (anchor, tag, v2, tagged) = self.props(s, v);
        match v2 {
            MV::Seq(items) => {
                let tag = self.coll_tag(s, tag, "seq");
                if self.put_props(s, &anchor, &tag) {
                    self.out.push(' ');
                }
                self.feat("flow-seq");
                self.out.push('[');
                self.sp(s, ind, oneline);
                for (i, x) in items.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.sp(s, ind, oneline);
                    }
                    let pair = match x {
                        MV::Map(m) if m.len() == 1 => !m[0].0.is_coll() && s.chance(1, 4),
                        _ => false,
                    };
                    if pair {
                        if let MV::Map(m) = x {
                            self.feat("flow-pair");
                            if s.chance(1, 4) {
                                self.out.push_str("? ");
                                self.flow(s, &m[0].0, ind, oneline, true, false);
                            } else {
                                self.flow(s, &m[0].0, ind, true, true, false);
                            }
                            self.out.push_str(" : ");
                            self.flow(s, &m[0].1, ind, oneline, true, false);
                        }
                    } else {
                        self.flow(s, x, ind, oneline, true, false);
                    }
                    self.sp(s, ind, oneline);
                }
                if !items.is_empty() && s.chance(1, 8) {
                    self.feat("trailing-comma");
                    self.out.push(',');
                    self.sp(s, ind, oneline);
                }
                self.out.push(']');
            }
            MV::Map(items) => {
                let tag = self.coll_tag(s, tag, "map");
                if self.put_props(s, &anchor, &tag) {
                    self.out.push(' ');
                }
                self.feat("flow-map");
                self.out.push('{');
                self.sp(s, ind, oneline);
                for (i, (k, x)) in items.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.sp(s, ind, oneline);
                    }
                    let explicit = s.chance(1, 6);
                    if explicit {
                        self.feat("flow-explicit-key");
                        self.out.push_str("? ");
                        self.flow(s, k, ind, oneline, true, false);
                    } else {
                        let at = self.out.len();
                        self.flow(s, k, ind, true, true, false);
                        if self.out.len() - at > 900 {
                            self.out.insert_str(at, "? ");
                        }
                    }
                    if matches!(x, MV::Null) && s.chance(1, 6) {
                        self.feat("flow-key-only");
                    } else {
                        self.out.push_str(*s.pick(&[": ", " : ", ":  "]));
                        self.flow(s, x, ind, oneline, true, false);
                    }
                    self.sp(s, ind, oneline);
                }
                if !items.is_empty() && s.chance(1, 8) {
                    self.feat("trailing-comma");
                    self.out.push(',');
                    self.sp(s, ind, oneline);
                }
                self.out.push('}');
            }
            _ => {
                let fold = if oneline { None } else { Some(ind) };
                let (t, text) = self.inline_scalar(s, v2, tagged, in_flow, empty_ok && anchor.is_none(), fold);
                let tag = tag.or(t);
                if self.put_props(s, &anchor, &tag) {
                    self.out.push(' ');
                }
                self.out.push_str(&text);
            }
        }
        if let Some(a) = anchor {
            self.complete(&a, v);
        }
    }
    fn coll_tag(&mut self, s: &mut Source, tag: Option<String>, name: &str) -> Option<String> {
        if tag.is_none() && self.opts.core_tags && s.chance(1, 30) {
            return Some(self.core(s, name));
        }
        tag
    }
    fn sp(&mut self, s: &mut Source, ind: usize, oneline: bool) {
        match s.weighted(&[10, 4, 2, 1]) {
            0 => {}
            1 => self.out.push(' '),
            2 if !oneline => {
                self.feat("flow-break");
                self.out.push('\n');
                let n = ind + s.below(3);
                self.pad(n);
            }
            3 if !oneline && self.opts.comments => {
                self.feat("flow-comment");
                self.out.push_str(" # c, ]}\n");
                self.pad(ind);
            }
            _ => {}
        }
    }

    fn lead(&mut self, s: &mut Source, lead: Lead) {
        if lead != Lead::Start {
            self.out.push(' ');
            if s.chance(1, 12) {
                self.out.push(' ');
            }
        }
    }

    /// A block node whose parent is at indentation `n` (-1 at the root). The
    /// cursor is right after an indicator; ends at the start of a line.
    fn block(&mut self, s: &mut Source, v: &MV, n: isize, lead: Lead) {
        self.after_block_scalar = false;
        if let Some(a) = self.alias_for(s, v) {
            self.lead(s, lead);
            self.out.push('*');
            self.out.push_str(&a);
            self.newline(s);
            return;
        }
        let (anchor, tag, v2, tagged) = self.props(s, v);
        let child_min = (n + 1) as usize;
        let coll = match v2 {
            MV::Seq(x) => Some(x.is_empty()),
            MV::Map(x) => Some(x.is_empty()),
            _ => None,
        };
        match coll {
            Some(true) => {
                self.inline_block(s, v, &anchor, tag, v2, n, lead);
            }
            Some(false) => {
                if s.chance(self.flow_bias, 4) {
                    self.inline_block(s, v, &anchor, tag, v2, n, lead);
                } else {
                    let is_seq = matches!(v2, MV::Seq(_));
                    let tag = self.coll_tag(s, tag, if is_seq { "seq" } else { "map" });
                    let props = anchor.is_some() || tag.is_some();
                    let compact_ok = !props && matches!(lead, Lead::Dash | Lead::Start);
                    let m;
                    if compact_ok && (lead == Lead::Start || s.chance(2, 3)) {
                        if lead == Lead::Dash {
                            self.feat("compact");
                            self.out.push(' ');
                            let k = s.below(3);
                            self.pad(k);
                        } else {
                            let k = if s.chance(1, 6) { s.range(1, 3) } else { 0 };
                            self.pad(k);
                        }
                        m = self.column();
                    } else {
                        if props {
                            self.lead(s, lead);
                            self.put_props(s, &anchor, &tag);
                        }
                        if self.out.is_empty() || self.out.ends_with('\n') {
                            self.filler(s);
                        } else {
                            self.newline(s);
                        }
                        m = if is_seq && lead == Lead::Value && n >= 0 && s.bool() {
                            self.feat("indentless");
                            n as usize
                        } else {
                            child_min + s.weighted(&[2, 6, 1, 2, 1]) - if n < 0 { 0 } else { 0 }
                        };
                        let m2 = if n < 0 && s.chance(4, 5) { 0 } else { m };
                        self.pad(m2);
                        self.coll_items(s, v2, m2);
                        if let Some(a) = anchor {
                            self.complete(&a, v);
                        }
                        return;
                    }
                    self.coll_items(s, v2, m);
                }
            }
            None => {
                // block scalars
                if let MV::Str(t) = v2 {
                    if (t.contains('\n') && s.chance(2, 3)) || s.chance(1, 20) {
                        if let Some(()) = self.block_scalar(s, t, n, lead, &anchor, &tag) {
                            if let Some(a) = anchor {
                                self.complete(&a, v);
                            }
                            return;
                        }
                    }
                }
                let fold = Some(child_min.max(1) + s.below(3));
                let empty_ok = lead != Lead::Start;
                let (t, text) = self.inline_scalar(s, v2, tagged, false, empty_ok, fold);
                let tag = tag.or(t);
                if !text.is_empty() || anchor.is_some() || tag.is_some() {
                    self.lead(s, lead);
                }
                let p = self.put_props(s, &anchor, &tag);
                if p && !text.is_empty() {
                    self.out.push(' ');
                }
                self.out.push_str(&text);
                self.newline(s);
            }
        }
        if let Some(a) = anchor {
            self.complete(&a, v);
        }
    }
    /// A collection in flow form at a block position.
    #[allow(clippy::too_many_arguments)]
    fn inline_block(&mut self, s: &mut Source, _v: &MV, anchor: &Option<String>, tag: Option<String>, v2: &MV, n: isize, lead: Lead) {
        self.lead(s, lead);
        let ind = (n + 1).max(1) as usize + s.below(3);
        let name = if matches!(v2, MV::Seq(_)) { "seq" } else { "map" };
        let tag = self.coll_tag(s, tag, name);
        if self.put_props(s, anchor, &tag) {
            self.out.push(' ');
        }
        // the properties are written: the rest must have none of its own
        self.flow_body(s, v2, ind);
        self.newline(s);
    }
    fn flow_body(&mut self, s: &mut Source, v: &MV, ind: usize) {
        let a = std::mem::take(&mut self.anchors);
        let o = self.opts;
        self.opts.aliases = false;
        self.opts.core_tags = false;
        // Write the brackets here, the elements with full options.
        self.opts = o;
        self.anchors = a;
        match v {
            MV::Seq(items) => {
                self.feat("flow-seq");
                self.out.push('[');
                self.sp(s, ind, false);
                for (i, x) in items.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.sp(s, ind, false);
                    }
                    self.flow(s, x, ind, false, true, false);
                    self.sp(s, ind, false);
                }
                self.out.push(']');
            }
            MV::Map(items) => {
                self.feat("flow-map");
                self.out.push('{');
                self.sp(s, ind, false);
                for (i, (k, x)) in items.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.sp(s, ind, false);
                    }
                    let at = self.out.len();
                    self.flow(s, k, ind, true, true, false);
                    if self.out.len() - at > 900 {
                        self.out.insert_str(at, "? ");
                    }
                    self.out.push_str(*s.pick(&[": ", " : "]));
                    self.flow(s, x, ind, false, true, false);
                    self.sp(s, ind, false);
                }
                self.out.push('}');
            }
            _ => unreachable!(),
        }
    }

    /// Items of a block collection; the cursor is at column `m` of the first.
    fn coll_items(&mut self, s: &mut Source, v: &MV, m: usize) {
        match v {
            MV::Seq(items) => {
                self.feat("block-seq");
                for (i, x) in items.iter().enumerate() {
                    if i > 0 {
                        self.pad(m);
                    }
                    self.out.push('-');
                    self.block(s, x, m as isize, Lead::Dash);
                }
            }
            MV::Map(items) => {
                self.feat("block-map");
                for (i, (k, x)) in items.iter().enumerate() {
                    if i > 0 {
                        self.pad(m);
                    }
                    let nonempty_coll = matches!(k, MV::Seq(x) if !x.is_empty()) || matches!(k, MV::Map(x) if !x.is_empty());
                    let explicit = if nonempty_coll { s.bool() } else { s.chance(1, 16) };
                    let mut done = false;
                    if !explicit {
                        let at = self.out.len();
                        let saved = self.anchors.clone();
                        self.flow(s, k, m, true, false, false);
                        if self.out.len() - at > 900 {
                            self.out.truncate(at);
                            self.anchors = saved;
                        } else {
                            self.out.push_str(if self.out.ends_with(' ') || s.chance(1, 12) { " :" } else { ":" });
                            self.block(s, x, m as isize, Lead::Value);
                            done = true;
                        }
                    }
                    if !done {
                        self.feat("explicit-key");
                        self.out.push('?');
                        self.block(s, k, m as isize, Lead::Dash);
                        self.pad(m);
                        self.out.push(':');
                        self.block(s, x, m as isize, Lead::Dash);
                    }
                }
            }
            _ => unreachable!(),
        }
    }

    fn block_scalar(&mut self, s: &mut Source, t: &str, n: isize, lead: Lead, anchor: &Option<String>, tag: &Option<String>) -> Option<()> {
        let trail = t.chars().rev().take_while(|c| *c == '\n').count();
        let body = &t[..t.len() - trail];
        if body.is_empty() || !body.chars().all(|c| c == '\n' || c == '\t' || plain_char(c)) {
            return None;
        }
        let lines: Vec<&str> = body.split('\n').collect();
        let foldable = lines.iter().all(|l| !l.is_empty() && !l.starts_with([' ', '\t']) && !l.ends_with([' ', '\t']));
        let folded = foldable && s.chance(1, 3);
        let first = lines.iter().find(|l| !l.is_empty()).unwrap();
        let needs = lines[0].is_empty() || lines.iter().any(|l| l.starts_with([' ', '\t'])) || first.starts_with([' ', '\t']);
        let base = n.max(0) as usize;
        let k = s.range(1, 5);
        let indicator = needs || s.chance(1, 5);
        let ind = if n < 0 { k } else { base + k };
        self.lead(s, lead);
        if self.put_props(s, anchor, tag) {
            self.out.push(' ');
        }
        self.feat(if folded { "folded" } else { "literal" });
        self.out.push(if folded { '>' } else { '|' });
        let chomp = match trail {
            0 => "-",
            1 => *s.pick(&["", "", "+"]),
            _ => "+",
        };
        let digit = if indicator {
            self.feat("indent-indicator");
            k.to_string()
        } else {
            String::new()
        };
        if s.bool() {
            self.out.push_str(chomp);
            self.out.push_str(&digit);
        } else {
            self.out.push_str(&digit);
            self.out.push_str(chomp);
        }
        if self.opts.comments && s.chance(1, 10) {
            self.out.push_str(" # c");
        }
        self.out.push('\n');
        for (i, l) in lines.iter().enumerate() {
            if i > 0 {
                self.out.push('\n');
                if folded {
                    self.out.push('\n');
                }
            }
            if l.is_empty() {
                continue;
            }
            self.pad(ind);
            if folded {
                let c: Vec<char> = l.chars().collect();
                for (j, &ch) in c.iter().enumerate() {
                    if ch == ' ' && j > 0 && j + 1 < c.len() && !c[j - 1].is_whitespace() && !c[j + 1].is_whitespace() && s.chance(1, 5) {
                        self.out.push('\n');
                        self.pad(ind);
                    } else {
                        self.out.push(ch);
                    }
                }
            } else {
                self.out.push_str(l);
            }
        }
        self.out.push('\n');
        for _ in 1..trail {
            self.out.push('\n');
        }
        self.after_block_scalar = true;
        Some(())
    }
}

pub struct Written {
    pub text: String,
    pub feats: BTreeSet<&'static str>,
}

fn one(s: &mut Source, v: &MV, opts: WOpts, first: bool, last: bool) -> (String, BTreeSet<&'static str>) {
    let mut w = Writer::new(opts);
    w.flow_bias = *s.pick(&[1, 0, 3, 4]);
    let mut marker = opts.explicit || !first || s.chance(1, 3);
    let mut head = String::new();
    if s.chance(1, 12) && opts.comments {
        head.push_str("# head\n");
        w.feat("comment-line");
    }
    if first && s.chance(1, 14) {
        w.feat("directive");
        head.push_str(*s.pick(&["%YAML 1.1\n", "%YAML 1.2\n"]));
        marker = true;
    }
    if first && s.chance(1, 10) {
        w.feat("directive");
        head.push_str(*s.pick(&["%TAG !h! !T\n", "%TAG !h! !T # c\n"]));
        w.tag_handle = true;
        marker = true;
    }
    w.out.push_str(&head);
    if marker {
        w.feat("doc-start");
        w.out.push_str("---");
        if s.chance(1, 2) {
            w.block(s, v, -1, Lead::Marker);
        } else {
            w.out.push('\n');
            w.block(s, v, -1, Lead::Start);
        }
    } else {
        w.block(s, v, -1, Lead::Start);
    }
    if s.chance(1, 8) {
        w.feat("doc-end");
        w.out.push_str("...\n");
    } else if last && !w.after_block_scalar && s.chance(1, 8) && w.out.ends_with('\n') && !w.out.ends_with("\n\n") {
        w.feat("no-final-newline");
        w.out.pop();
    }
    (w.out, w.feats)
}

/// One document.
pub fn write(s: &mut Source, v: &MV, opts: WOpts) -> Written {
    stream(s, std::slice::from_ref(v), opts)
}

/// One document of a stream, as its own text.
pub fn doc(s: &mut Source, v: &MV, opts: WOpts, first: bool, last: bool) -> String {
    one(s, v, opts, first, last).0
}

/// A stream of documents.
pub fn stream(s: &mut Source, docs: &[MV], opts: WOpts) -> Written {
    let mut text = String::new();
    let mut feats = BTreeSet::new();
    for (i, d) in docs.iter().enumerate() {
        let (t, f) = one(s, d, opts, i == 0, i + 1 == docs.len());
        text.push_str(&t);
        feats.extend(f);
    }
    if opts.breaks {
        match s.weighted(&[12, 1, 1]) {
            1 => {
                feats.insert("crlf");
                text = text.replace('\n', "\r\n");
            }
            2 => {
                feats.insert("cr");
                text = text.replace('\n', "\r");
            }
            _ => {}
        }
        if s.chance(1, 20) {
            feats.insert("bom");
            text.insert(0, '\u{feff}');
        }
    }
    Written { text, feats }
}

/// Copy random subtrees over others, so that aliases have something to share.
pub fn share(s: &mut Source, v: &mut MV) {
    let mut pool = Vec::new();
    collect(v, &mut pool, 0);
    if pool.is_empty() {
        return;
    }
    let n = s.below(4);
    for _ in 0..n {
        let x = s.pick(&pool).clone();
        let k = s.below(pool.len() + 1);
        let mut at = k;
        replace(v, &x, &mut at, 0);
    }
}
fn collect(v: &MV, pool: &mut Vec<MV>, d: usize) {
    if d > 0 && pool.len() < 40 && v.nodes() < 60 {
        pool.push(v.clone());
    }
    match v {
        MV::Seq(x) => x.iter().for_each(|y| collect(y, pool, d + 1)),
        MV::Map(x) => x.iter().for_each(|(_, y)| collect(y, pool, d + 1)),
        MV::Tag(_, x) => {
            if x.is_coll() {
                collect_inner(x, pool, d + 1)
            }
        }
        _ => {}
    }
}
fn collect_inner(v: &MV, pool: &mut Vec<MV>, d: usize) {
    match v {
        MV::Seq(x) => x.iter().for_each(|y| collect(y, pool, d + 1)),
        MV::Map(x) => x.iter().for_each(|(_, y)| collect(y, pool, d + 1)),
        _ => {}
    }
}
/// Replace the `at`-th nested value (values only, so keys stay distinct).
fn replace(v: &mut MV, by: &MV, at: &mut usize, d: usize) -> bool {
    if d > 0 {
        if *at == 0 {
            *v = by.clone();
            return true;
        }
        *at -= 1;
    }
    match v {
        MV::Seq(x) => x.iter_mut().any(|y| replace(y, by, at, d + 1)),
        MV::Map(x) => x.iter_mut().any(|(_, y)| replace(y, by, at, d + 1)),
        MV::Tag(_, x) => match &mut **x {
            MV::Seq(y) => y.iter_mut().any(|z| replace(z, by, at, d + 1)),
            MV::Map(y) => y.iter_mut().any(|(_, z)| replace(z, by, at, d + 1)),
            _ => false,
        },
        _ => false,
    }
}
