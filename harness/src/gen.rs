//! Generators of strings, numbers and values.

use crate::engine::Source;
use crate::model::{loosely, MV};

pub const LOOKALIKES: &[&str] = &[
    "", "null", "Null", "NULL", "nULL", "~", "true", "True", "TRUE", "tRue", "false", "False", "FALSE", "yes", "no", "Yes", "No",
    "on", "off", "y", "n", "Y", "N", "0", "-0", "+0", "00", "-00", "+00", "007", "-007", "+007", "0123456789", "08", "1_000", "0x", "0x1F", "0X1F", "-0x1f", "+0x1f",
    "0x+1", "0x-1", "-0x-1", "0o17", "0O17", "-0o17", "+0o17", "017", "0b101", "0B1", "-0b11", "+0b11", "0xg", "0o8", "0b2", "0b", "0o", "+", "-", "--1", "++1", "+-1", "-+1", "- 1",
    "1", "+1", "-1", "12345", "1.", ".5", "-.5", "+.5", ".", "..", "...", "1.5", "+1.5", "-1.5", "1e3", "1E3", "1e+3", "1e-3", "-1e-3", "1e", "e1", "1e400", "-1e400", "1e-400",
    ".inf", ".Inf", ".INF", ".iNF", "-.inf", "+.inf", "-.INF", "inf", "Inf", "infinity", "-inf", "+inf", ".nan", ".NaN", ".NAN", "nan", "NaN", "-.nan", "+.nan",
    "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
    "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "-0x8000000000000000", "-0x8000000000000001", "0xffffffffffffffffffffffffffffffff", "0x100000000000000000000000000000000",
    "-0x80000000000000000000000000000000", "0o1777777777777777777777", "0b1111111111111111111111111111111111111111111111111111111111111111",
    "2001-01-01", "2001-01-01T00:00:00Z", "12:30", "190:20:30", "<<", "=", "!", "!x", "!!str", "&a", "*a", "&", "*", "#", "# c", "a#b", "a #b", ":", "a:", "a: b", "a:b", ": a", "::", "?", "? a", "?a",
    "-", "- a", "-a", "---", "--- a", "----", "... a", "[", "]", "[]", "{", "}", "{}", "a]", "a, b", ",", ",a", "`", "@", "@a", "%", "%YAML 1.2", "|", ">", "|x", "'", "\"", "''", "\"\"", "'a'", "\"a\"", "a'b", "a\"b", "\\", "\\n", "a\\",
    " ", "  ", " a", "a ", "a  b", "\t", "\ta", "a\t", "a\tb", "\n", "\n\n", "a\n", "\na", "a\nb", "a\n\nb", "a\n\n", " a\nb", "a\n b", "a \nb", "a\n ", "\n a", " \n", "\t\n", "#a\nb", "a: b\nc: d", "- a\n- b", "---\na", "a\n---", "...\n", "\r", "\r\n", "a\r\nb", "a\rb",
    "\u{85}", "a\u{85}b", "\u{a0}", "\u{2028}", "\u{2029}", "a\u{2028}b", "\u{feff}", "\u{feff}a", "a\u{feff}", "\0", "a\0b", "\u{7}", "\u{1b}", "\u{7f}", "\u{80}", "\u{9f}", "\u{e000}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10000}", "\u{1f600}", "\u{10ffff}", "é", "日本語", "e\u{301}", "\u{200b}", "\u{202e}",
];

pub fn special_char(s: &mut Source) -> char {
    const C: &[char] = &[
        'a', 'b', ' ', '\n', '\t', '\r', ':', '#', '-', '?', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '\'', '"', '%', '@', '`', '\\', '/', '.', '~', '=', '<', '_', '0', '1', '9', 'e', 'x', '+',
        '\u{85}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{feff}', '\0', '\u{1}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{1f}', '\u{7f}', '\u{80}', '\u{9f}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{fffe}', '\u{ffff}',
        '\u{10000}', '\u{1f600}', '\u{10ffff}', 'é', 'ß', '日', '\u{301}', '\u{200b}', '\u{ad}',
    ];
    *s.pick(C)
}

pub fn any_char(s: &mut Source) -> char {
    match s.weighted(&[5, 6, 2, 2]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => special_char(s),
        2 => char::from_u32(s.draw(0x110000) as u32).unwrap_or('\u{fffd}'),
        _ => char::from_u32(s.draw(0x300) as u32).unwrap_or('?'),
    }
}

pub fn word(s: &mut Source) -> String {
    let mut w = String::new();
    w.push((b'a' + s.below(26) as u8) as char);
    while s.more(w.len(), 3, 12) {
        w.push((b'a' + s.below(26) as u8) as char);
    }
    w
}

/// Text with many line breaks, blank lines, indentation and trailing space.
fn lines(s: &mut Source) -> String {
    let mut t = String::new();
    let mut n = 0;
    while s.more(n, 3, 12) {
        n += 1;
        for _ in 0..s.weighted(&[6, 2, 1, 1]) {
            t.push(*s.pick(&[' ', ' ', '\t']));
        }
        match s.below(6) {
            0 => {}
            1 => t.push_str(&word(s)),
            2 => t.push_str(*s.pick(LOOKALIKES)),
            3 => {
                t.push_str(&word(s));
                t.push_str(*s.pick(&[": ", " #", " - ", ", ", ":", "#"]));
                t.push_str(&word(s));
            }
            4 => t.push(any_char(s)),
            _ => {
                t.push_str(&word(s));
                t.push(' ');
                t.push_str(&word(s));
            }
        }
        if s.chance(1, 6) {
            t.push_str(*s.pick(&[" ", "  ", "\t"]));
        }
        match s.weighted(&[8, 1, 1, 1]) {
            0 => t.push('\n'),
            1 => t.push_str("\r\n"),
            2 => t.push_str("\n\n"),
            _ => {}
        }
    }
    t
}

/// A number-like string built from pieces, often slightly wrong.
pub fn numberish(s: &mut Source) -> String {
    let mut t = String::new();
    t.push_str(*s.pick(&["", "-", "+", "", "--", "+-", " ", "-+", "++"]));
    match s.below(7) {
        0 | 1 => {
            let n = if s.chance(1, 5) { s.range(15, 45) } else { s.range(1, 6) };
            for _ in 0..n {
                t.push((b'0' + s.below(10) as u8) as char);
            }
        }
        2 => {
            t.push_str(*s.pick(&["0x", "0X", "0x0", "0x+", "0x-", "0x_"]));
            let n = if s.chance(1, 4) { s.range(14, 34) } else { s.below(6) };
            for _ in 0..n {
                t.push(*s.pick(&['0', '1', '7', '8', '9', 'a', 'f', 'A', 'F', 'g']));
            }
        }
        3 => {
            t.push_str(*s.pick(&["0o", "0O", "0b", "0B", "0o-", "0b+"]));
            let n = if s.chance(1, 4) { s.range(20, 70) } else { s.below(8) };
            for _ in 0..n {
                t.push(*s.pick(&['0', '1', '1', '0', '7', '2', '8']));
            }
        }
        4 => {
            for _ in 0..s.below(4) {
                t.push((b'0' + s.below(10) as u8) as char);
            }
            t.push_str(*s.pick(&[".", "", "..", ","]));
            for _ in 0..s.below(5) {
                t.push((b'0' + s.below(10) as u8) as char);
            }
            if s.bool() {
                t.push(*s.pick(&['e', 'E', 'f', 'd']));
                t.push_str(*s.pick(&["", "-", "+"]));
                for _ in 0..s.below(4) {
                    t.push((b'0' + s.below(10) as u8) as char);
                }
            }
        }
        5 => t.push_str(*s.pick(&[".inf", ".Inf", ".INF", ".nan", ".NaN", ".NAN", "inf", "nan", "NaN", "infinity", ".iNf", ".Nan"])),
        _ => {
            // near a representable boundary
            let base: u128 = *s.pick(&[
                0,
                127,
                255,
                32767,
                65535,
                2147483647,
                4294967295,
                9007199254740992,
                i64::MAX as u128,
                u64::MAX as u128,
                i128::MAX as u128,
                u128::MAX,
            ]);
            let v = base.saturating_sub(2).saturating_add(s.draw(5) as u128);
            t.push_str(&match s.below(5) {
                0 => format!("0x{v:x}"),
                1 => format!("0o{v:o}"),
                2 => format!("0b{v:b}"),
                3 => format!("0x{v:X}"),
                _ => v.to_string(),
            });
        }
    }
    if s.chance(1, 12) {
        t.push_str(*s.pick(&["_", " ", "a", ".", "0", "x", ":"]));
    }
    t
}

pub fn string(s: &mut Source) -> String {
    match s.weighted(&[20, 30, 12, 14, 14, 8, 4]) {
        0 => word(s),
        1 => s.pick(LOOKALIKES).to_string(),
        2 => numberish(s),
        3 => {
            let mut t = String::new();
            let mut n = 0;
            while s.more(n, 4, 30) {
                n += 1;
                t.push(any_char(s));
            }
            t
        }
        4 => lines(s),
        5 => {
            // two lookalikes glued
            let mut t = s.pick(LOOKALIKES).to_string();
            t.push_str(*s.pick(&["", " ", "\n", ": ", " #", "\t", "\n ", "\n\n"]));
            t.push_str(*s.pick(LOOKALIKES));
            t
        }
        _ => long_string(s),
    }
}

/// Lengths around the limits of the text format and of internal buffers.
pub fn long_string(s: &mut Source) -> String {
    let n = *s.pick(&[79usize, 80, 81, 127, 128, 129, 200, 1020, 1023, 1024, 1025, 1100, 3000, 16380, 16384, 16400, 20000]);
    let n = if s.size < 60 { n.min(200) } else { n };
    let unit: String = match s.below(7) {
        0 => "a".into(),
        1 => "word ".into(),
        2 => "é".into(),
        3 => "日本 ".into(),
        4 => "x\ny ".into(),
        5 => special_char(s).to_string(),
        _ => string_unit(s),
    };
    let unit = if unit.is_empty() { "z".to_string() } else { unit };
    let mut t = String::new();
    let head = s.below(4);
    for _ in 0..head {
        t.push(any_char(s));
    }
    while t.chars().count() < n {
        for _ in 0..64 {
            t.push_str(&unit);
        }
    }
    let t: String = t.chars().take(n).collect();
    t
}

fn string_unit(s: &mut Source) -> String {
    s.pick(LOOKALIKES).to_string()
}

pub fn f64s(s: &mut Source) -> f64 {
    const B: &[f64] = &[
        0.0,
        1.0,
        -0.0,
        -1.0,
        0.1,
        1.5,
        100.0,
        1e15,
        1e16,
        1e17,
        123456789012345680.0,
        9007199254740992.0,
        9007199254740993.0,
        1e21,
        1e22,
        1e-5,
        1e-6,
        1e-7,
        f64::MIN_POSITIVE,
        5e-324,
        f64::MAX,
        f64::MIN,
        f64::EPSILON,
        18446744073709551616.0,
        9223372036854775808.0,
        -9223372036854775808.0,
        f64::INFINITY,
        f64::NEG_INFINITY,
        f64::NAN,
        0.30000000000000004,
        2.2250738585072011e-308,
    ];
    match s.weighted(&[5, 3, 3, 2]) {
        0 => *s.pick(B),
        1 => (s.draw(2_000_001) as i64 - 1_000_000) as f64 / *s.pick(&[1.0, 10.0, 1000.0, 1024.0]),
        2 => f64::from_bits(s.u64()),
        _ => f32::from_bits(s.draw(1 << 32) as u32) as f64,
    }
}

/// Integers spread over magnitudes and clustered at type boundaries.
pub fn int_in(s: &mut Source, lo: i128, hi: u128) -> (bool, u128) {
    // (negative, magnitude)
    let pick = s.weighted(&[4, 5, 3]);
    let (neg, m) = match pick {
        0 => (s.bool(), s.draw(1000) as u128),
        1 => {
            let b: u128 = *s.pick(&[
                0,
                1 << 7,
                1 << 8,
                1 << 15,
                1 << 16,
                1 << 31,
                1 << 32,
                1 << 53,
                1 << 63,
                1 << 64,
                1 << 127,
                u128::MAX,
            ]);
            let d = s.draw(5) as u128;
            (s.bool(), b.saturating_sub(2).saturating_add(d))
        }
        _ => {
            let bits = s.range(1, 128) as u32;
            let v = (s.u64() as u128) << 64 | s.u64() as u128;
            (s.bool(), v >> (128 - bits))
        }
    };
    // clamp
    if neg && m != 0 {
        let limit = if lo < 0 { lo.unsigned_abs() } else { 0 };
        if limit == 0 {
            (false, m.min(hi))
        } else {
            (true, m.min(limit))
        }
    } else {
        (false, m.min(hi))
    }
}

pub fn value_int(s: &mut Source) -> i128 {
    let (n, m) = int_in(s, i64::MIN as i128, u64::MAX as u128);
    if n {
        -(m as i128)
    } else {
        m as i128
    }
}

/// A tag name. The library cannot carry NUL and `,[]` (known findings), so
/// those have a sub-check of their own.
/// A long name that agrees with others up to its last character.
pub fn long_name(s: &mut Source) -> String {
    let n = match s.below(3) {
        0 => *s.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256]),
        1 => 10 + s.below(60),
        _ => 1 + s.below(400),
    };
    let mut t = "shared_prefix_".repeat(n / 14 + 1);
    t.truncate(n);
    t.push(*s.pick(&['a', 'b', 'A', '1']));
    t
}

/// The name of an anchor.
pub fn anchor(s: &mut Source) -> String {
    if s.chance(1, 10) {
        return long_name(s);
    }
    s.pick(&["a", "b", "c", "x1", "A", "anchor", "a-b", "_", "0", "n_1"]).to_string()
}

pub fn tag(s: &mut Source) -> String {
    if s.chance(1, 40) {
        return long_name(s);
    }
    match s.weighted(&[6, 3, 2, 2]) {
        0 => word(s),
        1 => s.pick(&["A", "Thing", "a-b", "x.y", "Ref", "Sub", "GetAtt", "int", "str", "null", "b64", "é", "日", "a/b", "x:y", "tag:yaml.org", "!", "a%20b", "a%b", "0", "-", "a_b", "a'b", "a;b", "a?b", "a@b", "a&b", "a=b", "a+b", "a$b", "a{b", "a b", "a#b", "a\"b", "a\\b", "a^b", "a|b", "a<b>", "a~b", "a(b)", "a*b", "a!b", "\t", "a\nb", "\u{7f}", "%41", "%"]).to_string(),
        2 => {
            let mut t = String::new();
            t.push((b'a' + s.below(26) as u8) as char);
            let mut n = 0;
            while s.more(n, 2, 6) {
                n += 1;
                let c = any_char(s);
                // NUL and the flow indicators are covered by c02_tags.
                t.push(if matches!(c, '\0' | ',' | '[' | ']') { 'z' } else { c });
            }
            t
        }
        _ => format!("{}{}", word(s), word(s)),
    }
}

#[derive(Copy, Clone)]
pub struct VOpts {
    pub tags: bool,
    pub max_depth: usize,
    pub floats: bool,
    /// keys of any kind, or strings only
    pub any_keys: bool,
    /// Tags directly on tagged values, which have no text.
    pub nest: bool,
    pub max_len: usize,
}

impl VOpts {
    pub fn full(s: &Source) -> VOpts {
        VOpts {
            tags: true,
            max_depth: 2 + (s.size / 20) as usize,
            floats: true,
            any_keys: true,
            nest: false,
            max_len: 3 + (s.size / 12) as usize,
        }
    }
}

pub fn scalar(s: &mut Source, o: &VOpts) -> MV {
    match s.weighted(&[3, 3, 6, if o.floats { 4 } else { 0 }, 12]) {
        0 => MV::Null,
        1 => MV::Bool(s.bool()),
        2 => MV::Int(value_int(s)),
        3 => MV::Float(f64s(s)),
        _ => MV::Str(string(s)),
    }
}

pub fn value(s: &mut Source, o: &VOpts) -> MV {
    if o.max_depth > 0 && s.chance(1, 60) {
        return wide(s, o);
    }
    value_at(s, o, o.max_depth, true)
}

/// A collection of many entries, each of them small.
pub fn wide(s: &mut Source, o: &VOpts) -> MV {
    let n = *s.pick(&[7, 9, 12, 15, 16, 17, 24, 33, 40, 65]);
    let small = VOpts { max_depth: 1, max_len: 2, ..*o };
    let item = |s: &mut Source| {
        let d = s.chance(1, 8) as usize;
        value_at(s, &small, d, true)
    };
    if s.bool() {
        return MV::Seq((0..n).map(|_| item(s)).collect());
    }
    let mut m: Vec<(MV, MV)> = Vec::new();
    for i in 0..n {
        let k = match s.weighted(&[4, 2, 3]) {
            0 => MV::Str(format!("k{i}")),
            1 if o.any_keys => MV::Int(i as i128),
            _ if o.any_keys => item(s),
            _ => MV::Str(string(s)),
        };
        let v = item(s);
        if !m.iter().any(|(q, _)| loosely(q, &k)) {
            m.push((k, v));
        }
    }
    MV::Map(m)
}

/// Mostly a collection, tagged or not.
pub fn collection(s: &mut Source, o: &VOpts) -> MV {
    for _ in 0..3 {
        let m = value(s, o);
        if m.is_coll() || matches!(&m, MV::Tag(_, x) if x.is_coll()) {
            return m;
        }
    }
    MV::Map(vec![(MV::Str(word(s)), value(s, o))])
}

fn value_at(s: &mut Source, o: &VOpts, depth: usize, tag_ok: bool) -> MV {
    let coll = if depth == 0 { 0 } else { 5 };
    match s.weighted(&[8, coll, coll, if o.tags && tag_ok { 3 } else { 0 }]) {
        0 => scalar(s, o),
        1 => {
            let mut v = Vec::new();
            while s.more(v.len(), 2, o.max_len) {
                v.push(value_at(s, o, depth - 1, true));
            }
            MV::Seq(v)
        }
        2 => {
            let mut m: Vec<(MV, MV)> = Vec::new();
            let mut tries = 0;
            while s.more(tries, 2, o.max_len) {
                tries += 1;
                let k = if o.any_keys {
                    match s.weighted(&[10, 4, 3]) {
                        0 => MV::Str(string(s)),
                        1 => scalar(s, o),
                        _ => value_at(s, o, depth - 1, true),
                    }
                } else {
                    MV::Str(string(s))
                };
                let v = value_at(s, o, depth - 1, true);
                if !m.iter().any(|(q, _)| loosely(q, &k)) {
                    m.push((k, v));
                }
            }
            MV::Map(m)
        }
        _ => MV::Tag(tag(s), Box::new(value_at(s, o, depth, o.nest))),
    }
}

/// A permutation of `0..n`, identity being simplest.
pub fn permutation(s: &mut Source, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in 0..n.saturating_sub(1) {
        let j = i + s.below(n - i);
        v.swap(i, j);
    }
    v
}
