//! Arbitrary YAML-ish text: token soup, mutated documents, raw bytes.

use crate::engine::Source;
use crate::gen::{self, VOpts};
use crate::writer::{self, W_ALL};

const TOKENS: &[&str] = &[
    " ", "\n", "a", "- ", ": ", "\n  ", "\n- ", "? ", "[", "]", "{", "}", ", ", "&a ", "*a", "&b ", "*b", "!x ", "!!str ", "!!int ", "!!float ", "!!bool ", "!!null ", "!!seq ", "!!map ", "! ", "!<x> ", "!h!x ", "'", "\"", "|\n", ">\n", "|-\n  ", "|2+\n", ">1-\n",
    "---", "\n---\n", "\n...\n", "#", " # c\n", "%YAML 1.1\n", "%TAG !h! !y\n", "null", "~", "true", "1", "0x1f", "1.5", ".inf", ".nan", "-", ":", "?", "a: b\n", "- a\n", "<<: *a\n", "k: &a v\n", "\t", "\r\n", "\u{feff}", "\\", "\\n", "\\x41", "é", "\u{2028}", "\u{85}", "@", "`", "=", "b: ", "c", "\n    ", "''", "\"\"", "\\u00e9", "\\U0001F600", "007", "18446744073709551616", "1e400", "-1", "x: [1, 2]\n", "{a: 1}", "[a: b]", "? a\n: b\n", "\0", "\u{1}", "&a &b ", "!x !y ", "*a : ", "&a a: ", "!A\n", "!A {x: 1}", "!B [1]",
];

pub const CORPUS: &[&str] = &[
    "a: 1\nb: [1, 2, 3]\nc: {x: y}\n",
    "- &a 1\n- *a\n- !T x\n",
    "x: |\n  a\n   b\n\n  c\ny: >-\n  f\n  g\n",
    "--- a\n--- b\n...\n--- c\n",
    "? [a, b]\n: {c: d}\n? |\n  k\n: v\n",
    "\"a\\x41\\n\": 'it''s'\n",
    "!A\nx: 1\ny: !B [1, 2]\n",
    "base: &b {a: 1}\nd:\n  <<: *b\n  c: 2\n",
    "%TAG !e! !x\n---\n!e!foo bar\n",
    "- - - a\n    - b\n  - c\n- d\n",
    "a: &x [1, *y]\n",
    "&a [*a]",
    "a:\n- b\n-\n  c: d\n  e:\n    f\n",
    "- 0x1F\n- 0o17\n- 0b11\n- 1e3\n- .inf\n- ~\n- yes\n- 007\n",
    "k: !!int \"12\"\nl: !!str 12\nm: !!float 1\nn: !!null ~\no: !!bool true\n",
];

pub fn text(s: &mut Source) -> String {
    match s.weighted(&[5, 6, 2]) {
        0 => soup(s),
        1 => {
            let base = if s.chance(1, 3) {
                s.pick(CORPUS).to_string()
            } else {
                let n = 1 + s.weighted(&[8, 2, 1]);
                let o = VOpts { max_depth: 3, max_len: 4, ..VOpts::full(s) };
                let docs: Vec<_> = (0..n)
                    .map(|_| {
                        let mut v = gen::value(s, &o);
                        writer::share(s, &mut v);
                        v
                    })
                    .collect();
                let t = writer::stream(s, &docs, W_ALL).text;
                if t.chars().count() > 3000 {
                    t.chars().take(3000).collect()
                } else {
                    t
                }
            };
            mutate(s, &base)
        }
        _ => {
            let mut t = String::new();
            let mut n = 0;
            while s.more(n, 12, 200) {
                n += 1;
                t.push(gen::any_char(s));
            }
            t
        }
    }
}

fn soup(s: &mut Source) -> String {
    let mut t = String::new();
    let mut n = 0;
    let max = 4 + s.size as usize;
    while s.more(n, 14, max) {
        n += 1;
        if s.chance(1, 12) {
            t.push_str(&gen::string(s).chars().take(40).collect::<String>());
        } else {
            t.push_str(*s.pick(TOKENS));
        }
    }
    t
}

fn mutate(s: &mut Source, base: &str) -> String {
    let mut c: Vec<char> = base.chars().collect();
    let n = s.weighted(&[1, 6, 4, 2, 1]);
    for _ in 0..n {
        if c.is_empty() {
            c.push('a');
        }
        let i = s.below(c.len());
        match s.below(9) {
            0 => {
                c.remove(i);
            }
            1 => c[i] = gen::special_char(s),
            2 => c.insert(i, gen::special_char(s)),
            3 => {
                let t: Vec<char> = s.pick(TOKENS).chars().collect();
                c.splice(i..i, t);
            }
            4 => c.truncate(i),
            5 => {
                let j = (i + 1 + s.below(12)).min(c.len());
                c.drain(i..j);
            }
            6 => {
                let j = (i + 1 + s.below(20)).min(c.len());
                let part: Vec<char> = c[i..j].to_vec();
                let k = s.below(c.len());
                c.splice(k..k, part);
            }
            7 => {
                // change the indentation of a line
                let mut k = i;
                while k > 0 && c[k - 1] != '\n' {
                    k -= 1;
                }
                if s.bool() && c[k] == ' ' {
                    c.remove(k);
                } else {
                    c.insert(k, ' ');
                }
            }
            _ => {
                let j = s.below(c.len());
                c.swap(i, j);
            }
        }
    }
    c.into_iter().collect()
}

pub fn bytes(s: &mut Source) -> Vec<u8> {
    let mut b = text(s).into_bytes();
    match s.weighted(&[6, 2, 1]) {
        0 => {}
        1 => {
            // break the UTF-8
            for _ in 0..s.range(1, 3) {
                let x = *s.pick(&[0x80u8, 0xff, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xf5, 0x00, 0xbf, 0xfe]);
                let i = s.below(b.len() + 1);
                if s.bool() || i >= b.len() {
                    b.insert(i, x);
                } else {
                    b[i] = x;
                }
            }
        }
        _ => {
            b.clear();
            let mut n = 0;
            while s.more(n, 10, 120) {
                n += 1;
                b.push(s.below(256) as u8);
            }
        }
    }
    b
}
