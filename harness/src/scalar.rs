//! Reference resolver of untagged plain scalars, written from the documented
//! rules (YAML 1.2 core schema as this library states it), by hand-written
//! grammar matching rather than by trying parsers in turn.

#[derive(Clone, Debug, PartialEq)]
pub enum Sc {
    Null,
    Bool(bool),
    /// Fits in 128 bits (signed or unsigned): sign and magnitude.
    Int(bool, u128),
    Float(f64),
    Str,
}

/// `sign? digits-of-radix`; returns (negative, magnitude or None on overflow).
pub fn integer(s: &str) -> Option<(bool, Option<u128>)> {
    let b = s.as_bytes();
    let (neg, signed, rest) = match b.first() {
        Some(b'-') => (true, true, &b[1..]),
        Some(b'+') => (false, true, &b[1..]),
        _ => (false, false, b),
    };
    let _ = signed;
    let (radix, digits): (u128, &[u8]) = match rest {
        [b'0', b'x', d @ ..] => (16, d),
        [b'0', b'o', d @ ..] => (8, d),
        [b'0', b'b', d @ ..] => (2, d),
        d => (10, d),
    };
    if digits.is_empty() {
        return None;
    }
    if radix == 10 && digits.len() > 1 && digits[0] == b'0' {
        // Leading zeros make it a string.
        return None;
    }
    let mut acc: Option<u128> = Some(0);
    for &c in digits {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        } as u128;
        if d >= radix {
            return None;
        }
        acc = acc.and_then(|a| a.checked_mul(radix)).and_then(|a| a.checked_add(d));
    }
    Some((neg, acc))
}

/// Decimal float shape: sign? (digits [. digits*] | . digits+) (e sign? digits+)?
fn float_shape(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
        i += 1;
    }
    let int_start = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    let int_digits = i - int_start;
    let mut frac_digits = 0;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let f = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        frac_digits = i - f;
    }
    if int_digits + frac_digits == 0 {
        return false;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
            i += 1;
        }
        let e = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == e {
            return false;
        }
    }
    i == b.len()
}

fn leading_zero_digits(s: &str) -> bool {
    let b = s.as_bytes();
    let d = match b.first() {
        Some(b'-') | Some(b'+') => &b[1..],
        _ => b,
    };
    d.len() > 1 && d[0] == b'0' && d.iter().all(|c| c.is_ascii_digit())
}

pub fn float(s: &str) -> Option<f64> {
    match s {
        ".inf" | ".Inf" | ".INF" | "+.inf" | "+.Inf" | "+.INF" => return Some(f64::INFINITY),
        "-.inf" | "-.Inf" | "-.INF" => return Some(f64::NEG_INFINITY),
        ".nan" | ".NaN" | ".NAN" => return Some(f64::NAN),
        _ => {}
    }
    if !float_shape(s) {
        return None;
    }
    let f: f64 = s.parse().ok()?;
    if f.is_finite() {
        Some(f)
    } else {
        None
    }
}

pub fn is_null(s: &str) -> bool {
    matches!(s, "null" | "Null" | "NULL" | "~")
}

pub fn boolean(s: &str) -> Option<bool> {
    match s {
        "true" | "True" | "TRUE" => Some(true),
        "false" | "False" | "FALSE" => Some(false),
        _ => None,
    }
}

/// Integers of up to 128 bits.
pub fn int128(s: &str) -> Option<(bool, u128)> {
    match integer(s) {
        Some((false, Some(m))) => Some((false, m)),
        Some((true, Some(m))) if m <= 1 << 127 => Some((m != 0, m)),
        _ => None,
    }
}

pub fn resolve(s: &str) -> Sc {
    if s.is_empty() || is_null(s) {
        return Sc::Null;
    }
    if let Some(b) = boolean(s) {
        return Sc::Bool(b);
    }
    if let Some((n, m)) = int128(s) {
        return Sc::Int(n, m);
    }
    if !leading_zero_digits(s) {
        if let Some(f) = float(s) {
            return Sc::Float(f);
        }
    }
    Sc::Str
}

/// What `Value` holds for an untagged plain scalar; `None` when the number is
/// an integer that a `Value` cannot represent.
pub fn value(s: &str) -> Option<crate::model::MV> {
    use crate::model::MV;
    Some(match resolve(s) {
        Sc::Null => MV::Null,
        Sc::Bool(b) => MV::Bool(b),
        Sc::Int(neg, m) => {
            let v = signed(neg, m)?;
            if v > u64::MAX as i128 || v < i64::MIN as i128 {
                return None;
            }
            MV::Int(v)
        }
        Sc::Float(f) => MV::Float(f),
        Sc::Str => MV::Str(s.to_string()),
    })
}

/// As i128, when it fits.
pub fn signed(neg: bool, m: u128) -> Option<i128> {
    if neg {
        if m <= 1 << 127 {
            Some((m as i128).wrapping_neg())
        } else {
            None
        }
    } else {
        i128::try_from(m).ok()
    }
}
