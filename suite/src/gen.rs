//! Generators shared by the properties.
use crate::ctx::{Ctx, Rng};

pub fn special_floats() -> Vec<f64> {
    let mut v = vec![
        0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0, 10.0, 100.0, 0.1, 0.2, 0.3, 3.45, 1e-300, -1e-300, 5e-324, -5e-324,
        2.2250738585072014e-308, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e308, 1e16, 1e17, 1e19, 1e20, 1e21,
        f64::EPSILON, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 0.99, 1e-17, 2e-17, 0.3333333333333333, 12345.678, 4294967296.0,
        4294967295.0, 2147483647.0, 2147483648.0, 0.9999999999999999, 255.0, 256.0, 1000.0, 1024.0,
    ];
    for e in [52, 53, 54, 62, 63, 64, 65] {
        let x = 2f64.powi(e);
        v.extend([x, x - 1.0, x + 1.0, f64::from_bits(x.to_bits() - 1), f64::from_bits(x.to_bits() + 1), -x]);
    }
    v
}

pub fn float(r: &mut Rng, dict: &[f64]) -> f64 {
    match r.below(10) {
        0 | 1 => *r.pick(&special_floats()),
        2 => (r.below(20) as f64) - 5.0,
        3 => (r.u64() % 2000) as f64 / 16.0 - 30.0,
        4 => f64::from_bits(r.u64()),
        5 => (r.u64() >> (r.below(64))) as f64,
        6 if !dict.is_empty() => {
            let x = *r.pick(dict);
            match r.below(6) {
                0 => x + 1.0,
                1 => x - 1.0,
                2 => f64::from_bits(x.to_bits().wrapping_add(1)),
                3 => f64::from_bits(x.to_bits().wrapping_sub(1)),
                4 => -x,
                _ => x,
            }
        }
        7 => (r.below(1 << 20) as f64) / 1024.0,
        8 => 10f64.powi(r.below(40) as i32 - 20),
        _ => r.below(8) as f64,
    }
}

pub fn number(r: &mut Rng, dict: &[f64]) -> f64 {
    loop {
        let x = float(r, dict);
        if !x.is_nan() {
            return x;
        }
    }
}

pub const NAME_CHARS: &[char] = &[
    'a', 'b', 'm', 'z', 'A', 'B', 'M', 'Z', '0', '5', '9', '_', ':', '-', ' ', '\n', '"', '\\', 'é', 'ß', '名', '𝒳', '{', '`', '@', '[', '/', ';',
    '\0', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '.', '\u{130}', '\u{1e9}', 'Ａ', '\u{10ffff}', '٣', '\u{161}', '\u{241}', 'a', '^', ']',
];

pub fn good_name(s: &str, colon: bool) -> bool {
    let mut first = true;
    for c in s.chars() {
        let ok = c.is_ascii_alphabetic() || c == '_' || (colon && c == ':') || (!first && c.is_ascii_digit());
        if !ok {
            return false;
        }
        first = false;
    }
    !first
}
pub fn good_label_name(s: &str) -> bool {
    good_name(s, false) && !s.starts_with("__")
}

/// A name that is valid (for metrics and labels alike).
pub fn valid_name(r: &mut Rng) -> String {
    const F: &[u8] = b"abcxyzABCXYZ_mnopqrstuvwGH";
    const T: &[u8] = b"abcxyzABCXYZ_0123456789klmM";
    let n = match r.below(8) {
        0 => 1,
        1 => 2,
        7 => 1 + r.below(40),
        _ => 1 + r.below(8),
    };
    let mut s = String::new();
    for i in 0..n {
        let set = if i == 0 { F } else { T };
        s.push(*r.pick(set) as char);
    }
    if s.starts_with("__") {
        s.insert(0, 'x');
    }
    s
}

pub fn any_string(r: &mut Rng, dict: &[String]) -> String {
    match r.below(12) {
        0 => String::new(),
        1 if !dict.is_empty() => {
            let mut s = r.pick(dict).clone();
            if r.one_in(3) {
                s.push(*r.pick(NAME_CHARS));
            }
            s
        }
        2 => valid_name(r),
        3 => {
            // runs of characters which need escaping
            let n = 1 + r.below(8);
            (0..n).map(|_| *r.pick(&['\\', '"', '\n', 'n', '\\', 'x'])).collect()
        }
        4 => {
            let n = r.below(300);
            (0..n).map(|_| any_char(r)).collect()
        }
        5 => {
            let n = 1 + r.below(4);
            (0..n)
                .map(|_| *r.pick(&['\t', '\r', '\u{b}', '\u{85}', '\u{2028}', '\'', '\u{200b}', '\u{feff}', '\0', '\u{7f}', '{', '}', ',', '=', '#', ' ']))
                .collect()
        }
        _ => {
            let n = r.below(6);
            (0..n).map(|_| any_char(r)).collect()
        }
    }
}

pub fn any_char(r: &mut Rng) -> char {
    match r.below(5) {
        0 => *r.pick(NAME_CHARS),
        1 => (r.below(128) as u8) as char,
        2 => *r.pick(&['\\', '"', '\n', '\'', '\r', '\t']),
        3 => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
        _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('y'),
    }
}

/// A size that favours small numbers and the integers written in the code under test.
pub fn size(c: &mut Ctx, max: usize) -> usize {
    let ints: Vec<usize> = c.dict.ints.iter().filter(|i| **i >= 0 && **i < max as i128).map(|i| *i as usize).collect();
    match c.rng.below(8) {
        0 if !ints.is_empty() => {
            let k = *c.rng.pick(&ints);
            (k + c.rng.below(3)).saturating_sub(1).min(max)
        }
        1 => c.rng.below(max + 1),
        2 => *c.rng.pick(&[0, 1, 2, 3]),
        _ => c.rng.below(6.min(max + 1)),
    }
}

pub fn fmt_float(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else if v == f64::INFINITY {
        "+Inf".into()
    } else if v == f64::NEG_INFINITY {
        "-Inf".into()
    } else {
        format!("{}", v)
    }
}

pub fn escape_label(v: &str) -> String {
    v.replace('\\', "\\\\").replace('\n', "\\n").replace('"', "\\\"")
}
pub fn escape_help(v: &str) -> String {
    v.replace('\\', "\\\\").replace('\n', "\\n")
}

/// Equal as floats: same value (zeros alike) or both not-a-number.
pub fn feq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
