//! A fuzzing dictionary: the literals in the sources under test (numbers, strings, characters). They only steer
//! generation towards inputs the code treats specially; no verdict looks at them. Literals that are not in
//! data/literals.json (those of the tree the checks were written for) come up more often.
use proptest::prelude::*;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub ints: BTreeSet<u64>,
    pub floats: BTreeSet<String>,
    pub strings: BTreeSet<String>,
}

fn lex(src: &str, d: &mut Dict) {
    let c: Vec<char> = src.chars().collect();
    let at = |k: usize| c.get(k).copied().unwrap_or('\0');
    let mut k = 0;
    let mut prev_word = false;
    while k < c.len() {
        let x = c[k];
        if x == '/' && at(k + 1) == '/' {
            while k < c.len() && c[k] != '\n' {
                k += 1;
            }
        } else if x == '/' && at(k + 1) == '*' {
            k += 2;
            while k < c.len() && !(c[k] == '*' && at(k + 1) == '/') {
                k += 1;
            }
            k += 2;
        } else if x == 'r' && !prev_word && (at(k + 1) == '"' || (at(k + 1) == '#' && (at(k + 2) == '"' || at(k + 2) == '#'))) {
            let mut h = 0;
            k += 1;
            while at(k) == '#' {
                h += 1;
                k += 1;
            }
            k += 1;
            let mut s = String::new();
            while k < c.len() {
                if c[k] == '"' && (0..h).all(|j| at(k + 1 + j) == '#') {
                    k += 1 + h;
                    break;
                }
                s.push(c[k]);
                k += 1;
            }
            d.strings.insert(s);
        } else if x == '"' {
            let mut s = String::new();
            k += 1;
            while k < c.len() && c[k] != '"' {
                if c[k] == '\\' {
                    let (ch, used) = escape(&c[k..]);
                    s.extend(ch);
                    k += used;
                } else {
                    s.push(c[k]);
                    k += 1;
                }
            }
            k += 1;
            d.strings.insert(s);
        } else if x == '\'' && (at(k + 1) == '\\' || at(k + 2) == '\'') {
            if at(k + 1) == '\\' {
                let (ch, used) = escape(&c[k + 1..]);
                d.strings.extend(ch.map(|c| c.to_string()));
                k += used + 2;
            } else {
                d.strings.insert(at(k + 1).to_string());
                k += 3;
            }
        } else if x.is_ascii_digit() && !prev_word {
            let mut t = String::new();
            let radix = match (x, at(k + 1)) {
                ('0', 'x') => 16,
                ('0', 'b') => 2,
                ('0', 'o') => 8,
                _ => 10,
            };
            if radix != 10 {
                k += 2;
            }
            while at(k) == '_' || at(k).is_digit(radix) {
                if at(k) != '_' {
                    t.push(at(k));
                }
                k += 1;
            }
            let mut float = false;
            if radix == 10 && at(k) == '.' && at(k + 1).is_ascii_digit() {
                float = true;
                t.push('.');
                k += 1;
                while at(k) == '_' || at(k).is_ascii_digit() {
                    if at(k) != '_' {
                        t.push(at(k));
                    }
                    k += 1;
                }
            }
            if radix == 10 && (at(k) == 'e' || at(k) == 'E') && (at(k + 1).is_ascii_digit() || (matches!(at(k + 1), '-' | '+') && at(k + 2).is_ascii_digit())) {
                float = true;
                t.push('e');
                t.push(at(k + 1));
                k += 2;
                while at(k).is_ascii_digit() {
                    t.push(at(k));
                    k += 1;
                }
            }
            if float {
                if let Ok(f) = t.parse::<f64>() {
                    if f.is_finite() {
                        if f < 1.8e19 {
                            d.ints.insert(f as u64);
                        }
                        d.floats.insert(t);
                    }
                }
            } else if let Ok(v) = u64::from_str_radix(&t, radix) {
                // identifiers are written as little-endian integers in generated code
                let b: Vec<u8> = v.to_le_bytes().into_iter().take_while(|x| *x != 0).collect();
                if v >= 0x100 && v >> (8 * b.len().min(7)) == 0 && b.len() <= 7 && b.iter().all(|x| x.is_ascii_alphanumeric()) {
                    d.strings.insert(String::from_utf8(b).unwrap());
                }
                d.ints.insert(v);
                // 1 << 20
                let rest: String = c[k..c.len().min(k + 40)].iter().collect();
                let rest = rest.trim_start_matches(|c: char| c.is_alphanumeric() || c == '_').trim_start();
                if let Some(s) = rest.strip_prefix("<<") {
                    let n: String = s.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(n) = n.parse::<u32>() {
                        if n < 64 {
                            d.ints.insert(v.wrapping_shl(n));
                        }
                    }
                }
            }
            while at(k).is_alphanumeric() || at(k) == '_' {
                k += 1;
            }
        } else {
            prev_word = x.is_alphanumeric() || x == '_';
            k += 1;
            continue;
        }
        prev_word = false;
    }
    // texts that are numbers, also as numbers
    for t in d.strings.clone() {
        let t = t.trim_start_matches(['-', '+']);
        if !t.is_empty() && t.len() < 40 && t.chars().all(|c| c.is_ascii_digit() || c == '.') {
            d.ints.extend(t.split('.').filter_map(|p| p.parse::<u64>().ok()));
            if t.contains('.') && t.parse::<f64>().is_ok() {
                d.floats.insert(t.to_string());
            }
        }
    }
    for (name, v) in [("u8", u8::MAX as u64), ("i8", i8::MAX as u64), ("u16", u16::MAX as u64), ("i16", i16::MAX as u64), ("u32", u32::MAX as u64), ("i32", i32::MAX as u64), ("u64", u64::MAX), ("i64", i64::MAX as u64)] {
        if src.contains(&format!("{}::MAX", name)) || src.contains(&format!("as {}", name)) {
            d.ints.insert(v);
            d.ints.insert(v.wrapping_add(1));
        }
    }
}

/// The character of an escape at the start, and how long the escape is.
fn escape(c: &[char]) -> (Option<char>, usize) {
    match c.get(1) {
        Some('n') => (Some('\n'), 2),
        Some('t') => (Some('\t'), 2),
        Some('r') => (Some('\r'), 2),
        Some('0') => (Some('\0'), 2),
        Some('x') => {
            let h: String = c.iter().skip(2).take(2).collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), 4)
        }
        Some('u') => {
            let h: String = c.iter().skip(3).take_while(|c| **c != '}').collect();
            (u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32), h.len() + 4)
        }
        Some('\n') => (None, 2),
        Some(x) => (Some(*x), 2),
        None => (None, 1),
    }
}

pub fn of_tree() -> Dict {
    let mut d = Dict::default();
    for dir in ["intl_pluralrules/src", "cldr_pluralrules_parser/src", "make_pluralrules/src", "make_pluralrules/src/parser"] {
        let mut files: Vec<_> = std::fs::read_dir(std::path::Path::new("/repo").join(dir)).into_iter().flatten().flatten().map(|e| e.path()).collect();
        files.sort();
        for f in files {
            if f.extension().map_or(false, |e| e == "rs") {
                if let Ok(b) = std::fs::read(&f) {
                    lex(&String::from_utf8_lossy(&b), &mut d);
                }
            }
        }
    }
    d
}

/// For maintenance: the dictionary of the tree, to be kept as data/literals.json.
pub fn print() {
    let d = of_tree();
    println!("{}", serde_json::json!({"ints": d.ints, "floats": d.floats, "strings": d.strings}));
}

fn get() -> &'static (Dict, Dict) {
    static D: OnceLock<(Dict, Dict)> = OnceLock::new();
    D.get_or_init(|| {
        let known: serde_json::Value = std::fs::read_to_string(crate::framework::root().join("data/literals.json"))
            .ok()
            .and_then(|t| serde_json::from_str(&t).ok())
            .unwrap_or_default();
        let strs = |k: &str| -> BTreeSet<String> { known[k].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect() };
        let ints: BTreeSet<u64> = known["ints"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect();
        let (floats, strings) = (strs("floats"), strs("strings"));
        let all = of_tree();
        let new = Dict {
            ints: all.ints.difference(&ints).copied().collect(),
            floats: all.floats.difference(&floats).cloned().collect(),
            strings: all.strings.difference(&strings).cloned().collect(),
        };
        (all, new)
    })
}

/// The integers of the tree (without encoded identifiers), or only the new ones (all of them).
pub fn ints(new: bool) -> Vec<u64> {
    let d = get();
    if new {
        d.1.ints.iter().copied().take(300).collect()
    } else {
        d.0.ints.iter().copied().filter(|v| *v < 24_930 || *v % 1000 == 0 || *v > u32::MAX as u64).take(1000).collect()
    }
}
pub fn floats(new: bool) -> Vec<f64> {
    let d = get();
    (if new { &d.1.floats } else { &d.0.floats }).iter().filter_map(|f| f.parse().ok()).take(400).collect()
}
pub fn strings(new: bool) -> Vec<String> {
    let d = get();
    (if new { &d.1.strings } else { &d.0.strings }).iter().take(1000).cloned().collect()
}

/// New literals that can be a number of blanks, and the counts next to them.
pub fn blanks() -> &'static [usize] {
    static B: OnceLock<Vec<usize>> = OnceLock::new();
    B.get_or_init(|| ints(true).into_iter().filter(|x| (4..60_000).contains(x)).flat_map(|x| [x as usize - 1, x as usize, x as usize + 1]).take(200).collect())
}

/// A list to choose from: the new literals when there are any (twice out of three), else all.
fn pick<T: Clone + std::fmt::Debug + 'static>(new: Vec<T>, all: Vec<T>, none: T) -> BoxedStrategy<T> {
    let all = if all.is_empty() { vec![none] } else { all };
    if new.is_empty() {
        prop::sample::select(all).boxed()
    } else {
        prop_oneof![2 => prop::sample::select(new), 1 => prop::sample::select(all)].boxed()
    }
}

/// Integers near the literals, their multiples, and sums of one's multiple and another.
pub fn int() -> BoxedStrategy<u64> {
    thread_local!(static S: BoxedStrategy<u64> = make_int());
    S.with(|s| s.clone())
}
fn make_int() -> BoxedStrategy<u64> {
    let lit = || pick(ints(true), ints(false), 1);
    prop_oneof![
        4 => lit(),
        3 => (lit(), 0u64..5).prop_map(|(x, d)| x.wrapping_add(d).wrapping_sub(2)),
        3 => (lit(), 1u64..2000, lit()).prop_map(|(a, k, b)| a.wrapping_mul(k).wrapping_add(b)),
        2 => (lit(), 0u32..16, 0u64..200).prop_map(|(a, k, b)| a.wrapping_mul(10u64.pow(k)).wrapping_add(b)),
        1 => (lit(), lit()).prop_map(|(a, b)| a.wrapping_mul(b)),
        1 => (lit(), any::<u64>(), 0u32..64).prop_map(|(a, k, s)| (k >> s).wrapping_mul(a.max(1))),
    ]
    .boxed()
}

/// Lengths or counts near the literals, at most `max`.
pub fn len(max: usize) -> BoxedStrategy<usize> {
    let f = |v: Vec<u64>| -> Vec<u64> { v.into_iter().filter(|x| *x < max as u64).collect() };
    (pick(f(ints(true)), f(ints(false)), 1), 0usize..5).prop_map(move |(x, d)| (x as usize + d).saturating_sub(2).min(max)).boxed()
}

pub fn string() -> BoxedStrategy<String> {
    pick(strings(true), strings(false), "n".into())
}

pub fn float() -> BoxedStrategy<f64> {
    let f = |new| floats(new).into_iter().chain(ints(new).into_iter().map(|x| x as f64)).collect::<Vec<f64>>();
    (pick(f(true), f(false), 1.0), 0u8..12, -20i32..20, any::<bool>())
        .prop_map(|(x, how, k, neg)| {
            let y = match how {
                0..=2 => x,
                3 => f64::from_bits(x.to_bits().wrapping_add(1)),
                4 => f64::from_bits(x.to_bits().wrapping_sub(1)),
                5 => x + 0.5,
                6 => x * 10f64.powi(k),
                7 => 1.0 / x,
                8 => 10f64.powi(-(x.min(320.0) as i32)),
                9 => 10f64.powi(x.min(300.0) as i32),
                10 => x + k as f64,
                _ => x / 10f64.powi(k.abs()),
            };
            if neg {
                -y
            } else {
                y
            }
        })
        .boxed()
}
