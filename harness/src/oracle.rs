//! Reference semantics, written from UTS #35 and sharing no code with /repo.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- numbers

/// A decimal numeral: digits, not a value.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Numeral {
    pub int: String,
    pub frac: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ops {
    pub n: f64,
    pub i: u64,
    pub v: usize,
    pub w: usize,
    pub f: u64,
    pub t: u64,
}

fn digits_to_u64(s: &str) -> Option<u64> {
    let mut x: u64 = 0;
    for c in s.bytes() {
        x = x.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(x)
}

impl Numeral {
    pub fn int(i: u64) -> Numeral {
        Numeral { int: i.to_string(), frac: None }
    }
    pub fn text(&self) -> String {
        match &self.frac {
            None => self.int.clone(),
            Some(f) => format!("{}.{}", self.int, f),
        }
    }
    /// None when the integer or fraction digits do not fit 64 bits.
    pub fn ops(&self) -> Option<Ops> {
        let i = digits_to_u64(&self.int)?;
        let frac = self.frac.as_deref().unwrap_or("");
        let mut keep = frac.len();
        while keep > 0 && frac.as_bytes()[keep - 1] == b'0' {
            keep -= 1;
        }
        let f = digits_to_u64(frac)?;
        let t = digits_to_u64(&frac[..keep])?;
        let n: f64 = format!("{}.{}", self.int, if frac.is_empty() { "0" } else { frac }).parse().unwrap();
        Some(Ops { n, i, v: frac.len(), w: keep, f, t })
    }
}

impl Ops {
    pub fn integral(i: u64) -> Ops {
        Ops { n: i as f64, i, v: 0, w: 0, f: 0, t: 0 }
    }
    /// The numeral with these operands (i, v, f decide).
    pub fn numeral(&self) -> Numeral {
        Numeral {
            int: self.i.to_string(),
            frac: if self.v == 0 { None } else { Some(format!("{:0width$}", self.f, width = self.v)) },
        }
    }
}

// ---------------------------------------------------------------- conditions

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Eq,
    Ne,
    In,
    NotIn,
    Within,
    NotWithin,
    Is,
    IsNot,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Item {
    V(u64),
    R(u64, u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Rel {
    pub operand: char,
    pub modulus: Option<u64>,
    pub op: Op,
    pub items: Vec<Item>,
}

/// Disjunction of conjunctions.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Cond(pub Vec<Vec<Rel>>);

impl Op {
    pub fn negative(self) -> bool {
        matches!(self, Op::Ne | Op::NotIn | Op::NotWithin | Op::IsNot)
    }
    pub fn within(self) -> bool {
        matches!(self, Op::Within | Op::NotWithin)
    }
    pub fn words(self) -> &'static [&'static str] {
        match self {
            Op::Eq => &["="],
            Op::Ne => &["!="],
            Op::In => &["in"],
            Op::NotIn => &["not", "in"],
            Op::Within => &["within"],
            Op::NotWithin => &["not", "within"],
            Op::Is => &["is"],
            Op::IsNot => &["is", "not"],
        }
    }
}

impl Rel {
    /// CLDR's own spelling.
    pub fn text(&self) -> String {
        let m = self.modulus.map_or(String::new(), |m| format!(" % {}", m));
        let items: Vec<String> = self
            .items
            .iter()
            .map(|i| match i {
                Item::V(v) => v.to_string(),
                Item::R(a, b) => format!("{}..{}", a, b),
            })
            .collect();
        format!("{}{} {} {}", self.operand, m, self.op.words().join(" "), items.join(","))
    }
    pub fn has_range(&self) -> bool {
        self.items.iter().any(|i| matches!(i, Item::R(..)))
    }
}

impl Cond {
    pub fn text(&self) -> String {
        self.0
            .iter()
            .map(|a| a.iter().map(|r| r.text()).collect::<Vec<_>>().join(" and "))
            .collect::<Vec<_>>()
            .join(" or ")
    }
}

enum Num {
    Int(u64),
    /// Not an integer.
    Frac(f64),
}

fn operand_value(r: &Rel, o: &Ops) -> Num {
    let x = match r.operand {
        'n' => {
            if o.t == 0 && o.w == 0 {
                Num::Int(o.i)
            } else {
                Num::Frac(o.n)
            }
        }
        'i' => Num::Int(o.i),
        'v' => Num::Int(o.v as u64),
        'w' => Num::Int(o.w as u64),
        'f' => Num::Int(o.f),
        't' => Num::Int(o.t),
        c => panic!("HARNESS: operand {}", c),
    };
    match (x, r.modulus) {
        (x, None) => x,
        (Num::Int(x), Some(m)) => Num::Int(x % m),
        (Num::Frac(x), Some(m)) => Num::Frac(x % m as f64),
    }
}

/// UTS #35 meaning of a relation.
pub fn eval_rel(r: &Rel, o: &Ops) -> bool {
    let x = operand_value(r, o);
    let hit = r.items.iter().any(|it| match (&x, it) {
        (Num::Int(x), Item::V(v)) => x == v,
        (Num::Int(x), Item::R(a, b)) => a <= x && x <= b,
        (Num::Frac(_), Item::V(_)) => false,
        (Num::Frac(x), Item::R(a, b)) => {
            r.op.within()
                && if r.modulus.is_none() {
                    // i < n < i + 1, exactly
                    *a <= o.i && o.i < *b
                } else {
                    (*a as f64) <= *x && *x <= (*b as f64)
                }
        }
    });
    hit != r.op.negative()
}

/// Known deviations of the code the generator emits, by relation shape (see known_findings.json).
/// Returns None when the shape has no known deviation.
pub fn quirk_of(r: &Rel) -> Option<&'static str> {
    if r.op == Op::NotWithin && r.has_range() {
        Some("not-within-range")
    } else if r.operand == 'n' && r.modulus.is_some() && r.has_range() && !r.op.within() {
        Some("n-mod-range")
    } else if r.operand == 'n' && r.modulus.is_some() {
        Some("n-mod-fraction")
    } else if r.operand == 'n' && r.op.negative() && r.has_range() {
        Some("n-not-range")
    } else {
        None
    }
}

/// What the emitted code does for the shapes with a known deviation.
pub fn eval_rel_quirk(r: &Rel, o: &Ops) -> bool {
    let neg = r.op.negative();
    let part = |it: &Item| -> bool {
        if r.op.within() {
            // bounds compared on the operand; n % m is taken as i % m
            let as_n = r.operand == 'n' && r.modulus.is_none();
            let x: u64 = match r.operand {
                'n' | 'i' => o.i,
                'v' => o.v as u64,
                'w' => o.w as u64,
                'f' => o.f,
                _ => o.t,
            };
            let x = r.modulus.map_or(x, |m| x % m);
            match it {
                Item::V(v) => (if as_n { o.n == *v as f64 } else { x == *v }) != neg,
                Item::R(a, b) => {
                    if as_n {
                        let (a, b) = (*a as f64, *b as f64);
                        if neg {
                            a > o.n && o.n > b
                        } else {
                            a <= o.n && o.n <= b
                        }
                    } else if neg {
                        *a > x && x > *b
                    } else {
                        *a <= x && x <= *b
                    }
                }
            }
        } else {
            match it {
                Item::V(v) => match r.modulus {
                    None => (o.n == *v as f64) != neg,
                    Some(m) => (o.i % m == *v) != neg,
                },
                Item::R(a, b) => {
                    let inside = *a <= o.i && o.i <= *b;
                    match r.modulus {
                        None => (inside != neg) && o.f == 0,
                        Some(_) => inside != neg,
                    }
                }
            }
        }
    };
    if neg {
        r.items.iter().all(part)
    } else {
        r.items.iter().any(part)
    }
}

pub fn eval_cond(c: &Cond, o: &Ops) -> bool {
    c.0.iter().any(|a| a.iter().all(|r| eval_rel(r, o)))
}

/// Evaluates with the known deviation for the relations `listed` selects, by the standard for all others.
pub fn eval_cond_quirk(c: &Cond, o: &Ops, listed: &dyn Fn(&Rel) -> bool) -> bool {
    c.0.iter().any(|a| {
        a.iter().all(|r| if quirk_of(r).is_some() && listed(r) { eval_rel_quirk(r, o) } else { eval_rel(r, o) })
    })
}

// ---------------------------------------------------------------- own parser of CLDR condition text

pub fn parse_cond(s: &str) -> Result<Cond, String> {
    let s = s.split('@').next().unwrap().trim();
    if s.is_empty() {
        return Ok(Cond(vec![]));
    }
    let mut ors = vec![];
    for o in s.split(" or ") {
        let mut ands = vec![];
        for a in o.split(" and ") {
            ands.push(parse_rel(a.trim())?);
        }
        ors.push(ands);
    }
    Ok(Cond(ors))
}

fn parse_rel(s: &str) -> Result<Rel, String> {
    let toks: Vec<&str> = s.split_whitespace().collect();
    let err = || format!("cannot read relation {:?}", s);
    let operand = toks.first().and_then(|t| t.chars().next()).ok_or_else(err)?;
    if toks[0].len() != 1 || !"nivwft".contains(operand) {
        return Err(err());
    }
    let mut k = 1;
    let mut modulus = None;
    if toks.get(k).map_or(false, |t| *t == "%" || *t == "mod") {
        modulus = Some(toks.get(k + 1).and_then(|t| t.parse().ok()).ok_or_else(err)?);
        k += 2;
    }
    let (op, used) = match (toks.get(k).copied(), toks.get(k + 1).copied()) {
        (Some("="), _) => (Op::Eq, 1),
        (Some("!="), _) => (Op::Ne, 1),
        (Some("is"), Some("not")) => (Op::IsNot, 2),
        (Some("is"), _) => (Op::Is, 1),
        (Some("not"), Some("in")) => (Op::NotIn, 2),
        (Some("not"), Some("within")) => (Op::NotWithin, 2),
        (Some("in"), _) => (Op::In, 1),
        (Some("within"), _) => (Op::Within, 1),
        _ => return Err(err()),
    };
    let list = toks[k + used..].concat();
    let mut items = vec![];
    for it in list.split(',') {
        items.push(match it.split_once("..") {
            Some((a, b)) => Item::R(a.parse().map_err(|_| err())?, b.parse().map_err(|_| err())?),
            None => Item::V(it.parse().map_err(|_| err())?),
        });
    }
    Ok(Rel { operand, modulus, op, items })
}

/// The sample numbers a CLDR rule publishes; ranges are expanded (same number of decimals on both ends).
pub fn parse_samples(s: &str) -> Vec<Numeral> {
    let mut out = vec![];
    for part in s.split('@').skip(1) {
        let body = part.trim_start_matches("integer").trim_start_matches("decimal");
        for it in body.split(',') {
            let it = it.trim();
            if it.is_empty() || it == "…" || it == "..." {
                continue;
            }
            let num = |x: &str| match x.split_once('.') {
                Some((a, b)) => Numeral { int: a.to_string(), frac: Some(b.to_string()) },
                None => Numeral { int: x.to_string(), frac: None },
            };
            match it.split_once('~') {
                None => out.push(num(it)),
                Some((a, b)) => {
                    let (a, b) = (num(a.trim()), num(b.trim()));
                    let v = a.frac.as_ref().map_or(0, |f| f.len());
                    let scaled = |x: &Numeral| -> u64 {
                        format!("{}{}", x.int, x.frac.clone().unwrap_or_default()).parse().unwrap()
                    };
                    for k in scaled(&a)..=scaled(&b) {
                        let p = 10u64.pow(v as u32);
                        out.push(Numeral {
                            int: (k / p).to_string(),
                            frac: if v == 0 { None } else { Some(format!("{:0w$}", k % p, w = v)) },
                        });
                    }
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- rule sets

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Cat {
    Few,
    Many,
    One,
    Two,
    Zero,
    Other,
}

pub const CATS: [Cat; 5] = [Cat::Few, Cat::Many, Cat::One, Cat::Two, Cat::Zero];

impl Cat {
    pub fn name(self) -> &'static str {
        match self {
            Cat::Few => "few",
            Cat::Many => "many",
            Cat::One => "one",
            Cat::Two => "two",
            Cat::Zero => "zero",
            Cat::Other => "other",
        }
    }
    pub fn parse(s: &str) -> Option<Cat> {
        CATS.iter().copied().chain([Cat::Other]).find(|c| c.name() == s)
    }
}

#[derive(Clone, Debug, Default)]
pub struct RuleSet {
    /// In category-name order, without `other`.
    pub rules: Vec<(Cat, Cond)>,
    pub samples: Vec<(Cat, Numeral)>,
}

impl RuleSet {
    /// Categories whose condition is true (normally at most one).
    pub fn truths(&self, o: &Ops) -> Vec<Cat> {
        self.rules.iter().filter(|(_, c)| eval_cond(c, o)).map(|(k, _)| *k).collect()
    }
    /// The one true category, or Other; None if several are true.
    #[inline]
    pub fn spec(&self, o: &Ops) -> Option<Cat> {
        let mut r = Cat::Other;
        for (k, c) in &self.rules {
            if eval_cond(c, o) {
                if r != Cat::Other {
                    return None;
                }
                r = *k;
            }
        }
        Some(r)
    }
    pub fn quirk(&self, o: &Ops, listed: &dyn Fn(Cat, &Rel) -> bool) -> Cat {
        for (k, c) in &self.rules {
            if eval_cond_quirk(c, o, &|r| listed(*k, r)) {
                return *k;
            }
        }
        Cat::Other
    }
    /// As `quirk`, and relations of n with a value compare the nearest double.
    pub fn rounded(&self, o: &Ops, listed: &dyn Fn(Cat, &Rel) -> bool) -> Cat {
        let rel = |k: Cat, r: &Rel| -> bool {
            if quirk_of(r).is_some() {
                return if listed(k, r) { eval_rel_quirk(r, o) } else { eval_rel(r, o) };
            }
            if r.operand != 'n' || r.modulus.is_some() {
                return eval_rel(r, o);
            }
            let hit = r.items.iter().any(|it| match it {
                Item::V(v) => o.n == *v as f64,
                Item::R(a, b) if r.op.within() => (*a as f64) <= o.n && o.n <= (*b as f64),
                Item::R(a, b) => o.f == 0 && *a <= o.i && o.i <= *b,
            });
            hit != r.op.negative()
        };
        for (k, c) in &self.rules {
            if c.0.iter().any(|a| a.iter().all(|r| rel(*k, r))) {
                return *k;
            }
        }
        Cat::Other
    }
    pub fn has_quirk(&self) -> bool {
        self.rules.iter().any(|(_, c)| c.0.iter().flatten().any(|r| quirk_of(r).is_some()))
    }
}

/// locale tag -> rules, `root` left out.
pub fn load_cldr(json: &str) -> (String, BTreeMap<String, RuleSet>) {
    let v: serde_json::Value = serde_json::from_str(json).expect("HARNESS: cldr json");
    let s = &v["supplemental"];
    let ver = s["version"]["_cldrVersion"].as_str().expect("HARNESS: version").to_string();
    let mut out = BTreeMap::new();
    for (k, t) in s.as_object().unwrap() {
        if !k.starts_with("plurals-type") {
            continue;
        }
        for (loc, rules) in t.as_object().unwrap() {
            if loc == "root" {
                continue;
            }
            let mut rs = RuleSet::default();
            for (name, text) in rules.as_object().unwrap() {
                let cat = Cat::parse(name.rsplit('-').next().unwrap()).expect("HARNESS: category");
                let text = text.as_str().unwrap();
                for n in parse_samples(text) {
                    rs.samples.push((cat, n));
                }
                if cat != Cat::Other {
                    rs.rules.push((cat, parse_cond(text).expect("HARNESS: condition")));
                }
            }
            rs.rules.sort_by_key(|(c, _)| c.name());
            out.insert(loc.clone(), rs);
        }
    }
    (ver, out)
}
