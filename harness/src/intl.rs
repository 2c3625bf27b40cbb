//! Checks of the intl_pluralrules crate (C01-C09).
use crate::framework::*;
use crate::gen::*;
use crate::oracle::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralCategory, PluralRuleType, PluralRules};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::convert::TryFrom;
use std::sync::atomic::{AtomicU64, Ordering};
use unic_langid::LanguageIdentifier;

pub fn cat(c: PluralCategory) -> Cat {
    match c {
        PluralCategory::ZERO => Cat::Zero,
        PluralCategory::ONE => Cat::One,
        PluralCategory::TWO => Cat::Two,
        PluralCategory::FEW => Cat::Few,
        PluralCategory::MANY => Cat::Many,
        PluralCategory::OTHER => Cat::Other,
    }
}

pub fn prt(ordinal: bool) -> PluralRuleType {
    if ordinal {
        PluralRuleType::ORDINAL
    } else {
        PluralRuleType::CARDINAL
    }
}

pub struct Cldr {
    pub version: String,
    pub locales: Vec<String>,
    pub rules: BTreeMap<String, RuleSet>,
}

pub fn cldr(ordinal: bool) -> Cldr {
    let f = if ordinal { "data/cldr37_ordinals.json" } else { "data/cldr37_cardinals.json" };
    let text = std::fs::read_to_string(root().join(f)).expect("HARNESS: frozen CLDR data");
    let (version, rules) = load_cldr(&text);
    Cldr { version, locales: rules.keys().cloned().collect(), rules }
}

thread_local! {
    static OBJECTS: RefCell<HashMap<(String, bool), Option<std::rc::Rc<PluralRules>>>> = RefCell::new(HashMap::new());
}

/// A per-thread object for the locale, made once.
pub fn object(locale: &str, ordinal: bool) -> Option<std::rc::Rc<PluralRules>> {
    OBJECTS.with(|m| {
        m.borrow_mut()
            .entry((locale.to_string(), ordinal))
            .or_insert_with(|| {
                let id: LanguageIdentifier = locale.parse().expect("HARNESS: locale tag");
                PluralRules::create(id, prt(ordinal)).ok().map(std::rc::Rc::new)
            })
            .clone()
    })
}

/// How a number is handed to the library.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Carrier {
    Str,
    Owned,
    Plus,
    Zeros,
    U8,
    U16,
    U32,
    U64,
    Usize,
    I8,
    I16,
    I32,
    I64,
    Isize,
    F32,
    F64,
    Operands,
    Custom,
    PlusZeros,
    ManyZeros,
}
pub const CARRIERS: [Carrier; 20] = [
    Carrier::Str,
    Carrier::Owned,
    Carrier::Plus,
    Carrier::Zeros,
    Carrier::U8,
    Carrier::U16,
    Carrier::U32,
    Carrier::U64,
    Carrier::Usize,
    Carrier::I8,
    Carrier::I16,
    Carrier::I32,
    Carrier::I64,
    Carrier::Isize,
    Carrier::F32,
    Carrier::F64,
    Carrier::Operands,
    Carrier::Custom,
    Carrier::PlusZeros,
    Carrier::ManyZeros,
];

pub struct MyNumber(pub Ops);
impl TryFrom<MyNumber> for PluralOperands {
    type Error = String;
    fn try_from(m: MyNumber) -> Result<PluralOperands, String> {
        Ok(operands(&m.0))
    }
}
pub fn operands(o: &Ops) -> PluralOperands {
    PluralOperands { n: o.n, i: o.i, v: o.v, w: o.w, f: o.f, t: o.t }
}

/// Selects through the carrier. None when the carrier cannot hold the number.
pub fn select_via(pr: &PluralRules, num: &Numeral, neg: bool, c: Carrier) -> Option<Result<Cat, String>> {
    let sign = if neg { "-" } else { "" };
    let done = |r: Result<PluralCategory, &'static str>| Some(r.map(cat).map_err(|e| e.to_string()));
    macro_rules! unsigned {
        ($t:ty) => {{
            if num.frac.is_some() || neg {
                return None;
            }
            let x: $t = num.int.parse().ok()?;
            done(pr.select(x))
        }};
    }
    macro_rules! signed {
        ($t:ty) => {{
            if num.frac.is_some() {
                return None;
            }
            let x: $t = format!("{}{}", sign, num.int).parse().ok()?;
            if (x as i64) == i64::MIN {
                return None;
            }
            done(pr.select(x))
        }};
    }
    match c {
        Carrier::Str => done(pr.select(format!("{}{}", sign, num.text()).as_str())),
        Carrier::Owned => done(pr.select(format!("{}{}", sign, num.text()))),
        Carrier::Plus => {
            if neg {
                return None;
            }
            done(pr.select(format!("+{}", num.text())))
        }
        Carrier::Zeros => done(pr.select(format!("{}000{}", sign, num.text()))),
        Carrier::PlusZeros => {
            if neg {
                return None;
            }
            done(pr.select(format!("+0{}", num.text()).as_str()))
        }
        Carrier::ManyZeros => done(pr.select(format!("{}{}{}", sign, "0".repeat(40), num.text()).as_str())),
        Carrier::U8 => unsigned!(u8),
        Carrier::U16 => unsigned!(u16),
        Carrier::U32 => unsigned!(u32),
        Carrier::U64 => unsigned!(u64),
        Carrier::Usize => unsigned!(usize),
        Carrier::I8 => signed!(i8),
        Carrier::I16 => signed!(i16),
        Carrier::I32 => signed!(i32),
        Carrier::I64 => signed!(i64),
        Carrier::Isize => signed!(isize),
        Carrier::F64 | Carrier::F32 => {
            // Only numerals that are the shortest decimal of a float have the float's operands. Above 2^53
            // that decimal must be the exact value, too.
            let text = num.text();
            if text.len() > 24 {
                return None;
            }
            let exact = |x: f64| x < 9007199254740992.0 || num.int.parse::<u64>().map_or(false, |i| x < 1.8e19 && i == x as u64);
            if c == Carrier::F64 {
                let x: f64 = text.parse().unwrap();
                if x.to_string() != text || !exact(x) {
                    return None;
                }
                done(pr.select(if neg { -x } else { x }))
            } else {
                let x: f32 = text.parse().unwrap();
                if x.to_string() != text || !exact(x as f64) {
                    return None;
                }
                done(pr.select(if neg { -x } else { x }))
            }
        }
        Carrier::Operands => done(pr.select(operands(&num.ops()?))),
        Carrier::Custom => done(pr.select(MyNumber(num.ops()?))),
    }
}

/// Listed known findings for C01/C02: locale -> set of (category, relation).
pub struct Listed(pub HashMap<String, HashSet<(String, String)>>);

pub fn known_file() -> serde_json::Value {
    let t = std::fs::read_to_string(root().join("known_findings.json")).expect("HARNESS: known_findings.json");
    serde_json::from_str(&t).expect("HARNESS: known_findings.json")
}

pub fn listed(id: &str) -> Listed {
    let v = known_file();
    let mut m: HashMap<String, HashSet<(String, String)>> = HashMap::new();
    for f in v["findings"].as_array().unwrap() {
        if f["property"] == id && f["locale"].is_string() {
            let e = m.entry(f["locale"].as_str().unwrap().to_string()).or_default();
            for r in f["relations"].as_array().unwrap() {
                e.insert((r["category"].as_str().unwrap().into(), r["relation"].as_str().unwrap().into()));
            }
        }
    }
    Listed(m)
}

enum Verdict {
    Fine,
    Known,
    Bad(String),
}

fn judge(l: &Listed, locale: &str, rs: &RuleSet, o: &Ops, got: Cat) -> Verdict {
    match rs.spec(o) {
        Some(c) if c == got => return Verdict::Fine,
        None if rs.truths(o).contains(&got) => return Verdict::Fine,
        _ => {}
    }
    if let Some(set) = l.0.get(locale) {
        let q = rs.quirk(o, &|c, r| set.contains(&(c.name().to_string(), r.text())));
        if q == got {
            return Verdict::Known;
        }
    }
    Verdict::Bad(format!(
        "locale {} number {}: selected {:?}, CLDR says {:?}",
        locale,
        o.numeral().text(),
        got,
        rs.truths(o)
    ))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase {
    locale: String,
    num: Numeral,
    neg: bool,
    carrier: Carrier,
}

fn finding_key(locale: &str, ordinal: bool) -> String {
    format!("locale {} {} rules deviate from CLDR as listed", locale, if ordinal { "ordinal" } else { "cardinal" })
}

/// Integer parts and fractions at and next to every constant of the rules.
pub fn near_constants(rs: &RuleSet) -> (Vec<u64>, Vec<Option<String>>) {
    let mut ints: std::collections::BTreeSet<u64> = (0..=12).collect();
    let mut fracs: std::collections::BTreeSet<Option<String>> = ["0", "00", "000", "5", "05", "50", "1", "01", "10", "001", "9", "99"].iter().map(|f| Some(f.to_string())).collect();
    fracs.insert(None);
    for r in rs.rules.iter().flat_map(|(_, c)| c.0.iter().flatten()) {
        let mut around: std::collections::BTreeSet<u64> = Default::default();
        for it in &r.items {
            let (a, b) = match it {
                Item::V(v) => (*v, *v),
                Item::R(a, b) => (*a, *b),
            };
            for e in [a, b, (a + b) / 2] {
                around.extend([e.saturating_sub(1), e, e + 1]);
            }
        }
        for x in around {
            match r.operand {
                'n' | 'i' => {
                    ints.insert(x);
                    if let Some(m) = r.modulus {
                        for k in [1, 2, 3, 7, 10, 11, 100, 1_001, 1_000_000] {
                            ints.insert(x + m * k);
                        }
                    }
                }
                'f' | 't' => {
                    let mut vals = vec![x];
                    if let Some(m) = r.modulus {
                        vals.extend([x + m, x + 3 * m, x + 10 * m]);
                    }
                    for v in vals {
                        for lead in ["", "0", "00"] {
                            for tail in ["", "0", "00"] {
                                fracs.insert(Some(format!("{}{}{}", lead, v, tail)));
                            }
                        }
                    }
                }
                _ => {
                    for d in ['0', '1', '7'] {
                        let f: String = std::iter::repeat(d).take((x as usize).min(12)).collect();
                        fracs.insert(if f.is_empty() { None } else { Some(f) });
                    }
                }
            }
        }
    }
    (ints.into_iter().collect(), fracs.into_iter().collect())
}

/// Numerals made from the literals of the sources: a literal as integer part or as fraction, its neighbours,
/// multiples and decimal shifts. At most 15 significant digits when there is a non-zero fraction.
fn dictionary_numerals() -> Vec<(Numeral, Ops)> {
    use crate::dict;
    let (new, all) = (dict::ints(true), dict::ints(false));
    let mut ints: std::collections::BTreeSet<u64> = std::collections::BTreeSet::new();
    for l in new.iter().chain(&all) {
        for x in [l.wrapping_sub(1), *l, l.wrapping_add(1), l.wrapping_mul(2), l.wrapping_mul(3), l.wrapping_mul(11)] {
            ints.insert(x);
        }
        for k in 1..=18u32 {
            ints.extend(l.checked_mul(10u64.pow(k)));
            ints.extend(l.checked_add(10u64.pow(k)));
        }
    }
    for a in new.iter().take(40) {
        for b in new.iter().chain([0, 1, 2, 3, 5, 11].iter()).take(46) {
            for k in 1..=20 {
                ints.insert(a.wrapping_mul(k).wrapping_add(*b));
            }
            ints.insert(a.wrapping_mul(*b));
        }
    }
    let mut out: Vec<Numeral> = ints.iter().map(|i| Numeral::int(*i)).collect();
    for l in new.iter().chain(&all) {
        for i in [0, 1, 2, 5, 11, 100, 1_000_000, *l] {
            for z in 0..3usize {
                for f in [l.saturating_sub(1), *l, l.saturating_add(1), l.saturating_mul(10)] {
                    out.push(Numeral { int: i.to_string(), frac: Some(format!("{}{}", "0".repeat(z), f)) });
                }
            }
        }
        for f in ["0", "1", "5", "00", "10", "01", "000000"] {
            out.push(Numeral { int: l.to_string(), frac: Some(f.to_string()) });
        }
        if *l > 0 && *l < 400 {
            for i in [0, 1, 2, 5, 11] {
                out.push(Numeral { int: i.to_string(), frac: Some("0".repeat(*l as usize)) });
                out.push(Numeral { int: i.to_string(), frac: Some("0".repeat(*l as usize + 1)) });
            }
        }
    }
    out.into_iter().filter_map(|n| n.ops().map(|o| (n, o))).filter(|(n, o)| o.f == 0 || n.int.len() + o.w <= 15).collect()
}

pub fn c01_c02(ctx: &Ctx, ordinal: bool) {
    let data = cldr(ordinal);
    let l = listed(&ctx.id);
    ctx.rule("complete sweeps of integers and of a fraction grid for every locale, all CLDR samples, and random (locale, numeral, sign, carrier) cases; non-trivial = the locale has at least one condition besides `other`");
    ctx.assume("CLDR 37 data frozen in /verif/data is the reference; conditions are evaluated by the harness's own UTS #35 evaluator");
    ctx.assume("outside long_numerals, non-zero fractions are limited to 15 significant digits, where a double separates neighbouring numerals");
    let ver = intl_pluralrules::CLDR_VERSION.to_string();
    if ver != data.version {
        ctx.violate("version", json!({"reported": ver}), format!("reports CLDR {}, data is {}", ver, data.version));
    }
    let locs = &data.locales;
    let judge_num = |locale: &str, num: &Numeral, o: &Ops, got: Result<Cat, String>, log: &mut Log| -> Result<(), String> {
        match got {
            Err(e) => Err(format!("locale {} number {}: selection failed: {}", locale, num.text(), e)),
            Ok(g) => match judge(&l, locale, &data.rules[locale], o, g) {
                Verdict::Fine => Ok(()),
                Verdict::Known => {
                    if log.known.is_empty() {
                        log.known.push((
                            finding_key(locale, ordinal),
                            format!("{} gives {:?}, CLDR says {:?}", num.text(), g, data.rules[locale].spec(o)),
                        ));
                    }
                    Ok(())
                }
                Verdict::Bad(e) => Err(e),
            },
        }
    };
    let obj = |locale: &str| object(locale, ordinal).ok_or_else(|| format!("locale {} cannot be created", locale));

    // 1. CLDR's own samples.
    let samples: Vec<(String, Cat, Numeral)> = locs
        .iter()
        .flat_map(|x| data.rules[x].samples.iter().map(move |(c, n)| (x.clone(), *c, n.clone())))
        .collect();
    ctx.sweep(
        "cldr_samples",
        samples.len() as u64,
        |k| json!({"locale": samples[k as usize].0, "category": samples[k as usize].1, "number": samples[k as usize].2.text()}),
        |k, log| {
            let (loc, c, n) = &samples[k as usize];
            let pr = obj(loc)?;
            let o = n.ops().expect("HARNESS: sample");
            log.nontrivial = !data.rules[loc].rules.is_empty();
            let s = data.rules[loc].spec(&o);
            if s != Some(*c) {
                return Err(format!("HARNESS: evaluator gives {:?} for sample {} of {} {:?}", s, n.text(), loc, c));
            }
            let got = select_via(&pr, n, false, Carrier::Str).unwrap();
            log.note = Some(format!("{:?}", got));
            judge_num(loc, n, &o, got, log)
        },
    );

    // 2. All integers in blocks, for every locale.
    let block = 10_000u64;
    let upto = ctx.n(1_110_000, 12_000_000);
    let nb = upto / block;
    ctx.sweep(
        "integers",
        nb * locs.len() as u64,
        |k| json!({"locale": locs[(k / nb) as usize], "integers": [(k % nb) * block, (k % nb) * block + block - 1]}),
        |k, log| {
            let loc = &locs[(k / nb) as usize];
            let pr = obj(loc)?;
            let rs = &data.rules[loc];
            log.extra_evals = block - 1;
            log.extra_nontrivial = if rs.rules.is_empty() { 0 } else { block };
            for x in (k % nb) * block..(k % nb + 1) * block {
                let o = Ops::integral(x);
                let (carrier, got) = match x % 4 {
                    0 => (Carrier::U64, pr.select(x)),
                    1 => (Carrier::I64, pr.select(x as i64)),
                    2 => (Carrier::U32, pr.select(x as u32)),
                    _ => (Carrier::I32, pr.select(x as i32)),
                };
                let got = got.map(cat).map_err(|e| e.to_string());
                if let Ok(g) = &got {
                    if rs.spec(&o) == Some(*g) {
                        continue;
                    }
                }
                let num = Numeral::int(x);
                let r = judge_num(loc, &num, &o, got, log);
                if r.is_err() {
                    log.minimal = Some((
                        "random".into(),
                        json!(CatCase { locale: loc.clone(), num, neg: false, carrier }),
                    ));
                    return r;
                }
            }
            Ok(())
        },
    );

    // 3. All numerals with up to three fraction digits and small integer part.
    let ints: u64 = ctx.n(131, 1_400);
    ctx.sweep(
        "fractions",
        ints * locs.len() as u64,
        |k| json!({"locale": locs[(k / ints) as usize], "integer part": k % ints, "fractions": "all of 1..=3 digits"}),
        |k, log| {
            let loc = &locs[(k / ints) as usize];
            let pr = obj(loc)?;
            let rs = &data.rules[loc];
            let i = k % ints;
            log.extra_evals = 1109;
            log.extra_nontrivial = if rs.rules.is_empty() { 0 } else { 1110 };
            for v in 1..=3usize {
                let p = 10u64.pow(v as u32);
                for f in 0..p {
                    let text = format!("{}.{:0w$}", i, f, w = v);
                    let (mut t, mut w) = (f, v);
                    while w > 0 && t % 10 == 0 {
                        t /= 10;
                        w -= 1;
                    }
                    let o = Ops { n: i as f64 + f as f64 / p as f64, i, v, w, f, t };
                    let got = pr.select(text.as_str()).map(cat).map_err(|e| e.to_string());
                    if let Ok(g) = &got {
                        if rs.spec(&o) == Some(*g) {
                            continue;
                        }
                    }
                    let num = o.numeral();
                    let r = judge_num(loc, &num, &o, got, log);
                    if r.is_err() {
                        log.minimal = Some((
                            "random".into(),
                            json!(CatCase { locale: loc.clone(), num, neg: false, carrier: Carrier::Str }),
                        ));
                        return r;
                    }
                }
            }
            Ok(())
        },
    );

    // 4. Every combination of integer parts and fractions next to the constants of the locale's own rules.
    ctx.sweep(
        "near_constants",
        locs.len() as u64,
        |k| json!({"locale": locs[k as usize], "numbers": "integer parts x fractions next to the constants of its rules"}),
        |k, log| {
            let loc = &locs[k as usize];
            let pr = obj(loc)?;
            let rs = &data.rules[loc];
            let (ints, fracs) = near_constants(rs);
            let mut best: Option<(Numeral, String)> = None;
            for i in &ints {
                for f in &fracs {
                    let num = Numeral { int: i.to_string(), frac: f.clone() };
                    let o = num.ops().expect("HARNESS: numeral");
                    if o.f != 0 && num.int.len() + o.w > 15 {
                        continue;
                    }
                    log.extra_evals += 1;
                    log.extra_nontrivial += !rs.rules.is_empty() as u64;
                    let got = pr.select(num.text().as_str()).map(cat).map_err(|e| e.to_string());
                    if matches!(&got, Ok(g) if rs.spec(&o) == Some(*g)) {
                        continue;
                    }
                    if let Err(e) = judge_num(loc, &num, &o, got, log) {
                        if best.as_ref().map_or(true, |(b, _)| num.text().len() < b.text().len()) {
                            best = Some((num, e));
                        }
                    }
                }
            }
            match best {
                None => Ok(()),
                Some((num, e)) => {
                    log.minimal = Some(("random".into(), json!(CatCase { locale: loc.clone(), num, neg: false, carrier: Carrier::Str })));
                    Err(e)
                }
            }
        },
    );

    // 5. More digits than a double separates.
    let rounding = known_file()["findings"].as_array().unwrap().iter().any(|f| f["property"] == ctx.id.as_str() && f["shape"] == "double-rounding");
    let judge_long = |c: &CatCase, log: &mut Log| -> Result<(), String> {
        let pr = obj(&c.locale)?;
        let Some(o) = c.num.ops() else {
            log.class("digits that do not fit the operand types");
            return Ok(());
        };
        let rs = &data.rules[&c.locale];
        log.nontrivial = !rs.rules.is_empty();
        if o.n.fract() == 0.0 && o.t != 0 {
            log.class("a fraction that a double rounds away");
        }
        let got = select_via(&pr, &c.num, c.neg, c.carrier).unwrap();
        log.note = Some(format!("{:?}", got));
        if let (true, Ok(g)) = (rounding, &got) {
            let none = HashSet::new();
            let set = l.0.get(&c.locale).unwrap_or(&none);
            if rs.spec(&o) != Some(*g) && rs.rounded(&o, &|c, r| set.contains(&(c.name().to_string(), r.text()))) == *g && !matches!(judge(&l, &c.locale, rs, &o, *g), Verdict::Fine | Verdict::Known) {
                log.known.push((
                    "relations of n compare the nearest double: digits beyond its precision are not seen".into(),
                    format!("{} {} gives {:?}, CLDR says {:?}", c.locale, c.num.text(), g, rs.spec(&o)),
                ));
                return Ok(());
            }
        }
        judge_num(&c.locale, &c.num, &o, got, log)
    };
    ctx.prop(
        "long_numerals",
        ctx.n(400_000, 8_000_000),
        || {
            let locs = locs.clone();
            let near: Vec<Vec<u64>> = locs.iter().map(|l| near_constants(&data.rules[l]).0).collect();
            let frac = prop_oneof![
                2 => (14usize..=21, 1u8..=9).prop_map(|(z, d)| format!("{}{}", "0".repeat(z), d)),
                1 => (15usize..=19).prop_map(|z| "9".repeat(z)),
                2 => frac_digits(19),
                1 => (frac_digits(3), 12usize..=16, frac_digits(2)).prop_map(|(a, z, b)| format!("{}{}{}", a, "0".repeat(z), b)),
                1 => (int_part(), 0usize..=3).prop_map(|(f, z)| format!("{}{}", "0".repeat(z), f)),
            ];
            (0..locs.len(), any::<prop::sample::Index>(), int_part(), any::<bool>(), frac, any::<bool>(), any::<bool>()).prop_map(
                move |(l, ix, any_int, from_near, f, neg, owned)| CatCase {
                    locale: locs[l].clone(),
                    num: Numeral { int: if from_near { *ix.get(&near[l]) } else { any_int }.to_string(), frac: Some(f) },
                    neg,
                    carrier: if owned { Carrier::Owned } else { Carrier::Str },
                },
            )
        },
        |c, log| judge_long(c, log),
    );
    // around every constant: the constant with a 1 in every later place, and as many nines below it as fit
    ctx.sweep(
        "near_doubles",
        locs.len() as u64,
        |k| json!({"locale": locs[k as usize], "numbers": "every constant c of its rules as c.0..01 and (c-1).9..9, with 1 to 19 fraction digits"}),
        |k, log| {
            let loc = &locs[k as usize];
            let mut cs: std::collections::BTreeSet<u64> = [0, 1, 2].into_iter().collect();
            for it in data.rules[loc].rules.iter().flat_map(|(_, c)| c.0.iter().flatten()).flat_map(|r| &r.items) {
                match it {
                    Item::V(v) => cs.extend([*v]),
                    Item::R(a, b) => cs.extend([*a, *b]),
                }
            }
            for c in cs {
                for d in 1..=19usize {
                    for (int, frac) in [(c, format!("{}1", "0".repeat(d - 1))), (c, format!("{}9", "0".repeat(d - 1))), (c.saturating_sub(1), "9".repeat(d)), (c, "0".repeat(d))] {
                        let case = CatCase { locale: loc.clone(), num: Numeral { int: int.to_string(), frac: Some(frac) }, neg: false, carrier: Carrier::Str };
                        log.extra_evals += 1;
                        let r = judge_long(&case, log);
                        log.extra_nontrivial += log.nontrivial as u64;
                        if let Err(e) = r {
                            log.minimal = Some(("long_numerals".into(), json!(case)));
                            return Err(e);
                        }
                    }
                }
            }
            log.classes.clear();
            Ok(())
        },
    );

    // Numbers made from the literals of the sources (only a choice of inputs).
    let nums = dictionary_numerals();
    ctx.sweep(
        "dictionary",
        locs.len() as u64,
        |k| json!({"locale": locs[k as usize], "numbers": "made from the literals in the sources"}),
        |k, log| {
            let loc = &locs[k as usize];
            let pr = obj(loc)?;
            let rs = &data.rules[loc];
            for (num, o) in &nums {
                log.extra_evals += 1;
                log.extra_nontrivial += !rs.rules.is_empty() as u64;
                let mut tried = vec![(Carrier::Str, pr.select(num.text().as_str()).map(cat).map_err(|e| e.to_string()))];
                if num.frac.is_none() {
                    tried.push((Carrier::U64, pr.select(o.i).map(cat).map_err(|e| e.to_string())));
                }
                for (carrier, got) in tried {
                    if matches!(&got, Ok(g) if rs.spec(o) == Some(*g)) {
                        continue;
                    }
                    if let Err(e) = judge_num(loc, num, o, got, log) {
                        log.minimal = Some(("random".into(), json!(CatCase { locale: loc.clone(), num: num.clone(), neg: false, carrier })));
                        return Err(e);
                    }
                }
            }
            Ok(())
        },
    );

    // 6. Random numerals of every size through every carrier.
    let nloc = locs.len();
    ctx.prop(
        "random",
        ctx.n(3_000_000, 40_000_000),
        || {
            let locs = locs.clone();
            (0..nloc, exact_numeral(), any::<bool>(), 0..CARRIERS.len()).prop_map(move |(l, num, neg, c)| CatCase {
                locale: locs[l].clone(),
                num,
                neg,
                carrier: CARRIERS[c],
            })
        },
        |c, log| {
            let pr = obj(&c.locale)?;
            let o = c.num.ops().expect("HARNESS: numeral");
            let (carrier, got) = match select_via(&pr, &c.num, c.neg, c.carrier) {
                Some(g) => (c.carrier, g),
                None => (Carrier::Str, select_via(&pr, &c.num, c.neg, Carrier::Str).unwrap()),
            };
            log.nontrivial = !data.rules[&c.locale].rules.is_empty();
            log.class(if carrier == Carrier::Str || carrier == Carrier::Owned { "text" } else { "typed" });
            if o.v > 0 {
                log.class("has fraction digits");
            }
            if o.v > 0 && o.f == 0 {
                log.class("fraction digits all zero");
            }
            if o.i >= 1 << 32 {
                log.class("integer part >= 2^32");
            }
            if c.neg {
                log.class("negative");
            }
            if matches!(&got, Ok(g) if *g != Cat::Other) {
                log.class("category other than `other`");
            }
            log.note = Some(format!("{:?}", got));
            judge_num(&c.locale, &c.num, &o, got, log)
        },
    );
    let _ = &data.version;
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TextCase {
    sign: String,
    num: Numeral,
}

fn show(o: &PluralOperands) -> String {
    format!("n={:?} i={} v={} w={} f={} t={}", o.n, o.i, o.v, o.w, o.f, o.t)
}

fn same(a: &PluralOperands, b: &Ops) -> bool {
    a.n == b.n && a.n.is_sign_positive() && a.i == b.i && a.v == b.v && a.w == b.w && a.f == b.f && a.t == b.t
}

fn text_case() -> BoxedStrategy<TextCase> {
    let sign = prop_oneof![4 => Just(""), 3 => Just("-"), 1 => Just("+")];
    let mut literals: Vec<Numeral> = crate::dict::strings(false).iter().filter_map(|s| plain_decimal(s)).collect();
    literals.push(Numeral::int(0));
    let num = prop_oneof![
        2 => exact_numeral(),
        // long fractions, also beyond 64 bits
        3 => (int_part(), frac_digits(19)).prop_map(|(i, f)| Numeral { int: i.to_string(), frac: Some(f) }),
        2 => (int_part(), frac_digits(45)).prop_map(|(i, f)| Numeral { int: i.to_string(), frac: Some(f) }),
        // fraction value at the edge of 64 bits, with leading and trailing zeros around it
        1 => (int_part(), int_part(), 0usize..=8, 0usize..=4).prop_map(|(i, f, lead, tail)| Numeral {
            int: i.to_string(), frac: Some(format!("{}{}{}", "0".repeat(lead), f, "0".repeat(tail))) }),
        // leading zeros in the integer part
        1 => (int_part(), 1usize..=25, prop::option::of(frac_digits(6))).prop_map(|(i, z, f)| Numeral {
            int: format!("{}{}", "0".repeat(z), i), frac: f }),
        // integer beyond 64 bits, without a fraction
        1 => (int_part(), any::<u64>(), 0usize..6).prop_map(|(a, b, z)| Numeral { int: format!("{}{}{}", "0".repeat(z), a, b), frac: None }),
        1 => (0u64..300).prop_map(|d| Numeral { int: ((1u128 << 64) - 20 + d as u128).to_string(), frac: None }),
        1 => "[1-9][0-9]{19,400}".prop_map(|int| Numeral { int, frac: None }),
        // integer part beyond 64 bits, with a fraction
        1 => (int_part(), any::<u64>(), frac_digits(4)).prop_map(|(a, b, f)| Numeral {
            int: format!("{}{}", a, b), frac: Some(f) }),
        // literals of the sources, as text and as numbers of digits
        1 => prop::sample::select(literals),
        1 => (crate::dict::len(400), crate::dict::len(400), 0u8..10, 0u8..10, any::<bool>()).prop_map(|(a, b, x, y, whole)| Numeral {
            int: ((b'0' + x) as char).to_string().repeat(a.max(1)), frac: if whole { None } else { Some(((b'0' + y) as char).to_string().repeat(b.max(1))) } }),
    ];
    (sign, num).prop_map(|(s, num)| TextCase { sign: s.to_string(), num }).boxed()
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("random decimal numerals with sign, leading zeros, long fractions and trailing zeros, as borrowed and owned text; complete sweep of 0..999 with every 0-3 digit fraction; non-trivial = has a fraction, or an integer part above 2^32, or leading zeros");
    let saturation = known_file()["findings"].as_array().unwrap().iter().any(|f| f["property"] == "C03" && f["shape"] == "integer-saturation");
    let check = |sign: &str, num: &Numeral| -> Result<String, String> {
        let text = format!("{}{}", sign, num.text());
        let expected = num.ops();
        for owned in [false, true] {
            let got = if owned {
                PluralOperands::try_from(text.clone())
            } else {
                PluralOperands::try_from(text.as_str())
            };
            match (&expected, got) {
                (Some(e), Ok(g)) if same(&g, e) => {}
                (Some(e), Ok(g)) => return Err(format!("{:?}: got {}, expected {:?}", text, show(&g), e)),
                (Some(_), Err(e)) => return Err(format!("{:?}: rejected: {}", text, e)),
                (None, Err(_)) => {}
                (None, Ok(g)) => {
                    let n = num.int.parse::<f64>().unwrap();
                    if !saturation || num.frac.is_some() || g != (PluralOperands { n, i: u64::MAX, v: 0, w: 0, f: 0, t: 0 }) {
                        return Err(format!("{:?}: digits do not fit but accepted as {}", text, show(&g)));
                    }
                    ctx.known("integers of 2^64 and above without a fraction are accepted with the integer part cut to 2^64-1", format!("{:?}", text));
                }
            }
        }
        Ok(format!("{} -> {:?}", text, expected))
    };
    ctx.sweep(
        "small",
        1000,
        |k| json!({"integer part": k, "fractions": "none and all of 1..=3 digits, with and without minus"}),
        |k, log| {
            let mut all = vec![None];
            for v in 1..=3usize {
                for f in 0..10u64.pow(v as u32) {
                    all.push(Some(format!("{:0w$}", f, w = v)));
                }
            }
            log.extra_evals = all.len() as u64 * 4 - 1;
            log.extra_nontrivial = all.len() as u64 * 2 - 2;
            for frac in all {
                let num = Numeral { int: k.to_string(), frac };
                for sign in ["", "-"] {
                    if let Err(e) = check(sign, &num) {
                        log.minimal = Some(("random".into(), json!(TextCase { sign: sign.into(), num })));
                        return Err(e);
                    }
                }
            }
            Ok(())
        },
    );
    // very many zeros, kept as counts: before the integer digits, after the point, and at the end
    ctx.prop(
        "zeros",
        ctx.n(60_000, 1_000_000),
        || {
            let z = || prop_oneof![12 => 0usize..4, 6 => 0usize..400, 1 => 65_500usize..65_600, 1 => 0usize..3_000, 1 => crate::dict::len(70_000)];
            (prop::sample::select(vec!["", "-", "+"]), z(), int_part(), z(), prop::option::weighted(0.7, 0u64..100_000), z())
                .prop_map(|(sign, a, int, b, f, c)| (sign.to_string(), a, int, b, f, c))
        },
        |(sign, a, int, b, f, c), log| {
            let digits = format!("{}{}{}", "0".repeat(*b), f.map_or(String::new(), |f| f.to_string()), "0".repeat(*c));
            let num = Numeral { int: format!("{}{}", "0".repeat(*a), int), frac: if digits.is_empty() { None } else { Some(digits) } };
            log.extra_evals = 1;
            log.nontrivial = a + b + c > 0;
            if a + b + c > 255 {
                log.class("more than 255 zeros");
            }
            if b + c > 65_535 {
                log.class("more than 65535 fraction digits");
            }
            check(sign, &num).map(|_| ()).map_err(|e| if e.len() > 500 { format!("{}{} zeros, {}, point, {} zeros, {:?}, {} zeros: {}", sign, a, int, b, f, c, e.chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect::<String>()) } else { e })
        },
    );
    // longer still: counts around every power of two up to 2^24
    ctx.prop(
        "huge",
        ctx.n(160, 3_000),
        || {
            let near = || prop_oneof![2 => Just(0usize), 3 => (16u32..=24, -2i64..=2).prop_map(|(k, d)| ((1i64 << k) + d) as usize), 1 => 0usize..3_000_000, 1 => 0usize..40];
            (prop::sample::select(vec!["", "-"]), near(), prop_oneof![Just(0u64), 1u64..30, any::<u64>()], 0usize..3, near(), prop::option::weighted(0.6, 0u64..100_000))
                .prop_map(|(sign, a, int, which, b, f)| (sign.to_string(), a, int, which, b, f))
        },
        |(sign, a, int, which, b, f), log| {
            let (before, after) = [(*b, 0), (0, *b), (b / 2, *b)][*which];
            let fd = f.map_or(String::new(), |f| f.to_string());
            let digits = format!("{}{}{}", "0".repeat(before), fd, "0".repeat(after));
            log.extra_evals = 1;
            log.nontrivial = a + digits.len() > 65_536;
            let num = Numeral { int: format!("{}{}", "0".repeat(*a), int), frac: if digits.is_empty() { None } else { Some(digits) } };
            check(sign, &num).map(|_| ()).map_err(|e| format!("{}{} zeros, {}, point, {} zeros, {:?}, {} zeros: {}", sign, a, int, before, f, after, e.chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect::<String>()))
        },
    );
    ctx.prop("random", ctx.n(1_500_000, 30_000_000), text_case, |c, log| {
        log.extra_evals = 1;
        let o = c.num.ops();
        log.nontrivial = c.num.frac.is_some() || c.num.int.len() > 10 || c.num.int.starts_with('0') && c.num.int.len() > 1;
        match &o {
            None => log.class("does not fit"),
            Some(o) => {
                if o.v > 15 {
                    log.class("more than 15 fraction digits");
                }
                if o.v != o.w {
                    log.class("trailing fraction zeros");
                }
                if o.i > 1 << 53 {
                    log.class("integer part above 2^53");
                }
                if o.f > 1 << 53 {
                    log.class("fraction value above 2^53");
                }
            }
        }
        if c.sign == "-" {
            log.class("negative");
        }
        let n = check(&c.sign, &c.num)?;
        log.note = Some(n);
        Ok(())
    });
}

// ---------------------------------------------------------------- C04

fn check_int_ops(what: &str, x: i128, got: Result<PluralOperands, String>) -> Result<(), String> {
    let a = x.unsigned_abs() as u64;
    let e = Ops::integral(a);
    match got {
        Ok(g) if same(&g, &e) => Ok(()),
        Ok(g) => Err(format!("{} {}: got {}, expected {:?}", what, x, show(&g), e)),
        Err(_) if x == i64::MIN as i128 => Ok(()),
        Err(m) => Err(format!("{} {}: rejected: {}", what, x, m)),
    }
}

fn int_all_types(x: i128) -> Result<u64, String> {
    let mut n = 0;
    macro_rules! each {
        ($($t:ident)*) => {$(
            if let Ok(y) = <$t>::try_from(x) {
                n += 1;
                check_int_ops(stringify!($t), x, PluralOperands::try_from(y).map_err(|e| format!("{:?}", e)))?;
            }
        )*};
    }
    each!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    Ok(n)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase {
    neg: bool,
    mag: u64,
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("every value of the 8 and 16 bit types (and of -70000..70000 in every wider type), then random values concentrated at powers of two and ten and type boundaries, each converted in every integer type that holds it; non-trivial = not in 0..=9");
    ctx.sweep(
        "small",
        140_001,
        |k| json!({"value": k as i64 - 70_000}),
        |k, log| {
            let x = k as i128 - 70_000;
            log.nontrivial = !(0..=9).contains(&x);
            log.extra_evals = int_all_types(x)? - 1;
            Ok(())
        },
    );
    ctx.prop(
        "random",
        ctx.n(6_000_000, 60_000_000),
        || {
            let mag = prop_oneof![
                2 => int_part(),
                1 => prop::sample::select(vec![127u64, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648,
                    4294967295, 4294967296, 9223372036854775807, 9223372036854775808, 18446744073709551615]),
                1 => any::<u64>(),
                1 => any::<u32>().prop_map(|x| x as u64),
            ];
            (any::<bool>(), mag).prop_map(|(neg, mag)| IntCase { neg, mag })
        },
        |c, log| {
            let x = if c.neg { -(c.mag as i128) } else { c.mag as i128 };
            log.nontrivial = !(0..=9).contains(&x);
            if x < 0 {
                log.class("negative");
            }
            if c.mag > u32::MAX as u64 {
                log.class("beyond 32 bits");
            }
            let n = int_all_types(x)?;
            log.extra_evals = n.saturating_sub(1);
            log.note = Some(format!("{} in {} types", x, n));
            Ok(())
        },
    );
    if ctx.thorough {
        // every i32/u32 value
        ctx.sweep(
            "all_32bit",
            1 << 16,
            |k| json!({"high half": k}),
            |k, log| {
                log.extra_evals = 2 * 65536 - 1;
                log.extra_nontrivial = 2 * 65536;
                for lo in 0..65536u32 {
                    let u = ((k as u32) << 16) | lo;
                    check_int_ops("u32", u as i128, Ok(PluralOperands::from(u)))?;
                    let s = u as i32;
                    check_int_ops("i32", s as i128, PluralOperands::try_from(s).map_err(|e| e.to_string()))?;
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C05

/// Shortest decimal of a finite float, from its scientific form.
fn shortest(sci: &str) -> Numeral {
    let (m, e) = sci.split_once('e').expect("HARNESS: sci");
    let e: i32 = e.parse().unwrap();
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    let digits = format!("{}{}", a, b);
    let digits = digits.trim_end_matches('0');
    let digits = if digits.is_empty() { "0" } else { digits };
    let point = 1 + e; // digits before the point
    let (int, frac) = if point <= 0 {
        ("0".to_string(), format!("{}{}", "0".repeat((-point) as usize), digits))
    } else if point as usize >= digits.len() {
        (format!("{}{}", digits, "0".repeat(point as usize - digits.len())), String::new())
    } else {
        (digits[..point as usize].to_string(), digits[point as usize..].to_string())
    };
    let frac = if frac.trim_end_matches('0').is_empty() { None } else { Some(frac) };
    Numeral { int, frac }
}

fn check_f64(x: f64, single: Option<f32>) -> Result<String, String> {
    let (num, got) = match single {
        None => (shortest(&format!("{:e}", x.abs())), PluralOperands::try_from(x)),
        Some(s) => (shortest(&format!("{:e}", s.abs())), PluralOperands::try_from(s)),
    };
    let kind = if single.is_some() { "f32" } else { "f64" };
    let g = got.map_err(|e| format!("{} {:?} ({}) rejected: {}", kind, x, num.text(), e))?;
    let e = num.ops();
    if let Some(e) = e {
        if same(&g, &e) {
            return Ok(format!("{} -> {}", num.text(), show(&g)));
        }
    }
    // Above 2^53 the exact integer value of the float is as good.
    if x.abs() >= 9007199254740992.0 && x.abs() < 18446744073709551616.0 {
        let ex = Ops::integral(x.abs() as u64);
        // the absolute value may be that of either reading
        if g.i == ex.i && g.v == 0 && g.w == 0 && g.f == 0 && g.t == 0 && (g.n == ex.n || Some(g.n) == e.map(|e| e.n)) {
            return Ok(format!("{} -> {}", num.text(), show(&g)));
        }
    }
    Err(format!("{} {:?}: got {}, expected {} {:?}", kind, x, show(&g), num.text(), e))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FloatCase {
    bits: u64,
    single: bool,
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("f64 and f32 from random bit patterns in range, from short decimals, and around powers of two and ten; non-trivial = not an integer below 10");
    ctx.assume("the shortest decimal of a float is taken from the standard library's scientific formatting");
    let limit = 18446744073709551616.0f64;
    ctx.prop(
        "random",
        ctx.n(8_000_000, 80_000_000),
        || {
            let f64s = prop_oneof![
                4 => exact_numeral().prop_map(|n| n.text().parse::<f64>().unwrap()),
                3 => (any::<bool>(), 0u64..(1 << 52), 1023u64 - 70..1023 + 64).prop_map(|(s, m, e)|
                    f64::from_bits(((s as u64) << 63) | (e << 52) | m)),
                1 => any::<u64>().prop_map(f64::from_bits),
                1 => (0i32..64, 0u64..5, any::<bool>()).prop_map(|(k, d, s)| {
                    let x = f64::from_bits(2f64.powi(k).to_bits().wrapping_add(d).wrapping_sub(2));
                    if s { -x } else { x } }),
                1 => (-20i32..20, 0u64..5).prop_map(|(k, d)|
                    f64::from_bits(format!("1e{}", k).parse::<f64>().unwrap().to_bits().wrapping_add(d).wrapping_sub(2))),
                1 => (int_part(), 0u32..=20).prop_map(|(a, k)| a as f64 / 10f64.powi(k as i32)),
                1 => crate::dict::float(),
                1 => prop::sample::select(vec![0.0, -0.0, f64::MIN_POSITIVE, 5e-324, 1e-7, 0.1, 0.30000000000000004, 1e15, 1e16, 1e17, 9007199254740993.0]),
            ];
            let f32s = prop_oneof![
                2 => any::<u32>().prop_map(f32::from_bits),
                2 => (any::<bool>(), 0u32..(1 << 23), 127u32 - 30..127 + 64).prop_map(|(s, m, e)|
                    f32::from_bits(((s as u32) << 31) | (e << 23) | m)),
                2 => exact_numeral().prop_map(|n| n.text().parse::<f32>().unwrap()),
                1 => (0u32..100_000, 0i32..6).prop_map(|(a, k)| a as f32 / 10f32.powi(k)),
                1 => crate::dict::float().prop_map(|x| x as f32),
            ];
            prop_oneof![
                3 => f64s.prop_map(|x| FloatCase { bits: x.to_bits(), single: false }),
                1 => f32s.prop_map(|x| FloatCase { bits: x.to_bits() as u64, single: true }),
            ]
        },
        |c, log| {
            let x = if c.single { f32::from_bits(c.bits as u32) as f64 } else { f64::from_bits(c.bits) };
            if !x.is_finite() || x.abs() >= limit {
                log.class("out of the domain");
                return Ok(());
            }
            log.nontrivial = !(x.fract() == 0.0 && x >= 0.0 && x < 10.0);
            if x.fract() != 0.0 {
                log.class("has a fraction");
            }
            if x < 0.0 {
                log.class("negative");
            }
            if x.abs() >= 9007199254740992.0 {
                log.class("above 2^53");
            }
            if x != 0.0 && x.abs() < 1e-6 {
                log.class("tiny");
            }
            log.class(if c.single { "f32" } else { "f64" });
            let s = if c.single { Some(f32::from_bits(c.bits as u32)) } else { None };
            let note = check_f64(x, s)?;
            log.note = Some(note);
            Ok(())
        },
    );
    // Every float that is k/100 or k/1000, and all short decimals.
    ctx.sweep(
        "hundredths",
        20_000,
        |k| json!({"k": k, "floats": "k/10^d, d in 0..=6, both signs, f64 and f32"}),
        |k, log| {
            log.extra_evals = 27;
            for d in 0..=6 {
                for s in [1.0, -1.0] {
                    let x = s * format!("{}e-{}", k, d).parse::<f64>().unwrap();
                    log.extra_nontrivial += if x.fract() != 0.0 { 2 } else { 0 };
                    let fail = |bits: u64, single: bool, log: &mut Log, e: String| {
                        log.minimal = Some(("random".into(), json!(FloatCase { bits, single })));
                        Err(e)
                    };
                    if let Err(e) = check_f64(x, None) {
                        return fail(x.to_bits(), false, log, e);
                    }
                    let y = x as f32;
                    if let Err(e) = check_f64(y as f64, Some(y)) {
                        return fail(y.to_bits() as u64, true, log, e);
                    }
                }
            }
            Ok(())
        },
    );
    if ctx.thorough {
        ctx.sweep(
            "all_f32",
            1 << 16,
            |k| json!({"high half of the bit pattern": k}),
            |k, log| {
                for lo in 0..65536u32 {
                    let y = f32::from_bits(((k as u32) << 16) | lo);
                    if !y.is_finite() || (y as f64).abs() >= limit {
                        continue;
                    }
                    log.extra_evals += 1;
                    log.extra_nontrivial += 1;
                    if let Err(e) = check_f64(y as f64, Some(y)) {
                        log.minimal = Some(("random".into(), json!(FloatCase { bits: y.to_bits() as u64, single: true })));
                        return Err(e);
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SameCase {
    locale: String,
    ordinal: bool,
    num: Numeral,
}

/// (ordinal, locale) pairs the library itself advertises; falls back on nothing else.
fn advertised() -> Vec<(bool, String)> {
    let mut v: Vec<(bool, String)> = vec![];
    for ord in [false, true] {
        for l in PluralRules::get_locales(prt(ord)) {
            v.push((ord, l.to_string()));
        }
    }
    v
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("random number in a random locale and type, selected through all 20 carriers that can hold it, with both signs, all compared; numbers taken from random floats and from around the rule constants in every locale and type; all integers to 300 in every locale and type; non-trivial = at least four carriers compared and the locale has more than one category");
    let adv = advertised();
    let multi: HashSet<(bool, String)> = [false, true]
        .iter()
        .flat_map(|o| cldr(*o).rules.into_iter().filter(|(_, r)| !r.rules.is_empty()).map(move |(l, _)| (*o, l)))
        .collect();
    let compare = |c: &SameCase, log: &mut Log| -> Result<(), String> {
        let pr = match object(&c.locale, c.ordinal) {
            Some(p) => p,
            None => return Ok(()),
        };
        let mut first: Option<(String, Result<Cat, String>)> = None;
        let mut n = 0u64;
        for neg in [false, true] {
            for k in CARRIERS {
                if let Some(r) = select_via(&pr, &c.num, neg, k) {
                    n += 1;
                    let name = format!("{}{} as {:?}", if neg { "-" } else { "" }, c.num.text(), k);
                    match &first {
                        None => first = Some((name, r)),
                        Some((n0, r0)) => {
                            if *r0 != r {
                                return Err(format!(
                                    "locale {} {}: {} gives {:?} but {} gives {:?}",
                                    c.locale,
                                    if c.ordinal { "ordinal" } else { "cardinal" },
                                    n0,
                                    r0,
                                    name,
                                    r
                                ));
                            }
                        }
                    }
                }
            }
        }
        log.extra_evals = n - 1;
        log.nontrivial = n >= 4 && multi.contains(&(c.ordinal, c.locale.clone()));
        if c.num.frac.is_some() {
            log.class("has fraction digits");
        }
        if n >= 20 {
            log.class("20 or more carriers");
        }
        log.note = first.map(|(_, r)| format!("{:?} through {} carriers", r, n));
        Ok(())
    };
    ctx.sweep(
        "small_integers",
        adv.len() as u64,
        |k| json!({"ordinal": adv[k as usize].0, "locale": adv[k as usize].1, "numbers": "0..=300"}),
        |k, log| {
            let (ordinal, locale) = adv[k as usize].clone();
            let (mut ev, mut nt) = (0, 0);
            for i in 0..=300u64 {
                let c = SameCase { locale: locale.clone(), ordinal, num: Numeral::int(i) };
                let mut l = Log::default();
                if let Err(e) = compare(&c, &mut l) {
                    log.minimal = Some(("random".into(), json!(c)));
                    return Err(e);
                }
                ev += l.extra_evals + 1;
                nt += l.nontrivial as u64;
            }
            log.extra_evals = ev - 1;
            log.extra_nontrivial = nt;
            Ok(())
        },
    );
    ctx.prop(
        "random",
        ctx.n(400_000, 8_000_000),
        || {
            let adv = adv.clone();
            (0..adv.len(), exact_numeral()).prop_map(move |(k, num)| SameCase {
                ordinal: adv[k].0,
                locale: adv[k].1.clone(),
                num,
            })
        },
        |c, log| compare(c, log),
    );
    let objects: Vec<(bool, String, PluralRules)> =
        adv.iter().filter_map(|(o, l)| object(l, *o).map(|p| (*o, l.clone(), PluralRules::clone(&p)))).collect();
    ctx.prop(
        "every_locale",
        ctx.n(30_000, 600_000),
        same_number,
        |num, log| {
            // the carriers are compared by text once; the objects then see every carrier
            let (mut ev, mut nt) = (0, 0);
            for (ordinal, locale, pr) in &objects {
                let mut first: Option<(bool, Carrier, Result<Cat, String>)> = None;
                let mut n = 0;
                for neg in [false, true] {
                    for k in CARRIERS {
                        if let Some(r) = select_via(pr, num, neg, k) {
                            n += 1;
                            match &first {
                                None => first = Some((neg, k, r)),
                                Some((_, k0, r0)) => {
                                    if *r0 != r {
                                        log.minimal = Some(("random".into(), json!(SameCase { locale: locale.clone(), ordinal: *ordinal, num: num.clone() })));
                                        return Err(format!(
                                            "locale {} {}: {} as {:?} gives {:?} but {}{} as {:?} gives {:?}",
                                            locale,
                                            if *ordinal { "ordinal" } else { "cardinal" },
                                            num.text(),
                                            k0,
                                            r0,
                                            if neg { "-" } else { "" },
                                            num.text(),
                                            k,
                                            r
                                        ));
                                    }
                                }
                            }
                        }
                    }
                }
                ev += n;
                nt += (n >= 4 && multi.contains(&(*ordinal, locale.clone()))) as u64;
            }
            log.extra_evals = ev - 1;
            log.extra_nontrivial = nt;
            if num.frac.is_some() {
                log.class("in every locale, has fraction digits");
            }
            if select_via(&objects[0].2, num, false, Carrier::F64).is_some() {
                log.class("in every locale, held by f64");
            }
            if select_via(&objects[0].2, num, false, Carrier::F32).is_some() {
                log.class("in every locale, held by f32");
            }
            Ok(())
        },
    );
}

/// A number for C06: any exact numeral, the shortest decimal of a float, or one next to a rule constant.
fn same_number() -> BoxedStrategy<Numeral> {
    let of = |t: String| match t.split_once('.') {
        Some((i, f)) => Numeral { int: i.into(), frac: Some(f.into()) },
        None => Numeral { int: t, frac: None },
    };
    let near = (0u32..=19, 1u64..=9, 0u64..=40, prop::option::of("[0-9]{1,4}")).prop_map(|(k, m, d, frac)| Numeral {
        int: 10u64.saturating_pow(k).saturating_mul(m).saturating_add(d).saturating_sub(20).to_string(),
        frac: frac.filter(|_| k < 10),
    });
    prop_oneof![
        3 => exact_numeral(),
        2 => near,
        2 => (any::<u64>(), 0i32..64, 0u32..12).prop_map(move |(m, e, cut)| {
            let x = (m >> 11) as f64 / 2f64.powi(53) * 2f64.powi(e - cut as i32);
            of(if x < 1e15 { x.to_string() } else { (x as u64 >> 14).to_string() })
        }),
        2 => (any::<u32>(), 0i32..40, 0u32..12).prop_map(move |(m, e, cut)| {
            let x = (m >> 8) as f32 / 2f32.powi(24) * 2f32.powi(e - cut as i32);
            of(if x < 1e6 { x.to_string() } else { (x as u64).to_string() })
        }),
        1 => (0u64..(1 << 24), 0u32..40).prop_map(|(m, k)| Numeral::int(m << k)),
    ]
    .prop_filter("fits", |n: &Numeral| n.ops().is_some())
    .boxed()
}


// ---------------------------------------------------------------- C07

/// Text that is certainly not a number: neither a decimal, nor scientific notation, nor inf/nan.
fn surely_not_a_number(s: &str) -> bool {
    let b = s.as_bytes();
    let mut k = 0;
    let mut minus = 0;
    while k < b.len() && k < 2 && (b[k] == b'+' || b[k] == b'-') {
        minus += (b[k] == b'-') as u32;
        k += 1;
    }
    if minus == 2 || k == 2 {
        return true;
    }
    let rest = s[k..].to_ascii_lowercase();
    if rest == "inf" || rest == "infinity" || rest == "nan" {
        return false;
    }
    let (mant, exp) = match rest.split_once('e') {
        Some((m, e)) => (m.to_string(), Some(e.to_string())),
        None => (rest, None),
    };
    let mant_ok = mant.bytes().filter(|c| *c == b'.').count() <= 1
        && mant.bytes().all(|c| c.is_ascii_digit() || c == b'.')
        && mant.bytes().any(|c| c.is_ascii_digit());
    let exp_ok = match exp {
        None => true,
        Some(e) => {
            let e = e.strip_prefix('+').or_else(|| e.strip_prefix('-')).unwrap_or(&e).to_string();
            !e.is_empty() && e.bytes().all(|c| c.is_ascii_digit())
        }
    };
    !(mant_ok && exp_ok)
}

fn plain_decimal(s: &str) -> Option<Numeral> {
    let t = s.strip_prefix('-').or_else(|| s.strip_prefix('+')).unwrap_or(s);
    let (a, b) = match t.split_once('.') {
        Some((a, b)) => (a, Some(b)),
        None => (t, None),
    };
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
    if !digits(a) || !b.map_or(true, digits) {
        return None;
    }
    Some(Numeral { int: a.to_string(), frac: b.map(|x| x.to_string()) })
}

/// A user type of N bytes whose conversion fails or not.
struct Sized<const N: usize>(bool, [u8; N]);
impl<const N: usize> TryFrom<Sized<N>> for PluralOperands {
    type Error = String;
    fn try_from(f: Sized<N>) -> Result<PluralOperands, String> {
        if f.0 {
            Err(format!("fails {}", f.1.len()))
        } else {
            Ok(operands(&Ops::integral(1)))
        }
    }
}
struct Never;
impl TryFrom<Never> for PluralOperands {
    type Error = ();
    fn try_from(_: Never) -> Result<PluralOperands, ()> {
        Err(())
    }
}
struct ByRef(bool);
impl<'a> TryFrom<&'a ByRef> for PluralOperands {
    type Error = Box<dyn std::error::Error>;
    fn try_from(f: &'a ByRef) -> Result<PluralOperands, Self::Error> {
        if f.0 {
            Err("fails".into())
        } else {
            Ok(operands(&Ops::integral(1)))
        }
    }
}
struct Failing(bool);
#[derive(Debug)]
struct MyError;
impl TryFrom<Failing> for PluralOperands {
    type Error = MyError;
    fn try_from(f: Failing) -> Result<PluralOperands, MyError> {
        if f.0 {
            Err(MyError)
        } else {
            Ok(operands(&Ops::integral(1)))
        }
    }
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("random Unicode strings, random strings over the characters numbers are made of, numerals with random edits, texts of up to 200,000 characters, arbitrary operand records and all float bit patterns; non-trivial = the string is not empty and contains a digit, sign, point, exponent or inf/nan letter");
    ctx.assume("scientific notation, inf and nan, '.5' and '5.' may be accepted or rejected; only absence of panics and a non-negative absolute value are required of them");
    let prs: Vec<(bool, String)> = vec![
        (false, "en".into()),
        (false, "ar".into()),
        (false, "lv".into()),
        (true, "en".into()),
        (true, "uk".into()),
    ];
    let judge_text = |s: &str, log: &mut Log| -> Result<(), String> {
        let a = guard(|| PluralOperands::try_from(s)).map_err(|p| format!("{:?}: panic in conversion: {}", s, p))?;
        let b = guard(|| PluralOperands::try_from(s.to_string()))
            .map_err(|p| format!("{:?}: panic in owned conversion: {}", s, p))?;
        if a.is_ok() != b.is_ok() {
            return Err(format!("{:?}: borrowed {:?} but owned {:?}", s, a, b));
        }
        if let Ok(o) = &a {
            if o.n < 0.0 {
                return Err(format!("{:?}: accepted with negative absolute value: {}", s, show(o)));
            }
            // 2^64 and above: C03's finding; not a number and infinite: left open
            let room = o.n * f64::EPSILON;
            if o.n < 18446744073709551616.0 && !(o.i as f64 - room <= o.n && o.n <= o.i as f64 + 1.0 + room) {
                return Err(format!("{:?}: accepted with an integer part that is not the value's: {}", s, show(o)));
            }
        }
        if surely_not_a_number(s) {
            log.class("not a number");
            if let Ok(o) = &a {
                return Err(format!("{:?} is not a number but is accepted as {}", s, show(o)));
            }
        }
        if let Some(num) = plain_decimal(s) {
            if num.ops().is_some() {
                log.class("well-formed decimal that fits");
                if let Err(e) = &a {
                    return Err(format!("{:?} is a decimal numeral but is rejected: {}", s, e));
                }
            }
        }
        log.class(if a.is_ok() { "accepted" } else { "rejected" });
        for (ord, loc) in &prs {
            if let Some(pr) = object(loc, *ord) {
                let r = guard(|| pr.select(s)).map_err(|p| format!("{:?}: panic in selection: {}", s, p))?;
                if r.is_ok() != a.is_ok() {
                    return Err(format!("{:?}: conversion {:?} but selection in {} {:?}", s, a, loc, r));
                }
                log.extra_evals += 1;
            }
        }
        log.extra_evals += 1;
        log.nontrivial = s.bytes().any(|c| b"0123456789+-.eEinfNaA".contains(&c));
        log.note = Some(format!("{:?}", a));
        Ok(())
    };
    // every string of up to five characters over the number alphabet
    let alpha: Vec<char> = "0159+-.eE_ ".chars().collect();
    let base = alpha.len() as u64;
    let maxlen = ctx.n(5, 6) as u32;
    let total: u64 = (0..=maxlen).map(|l| base.pow(l)).sum();
    let nth = |mut k: u64| -> String {
        let mut len = 0;
        while k >= base.pow(len) {
            k -= base.pow(len);
            len += 1;
        }
        (0..len)
            .map(|_| {
                let c = alpha[(k % base) as usize];
                k /= base;
                c
            })
            .collect()
    };
    ctx.sweep("short_strings", total, |k| json!(nth(k)), |k, log| judge_text(&nth(k), log));
    // every single-character edit of a few numerals
    let mut chars: Vec<char> = (0u8..128).map(|c| c as char).collect();
    chars.extend("\u{a0}\u{2003}\u{3000}\u{200b}\u{200e}\u{feff}\u{85}−‐‑–—﹣－＋．，٫٬٣५１½²Ⅷé\u{10ffff}".chars());
    let edited = ["5", "-5", "+5", "0", "12", "1.5", "-1.50", "0.0", "100.001", "-", "", "18446744073709551615", "0.18446744073709551615", "1e3", "inf", "nan"];
    let mut edits: Vec<(usize, usize)> = vec![];
    for (b, t) in edited.iter().enumerate() {
        for at in 0..=t.len() {
            edits.push((b, at));
        }
    }
    let edit = |k: u64| -> String {
        let (b, at) = edits[(k / 2 / chars.len() as u64) as usize];
        let c = chars[(k / 2 % chars.len() as u64) as usize];
        let mut t: Vec<char> = edited[b].chars().collect();
        if k % 2 == 1 && at < t.len() {
            t[at] = c;
        } else {
            t.insert(at, c);
        }
        t.into_iter().collect()
    };
    ctx.sweep("one_edit", 2 * (edits.len() * chars.len()) as u64, |k| json!(edit(k)), |k, log| {
        let s = edit(k);
        let r = judge_text(&s, log);
        if r.is_err() {
            log.minimal = Some(("strings".into(), json!(s)));
        }
        r
    });
    ctx.prop(
        "strings",
        ctx.n(2_000_000, 30_000_000),
        || {
            prop_oneof![
                2 => "\\PC{0,12}",
                1 => any::<String>(),
                3 => "[-+]{0,3}[0-9.eE+_ -]{0,10}",
                2 => "[-+]{0,2}[0-9]{0,25}(\\.[0-9]{0,25})?([eE][-+]?[0-9]{0,4})?",
                1 => "[-+]?(?i)(inf|infinity|nan|infin|na)[0-9.]{0,2}",
                2 => (text_case(), any::<prop::sample::Index>(), any::<char>(), 0u8..4).prop_map(|(c, ix, ch, how)| {
                    let mut t: Vec<char> = format!("{}{}", c.sign, c.num.text()).chars().collect();
                    let k = ix.index(t.len());
                    match how { 0 => t.insert(k, ch), 1 => t[k] = ch, 2 => { t.remove(k); }, _ => { let d = t[k]; t.insert(k, d) } }
                    t.into_iter().collect()
                }),
                1 => (text_case(), prop::sample::select(vec!["٣", "३", "，", "−", "\u{0}", "\u{200e}", " ", "\n", "'", ",", "½", "Ⅷ"]), any::<bool>()).prop_map(|(c, x, front)| {
                    let t = format!("{}{}", c.sign, c.num.text());
                    if front { format!("{}{}", x, t) } else { format!("{}{}", t, x) }
                }),
                1 => (prop::sample::select(vec!["", "-", "+"]), crate::dict::string(), text_case(), 0u8..4).prop_map(|(sign, lit, c, how)| match how {
                    0 => format!("{}{}", sign, lit),
                    1 => format!("{}{}{}", c.sign, lit, c.num.text()),
                    2 => format!("{}{}{}", c.sign, c.num.text(), lit),
                    _ => format!("{}{}{}", c.num.int, lit, c.num.frac.unwrap_or_default()),
                }),
            ]
        },
        |s, log| judge_text(s, log),
    );
    ctx.prop(
        "floats",
        ctx.n(400_000, 8_000_000),
        || prop_oneof![
            4 => any::<u64>(),
            1 => crate::dict::float().prop_map(f64::to_bits),
            1 => crate::dict::float().prop_map(|x| (x as f32).to_bits() as u64),
            1 => prop::sample::select(vec![f64::NAN.to_bits(), f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), f64::MAX.to_bits(), f64::MIN.to_bits(), 1, 0x8000000000000000u64])
        ],
        |bits, log| {
            let x = f64::from_bits(*bits);
            let y = f32::from_bits(*bits as u32);
            let a = guard(|| PluralOperands::try_from(x)).map_err(|p| format!("{:?}: panic: {}", x, p))?;
            let b = guard(|| PluralOperands::try_from(y)).map_err(|p| format!("{:?}f32: panic: {}", y, p))?;
            for (what, r) in [("f64", &a), ("f32", &b)] {
                if let Ok(o) = r {
                    if o.n < 0.0 {
                        return Err(format!("{} of bits {:#x}: negative absolute value {}", what, bits, show(o)));
                    }
                }
            }
            for (ord, loc) in &prs {
                if let Some(pr) = object(loc, *ord) {
                    let r = guard(|| pr.select(x)).map_err(|p| format!("{:?}: panic in selection: {}", x, p))?;
                    if r.is_ok() != a.is_ok() {
                        return Err(format!("{:?}: conversion {:?} but selection {:?}", x, a, r));
                    }
                }
            }
            log.nontrivial = true;
            log.extra_evals = 6;
            Ok(())
        },
    );
    // long texts, kept as the numbers that describe them
    ctx.prop(
        "long_strings",
        ctx.n(4_000, 80_000),
        || {
            let len = || prop_oneof![2 => 0usize..60, 2 => 0usize..5_000, 1 => 0usize..200_000, 1 => crate::dict::len(200_000)];
            (prop::sample::select(vec!["", "-", "+", "--", "-+"]), len(), prop::sample::select("019".chars().collect::<Vec<_>>()),
             prop::option::weighted(0.7, (len(), prop::sample::select("019".chars().collect::<Vec<_>>()))),
             prop_oneof![4 => Just(String::new()), 1 => any::<char>().prop_map(|c| c.to_string()), 1 => "[0-9]{1,5}", 1 => (1usize..5000, any::<char>()).prop_map(|(n, c)| c.to_string().repeat(n))])
                .prop_map(|(s, n, d, frac, tail)| (s.to_string(), n, d, frac, tail))
        },
        |(sign, n, d, frac, tail), log| {
            let mut t = sign.clone();
            t.extend(std::iter::repeat(*d).take(*n));
            if let Some((k, c)) = frac {
                t.push('.');
                t.extend(std::iter::repeat(*c).take(*k));
            }
            t.push_str(tail);
            let r = judge_text(&t, log).map_err(|e| if e.len() > 500 { format!("{} [...]", e.chars().take(300).collect::<String>()) } else { e });
            log.note = Some(format!("{} characters", t.len()));
            r
        },
    );
    // operand records, consistent or not: selection succeeds (the conversion is the identity)
    let adv = advertised();
    ctx.prop(
        "operand_records",
        ctx.n(400_000, 8_000_000),
        || {
            let u = || prop_oneof![3 => 0u64..200, 1 => any::<u64>(), 1 => Just(u64::MAX), 1 => int_part()];
            let n = prop_oneof![3 => (0u32..2000).prop_map(|x| (x as f64 / 10.0).to_bits()), 2 => any::<u64>(), 1 => prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, -1.0, f64::MAX, f64::MIN, 1e300, -5.5, 18446744073709551616.0]).prop_map(f64::to_bits)];
            (0usize..adv.len().max(1), n, u(), u(), u(), u(), u())
        },
        |(k, n, i, v, w, f, t), log| {
            if adv.is_empty() {
                return Ok(());
            }
            let (ord, loc) = &adv[*k % adv.len()];
            if let Some(pr) = object(loc, *ord) {
                let rec = || PluralOperands { n: f64::from_bits(*n), i: *i, v: *v as usize, w: *w as usize, f: *f, t: *t };
                let what = show(&rec());
                let r = guard(|| pr.select(rec())).map_err(|p| format!("{} {}: panic: {}", loc, what, p))?;
                if r.is_err() {
                    return Err(format!("{} {}: selection fails", loc, what));
                }
                log.nontrivial = true;
                log.note = Some(format!("{:?}", r));
            }
            Ok(())
        },
    );
    // user conversions: selection fails iff the conversion does, in every locale
    ctx.sweep(
        "user_conversion",
        adv.len() as u64 * 2,
        |k| json!({"locale": adv[(k / 2) as usize].1, "ordinal": adv[(k / 2) as usize].0, "conversion fails": k % 2 == 1}),
        |k, log| {
            let (ord, loc) = &adv[(k / 2) as usize];
            log.nontrivial = true;
            if let Some(pr) = object(loc, *ord) {
                let fails = k % 2 == 1;
                let byref = ByRef(fails);
                let rs = guard(|| {
                    vec![
                        pr.select(Failing(fails)),
                        pr.select(Sized::<0>(fails, [0; 0])),
                        pr.select(Sized::<7>(fails, [0; 7])),
                        pr.select(Sized::<40>(fails, [0; 40])),
                        pr.select(Sized::<300>(fails, [0; 300])),
                        pr.select(Sized::<5000>(fails, [0; 5000])),
                        pr.select(&byref),
                        if fails { pr.select(Never) } else { pr.select(1) },
                    ]
                })
                .map_err(|p| format!("panic: {}", p))?;
                log.extra_evals = rs.len() as u64;
                if rs.iter().any(|r| r.is_ok() == fails) || rs.iter().any(|r| *r != rs[0]) {
                    return Err(format!("locale {}: user conversion fails={} but selection gives {:?}", loc, fails, rs));
                }
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LocaleCase {
    tag: String,
    ordinal: bool,
}

/// A user's own type that converts to a language identifier.
struct MyLocale(LanguageIdentifier);
impl From<MyLocale> for LanguageIdentifier {
    fn from(m: MyLocale) -> LanguageIdentifier {
        m.0
    }
}

/// The script codes of ISO 15924 that locale data use.
const SCRIPTS: &str = "Adlm Afak Aghb Ahom Arab Aran Armi Armn Avst Bali Bamu Bass Batk Beng Bhks Blis Bopo Brah Brai Bugi \
Buhd Cakm Cans Cari Cham Cher Chrs Cirt Copt Cprt Cyrl Cyrs Deva Diak Dogr Dsrt Dupl Egyd Egyh Egyp Elba Elym Ethi Geok \
Geor Glag Gong Gonm Goth Gran Grek Gujr Guru Hanb Hang Hani Hano Hans Hant Hatr Hebr Hira Hluw Hmng Hmnp Hrkt Hung Inds \
Ital Jamo Java Jpan Jurc Kali Kana Khar Khmr Khoj Kits Knda Kore Kpel Kthi Lana Laoo Latf Latg Latn Leke Lepc Limb Lina \
Linb Lisu Loma Lyci Lydi Mahj Maka Mand Mani Marc Maya Medf Mend Merc Mero Mlym Modi Mong Moon Mroo Mtei Mult Mymr Nand \
Narb Nbat Newa Nkgb Nkoo Nshu Ogam Olck Orkh Orya Osge Osma Palm Pauc Perm Phag Phli Phlp Phlv Phnx Piqd Plrd Prti Qaaa \
Qaag Qabx Rjng Rohg Roro Runr Samr Sara Sarb Saur Sgnw Shaw Shrd Shui Sidd Sind Sinh Sogd Sogo Sora Soyo Sund Sylo Syrc \
Syre Syrj Syrn Tagb Takr Tale Talu Taml Tang Tavt Telu Teng Tfng Tglg Thaa Thai Tibt Tirh Ugar Vaii Visp Wara Wcho Wole \
Xpeo Xsux Yezi Yiii Zanb Zinh Zmth Zsye Zsym Zxxx Zyyy Zzzz";

/// The assigned regions of ISO 3166-1, those CLDR adds, and the UN areas.
const REGIONS: &str = "AC AD AE AF AG AI AL AM AN AO AQ AR AS AT AU AW AX AZ BA BB BD BE BF BG BH BI BJ BL BM BN BO BQ BR BS BT BV BW BY \
BZ CA CC CD CF CG CH CI CK CL CM CN CO CP CR CS CU CV CW CX CY CZ DD DE DG DJ DK DM DO DZ EA EC EE EG EH ER ES ET EU EZ FI FJ FK FM \
FO FR FX GA GB GD GE GF GG GH GI GL GM GN GP GQ GR GS GT GU GW GY HK HM HN HR HT HU IC ID IE IL IM IN IO IQ IR IS IT JE JM JO JP KE \
KG KH KI KM KN KP KR KW KY KZ LA LB LC LI LK LR LS LT LU LV LY MA MC MD ME MF MG MH MK ML MM MN MO MP MQ MR MS MT MU MV MW MX MY MZ \
NA NC NE NF NG NI NL NO NP NR NT NU NZ OM PA PE PF PG PH PK PL PM PN PR PS PT PW PY QA QO RE RO RS RU RW SA SB SC SD SE SG SH SI SJ \
SK SL SM SN SO SR SS ST SU SV SX SY SZ TA TC TD TF TG TH TJ TK TL TM TN TO TP TR TT TV TW TZ UA UG UK UM UN US UY UZ VA VC VE VG VI VN \
VU WF WS XA XB XK YD YE YT YU ZA ZM ZR ZW ZZ 001 002 003 005 009 011 013 014 015 017 018 019 021 029 030 034 035 039 053 054 057 061 \
142 143 145 150 151 154 155 202 419";

/// Registered variants.
const VARIANTS: &str = "1606nict 1694acad 1901 1959acad 1994 1996 abl1943 akuapem alalc97 aluku ao1990 aranes arevela arevmda asante auvern \
baku1926 balanka barla basiceng bauddha biscayan biske bohoric boont bornholm cisaup colb1945 cornu creiss dajnko ekavsk emodeng fonipa \
fonkirsh fonnapa fonupa fonxsamp gascon grclass grital grmistr hepburn heploc hognorsk hsistemo ijekavsk itihasa ivanchov jauer jyutping \
kkcor kociewie kscor laukika lemosin lengadoc lipaw luna1918 metelko monoton ndyuka nedis newfound nicard njiva nulik osojs oxendict \
pahawh2 pahawh3 pahawh4 pamaka peano petr1708 pinyin polyton posix provenc puter rigik rozaj rumgr scotland scouse simple solba sotav \
spanglis surmiran sursilv sutsilv tarask tongyong tunumiir uccor ucrcor ulster unifon vaidika valencia vallader vecdruka vivaraup \
wadegile xsistemo";

pub fn c08(ctx: &Ctx) {
    ctx.rule("every CLDR locale in several spellings, every 2- and 3-letter language, every advertised language with every region (two letters, three digits) with every ISO 15924 script, with both, and with every registered variant, every 2- and 3-letter language with every assigned region or script, and random identifiers built from advertised and random languages with scripts, regions and variants, for both types; non-trivial = the language is advertised for some type");
    let data = [cldr(false), cldr(true)];
    let canon: Vec<HashSet<String>> = data
        .iter()
        .map(|d| {
            d.locales.iter().map(|l| l.parse::<LanguageIdentifier>().expect("HARNESS: tag").to_string()).collect()
        })
        .collect();
    let langs: HashSet<String> =
        canon.iter().flatten().map(|l| l.split('-').next().unwrap().to_string()).collect();
    if ctx.replay.is_none() || ctx.replay.as_ref().unwrap().0 == "listing" {
        for ord in [false, true] {
            let name = if ord { "ordinal" } else { "cardinal" };
            let got: Vec<String> = match guard(|| PluralRules::get_locales(prt(ord))) {
                Ok(v) => v.iter().map(|l| l.to_string()).collect(),
                Err(p) => {
                    ctx.violate("listing", json!({"type": name}), format!("panic: {}", p));
                    return;
                }
            };
            let set: HashSet<String> = got.iter().cloned().collect();
            let mut missing: Vec<&String> = canon[ord as usize].difference(&set).collect();
            let mut extra: Vec<&String> = set.difference(&canon[ord as usize]).collect();
            missing.sort();
            extra.sort();
            if !missing.is_empty() || !extra.is_empty() || set.len() != got.len() {
                ctx.violate(
                    "listing",
                    json!({"type": name, "missing": missing, "extra": extra, "duplicates": got.len() - set.len()}),
                    format!("advertised {} locales differ from CLDR: missing {:?}, extra {:?}, {} duplicates", name, missing, extra, got.len() - set.len()),
                );
            }
        }
    }
    let check = |tag: &str, ordinal: bool, log: &mut Log| -> Result<(), String> {
        let id: LanguageIdentifier = match tag.parse() {
            Ok(i) => i,
            Err(_) => {
                log.class("not a language identifier");
                return Ok(());
            }
        };
        let listed = canon[ordinal as usize].contains(&id.to_string());
        log.nontrivial = langs.contains(id.language.as_str());
        log.class(if listed { "advertised" } else { "not advertised" });
        let r = guard(|| PluralRules::create(id.clone(), prt(ordinal))).map_err(|p| format!("{}: panic: {}", tag, p))?;
        let mine = guard(|| PluralRules::create(MyLocale(id.clone()), prt(ordinal))).map_err(|p| format!("{}: panic: {}", tag, p))?;
        if r.is_ok() != mine.is_ok() {
            return Err(format!("{} ordinal={}: creation from an own type gives success {}, from the identifier {}", tag, ordinal, mine.is_ok(), r.is_ok()));
        }
        match (listed, r) {
            (true, Ok(pr)) => {
                if pr.get_locale() != &id {
                    return Err(format!("{} ordinal={}: object reports locale {}", tag, ordinal, pr.get_locale()));
                }
                let c = pr.clone();
                if c.get_locale() != &id {
                    return Err(format!("{} ordinal={}: clone reports locale {}", tag, ordinal, c.get_locale()));
                }
                Ok(())
            }
            (true, Err(e)) => Err(format!("{} ordinal={} is a CLDR locale but creation fails: {}", tag, ordinal, e)),
            (false, Ok(pr)) => Err(format!(
                "{} ordinal={} is not advertised but creation succeeds with locale {}",
                tag,
                ordinal,
                pr.get_locale()
            )),
            (false, Err(_)) => Ok(()),
        }
    };
    // every CLDR tag as written, upper case, lower case, underscore
    let all: Vec<(String, bool)> = (0..2)
        .flat_map(|o| data[o].locales.iter().map(move |l| (l.clone(), o == 1)))
        .flat_map(|(l, o)| {
            vec![(l.clone(), o), (l.to_uppercase(), o), (l.to_lowercase(), o), (l.replace('-', "_"), o), (l.clone(), !o)]
        })
        .collect();
    ctx.sweep(
        "cldr_locales",
        all.len() as u64,
        |k| json!({"tag": all[k as usize].0, "ordinal": all[k as usize].1}),
        |k, log| check(&all[k as usize].0, all[k as usize].1, log),
    );
    // every 2- and 3-letter language
    let letters = |mut k: u64, n: u32| -> String {
        (0..n)
            .map(|_| {
                let c = (b'a' + (k % 26) as u8) as char;
                k /= 26;
                c
            })
            .collect::<Vec<char>>()
            .into_iter()
            .rev()
            .collect()
    };
    let lang = |k: u64| if k < 676 { letters(k, 2) } else { letters(k - 676, 3) };
    ctx.sweep(
        "all_languages",
        2 * (676 + 17576),
        |k| json!({"tag": lang(k / 2), "ordinal": k % 2 == 1}),
        |k, log| check(&lang(k / 2), k % 2 == 1, log),
    );
    let mut pool: Vec<String> = langs.iter().cloned().collect();
    pool.sort();
    // every advertised language with every two-letter and numeric region, and with every script
    let region = |k: u64| if k < 676 { letters(k, 2).to_uppercase() } else { format!("{:03}", k - 676) };
    let with_region = |k: u64| (format!("{}-{}", pool[(k / 2 / 1676) as usize], region(k / 2 % 1676)), k % 2 == 1);
    ctx.sweep(
        "regions",
        2 * 1676 * pool.len() as u64,
        |k| json!({"tag": with_region(k).0, "ordinal": with_region(k).1}),
        |k, log| check(&with_region(k).0, with_region(k).1, log),
    );
    let scripts: Vec<&str> = SCRIPTS.split_whitespace().collect();
    let tails = ["", "-PT", "-US", "-TW", "-RS"];
    let ns = (scripts.len() * tails.len()) as u64;
    let with_script = |k: u64| {
        let j = (k / 2 % ns) as usize;
        (format!("{}-{}{}", pool[(k / 2 / ns) as usize], scripts[j / tails.len()], tails[j % tails.len()]), k % 2 == 1)
    };
    ctx.sweep(
        "scripts",
        2 * ns * pool.len() as u64,
        |k| json!({"tag": with_script(k).0, "ordinal": with_script(k).1}),
        |k, log| check(&with_script(k).0, with_script(k).1, log),
    );
    // advertised languages with script and region and with variants; every language with every region or script
    use unic_langid::subtags::{Language, Region, Script, Variant};
    let tag_scripts: Vec<Option<Script>> = std::iter::once(None).chain(scripts.iter().map(|s| Some(s.parse().expect("HARNESS: script")))).collect();
    let tag_regions: Vec<Option<Region>> =
        std::iter::once(None).chain(REGIONS.split_whitespace().map(|r| Some(r.parse().expect("HARNESS: region")))).collect();
    let tag_variants: Vec<Variant> = VARIANTS.split_whitespace().map(|v| v.parse().expect("HARNESS: variant")).collect();
    let bare = |l: &str, ordinal: bool, s: Option<Script>, r: Option<Region>, v: &[Variant]| -> Result<(), String> {
        let id = LanguageIdentifier::from_parts(l.parse::<Language>().expect("HARNESS: language"), s, r, v);
        let ok = guard(|| PluralRules::create(id.clone(), prt(ordinal)).is_ok()).map_err(|p| format!("{}: panic: {}", id, p))?;
        // no locale of the data has a script or a variant, which spares the text form
        let simple = s.is_none() && v.is_empty();
        if ok != (simple && canon[ordinal as usize].contains(&id.to_string())) {
            return Err(format!("{} ordinal={}: creation succeeds: {}", id, ordinal, ok));
        }
        Ok(())
    };
    let ts = tag_scripts.len() as u64;
    ctx.sweep(
        "script_and_region",
        2 * ts * pool.len() as u64,
        |k| json!({"language": pool[(k / 2 / ts) as usize], "script": tag_scripts[(k / 2 % ts) as usize].map(|s| s.to_string()), "ordinal": k % 2 == 1}),
        |k, log| {
            log.nontrivial = true;
            log.extra_evals = tag_regions.len() as u64 - 1;
            tag_regions.iter().try_for_each(|r| bare(&pool[(k / 2 / ts) as usize], k % 2 == 1, tag_scripts[(k / 2 % ts) as usize], *r, &[]))
        },
    );
    ctx.sweep(
        "variants",
        2 * pool.len() as u64,
        |k| json!({"language": pool[k as usize / 2], "ordinal": k % 2 == 1}),
        |k, log| {
            log.nontrivial = true;
            log.extra_evals = tag_variants.len() as u64 * 6 - 1;
            let l = &pool[k as usize / 2];
            for (j, v) in tag_variants.iter().enumerate() {
                for r in [None, Some("PT"), Some("US"), Some("ES"), Some("DE")] {
                    bare(l, k % 2 == 1, None, r.map(|r| r.parse().expect("HARNESS: region")), &[*v])?;
                }
                bare(l, k % 2 == 1, None, None, &[*v, tag_variants[(j * 7 + 1) % tag_variants.len()]])?;
            }
            Ok(())
        },
    );
    ctx.sweep(
        "all_languages_beyond",
        2 * (676 + 17576),
        |k| json!({"language": lang(k / 2), "ordinal": k % 2 == 1}),
        |k, log| {
            log.extra_evals = (tag_regions.len() + tag_scripts.len() - 1) as u64;
            let l = lang(k / 2);
            log.nontrivial = langs.contains(&l);
            tag_regions.iter().try_for_each(|r| bare(&l, k % 2 == 1, None, *r, &[]))?;
            tag_scripts.iter().try_for_each(|s| bare(&l, k % 2 == 1, *s, None, &[]))
        },
    );
    // the literals of the sources as identifiers and as parts of them (only a choice of inputs)
    let dict_tags: Vec<String> = {
        let (new, all) = (crate::dict::strings(true), crate::dict::strings(false));
        let ok = |s: &&String| s.len() <= 40 && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
        let mut v: std::collections::BTreeSet<String> = new.iter().chain(&all).filter(ok).cloned().collect();
        for lit in new.iter().filter(ok) {
            for l in pool.iter().chain(new.iter().filter(ok)) {
                v.insert(format!("{}-{}", l, lit));
                v.insert(format!("{}-Latn-{}", l, lit));
                v.insert(format!("{}-US-{}", l, lit));
                v.insert(format!("{}-{}-PT", l, lit));
            }
            v.insert(format!("{}-PT", lit));
            v.insert(format!("{}-Latn", lit));
        }
        v.into_iter().take(400_000).collect()
    };
    ctx.sweep(
        "dictionary",
        2 * dict_tags.len() as u64,
        |k| json!({"tag": dict_tags[k as usize / 2], "ordinal": k % 2 == 1}),
        |k, log| check(&dict_tags[k as usize / 2], k % 2 == 1, log),
    );
    ctx.prop(
        "random",
        ctx.n(2_000_000, 20_000_000),
        || {
            let language = prop_oneof![
                5 => prop::sample::select(pool.clone()),
                1 => "[a-z]{2,3}",
                1 => "[a-z]{5,8}",
                1 => Just("und".to_string()),
                1 => Just("pt".to_string()),
            ];
            let script = prop::option::weighted(0.3, prop_oneof![
                Just("Latn".to_string()), Just("Cyrl".to_string()), Just("Arab".to_string()), Just("hant".to_string()), "[A-Z][a-z]{3}"]);
            let region = prop::option::weighted(0.6, prop_oneof![
                2 => Just("PT".to_string()), 1 => Just("pt".to_string()), 1 => Just("US".to_string()), 1 => "[A-Z]{2}", 1 => "[0-9]{3}"]);
            let variant = prop::option::weighted(0.15, prop_oneof![Just("valencia".to_string()), Just("1996".to_string()), "[a-z]{5,8}"]);
            (language, script, region, variant, any::<bool>(), 0u8..4).prop_map(|(l, s, r, v, ordinal, style)| {
                let mut t = l;
                for x in [s, r, v].into_iter().flatten() {
                    t.push(if style & 1 == 1 { '_' } else { '-' });
                    t.push_str(&x);
                }
                if style & 2 == 2 {
                    t = t.to_uppercase();
                }
                LocaleCase { tag: t, ordinal }
            })
        },
        |c, log| {
            let r = check(&c.tag, c.ordinal, log);
            log.note = Some(format!("{:?}", log.classes));
            r
        },
    );
}

// ---------------------------------------------------------------- C09

const SLOTS: usize = 12;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// Create an object for pool locale, into slot.
    Create { loc: u8, ordinal: bool, slot: u8 },
    /// Try to create an unknown locale.
    CreateBad { tag: u8, ordinal: bool },
    Clone { from: u8, to: u8 },
    Swap { a: u8, b: u8 },
    Drop { slot: u8 },
    /// Select number by pool index through a carrier.
    Select { slot: u8, num: u8, carrier: u8, neg: bool },
    SelectBad { slot: u8, which: u8 },
    /// Select with a user conversion that panics.
    SelectPanic { slot: u8 },
    /// Select with a user conversion that itself selects on another object before it answers.
    Nested { slot: u8, inner: u8, num: u8, inner_num: u8 },
    /// Select on a thread of its own.
    OnThread { slot: u8, num: u8 },
    Locale { slot: u8 },
    List { ordinal: bool },
}

const BAD_TAGS: [&str; 9] = ["xx", "en-US", "pt-BR", "zz", "ar-EG", "sr-Latn", "und", "en-Latn", "pt-PT-valencia"];
const BAD_TEXT: [&str; 6] = ["", "abc", "1.2.3", "0.99999999999999999999999", "١", "1 "];

fn pool_numbers() -> Vec<Numeral> {
    let mut v: Vec<Numeral> = vec![];
    for i in [0u64, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 19, 20, 21, 22, 25, 42, 71, 80, 91, 100, 101, 102, 103, 111, 800, 1000, 257, 65537, 100000, 1000000, (1 << 32) + 1, (1 << 32) + 2, 1 << 40] {
        v.push(Numeral::int(i));
    }
    for t in ["0.0", "1.0", "1.5", "0.1", "2.0", "2.50", "3.01", "0.21", "10.02", "5.3", "1.10", "1.1", "1.00", "11.11", "0.04", "21.1", "2.5"] {
        let (a, b) = t.split_once('.').unwrap();
        v.push(Numeral { int: a.into(), frac: Some(b.into()) });
    }
    // literals the sources did not have before: numbers, or parts of them
    v.extend(crate::dict::ints(true).into_iter().filter(|x| *x > 1000).take(6).map(Numeral::int));
    v
}

type Key = (usize, bool, usize);

struct SyncProbe<T>(std::marker::PhantomData<T>);
trait NotShareable {
    const SHAREABLE: bool = false;
}
impl<T> NotShareable for SyncProbe<T> {}
impl<T: Sync + Send> SyncProbe<T> {
    const SHAREABLE: bool = true;
}
struct Shared<T>(T);
// Only constructed when SyncProbe says the type is shareable.
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

struct PanicConv;
impl TryFrom<PanicConv> for PluralOperands {
    type Error = String;
    fn try_from(_: PanicConv) -> Result<PluralOperands, String> {
        panic!("a user conversion that panics")
    }
}
struct NestedConv<'a>(&'a PluralRules, &'a Numeral, &'a Numeral, &'a RefCell<Option<Result<Cat, String>>>);
impl<'a> TryFrom<NestedConv<'a>> for PluralOperands {
    type Error = String;
    fn try_from(m: NestedConv<'a>) -> Result<PluralOperands, String> {
        *m.3.borrow_mut() = select_via(m.0, m.1, false, Carrier::Str);
        Ok(operands(&m.2.ops().ok_or("HARNESS")?))
    }
}

/// What a process that does nothing else answers: `pv fresh LOCALE c|o NUMBER CARRIER NEGATIVE`.
pub fn fresh_main(args: &[String]) {
    let id: LanguageIdentifier = args[0].parse().expect("HARNESS: locale");
    let num = plain_decimal(&args[2]).expect("HARNESS: number");
    let c = CARRIERS[args[3].parse::<usize>().expect("HARNESS: carrier")];
    let r = guard(|| match PluralRules::create(id, prt(args[1] == "o")) {
        Err(_) => None,
        Ok(pr) => select_via(&pr, &num, args[4] == "true", c),
    });
    println!("{}", serde_json::to_string(&r.unwrap_or_else(|p| Some(Err(format!("panic: {}", p))))).unwrap());
}

fn fresh(loc: &str, ordinal: bool, num: &Numeral, carrier: usize, neg: bool) -> Option<Result<Cat, String>> {
    let out = std::process::Command::new(std::env::current_exe().expect("HARNESS: exe"))
        .args(["fresh", loc, if ordinal { "o" } else { "c" }, &num.text(), &carrier.to_string(), &neg.to_string()])
        .output()
        .expect("HARNESS: cannot run a fresh process");
    serde_json::from_slice(&out.stdout).unwrap_or(Some(Err("a fresh process gives no answer".into())))
}

/// The first things a process does, on several threads at once: `pv start`, a list of lists of queries on standard
/// input. A query is a locale, its type and a number; without a number, the locales are listed. The main thread then
/// makes all queries again.
type First = (String, bool, Option<String>);

pub fn start_main() {
    let plan: Vec<Vec<First>> = serde_json::from_reader(std::io::stdin()).expect("HARNESS: plan");
    // everything that needs no call of the library is made ready
    let ready: Vec<Vec<(LanguageIdentifier, bool, Option<Numeral>)>> = plan
        .iter()
        .map(|t| t.iter().map(|(l, o, n)| (l.parse().expect("HARNESS: locale"), *o, n.as_ref().map(|n| plain_decimal(n).expect("HARNESS: number")))).collect())
        .collect();
    let ask = |(l, o, n): &(LanguageIdentifier, bool, Option<Numeral>)| -> String {
        guard(|| match n {
            None => PluralRules::get_locales(prt(*o)).iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
            Some(n) => match PluralRules::create(l.clone(), prt(*o)) {
                Err(_) => "no such locale".into(),
                Ok(pr) => {
                    let r = select_via(&pr, n, false, Carrier::Str).unwrap();
                    format!("{} {:?}", pr.get_locale(), r)
                }
            },
        })
        .unwrap_or_else(|p| format!("panic: {}", p))
    };
    let waiting = AtomicU64::new(ready.len() as u64);
    let mut out: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = ready
            .iter()
            .map(|t| {
                let waiting = &waiting;
                sc.spawn(move || {
                    waiting.fetch_sub(1, Ordering::SeqCst);
                    while waiting.load(Ordering::SeqCst) > 0 {
                        std::hint::spin_loop();
                    }
                    t.iter().map(ask).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("HARNESS: thread")).collect()
    });
    out.push(ready.iter().flatten().map(ask).collect());
    println!("{}", serde_json::to_string(&out).unwrap());
}

/// Answers of such a process: one list per thread, then the main thread's.
fn started(plan: &[Vec<First>]) -> Option<Vec<Vec<String>>> {
    use std::io::Write;
    use std::process::Stdio;
    let mut c = std::process::Command::new(std::env::current_exe().expect("HARNESS: exe"))
        .arg("start")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("HARNESS: cannot run a fresh process");
    c.stdin.take().unwrap().write_all(json!(plan).to_string().as_bytes()).expect("HARNESS: pipe");
    serde_json::from_slice(&c.wait_with_output().expect("HARNESS: fresh process").stdout).ok()
}

fn step(locs: usize) -> impl Strategy<Value = Step> {
    let s = || 0u8..SLOTS as u8;
    // a few locales come up often, so that objects of one locale meet each other
    let loc = move || prop_oneof![1 => 0u8..6, 2 => 0u8..locs as u8];
    prop_oneof![
        8 => (loc(), any::<bool>(), s()).prop_map(|(loc, ordinal, slot)| Step::Create { loc, ordinal, slot }),
        2 => (0u8..BAD_TAGS.len() as u8, any::<bool>()).prop_map(|(tag, ordinal)| Step::CreateBad { tag, ordinal }),
        4 => (s(), s()).prop_map(|(from, to)| Step::Clone { from, to }),
        1 => (s(), s()).prop_map(|(a, b)| Step::Swap { a, b }),
        2 => s().prop_map(|slot| Step::Drop { slot }),
        20 => (s(), 0u8..60, 0u8..18, any::<bool>()).prop_map(|(slot, num, carrier, neg)| Step::Select { slot, num, carrier, neg }),
        2 => (s(), 0u8..BAD_TEXT.len() as u8).prop_map(|(slot, which)| Step::SelectBad { slot, which }),
        1 => s().prop_map(|slot| Step::SelectPanic { slot }),
        2 => (s(), s(), 0u8..60, 0u8..60).prop_map(|(slot, inner, num, inner_num)| Step::Nested { slot, inner, num, inner_num }),
        1 => (s(), 0u8..60).prop_map(|(slot, num)| Step::OnThread { slot, num }),
        4 => s().prop_map(|slot| Step::Locale { slot }),
        2 => any::<bool>().prop_map(|ordinal| Step::List { ordinal }),
    ]
}

struct Model {
    /// All advertised locales, the ones most worth mixing first.
    pool: Vec<String>,
    nums: Vec<Numeral>,
    table: HashMap<Key, Result<Cat, String>>,
    lists: [Vec<String>; 2],
    exists: HashSet<(usize, bool)>,
}

impl Model {
    fn wrong(&self, loc: usize, ord: bool, ni: usize, got: &Result<Cat, String>) -> Option<String> {
        let want = self.table.get(&(loc, ord, ni));
        if want == Some(got) {
            return None;
        }
        Some(format!(
            "{} {} number {}: {:?}, a fresh object gives {:?}",
            self.pool[loc],
            if ord { "ordinal" } else { "cardinal" },
            self.nums[ni].text(),
            got,
            want
        ))
    }
}

type Slot = Option<(usize, bool, PluralRules)>;
/// The k-th live object, counted round.
fn pick(slots: &[Slot], k: u8) -> Option<&(usize, bool, PluralRules)> {
    let live = slots.iter().flatten().count();
    slots.iter().flatten().nth(k as usize % live.max(1))
}

fn run_history(m: &Model, steps: &[Step], log: &mut Log) -> Result<(), String> {
    let mut slots: Vec<Slot> = (0..SLOTS).map(|_| None).collect();
    let mut selects = 0u32;
    let mut live_kinds: HashSet<(usize, bool)> = HashSet::new();
    let ids: Vec<LanguageIdentifier> = m.pool.iter().map(|p| p.parse().unwrap()).collect();
    for (k, s) in steps.iter().enumerate() {
        let at = |e: String| format!("step {} {:?}: {}", k, s, e);
        match s {
            Step::Create { loc, ordinal, slot } => {
                let loc = *loc as usize % m.pool.len();
                let r = PluralRules::create(ids[loc].clone(), prt(*ordinal));
                if r.is_ok() != m.exists.contains(&(loc, *ordinal)) {
                    return Err(at(format!("creation of {} {} here, but not in a fresh process", m.pool[loc], if r.is_ok() { "succeeds" } else { "fails" })));
                }
                if let Ok(pr) = r {
                    slots[*slot as usize % SLOTS] = Some((loc, *ordinal, pr));
                    live_kinds.insert((loc, *ordinal));
                }
            }
            Step::CreateBad { tag, ordinal } => {
                let id: LanguageIdentifier = BAD_TAGS[*tag as usize % BAD_TAGS.len()].parse().unwrap();
                let text = id.to_string();
                if PluralRules::create(id, prt(*ordinal)).is_ok() && fresh(&text, *ordinal, &m.nums[0], 0, false).is_none() {
                    return Err(at(format!("creation of {} succeeds here, but not in a fresh process", text)));
                }
            }
            Step::Clone { from, to } => {
                let c = pick(&slots, *from).map(|(l, o, p)| (*l, *o, p.clone()));
                if c.is_some() {
                    slots[*to as usize % SLOTS] = c;
                }
            }
            Step::Swap { a, b } => slots.swap(*a as usize % SLOTS, *b as usize % SLOTS),
            Step::Drop { slot } => slots[*slot as usize % SLOTS] = None,
            Step::Select { slot, num, carrier, neg } => {
                if let Some((loc, ord, pr)) = pick(&slots, *slot) {
                    let ni = *num as usize % m.nums.len();
                    let n = &m.nums[ni];
                    let (mut ci, mut neg) = (*carrier as usize % CARRIERS.len(), *neg);
                    let got = select_via(pr, n, neg, CARRIERS[ci]).unwrap_or_else(|| {
                        ci = 0;
                        neg = false;
                        select_via(pr, n, false, Carrier::Str).unwrap()
                    });
                    selects += 1;
                    if let Some(e) = m.wrong(*loc, *ord, ni, &got) {
                        // the table is of text; whether this type gives that answer without the history too is C06's business
                        let alone = fresh(&m.pool[*loc], *ord, n, ci, neg);
                        if alone.as_ref() != Some(&got) {
                            return Err(at(format!("{} (as {:?}{}: {:?})", e, CARRIERS[ci], if neg { ", negated" } else { "" }, alone)));
                        }
                    }
                    let again = select_via(pr, n, false, Carrier::Str).unwrap();
                    if let Some(e) = m.wrong(*loc, *ord, ni, &again) {
                        return Err(at(format!("after that, {}", e)));
                    }
                }
            }
            Step::SelectBad { slot, which } => {
                if let Some((_, _, pr)) = pick(&slots, *slot) {
                    let _ = pr.select(BAD_TEXT[*which as usize % BAD_TEXT.len()]);
                }
            }
            Step::SelectPanic { slot } => {
                if let Some((_, _, pr)) = pick(&slots, *slot) {
                    let _ = guard(|| pr.select(PanicConv));
                }
            }
            Step::Nested { slot, inner, num, inner_num } => {
                if let (Some((loc, ord, pr)), Some((iloc, iord, ipr))) = (pick(&slots, *slot), pick(&slots, *inner)) {
                    let (ni, ii) = (*num as usize % m.nums.len(), *inner_num as usize % m.nums.len());
                    let seen = RefCell::new(None);
                    let got = pr.select(NestedConv(ipr, &m.nums[ii], &m.nums[ni], &seen)).map(cat).map_err(|e| e.to_string());
                    if let Some(e) = m.wrong(*loc, *ord, ni, &got) {
                        let alone = fresh(&m.pool[*loc], *ord, &m.nums[ni], 17, false);
                        if alone.as_ref() != Some(&got) {
                            return Err(at(e));
                        }
                    }
                    match seen.into_inner() {
                        None => return Err(at("the conversion was not run".into())),
                        Some(r) => {
                            if let Some(e) = m.wrong(*iloc, *iord, ii, &r) {
                                return Err(at(format!("inside the conversion, {}", e)));
                            }
                        }
                    }
                    selects += 2;
                }
            }
            Step::OnThread { slot, num } => {
                if let (Some(x), true) = (pick(&slots, *slot), SyncProbe::<PluralRules>::SHAREABLE) {
                    let ni = *num as usize % m.nums.len();
                    let sh = &Shared(x);
                    let n = &m.nums[ni];
                    let got = std::thread::scope(|sc| {
                        sc.spawn(move || {
                            let c = sh.get().2.clone();
                            (select_via(&sh.get().2, n, false, Carrier::Str).unwrap(), select_via(&c, n, false, Carrier::Str).unwrap())
                        })
                        .join()
                    })
                    .map_err(|_| at("panic".into()))?;
                    for g in [got.0, got.1] {
                        if let Some(e) = m.wrong(x.0, x.1, ni, &g) {
                            return Err(at(e));
                        }
                    }
                    selects += 2;
                }
            }
            Step::Locale { slot } => {
                if let Some((loc, _, pr)) = pick(&slots, *slot) {
                    if pr.get_locale() != &ids[*loc] {
                        return Err(at(format!("object of {} reports {}", m.pool[*loc], pr.get_locale())));
                    }
                }
            }
            Step::List { ordinal } => {
                let l: Vec<String> = PluralRules::get_locales(prt(*ordinal)).iter().map(|x| x.to_string()).collect();
                if l != m.lists[*ordinal as usize] {
                    return Err(at("the advertised locales changed".into()));
                }
            }
        }
        // invariant after every step: every live object still reports its own locale
        for (loc, _, pr) in slots.iter().flatten() {
            if pr.get_locale() != &ids[*loc] {
                return Err(at(format!("then the object of {} reports {}", m.pool[*loc], pr.get_locale())));
            }
        }
    }
    log.nontrivial = selects >= 2 && live_kinds.len() >= 2;
    log.extra_evals = steps.len() as u64;
    if live_kinds.len() >= 3 {
        log.class("three or more kinds of object");
    }
    if steps.iter().any(|s| matches!(s, Step::Clone { .. })) {
        log.class("has a clone");
    }
    if steps.iter().any(|s| matches!(s, Step::Nested { .. })) {
        log.class("has a selection inside a selection");
    }
    if steps.len() > 60 {
        log.class("more than 60 steps");
    }
    if steps.len() > 600 {
        log.class("more than 600 steps");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulk {
    what: u8,
    loc: usize,
    ordinal: bool,
    times: u32,
    nums: Vec<usize>,
}

/// A conversion that makes, clones and drops objects and selects again, `1` levels deep, before it gives its own operands.
struct DeepConv<'a>(&'a Model, &'a [(usize, bool, PluralRules)], u32, usize, &'a RefCell<Option<String>>);
impl<'a> TryFrom<DeepConv<'a>> for PluralOperands {
    type Error = String;
    fn try_from(d: DeepConv<'a>) -> Result<PluralOperands, String> {
        let DeepConv(m, objs, depth, ni, bad) = d;
        if depth > 0 {
            let x = &objs[depth as usize % objs.len()];
            let inner = (ni + depth as usize) % m.nums.len();
            let got = if depth % 3 == 0 {
                let made = PluralRules::create(m.pool[x.0].parse::<LanguageIdentifier>().unwrap(), prt(x.1)).map_err(|e| e.to_string())?;
                made.select(DeepConv(m, objs, depth - 1, inner, bad))
            } else if depth % 3 == 1 {
                x.2.clone().select(DeepConv(m, objs, depth - 1, inner, bad))
            } else {
                x.2.select(DeepConv(m, objs, depth - 1, inner, bad))
            };
            m.check_ops(x.0, x.1, inner, got.map(cat).map_err(|e| e.to_string()), bad, "inside another selection");
        }
        Ok(operands(&m.nums[ni].ops().ok_or("HARNESS")?))
    }
}

impl Model {
    /// As `wrong`, for an answer to explicit operands; writes down the first deviation.
    fn check_ops(&self, loc: usize, ord: bool, ni: usize, got: Result<Cat, String>, bad: &RefCell<Option<String>>, at: &str) {
        if bad.borrow().is_some() {
            return;
        }
        if let Some(e) = self.wrong(loc, ord, ni, &got) {
            let alone = fresh(&self.pool[loc], ord, &self.nums[ni], 17, false);
            if alone.as_ref() != Some(&got) {
                *bad.borrow_mut() = Some(format!("{}: {}", at, e));
            }
        }
    }
}

fn run_bulk(m: &Model, ops: &[Bulk], log: &mut Log) -> Result<(), String> {
    let mut objs: Vec<(usize, bool, PluralRules)> = vec![];
    let ids: Vec<LanguageIdentifier> = m.pool.iter().map(|p| p.parse().unwrap()).collect();
    let ask = |x: &(usize, bool, PluralRules), ni: usize, at: &str| -> Result<(), String> {
        if x.2.get_locale() != &ids[x.0] {
            return Err(format!("{}: object of {} reports {}", at, m.pool[x.0], x.2.get_locale()));
        }
        let got = select_via(&x.2, &m.nums[ni], false, Carrier::Str).unwrap();
        m.wrong(x.0, x.1, ni, &got).map_or(Ok(()), |e| Err(format!("{}: {}", at, e)))
    };
    let mut evals = 0u64;
    for (k, op) in ops.iter().enumerate() {
        let loc = op.loc % m.pool.len();
        let at = format!("operation {} {:?}", k, op);
        let num = |j: usize| op.nums[j % op.nums.len()] % m.nums.len();
        if m.exists.contains(&(loc, op.ordinal)) {
            match PluralRules::create(ids[loc].clone(), prt(op.ordinal)) {
                Ok(p) => objs.push((loc, op.ordinal, p)),
                Err(e) => return Err(format!("{}: creation of {} fails: {}", at, m.pool[loc], e)),
            }
        }
        if objs.is_empty() {
            continue;
        }
        evals += op.times as u64;
        match op.what {
            // one object asked again and again, for one number or several in turn
            0 | 1 => {
                let x = objs.last().unwrap();
                for j in 0..op.times as usize {
                    ask(x, num(j), &at)?;
                }
            }
            // a chain of clones, each the child of the last
            2 => {
                let x = objs.last().unwrap();
                let mut c = (x.0, x.1, x.2.clone());
                for j in 0..op.times as usize {
                    c.2 = c.2.clone();
                    if j % 16 == 0 {
                        ask(&c, num(j), &at)?;
                    }
                }
                ask(&c, num(0), &at)?;
                objs.push(c);
            }
            // many live objects of many kinds, asked when all are there and while they go
            3 | 4 => {
                let mut live = vec![];
                for j in 0..op.times as usize {
                    let (l, o) = ((loc + j * (1 + op.nums[0])) % m.pool.len(), op.ordinal ^ (j % 3 == 1));
                    match PluralRules::create(ids[l].clone(), prt(o)) {
                        Ok(p) => live.push((l, o, p)),
                        Err(e) => {
                            if m.exists.contains(&(l, o)) {
                                return Err(format!("{}: creation of {} fails: {}", at, m.pool[l], e));
                            }
                        }
                    }
                }
                for (j, x) in live.iter().enumerate() {
                    ask(x, num(j), &at)?;
                }
                if op.what == 4 {
                    // from the front and in between
                    let mut j = 0;
                    while live.len() > 1 {
                        let gone = (j * 7) % live.len();
                        live.swap_remove(gone);
                        ask(&live[j % live.len()], num(j), &at)?;
                        j += 1;
                    }
                }
            }
            // nested selections
            5 => {
                let x = objs.last().unwrap();
                let bad = RefCell::new(None);
                let depth = op.times % 120;
                let got = x.2.select(DeepConv(m, &objs, depth, num(0), &bad));
                m.check_ops(x.0, x.1, num(0), got.map(cat).map_err(|e| e.to_string()), &bad, "the outermost selection");
                if let Some(e) = bad.into_inner() {
                    return Err(format!("{}: {}", at, e));
                }
            }
            // failures, again and again
            _ => {
                let x = objs.last().unwrap();
                for j in 0..op.times as usize {
                    match j % 4 {
                        0 => drop(x.2.select(BAD_TEXT[(j + op.nums[0]) % BAD_TEXT.len()])),
                        1 => drop(PluralRules::create("qaa".parse::<LanguageIdentifier>().unwrap(), prt(op.ordinal))),
                        2 if j < 400 => drop(guard(|| x.2.select(PanicConv))),
                        _ => ask(x, num(j), &at)?,
                    }
                }
            }
        }
        for x in &objs {
            for j in 0..op.nums.len() {
                ask(x, num(j), &at)?;
            }
        }
    }
    log.nontrivial = objs.len() >= 2 && evals >= 40;
    log.extra_evals = evals;
    Ok(())
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("random operation sequences over twelve object slots and all advertised locales (create, clone, move, drop, select through every carrier, on another thread, inside another selection's conversion, failed and panicking creations/selections, list), each result compared with a table of answers from fresh processes, run from eight threads at once; sequences of random numerals, each then asked of a fresh process; bulk histories (one object asked up to 80,000 times, chains of clones, thousands of live objects, selections nested up to 120 deep, series of failures); fresh processes whose first calls come from up to eight threads at the same moment; shared objects queried from many threads in different orders; non-trivial = at least two selections and two different (locale, type) objects in the sequence");
    ctx.assume("the reference answers come from processes that create one object and make one query each");
    let nums = pool_numbers();
    let mut table = HashMap::new();
    let mut exists = HashSet::new();
    let mut pool: Vec<String> = ["pt", "pt-PT", "ar", "ars", "en", "he"].iter().map(|s| s.to_string()).collect();
    let lists = [false, true].map(|o| PluralRules::get_locales(prt(o)).iter().map(|x| x.to_string()).collect::<Vec<_>>());
    for l in lists.iter().flatten() {
        if !pool.contains(l) && pool.len() < 250 {
            pool.push(l.clone());
        }
    }
    let keys: Vec<Key> = (0..pool.len())
        .flat_map(|l| [false, true].into_iter().map(move |o| (l, o)))
        .filter(|(l, o)| *l < 6 || lists[*o as usize].contains(&pool[*l]))
        .flat_map(|(l, o)| (0..nums.len()).map(move |n| (l, o, n)))
        .collect();
    let next = AtomicU64::new(0);
    let answers: Vec<Vec<(Key, Option<Result<Cat, String>>)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                sc.spawn(|| {
                    let mut v = vec![];
                    while let Some(k) = keys.get(next.fetch_add(1, Ordering::Relaxed) as usize) {
                        v.push((*k, fresh(&pool[k.0], k.1, &nums[k.2], 0, false)));
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("HARNESS: thread")).collect()
    });
    for (k, r) in answers.into_iter().flatten() {
        if let Some(r) = r {
            exists.insert((k.0, k.1));
            table.insert(k, r);
        }
    }
    let m = Model { pool, nums, table, lists, exists };
    ctx.prop(
        "histories",
        ctx.n(64_000, 2_000_000),
        || {
            let n = m.pool.len();
            prop_oneof![
                60 => prop::collection::vec(step(n), 1..40),
                20 => prop::collection::vec(step(n), 40..160),
                1 => prop::collection::vec(step(n), 1000..3000)
            ]
        },
        |steps, log| run_history(&m, steps, log),
    );
    // The same few operations very many times: on one object, on a chain of clones, on thousands of live objects,
    // and selections nested deeply inside each other's conversions.
    ctx.prop(
        "bulk",
        ctx.n(480, 16_000),
        || {
            let n = m.pool.len();
            let op = (
                0u8..7,
                0usize..n,
                any::<bool>(),
                prop_oneof![10 => 1u32..40, 6 => 40u32..700, 4 => 700u32..5_000, 3 => crate::dict::len(6_000).prop_map(|x| x.max(1) as u32)],
                prop_oneof![20 => Just(1u32), 2 => 14u32..=18],
                prop::collection::vec(0usize..60, 1..5),
            )
                .prop_map(|(what, loc, ordinal, times, big, nums)| Bulk { what, loc, ordinal, times: times * big, nums });
            prop::collection::vec(op, 1..7)
        },
        |ops, log| run_bulk(&m, ops, log),
    );
    // Random numerals, often several that share their integer part, digits or value; every answer is then asked
    // of a fresh process.
    ctx.prop(
        "numerals",
        ctx.n(800, 40_000),
        || {
            let num = || {
                prop_oneof![
                    2 => ("[0-9]{1,3}", prop::option::of("[0-9]{1,4}")),
                    1 => ("[1-9][0-9]{0,18}", prop::option::of("[0-9]{1,18}")),
                    1 => (crate::dict::int().prop_map(|x| x.to_string()), prop::option::of("[0-9]{1,2}")),
                    1 => (prop::sample::select(vec!["0", "1", "2", "5", "21"]).prop_map(String::from), prop::option::of("[0-2]{1,3}")),
                ]
                .prop_map(|(int, frac)| Numeral { int, frac })
            };
            (
                prop::collection::vec((0usize..250, any::<bool>()), 1..4),
                prop::collection::vec((0usize..4, num(), 0usize..CARRIERS.len(), any::<bool>(), any::<bool>()), 2..14),
            )
        },
        |(objs, qs), log| {
            let objs: Vec<(usize, bool, PluralRules)> = objs
                .iter()
                .filter_map(|(l, o)| {
                    let l = l % m.pool.len();
                    PluralRules::create(m.pool[l].parse::<LanguageIdentifier>().unwrap(), prt(*o)).ok().map(|p| (l, *o, p))
                })
                .collect();
            if objs.is_empty() {
                return Ok(());
            }
            let mut seen = vec![];
            for (k, n, c, neg, doubled) in qs {
                let (l, o, pr) = &objs[k % objs.len()];
                let n = if *doubled && !seen.is_empty() {
                    // same integer part as the number before
                    let before: &(usize, bool, Numeral, usize, bool, Result<Cat, String>) = seen.last().unwrap();
                    Numeral { int: before.2.int.clone(), frac: n.frac.clone() }
                } else {
                    n.clone()
                };
                if let Some(r) = select_via(pr, &n, *neg, CARRIERS[*c]) {
                    seen.push((*l, *o, n.clone(), *c, *neg, r));
                }
                let r = select_via(pr, &n, false, Carrier::Str).unwrap();
                seen.push((*l, *o, n.clone(), 0, false, r));
            }
            log.extra_evals = seen.len() as u64;
            log.nontrivial = seen.len() >= 2;
            for (l, o, n, c, neg, r) in &seen {
                let alone = fresh(&m.pool[*l], *o, n, *c, *neg);
                if alone.as_ref() != Some(r) {
                    return Err(format!(
                        "{} {} number {}{} as {:?}: {:?}, a fresh process gives {:?}",
                        m.pool[*l],
                        if *o { "ordinal" } else { "cardinal" },
                        if *neg { "-" } else { "" },
                        n.text(),
                        CARRIERS[*c],
                        r,
                        alone
                    ));
                }
            }
            Ok(())
        },
    );
    // The first calls of a process, made by several threads at the same moment.
    ctx.prop(
        "start",
        ctx.n(1_600, 40_000),
        || {
            let q = (prop_oneof![1 => 0usize..6, 2 => 0usize..250], any::<bool>(), prop_oneof![6 => (0usize..60).prop_map(Some), 1 => Just(None)]);
            prop::collection::vec(prop::collection::vec(q, 1..5), 2..9)
        },
        |plan, log| {
            let keys: Vec<Vec<(usize, bool, Option<usize>)>> =
                plan.iter().map(|t| t.iter().map(|(l, o, n)| (l % m.pool.len(), *o, n.map(|n| n % m.nums.len()))).collect()).collect();
            let texts: Vec<Vec<First>> =
                keys.iter().map(|t| t.iter().map(|(l, o, n)| (m.pool[*l].clone(), *o, n.map(|n| m.nums[n].text()))).collect()).collect();
            let want = |(l, o, n): &(usize, bool, Option<usize>)| match n {
                None => m.lists[*o as usize].join(" "),
                Some(n) => match m.table.get(&(*l, *o, *n)) {
                    Some(r) => format!("{} {:?}", m.pool[*l], r),
                    None => "no such locale".into(),
                },
            };
            log.nontrivial = true;
            log.extra_evals = 2 * keys.iter().map(|t| t.len() as u64).sum::<u64>();
            let Some(got) = started(&texts) else { return Err("a process whose first calls come from several threads dies".into()) };
            let mut all = keys.clone();
            all.push(keys.concat());
            for (t, (k, g)) in all.iter().zip(&got).enumerate() {
                for (k, g) in k.iter().zip(g) {
                    if *g != want(k) {
                        return Err(format!(
                            "a process whose first calls come from {} threads, {}: {} {} {}: {:?}, a fresh process gives {:?}",
                            keys.len(),
                            if t < keys.len() { format!("thread {}", t) } else { "main thread afterwards".into() },
                            m.pool[k.0],
                            if k.1 { "ordinal" } else { "cardinal" },
                            k.2.map_or("list".into(), |n| format!("number {}", m.nums[n].text())),
                            g.chars().take(80).collect::<String>(),
                            want(k).chars().take(80).collect::<String>()
                        ));
                    }
                }
            }
            Ok(())
        },
    );
    // Concurrent queries on shared objects, in per-thread orders.
    if SyncProbe::<PluralRules>::SHAREABLE {
        ctx.prop(
            "shared",
            ctx.n(640, 8_000),
            || (prop::collection::vec((0usize..250, any::<bool>()), 1..8), prop::collection::vec((0usize..8, 0usize..60), 20..200), 2usize..6),
            |(objs, queries, threads), log| {
                let shared = Shared(
                    objs.iter()
                        .filter_map(|(l, o)| {
                            let l = l % m.pool.len();
                            let id: LanguageIdentifier = m.pool[l].parse().unwrap();
                            PluralRules::create(id, prt(*o)).ok().map(|p| (l, *o, p))
                        })
                        .collect::<Vec<_>>(),
                );
                if shared.0.is_empty() {
                    return Ok(());
                }
                let m = &m;
                let sh = &shared;
                let errs: Vec<String> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..*threads)
                        .map(|t| {
                            sc.spawn(move || {
                                let mut e = vec![];
                                let q = queries.len();
                                for k in 0..q {
                                    let (o, ni) = queries[(k * (2 * t + 1) + t * 7) % q];
                                    let (l, ord, pr) = &sh.get()[o % sh.get().len()];
                                    let ni = ni % m.nums.len();
                                    let got = select_via(pr, &m.nums[ni], false, Carrier::Str).unwrap();
                                    if let Some(w) = m.wrong(*l, *ord, ni, &got) {
                                        e.push(format!("thread {}: {}", t, w));
                                        break;
                                    }
                                    if k % 5 == 0 {
                                        let c = pr.clone();
                                        if c.get_locale().to_string() != m.pool[*l] {
                                            e.push(format!("clone of {} reports {}", m.pool[*l], c.get_locale()));
                                            break;
                                        }
                                    }
                                    if k % 7 == 0 {
                                        let id: LanguageIdentifier = m.pool[*l].parse().unwrap();
                                        match PluralRules::create(id.clone(), prt(*ord)) {
                                            Ok(p) if p.get_locale() == &id => {
                                                let got = select_via(&p, &m.nums[ni], false, Carrier::Str).unwrap();
                                                if let Some(w) = m.wrong(*l, *ord, ni, &got) {
                                                    e.push(format!("thread {}: new object: {}", t, w));
                                                    break;
                                                }
                                            }
                                            _ => {
                                                e.push(format!("thread {}: creation of {} fails or gives another locale", t, m.pool[*l]));
                                                break;
                                            }
                                        }
                                    }
                                }
                                e
                            })
                        })
                        .collect();
                    hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec!["panic in a thread".into()])).collect()
                });
                log.nontrivial = shared.0.len() >= 2;
                log.extra_evals = (queries.len() * threads) as u64;
                match errs.into_iter().next() {
                    None => Ok(()),
                    Some(e) => Err(e),
                }
            },
        );
    } else {
        ctx.assume("rule objects cannot be shared between threads in this tree; only per-thread histories were run");
    }
}

// ---------------------------------------------------------------- known findings helper

/// Prints the entries for known_findings.json that the frozen data and the tree under test give (a tool for
/// maintaining the file by hand; no check calls it).
pub fn gen_known() {
    let mut out = vec![];
    for ord in [false, true] {
        let data = cldr(ord);
        for (loc, rs) in &data.rules {
            let Some(pr) = object(loc, ord) else { continue };
            let mut rels = vec![];
            let mut examples: Vec<String> = vec![];
            let cands: Vec<(Cat, Rel)> = rs
                .rules
                .iter()
                .flat_map(|(c, k)| k.0.iter().flatten().map(move |r| (*c, r.clone())))
                .filter(|(_, r)| quirk_of(r).is_some())
                .collect();
            let probe: Vec<Ops> = (0..2_000u64)
                .map(|x| Numeral::int(x))
                .chain((0..25_000_000u64).step_by(1000).map(Numeral::int))
                .chain((0..130u64).flat_map(|i| (0..10).map(move |f| Numeral { int: i.to_string(), frac: Some(f.to_string()) })))
                .chain((0..30_000u64).step_by(500).map(|i| Numeral { int: i.to_string(), frac: Some("5".into()) }))
                .chain((0..3_000_000u64).step_by(100_000).map(|i| Numeral { int: i.to_string(), frac: Some("5".into()) }))
                .map(|n| n.ops().unwrap())
                .collect();
            for (c, r) in cands {
                // does this relation's deviation, alone or on top of all others, change a result?
                let dev = probe.iter().any(|o| {
                    rs.spec(o) != Some(rs.quirk(o, &|c2, r2| c2 == c && *r2 == r))
                        || rs.quirk(o, &|_, _| true) != rs.quirk(o, &|c2, r2| !(c2 == c && *r2 == r))
                });
                if dev {
                    rels.push(json!({"category": c.name(), "relation": r.text(), "deviation": quirk_of(&r)}));
                }
            }
            for o in &probe {
                let got = cat(pr.select(operands(o)).unwrap());
                if rs.spec(o) != Some(got) {
                    examples.push(format!("{} -> {} instead of {}", o.numeral().text(), got.name(), rs.spec(o).map_or("?", |c| c.name())));
                }
            }
            if !examples.is_empty() || !rels.is_empty() {
                examples.truncate(2);
                out.push(json!({"property": if ord {"C02"} else {"C01"}, "locale": loc, "relations": rels, "examples": examples}));
            }
        }
    }
    println!("{}", serde_json::to_string_pretty(&out).unwrap());
}
