//! Checks of the cldr_pluralrules_parser crate (C10-C13).
use crate::framework::*;
use crate::gen::*;
use crate::oracle::*;
use cldr_pluralrules_parser::ast;
use cldr_pluralrules_parser::{parse_plural_condition, parse_plural_rule};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

// ---------------------------------------------------------------- the library's tree as ours

fn from_relation(r: &ast::Relation) -> Rel {
    Rel {
        operand: match r.expression.operand {
            ast::Operand::N => 'n',
            ast::Operand::I => 'i',
            ast::Operand::V => 'v',
            ast::Operand::W => 'w',
            ast::Operand::F => 'f',
            ast::Operand::T => 't',
        },
        modulus: r.expression.modulus.as_ref().map(|m| (m.0).0 as u64),
        op: match r.operator {
            ast::Operator::In => Op::In,
            ast::Operator::NotIn => Op::NotIn,
            ast::Operator::Within => Op::Within,
            ast::Operator::NotWithin => Op::NotWithin,
            ast::Operator::Is => Op::Is,
            ast::Operator::IsNot => Op::IsNot,
            ast::Operator::EQ => Op::Eq,
            ast::Operator::NotEQ => Op::Ne,
        },
        items: r
            .range_list
            .0
            .iter()
            .map(|x| match x {
                ast::RangeListItem::Range(r) => Item::R(r.lower_val.0 as u64, r.upper_val.0 as u64),
                ast::RangeListItem::Value(v) => Item::V(v.0 as u64),
            })
            .collect(),
    }
}

pub fn from_condition(c: &ast::Condition) -> Cond {
    Cond(c.0.iter().map(|a| a.0.iter().map(from_relation).collect()).collect())
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Dec {
    int: u64,
    frac: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SList {
    ranges: Vec<(Dec, Option<Dec>)>,
    ellipsis: bool,
}

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Samples {
    integer: Option<SList>,
    decimal: Option<SList>,
}

/// The tree keeps the fraction as a number only.
fn bare(f: &str) -> String {
    let t = f.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

fn bare_dec(d: &Dec) -> Dec {
    Dec { int: d.int, frac: d.frac.as_deref().map(bare) }
}

fn bare_list(l: &SList) -> SList {
    SList { ranges: l.ranges.iter().map(|(a, b)| (bare_dec(a), b.as_ref().map(bare_dec))).collect(), ellipsis: l.ellipsis }
}

fn from_dec(d: &ast::DecimalValue) -> Dec {
    Dec { int: d.integer.0 as u64, frac: d.decimal.as_ref().map(|v| v.0.to_string()) }
}

fn from_list(l: &ast::SampleList) -> SList {
    SList {
        ranges: l.sample_ranges.iter().map(|r| (from_dec(&r.lower_val), r.upper_val.as_ref().map(from_dec))).collect(),
        ellipsis: l.ellipsis,
    }
}

fn from_samples(s: &Option<ast::Samples>) -> Samples {
    match s {
        None => Samples::default(),
        Some(s) => Samples { integer: s.integer.as_ref().map(from_list), decimal: s.decimal.as_ref().map(from_list) },
    }
}

// ---------------------------------------------------------------- printing with layout

/// Draws layout choices from a byte list; the canonical choice when it runs out.
pub struct Layout<'a> {
    bytes: &'a [u8],
    k: usize,
}

impl<'a> Layout<'a> {
    pub fn new(bytes: &'a [u8]) -> Layout<'a> {
        Layout { bytes, k: 0 }
    }
    fn next(&mut self) -> u8 {
        let b = self.bytes.get(self.k).copied().unwrap_or(0);
        self.k += 1;
        b
    }
    /// Blank space that may be absent; `usual` is CLDR's choice.
    /// Seldom, very many blanks.
    fn long(&mut self, b: u8) -> Option<&'static str> {
        static BLANKS: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        let all = BLANKS.get_or_init(|| " \t   ".repeat(14_000));
        let n = match b {
            // as many as a new literal of the sources says
            251 if !crate::dict::blanks().is_empty() => {
                let v = crate::dict::blanks();
                v[self.next() as usize % v.len()]
            }
            252 => 70,
            253 => 140,
            254 => 300,
            255 => match self.next() {
                255 => 70_000,
                _ => 1_100,
            },
            _ => return None,
        };
        Some(&all[..n])
    }
    fn gap0(&mut self, usual: &'static str) -> &'static str {
        let b = self.next();
        if let Some(g) = self.long(b) {
            return g;
        }
        match b % 8 {
            0..=2 => usual,
            3 => "",
            4 => " ",
            5 => "\t",
            6 => "  ",
            _ => " \t ",
        }
    }
    fn gap1(&mut self) -> &'static str {
        let b = self.next();
        if let Some(g) = self.long(b) {
            return g;
        }
        match b % 6 {
            0..=2 => " ",
            3 => "\t",
            4 => "   ",
            _ => "\t ",
        }
    }
    fn zeros(&mut self) -> &'static str {
        match self.next() {
            240..=247 => "0",
            248..=254 => "00000000000000000000000",
            255 => {
                static ZEROS: std::sync::OnceLock<String> = std::sync::OnceLock::new();
                &ZEROS.get_or_init(|| "0".repeat(400))[..]
            }
            _ => "",
        }
    }
}

fn print_rel(r: &Rel, l: &mut Layout, s: &mut String) {
    s.push(r.operand);
    if let Some(m) = r.modulus {
        if l.next() % 3 == 2 {
            s.push_str(l.gap1());
            s.push_str("mod");
            s.push_str(l.gap1());
        } else {
            s.push_str(l.gap0(" "));
            s.push('%');
            s.push_str(l.gap0(" "));
        }
        s.push_str(l.zeros());
        s.push_str(&m.to_string());
    }
    let w = r.op.words();
    if w.len() == 1 && !w[0].starts_with(|c: char| c.is_alphabetic()) {
        s.push_str(l.gap0(" "));
        s.push_str(w[0]);
        s.push_str(l.gap0(" "));
    } else {
        for x in w {
            s.push_str(l.gap1());
            s.push_str(x);
        }
        s.push_str(l.gap1());
    }
    for (k, it) in r.items.iter().enumerate() {
        if k > 0 {
            s.push_str(l.gap0(""));
            s.push(',');
            s.push_str(l.gap0(""));
        }
        match it {
            Item::V(v) => {
                s.push_str(l.zeros());
                s.push_str(&v.to_string());
            }
            Item::R(a, b) => {
                s.push_str(l.zeros());
                s.push_str(&a.to_string());
                s.push_str("..");
                s.push_str(l.zeros());
                s.push_str(&b.to_string());
            }
        }
    }
}

pub fn print_cond(c: &Cond, l: &mut Layout, s: &mut String) {
    for (k, a) in c.0.iter().enumerate() {
        if k > 0 {
            s.push_str(l.gap1());
            s.push_str("or");
            s.push_str(l.gap1());
        }
        for (j, r) in a.iter().enumerate() {
            if j > 0 {
                s.push_str(l.gap1());
                s.push_str("and");
                s.push_str(l.gap1());
            }
            print_rel(r, l, s);
        }
    }
}

fn print_list(x: &SList, l: &mut Layout, s: &mut String) {
    let dec = |d: &Dec, s: &mut String| {
        s.push_str(&d.int.to_string());
        if let Some(f) = &d.frac {
            s.push('.');
            s.push_str(f);
        }
    };
    for (k, (a, b)) in x.ranges.iter().enumerate() {
        if k > 0 {
            s.push_str(l.gap0(""));
            s.push(',');
            s.push_str(l.gap0(" "));
        }
        dec(a, s);
        if let Some(b) = b {
            s.push_str(l.gap0(""));
            s.push('~');
            s.push_str(l.gap0(""));
            dec(b, s);
        }
    }
    if x.ellipsis {
        s.push_str(l.gap0(""));
        s.push(',');
        s.push_str(l.gap0(" "));
        s.push_str(if l.next() % 2 == 1 { "..." } else { "…" });
    }
}

pub fn print_samples(x: &Samples, l: &mut Layout, s: &mut String) {
    for (name, list) in [("@integer", &x.integer), ("@decimal", &x.decimal)] {
        if let Some(list) = list {
            if s.is_empty() {
                s.push_str(l.gap0(" "));
            } else {
                s.push_str(l.gap1());
            }
            s.push_str(name);
            s.push_str(l.gap1());
            print_list(list, l, s);
        }
    }
}

// ---------------------------------------------------------------- generators

fn number() -> BoxedStrategy<u64> {
    prop_oneof![
        6 => 0u64..=120,
        2 => int_part(),
        1 => prop::sample::select(vec![0, 1, 10, 100, 1000, 1_000_000, u32::MAX as u64, 1 << 53, u64::MAX - 1, u64::MAX]),
    ]
    .boxed()
}

pub const OPS: [Op; 8] = [Op::Eq, Op::Ne, Op::In, Op::NotIn, Op::Within, Op::NotWithin, Op::Is, Op::IsNot];

fn rel() -> BoxedStrategy<Rel> {
    let item = prop_oneof![
        2 => number().prop_map(Item::V),
        1 => (number(), number()).prop_map(|(a, b)| Item::R(a, b)),
    ];
    (
        prop::sample::select(vec!['n', 'i', 'v', 'w', 'f', 't']),
        prop::option::of(number()),
        prop::sample::select(OPS.to_vec()),
        prop_oneof![3 => prop::collection::vec(item.clone(), 1..=1), 3 => prop::collection::vec(item.clone(), 1..=4), 1 => prop::collection::vec(item, 1..=12)],
    )
        .prop_map(|(operand, modulus, op, items)| Rel { operand, modulus, op, items })
        .boxed()
}

pub fn cond() -> BoxedStrategy<Cond> {
    prop_oneof![
        3 => prop::collection::vec(prop::collection::vec(rel(), 1..=1), 1..=1),
        5 => prop::collection::vec(prop::collection::vec(rel(), 1..=3), 1..=3),
        1 => prop::collection::vec(prop::collection::vec(rel(), 1..=6), 1..=8),
    ]
    .prop_map(Cond)
    .boxed()
}

pub fn layout_bytes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 0..12), 4 => prop::collection::vec(any::<u8>(), 0..120)].boxed()
}

fn dec(with_frac: bool) -> BoxedStrategy<Dec> {
    if with_frac {
        (number(), prop::option::weighted(0.9, frac_digits(18))).prop_map(|(int, frac)| Dec { int, frac }).boxed()
    } else {
        (number(), prop::option::weighted(0.05, frac_digits(3))).prop_map(|(int, frac)| Dec { int, frac }).boxed()
    }
}

fn slist(with_frac: bool) -> BoxedStrategy<SList> {
    (prop::collection::vec((dec(with_frac), prop::option::weighted(0.3, dec(with_frac))), 1..=9), any::<bool>())
        .prop_map(|(ranges, ellipsis)| SList { ranges, ellipsis })
        .boxed()
}

fn samples() -> BoxedStrategy<Samples> {
    (prop::option::weighted(0.75, slist(false)), prop::option::weighted(0.7, slist(true)))
        .prop_map(|(integer, decimal)| Samples { integer, decimal })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CondCase {
    cond: Cond,
    layout: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RuleCase {
    /// No disjunct: a rule without a condition.
    cond: Cond,
    samples: Samples,
    layout: Vec<u8>,
}

impl RuleCase {
    fn text(&self) -> String {
        let mut s = String::new();
        let mut l = Layout::new(&self.layout);
        print_cond(&self.cond, &mut l, &mut s);
        print_samples(&self.samples, &mut l, &mut s);
        s
    }
}

fn rule_case() -> BoxedStrategy<RuleCase> {
    (prop_oneof![3 => cond(), 1 => Just(Cond(vec![]))], samples(), layout_bytes())
        .prop_map(|(cond, samples, layout)| RuleCase { cond, samples, layout })
        .boxed()
}

/// A big rule, kept as the few numbers that describe it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    rel: Rel,
    /// alternatives, relations in the last of them, values in the last relation
    ors: usize,
    ands: usize,
    items: usize,
    /// values in the sample lists
    samples: usize,
    ellipsis: bool,
    layout: Vec<u8>,
}

impl Large {
    fn rule(&self) -> RuleCase {
        let num = |k: usize| (k as u64).wrapping_mul(7) % 1001;
        let mut last = self.rel.clone();
        for k in 0..self.items {
            last.items.push(if k % 3 == 0 { Item::R(num(k), num(k + 1)) } else { Item::V(num(k)) });
        }
        let one = |k: usize| Rel { modulus: if k % 2 == 0 { None } else { Some(num(k) + 1) }, items: vec![Item::V(num(k))], ..self.rel.clone() };
        let mut c: Vec<Vec<Rel>> = (0..self.ors).map(|k| vec![one(k)]).collect();
        let mut a: Vec<Rel> = (0..self.ands).map(one).collect();
        a.push(last);
        c.push(a);
        let list = |frac: bool| {
            (self.samples > 0).then(|| SList {
                ranges: (0..self.samples)
                    .map(|k| {
                        let d = |x: u64| Dec { int: x, frac: frac.then(|| (x % 10).to_string()) };
                        (d(num(k)), (k % 4 == 0).then(|| d(num(k) + 5)))
                    })
                    .collect(),
                ellipsis: self.ellipsis,
            })
        };
        RuleCase { cond: Cond(c), samples: Samples { integer: list(false), decimal: list(true) }, layout: self.layout.clone() }
    }
    fn size_class(&self) -> &'static str {
        match self.ors + self.ands + self.items + self.samples {
            0..=99 => "up to 99 elements",
            100..=999 => "100-999 elements",
            1000..=9999 => "1000-9999 elements",
            _ => "10000 or more elements",
        }
    }
}

fn large_case() -> BoxedStrategy<Large> {
    let n = || prop_oneof![3 => 0usize..4, 2 => 0usize..300, 1 => 0usize..5_000, 1 => 0usize..40_000, 1 => crate::dict::len(40_000)];
    (rel(), n(), n(), n(), n(), any::<bool>(), layout_bytes())
        .prop_map(|(rel, ors, ands, items, samples, ellipsis, layout)| Large { rel, ors, ands, items, samples, ellipsis, layout })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damage {
    large: Large,
    how: u8,
    at: usize,
    ch: char,
    n: usize,
}

fn damaged_large() -> BoxedStrategy<Damage> {
    let ch = prop_oneof![any::<char>(), prop::sample::select(" \t1n,.~@…%=&(".chars().collect::<Vec<_>>())];
    (large_case(), 0u8..4, any::<prop::sample::Index>(), ch, prop_oneof![3 => 1usize..50_000, 1 => crate::dict::len(50_000)])
        .prop_map(|(large, how, ix, ch, n)| Damage { large, how, at: ix.index(1 << 30), ch, n })
        .boxed()
}

impl Damage {
    fn text(&self) -> String {
        let mut t: Vec<char> = self.large.rule().text().chars().collect();
        let k = self.at % t.len();
        match self.how {
            0 => {}
            1 => t.truncate(k),
            2 => t[k] = self.ch,
            // a long run of one character
            _ => {
                t.splice(k..k, std::iter::repeat(self.ch).take(self.n));
            }
        }
        t.into_iter().collect()
    }
}

/// Messages about big texts are cut.
fn short(e: &str) -> String {
    if e.len() <= 600 {
        return e.to_string();
    }
    let head: String = e.chars().take(300).collect();
    let tail: String = e.chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect();
    format!("{} [...] {}", head, tail)
}

fn classify(c: &Cond, log: &mut Log) {
    if c.0.len() > 1 {
        log.class("has `or`");
    }
    if c.0.iter().any(|a| a.len() > 1) {
        log.class("has `and`");
    }
    if c.0.iter().flatten().any(|r| r.modulus.is_some()) {
        log.class("has a modulus");
    }
    if c.0.iter().flatten().any(|r| r.op.within()) {
        log.class("has within");
    }
    if c.0.iter().flatten().any(|r| r.items.len() > 1) {
        log.class("has a list");
    }
    if c.0.iter().flatten().any(|r| r.has_range()) {
        log.class("has a range");
    }
}

// ---------------------------------------------------------------- C10

fn parse_exact(text: &str, want: &Cond) -> Result<(), String> {
    let r = guard(|| parse_plural_rule(text)).map_err(|p| format!("{:?}: panic: {}", text, p))?;
    let r = r.map_err(|e| format!("{:?} is a well-formed condition but is rejected: {}", text, e))?;
    let got = from_condition(&r.condition);
    if got != *want {
        return Err(format!("{:?} parsed as {:?} ({:?})", text, got.text(), got));
    }
    if r.samples.is_some() {
        return Err(format!("{:?}: samples invented: {:?}", text, r.samples));
    }
    let c = guard(|| parse_plural_condition(text.to_string())).map_err(|p| format!("{:?}: panic: {}", text, p))?;
    let c = c.map_err(|e| format!("{:?} is a well-formed condition but is rejected by condition parsing: {}", text, e))?;
    let got = from_condition(&c);
    if got != *want {
        return Err(format!("{:?} parsed by condition parsing as {:?} ({:?})", text, got.text(), got));
    }
    Ok(())
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("random condition trees printed with random blanks, tabs, leading zeros and mod/% spelling, parsed by both entry points and compared as trees; every single-relation shape (operand x modulus x operator x list shape x three layouts) swept; non-trivial = more than one relation, a list, a range or a modulus");
    ctx.assume("blanks are spaces and tabs; words (and, or, is, in, within, not, mod) have at least one blank on each side; none inside a range; none around the whole");
    // every shape of one and of two relations
    let mods = [None, Some(10u64), Some(1_000_000)];
    let lists = [
        vec![Item::V(0)],
        vec![Item::V(7), Item::V(3)],
        vec![Item::R(2, 4)],
        vec![Item::R(2, 4), Item::V(9), Item::R(11, 19)],
        vec![Item::V(1), Item::R(5, 3)],
    ];
    let layouts: [Vec<u8>; 4] = [vec![], vec![3; 64], vec![5; 64], vec![7; 64]];
    let mut shapes = vec![];
    for o in ['n', 'i', 'v', 'w', 'f', 't'] {
        for m in mods {
            for op in OPS {
                for l in &lists {
                    shapes.push(Rel { operand: o, modulus: m, op, items: l.clone() });
                }
            }
        }
    }
    let ns = shapes.len() as u64;
    let make = |k: u64| -> CondCase {
        let lay = layouts[(k % 4) as usize].clone();
        let k = k / 4;
        let kind = k % 4;
        let k = k / 4;
        let a = shapes[(k % ns) as usize].clone();
        let b = shapes[((k * 7919 + 13) % ns) as usize].clone();
        let c = match kind {
            0 => vec![vec![a]],
            1 => vec![vec![a, b]],
            2 => vec![vec![a], vec![b]],
            _ => vec![vec![a.clone(), b.clone()], vec![b], vec![a]],
        };
        CondCase { cond: Cond(c), layout: lay }
    };
    let run = |c: &CondCase, log: &mut Log| -> Result<(), String> {
        let mut s = String::new();
        print_cond(&c.cond, &mut Layout::new(&c.layout), &mut s);
        log.nontrivial = c.cond.0.iter().flatten().count() > 1
            || c.cond.0[0][0].items.len() > 1
            || c.cond.0[0][0].has_range()
            || c.cond.0[0][0].modulus.is_some();
        log.extra_evals = 1;
        classify(&c.cond, log);
        log.note = Some(s.clone());
        parse_exact(&s, &c.cond)
    };
    ctx.sweep("shapes", ns * 16, |k| json!(make(k)), |k, log| run(&make(k), log));
    ctx.prop(
        "random",
        ctx.n(2_000_000, 24_000_000),
        || (cond(), layout_bytes()).prop_map(|(cond, layout)| CondCase { cond, layout }),
        |c, log| run(c, log),
    );
    // very long conditions
    ctx.prop(
        "long",
        ctx.n(400, 4_000),
        || {
            (cond(), layout_bytes(), 1usize..800, 1usize..200, any::<bool>()).prop_map(|(c, layout, n, items, and)| {
                let mut out = vec![];
                for k in 0..n {
                    let mut r = c.0[k % c.0.len()][0].clone();
                    let base = r.items.clone();
                    if k % 97 == 0 {
                        r.items = (0..items).map(|j| base[j % base.len()].clone()).collect();
                    }
                    if and {
                        if out.is_empty() {
                            out.push(vec![]);
                        }
                        out[0].push(r);
                    } else {
                        out.push(vec![r]);
                    }
                }
                CondCase { cond: Cond(out), layout }
            })
        },
        |c, log| {
            let r = run(c, log);
            log.note = None;
            r
        },
    );
}

// ---------------------------------------------------------------- C11

fn rule_exact(c: &RuleCase, log: &mut Log) -> Result<(), String> {
    let s = c.text();
    log.nontrivial = c.samples.integer.is_some() || c.samples.decimal.is_some();
    log.class(match (c.samples.integer.is_some(), c.samples.decimal.is_some()) {
        (true, true) => "integer and decimal samples",
        (true, false) => "integer samples only",
        (false, true) => "decimal samples only",
        _ => "no samples",
    });
    if c.cond.0.is_empty() {
        log.class("no condition");
    }
    log.note = Some(s.clone());
    let r = guard(|| parse_plural_rule(s.as_str())).map_err(|p| format!("{:?}: panic: {}", s, p))?;
    let r = r.map_err(|e| format!("{:?} is a well-formed rule but is rejected: {}", s, e))?;
    let got = from_condition(&r.condition);
    if got != c.cond {
        return Err(format!("{:?}: condition parsed as {:?}", s, got.text()));
    }
    let got = from_samples(&r.samples);
    compare_samples(&s, &got, &c.samples, log)?;
    if r.samples.is_some() != log.nontrivial {
        return Err(format!("{:?}: samples {:?}", s, r.samples));
    }
    Ok(())
}

/// Exact comparison; the one listed deviation (leading zeros of a sample's fraction are lost) is counted.
fn compare_samples(text: &str, got: &Samples, want: &Samples, log: &mut Log) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let lossy = Samples { integer: want.integer.as_ref().map(bare_list), decimal: want.decimal.as_ref().map(bare_list) };
    if *got == lossy && fraction_zeros_listed() {
        log.known.push((FRACTION_ZEROS.to_string(), format!("{:?}", text)));
        return Ok(());
    }
    Err(format!("{:?}: samples parsed as {:?}, written {:?}", text, got, want))
}

const FRACTION_ZEROS: &str = "leading zeros of a sample's fraction are lost: 1.05 is read as 1.5";

fn fraction_zeros_listed() -> bool {
    static LISTED: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *LISTED.get_or_init(|| {
        crate::intl::known_file()["findings"].as_array().unwrap().iter().any(|f| f["property"] == "C11" && f["shape"] == "sample-fraction-zeros")
    })
}

/// Reads the published CLDR rules with the harness's own reader, for comparison with the parser's tree.
fn own_samples(text: &str) -> Samples {
    let mut out = Samples::default();
    for part in text.split('@').skip(1) {
        let (name, body) = part.split_at(7);
        let mut l = SList { ranges: vec![], ellipsis: false };
        for it in body.split(',') {
            let it = it.trim();
            if it == "…" || it == "..." {
                l.ellipsis = true;
                continue;
            }
            let d = |x: &str| match x.split_once('.') {
                Some((a, b)) => Dec { int: a.parse().unwrap(), frac: Some(b.to_string()) },
                None => Dec { int: x.parse().unwrap(), frac: None },
            };
            l.ranges.push(match it.split_once('~') {
                Some((a, b)) => (d(a), Some(d(b))),
                None => (d(it), None),
            });
        }
        if name == "integer" {
            out.integer = Some(l);
        } else {
            out.decimal = Some(l);
        }
    }
    out
}

pub fn cldr_rule_texts() -> Vec<String> {
    let mut v = vec![];
    for f in ["data/cldr37_cardinals.json", "data/cldr37_ordinals.json"] {
        let t = std::fs::read_to_string(root().join(f)).expect("HARNESS: frozen CLDR data");
        let j: serde_json::Value = serde_json::from_str(&t).expect("HARNESS: frozen CLDR data");
        for (k, t) in j["supplemental"].as_object().unwrap() {
            if k.starts_with("plurals-type") {
                for rules in t.as_object().unwrap().values() {
                    for text in rules.as_object().unwrap().values() {
                        v.push(text.as_str().unwrap().to_string());
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("random rules (with and without condition, with integer, decimal, both or no samples, both ellipsis spellings) printed with random layout, parsed and compared; every distinct rule text of CLDR 37; non-trivial = has samples");
    let texts = cldr_rule_texts();
    ctx.sweep(
        "cldr_rules",
        texts.len() as u64,
        |k| json!(texts[k as usize]),
        |k, log| {
            let t = &texts[k as usize];
            log.nontrivial = t.contains('@');
            let r = guard(|| parse_plural_rule(t)).map_err(|p| format!("{:?}: panic: {}", t, p))?.map_err(|e| format!("{:?}: {}", t, e))?;
            let want = own_samples(t);
            let got = from_samples(&r.samples);
            compare_samples(t, &got, &want, log)?;
            let want = parse_cond(t).expect("HARNESS: condition");
            if from_condition(&r.condition) != want {
                return Err(format!("{:?}: condition parsed as {:?}", t, from_condition(&r.condition).text()));
            }
            Ok(())
        },
    );
    ctx.prop("random", ctx.n(1_200_000, 16_000_000), rule_case, |c, log| rule_exact(c, log));
    ctx.prop("large", ctx.n(400, 8_000), large_case, |l, log| {
        log.class(l.size_class());
        rule_exact(&l.rule(), log).map_err(|e| short(&e))
    });
}

// ---------------------------------------------------------------- C12

/// Text up to blanks, leading zeros and spelling synonyms.
fn norm(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut k = 0;
    let mut gap = false;
    while k < cs.len() {
        let c = cs[k];
        if c.is_whitespace() {
            gap = true;
            k += 1;
        } else if c.is_ascii_digit() {
            if gap && out.ends_with(|c: char| c.is_ascii_digit()) {
                out.push('_');
            }
            let st = k;
            while k < cs.len() && cs[k].is_ascii_digit() {
                k += 1;
            }
            let run: String = cs[st..k].iter().collect();
            out.push_str(&bare(&run));
            gap = false;
        } else {
            match c {
                '…' => out.push_str("..."),
                _ => out.push(c),
            }
            gap = false;
            k += 1;
        }
    }
    out.replace("mod", "%")
}

fn well_formed(c: &Cond) -> bool {
    c.0.iter().all(|a| !a.is_empty() && a.iter().all(|r| !r.items.is_empty()))
}

fn print_rule(cond: &Cond, samples: &Samples) -> String {
    let mut s = String::new();
    print_cond(cond, &mut Layout::new(&[]), &mut s);
    print_samples(samples, &mut Layout::new(&[]), &mut s);
    s
}

fn judge_rule_text(s: &str, log: &mut Log) -> Result<(), String> {
    let r = guard(|| parse_plural_rule(s)).map_err(|p| format!("{:?}: panic: {}", s, p))?;
    match r {
        Err(_) => log.class("rejected"),
        Ok(r) => {
            log.class("accepted");
            let cond = from_condition(&r.condition);
            let back = print_rule(&cond, &from_samples(&r.samples));
            if norm(&back) != norm(s) {
                return Err(format!("{:?} is accepted but read as {:?}", s, back));
            }
            if !well_formed(&cond) {
                return Err(format!("{:?} is accepted with an incomplete relation: {:?}", s, r.condition));
            }
            let lists = r.samples.iter().flat_map(|x| x.integer.iter().chain(x.decimal.iter()));
            if lists.into_iter().any(|l| l.sample_ranges.is_empty()) {
                return Err(format!("{:?} is accepted with an empty list of samples", s));
            }
            if r.samples.as_ref().map_or(false, |x| x.integer.is_none() && x.decimal.is_none()) {
                return Err(format!("{:?}: samples invented: {:?}", s, r.samples));
            }
        }
    }
    Ok(())
}

const TOKENS: [&str; 24] = [
    "n", "i", " ", "=", "!=", "%", "mod", "is", "not", "in", "within", "1", "20", "..", ",", "and", "or", "@integer", "@decimal",
    "~", "…", "...", ".", "\t",
];

fn nth_tokens(mut k: u64, len: u32) -> String {
    (0..len)
        .map(|_| {
            let t = TOKENS[(k % 24) as usize];
            k /= 24;
            t
        })
        .collect()
}

/// Valid rules with random damage, token soups, and plain noise.
fn any_rule_text() -> BoxedStrategy<String> {
    let damaged = (rule_case(), prop::collection::vec((any::<prop::sample::Index>(), 0u8..9, 0usize..TOKENS.len(), any::<char>()), 0..4)).prop_map(|(c, edits)| {
        let mut t: Vec<char> = c.text().chars().collect();
        for (ix, how, tok, ch) in edits {
            if t.is_empty() {
                t.extend(TOKENS[tok].chars());
                continue;
            }
            let k = ix.index(t.len());
            match how {
                0 => {
                    t.remove(k);
                }
                1 => t.insert(k, ch),
                2 => t[k] = ch,
                3 => t.truncate(k),
                4 => {
                    for x in TOKENS[tok].chars().rev() {
                        t.insert(k, x);
                    }
                }
                5 => {
                    let tail: Vec<char> = t[k..].to_vec();
                    t.extend(tail);
                }
                6 => t.insert(k, ' '),
                7 => {
                    t.drain(..k);
                }
                _ => {
                    let d = t[k];
                    t.insert(k, d);
                }
            }
        }
        t.into_iter().collect::<String>()
    });
    // a literal of the sources somewhere in a rule
    let literal = (rule_case(), crate::dict::string(), any::<prop::sample::Index>(), 0u8..6).prop_map(|(c, lit, ix, how)| {
        let t = c.text();
        let ends: Vec<usize> = t.char_indices().map(|(k, _)| k).chain([t.len()]).collect();
        let gaps: Vec<usize> = t.char_indices().filter(|(_, c)| *c == ' ').map(|(k, _)| k).chain([t.len()]).collect();
        let k = if how < 3 { *ix.get(&gaps) } else { *ix.get(&ends) };
        let (a, b) = t.split_at(k);
        match how {
            0 => format!("{} {}{}", a, lit, b),
            1 => format!("{}{} {}", a, lit, b),
            2 => format!("{}{}", a, lit),
            3 => format!("{}{}", lit, b),
            4 => lit,
            _ => format!("{}{}{}", a, lit, b),
        }
    });
    let glued = (rule_case(), 0usize..6, rule_case()).prop_map(|(a, j, b)| {
        format!("{}{}{}", a.text(), ["", " ", " and ", " or ", ",", " , "][j], b.text())
    });
    prop_oneof![
        6 => damaged,
        2 => glued,
        1 => literal,
        3 => prop::collection::vec(prop::sample::select(TOKENS.to_vec()), 0..14).prop_map(|v| v.concat()),
        2 => prop::collection::vec(prop::sample::select(TOKENS.to_vec()), 0..14).prop_map(|v| v.join(" ")),
        1 => "\\PC{0,20}",
        1 => any::<String>(),
        1 => "[nivwft] ?(=|!=|% ?10 =) ?[0-9,. ~@…]{0,20}",
    ]
    .boxed()
}

/// Every single-character edit of a few rules: at every position, every ASCII character and some others is
/// inserted or put in place.
struct OneEdit {
    chars: Vec<char>,
    starts: Vec<u64>,
}

const EDITED: [&str; 12] = [
    "n = 1",
    "n % 10 = 3..4,9 @integer 3, 4, 9, 13, 14, 19, …",
    "i mod 100 is not 12 or v != 0",
    "n not in 1,2..3 and f within 0..5",
    "t not within 2..3",
    "n in 1 @decimal 1.0, 1.1~1.5, ...",
    "i = 0 or n = 1 @integer 0, 1 @decimal 0.0~1.0, 0.00~0.04",
    "w is 2",
    " @integer 2~17, 100 @decimal 1.1~2.6, 10.0, …",
    "@integer 1",
    "",
    "n=1,2,3",
];

impl OneEdit {
    fn new() -> OneEdit {
        let mut chars: Vec<char> = (0u8..128).map(|c| c as char).collect();
        chars.extend("\u{a0}\u{2003}\u{3000}\u{200b}\u{feff}\u{85}…‥・،，٣५é\u{10ffff}".chars());
        let mut starts = vec![0];
        for t in EDITED {
            starts.push(starts.last().unwrap() + (t.chars().count() as u64 + 1) * chars.len() as u64 * 2);
        }
        OneEdit { chars, starts }
    }
    fn total(&self) -> u64 {
        *self.starts.last().unwrap()
    }
    fn text(&self, k: u64) -> String {
        let b = self.starts.iter().rposition(|s| *s <= k).unwrap();
        let mut k = k - self.starts[b];
        let mut t: Vec<char> = EDITED[b].chars().collect();
        let replace = k % 2 == 1;
        k /= 2;
        let c = self.chars[(k % self.chars.len() as u64) as usize];
        let at = (k / self.chars.len() as u64) as usize;
        if replace && at < t.len() {
            t[at] = c;
        } else {
            t.insert(at, c);
        }
        t.into_iter().collect()
    }
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("valid rules with 0-3 random edits, two rules glued together, random token sequences, random text, every single-character edit of twelve rules, texts of up to a megabyte, and every token sequence of up to 4 (thorough: 5) tokens behind five prefixes; non-trivial = accepted, or rejected but starting with an operand or sample marker");
    ctx.assume("the print-back is compared up to blanks, leading zeros of digit runs, mod/% and …/...");
    let maxlen = ctx.n(4, 5) as u32;
    let prefixes = ["", "n = 1", "n ", "@integer 1", "i % 10 != 2..3 @integer 1~2, …"];
    let per: u64 = (0..=maxlen).map(|l| 24u64.pow(l)).sum();
    let nth = |k: u64| -> String {
        let p = prefixes[(k % prefixes.len() as u64) as usize];
        let mut k = k / prefixes.len() as u64;
        let mut len = 0;
        while k >= 24u64.pow(len) {
            k -= 24u64.pow(len);
            len += 1;
        }
        format!("{}{}", p, nth_tokens(k, len))
    };
    let near = |s: &str| s.trim_start().starts_with(|c: char| "nivwft@".contains(c));
    ctx.sweep(
        "token_sequences",
        per * prefixes.len() as u64,
        |k| json!(nth(k)),
        |k, log| {
            let s = nth(k);
            log.nontrivial = near(&s);
            log.note = Some(s.clone());
            let r = judge_rule_text(&s, log);
            if r.is_err() {
                log.minimal = Some(("random".into(), json!(s)));
            }
            r
        },
    );
    let one = OneEdit::new();
    ctx.sweep(
        "one_edit",
        one.total(),
        |k| json!(one.text(k)),
        |k, log| {
            let s = one.text(k);
            log.nontrivial = near(&s);
            let r = judge_rule_text(&s, log);
            if r.is_err() {
                log.minimal = Some(("random".into(), json!(s)));
            }
            r
        },
    );
    ctx.prop("random", ctx.n(2_000_000, 30_000_000), any_rule_text, |s, log| {
        log.nontrivial = near(s);
        judge_rule_text(s, log)
    });
    // big texts: valid, cut short, or with one character changed
    ctx.prop(
        "large",
        ctx.n(800, 16_000),
        damaged_large,
        |d, log| {
            log.nontrivial = true;
            log.class(d.large.size_class());
            judge_rule_text(&d.text(), log).map_err(|e| short(&e))
        },
    );
}

// ---------------------------------------------------------------- C13

fn judge_agreement(s: &str, log: &mut Log) -> Result<(), String> {
    let r = guard(|| parse_plural_rule(s)).map_err(|p| format!("{:?}: panic: {}", s, p))?;
    let c = guard(|| parse_plural_condition(s)).map_err(|p| format!("{:?}: panic in condition parsing: {}", s, p))?;
    log.extra_evals = 1;
    log.class(match (r.is_ok(), c.is_ok()) {
        (true, true) => "both accept",
        (false, true) => "only the condition is accepted",
        (true, false) => "only the rule is accepted",
        _ => "both reject",
    });
    match (&r, &c) {
        (Ok(r), Ok(c)) if r.condition != *c => {
            return Err(format!("{:?}: rule parsing gives {:?}, condition parsing {:?}", s, from_condition(&r.condition).text(), from_condition(c).text()))
        }
        (Ok(_), Err(e)) => return Err(format!("{:?}: rule parsing succeeds, condition parsing fails: {}", s, e)),
        (Err(e), Ok(c)) if !s.contains('@') && s.trim() == s => {
            return Err(format!("{:?}: condition parsing gives {:?}, rule parsing fails: {}", s, from_condition(c).text(), e))
        }
        _ => {}
    }
    if let Ok(c) = &c {
        let head = s.split('@').next().unwrap();
        let cond = from_condition(c);
        let back = print_rule(&cond, &Samples::default());
        if norm(&back) != norm(head) {
            return Err(format!("{:?}: condition parsing returns {:?} for {:?}", s, back, head));
        }
        if !well_formed(&cond) {
            return Err(format!("{:?}: condition parsing returns an incomplete relation: {:?}", s, c));
        }
    }
    Ok(())
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("the texts of C12 given to both entry points, valid rules with and without their samples, and every CLDR rule; non-trivial = at least one entry point accepts, or the text starts with an operand or sample marker");
    ctx.assume("after the first @ only the full parser decides; blanks around the whole condition are left open");
    let near = |s: &str| s.trim_start().starts_with(|c: char| "nivwft@".contains(c));
    let texts = cldr_rule_texts();
    ctx.sweep("cldr_rules", texts.len() as u64, |k| json!(texts[k as usize]), |k, log| {
        let t = &texts[k as usize];
        log.nontrivial = true;
        let c = guard(|| parse_plural_condition(t)).map_err(|p| format!("{:?}: panic: {}", t, p))?.map_err(|e| format!("{:?}: {}", t, e))?;
        if from_condition(&c) != parse_cond(t).expect("HARNESS: condition") {
            return Err(format!("{:?}: condition parsed as {:?}", t, from_condition(&c).text()));
        }
        judge_agreement(t, log)
    });
    let maxlen = ctx.n(3, 4) as u32;
    let prefixes = ["", "n = 1", "n ", "n = 1 and ", "n = 1 @integer 1"];
    let per: u64 = (0..=maxlen).map(|l| 24u64.pow(l)).sum();
    let nth = |k: u64| -> String {
        let p = prefixes[(k % prefixes.len() as u64) as usize];
        let mut k = k / prefixes.len() as u64;
        let mut len = 0;
        while k >= 24u64.pow(len) {
            k -= 24u64.pow(len);
            len += 1;
        }
        format!("{}{}", p, nth_tokens(k, len))
    };
    ctx.sweep("token_sequences", per * prefixes.len() as u64, |k| json!(nth(k)), |k, log| {
        let s = nth(k);
        log.nontrivial = near(&s);
        let r = judge_agreement(&s, log);
        if r.is_err() {
            log.minimal = Some(("damaged".into(), json!(s)));
        }
        r
    });
    ctx.prop("valid", ctx.n(300_000, 6_000_000), rule_case, |c, log| {
        let s = c.text();
        log.nontrivial = true;
        let got = guard(|| parse_plural_condition(s.as_str())).map_err(|p| format!("{:?}: panic: {}", s, p))?;
        let got = got.map_err(|e| format!("{:?} is a well-formed rule, condition parsing fails: {}", s, e))?;
        if from_condition(&got) != c.cond {
            return Err(format!("{:?}: condition parsing gives {:?}", s, from_condition(&got).text()));
        }
        log.note = Some(s.clone());
        judge_agreement(&s, log)
    });
    let one = OneEdit::new();
    ctx.sweep(
        "one_edit",
        one.total(),
        |k| json!(one.text(k)),
        |k, log| {
            let s = one.text(k);
            log.nontrivial = near(&s);
            let r = judge_agreement(&s, log);
            if r.is_err() {
                log.minimal = Some(("damaged".into(), json!(s)));
            }
            r
        },
    );
    ctx.prop("damaged", ctx.n(2_000_000, 30_000_000), any_rule_text, |s, log| {
        log.nontrivial = near(s);
        judge_agreement(s, log)
    });
    ctx.prop("large", ctx.n(400, 8_000), damaged_large, |d, log| {
        log.nontrivial = true;
        log.class(d.large.size_class());
        judge_agreement(&d.text(), log).map_err(|e| short(&e))
    });
}
