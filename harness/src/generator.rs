//! Checks of the make_pluralrules crate and tool (C14-C19).
use crate::framework::*;
use crate::gen::*;
use crate::oracle::*;
use crate::tool::*;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::TestRunner;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- data sets

/// The rules of one locale for one type.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rules(pub Vec<(Cat, Cond)>);

/// Locale -> rules; None when the type is absent from the data.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Data {
    pub version: String,
    pub cardinal: Option<BTreeMap<String, Rules>>,
    pub ordinal: Option<BTreeMap<String, Rules>>,
}

fn rules_json(r: &Rules, other: bool) -> Value {
    let mut m = serde_json::Map::new();
    for (c, k) in &r.0 {
        m.insert(format!("pluralRule-count-{}", c.name()), json!(format!("{} @integer 1, 3~5, …", k.text())));
    }
    if other {
        m.insert("pluralRule-count-other".into(), json!(" @integer 0, 2~16, 100, … @decimal 0.0~0.9, 1.1~1.6, …"));
    }
    Value::Object(m)
}

fn type_json(t: &BTreeMap<String, Rules>) -> Value {
    Value::Object(t.iter().map(|(l, r)| (l.clone(), rules_json(r, true))).collect())
}

pub fn data_json(d: &Data) -> Value {
    let mut s = serde_json::Map::new();
    s.insert("version".into(), json!({"_unicodeVersion": "13.0.0", "_cldrVersion": d.version}));
    if let Some(c) = &d.cardinal {
        s.insert("plurals-type-cardinal".into(), type_json(c));
    }
    if let Some(o) = &d.ordinal {
        s.insert("plurals-type-ordinal".into(), type_json(o));
    }
    json!({ "supplemental": Value::Object(s) })
}

// ---------------------------------------------------------------- generators

fn small_or_big(lim: u64) -> BoxedStrategy<u64> {
    prop_oneof![
        8 => 0u64..=20,
        4 => 0u64..=130,
        1 => prop::sample::select(vec![100u64, 1000, 10_000, 100_000, 1_000_000, 2_000_000]),
        1 => int_part().prop_map(move |x| x % lim),
        1 => crate::dict::int().prop_map(move |x| x % lim),
    ]
    .boxed()
}

const EXACT: u64 = 1 << 53;

fn gen_rel(quirky: bool) -> BoxedStrategy<Rel> {
    let operand = prop_oneof![5 => Just('n'), 5 => Just('i'), 2 => Just('v'), 2 => Just('w'), 3 => Just('f'), 3 => Just('t')];
    let modulus = prop::option::weighted(
        0.45,
        prop_oneof![
            6 => prop::sample::select(vec![2u64, 3, 4, 5, 7, 8, 10, 10, 10, 100, 100, 1000, 100_000, 1_000_000]),
            1 => 1u64..=30,
            1 => int_part().prop_map(|x| x % EXACT + 1),
            1 => crate::dict::int().prop_map(|x| (x % EXACT).max(1)),
        ],
    );
    let op = prop_oneof![
        5 => Just(Op::Eq), 5 => Just(Op::Ne), 2 => Just(Op::In), 2 => Just(Op::NotIn), 3 => Just(Op::Within),
        2 => Just(Op::NotWithin), 1 => Just(Op::Is), 1 => Just(Op::IsNot)
    ];
    let item = prop_oneof![
        12 => small_or_big(EXACT).prop_map(Item::V),
        8 => (small_or_big(EXACT), small_or_big(1000)).prop_map(|(a, d)| Item::R(a, a + d)),
        1 => int_part().prop_map(Item::V),
        1 => (int_part(), small_or_big(1000)).prop_map(|(a, d)| Item::R(a, a.saturating_add(d))),
    ];
    (operand, modulus, op, prop_oneof![12 => prop::collection::vec(item.clone(), 1..=1), 8 => prop::collection::vec(item.clone(), 1..=4), 1 => prop::collection::vec(item, 5..=24)])
        .prop_map(move |(operand, modulus, op, mut items)| {
            if matches!(op, Op::Is | Op::IsNot) {
                items = vec![match items[0] {
                    Item::V(v) => Item::V(v),
                    Item::R(a, _) => Item::V(a),
                }];
            }
            // Most values should be reachable: below the modulus, and few digits for v and w.
            for it in items.iter_mut() {
                let cut = |x: u64| match (modulus, operand) {
                    (_, 'v') | (_, 'w') => x % 6,
                    // n is a double: no literals that it cannot hold
                    (None, 'n') => x % EXACT,
                    (Some(m), _) if m > 1 => x % (m + m / 4),
                    _ => x,
                };
                *it = match *it {
                    Item::V(v) => Item::V(cut(v)),
                    Item::R(a, b) => {
                        let (a, b) = (cut(a), cut(b));
                        Item::R(a.min(b), a.max(b))
                    }
                };
            }
            let mut r = Rel { operand, modulus, op, items };
            if !quirky && quirk_of(&r).is_some() {
                // the nearest shape without a listed defect
                if r.op == Op::NotWithin {
                    r.op = Op::Ne;
                }
                if r.operand == 'n' && quirk_of(&r).is_some() {
                    r.operand = 'i';
                }
            }
            r
        })
        .boxed()
}

fn gen_cond(quirky: bool) -> BoxedStrategy<Cond> {
    prop_oneof![
        2 => prop::collection::vec(prop::collection::vec(gen_rel(quirky), 1..=1), 1..=1),
        4 => prop::collection::vec(prop::collection::vec(gen_rel(quirky), 1..=3), 1..=3),
        1 => prop::collection::vec(prop::collection::vec(gen_rel(quirky), 1..=7), 1..=9),
    ]
    .prop_map(Cond)
    .boxed()
}

pub fn gen_rules() -> BoxedStrategy<Rules> {
    let of = |q: bool| {
        prop_oneof![
            3 => (prop::sample::subsequence(CATS.to_vec(), 1..=1), prop::collection::vec(gen_cond(q), 5)),
            2 => (prop::sample::subsequence(CATS.to_vec(), 2..=5), prop::collection::vec(gen_cond(q), 5)),
        ]
    };
    prop_oneof![7 => of(false), 3 => of(true)].prop_map(|(cats, conds)| Rules(cats.into_iter().zip(conds).collect())).boxed()
}

/// Numbers at and next to every constant of the rules.
pub fn targeted(r: &Rules, runner: &mut TestRunner) -> Vec<Ops> {
    let mut out: Vec<Numeral> = vec![];
    let pick = |runner: &mut TestRunner, n: u64| -> u64 { (0..n.max(1)).new_tree(runner).unwrap().current() };
    for rel in r.0.iter().flat_map(|(_, c)| c.0.iter().flatten()) {
        for it in &rel.items {
            let ends = match it {
                Item::V(v) => vec![*v],
                Item::R(a, b) => vec![*a, *b, a / 2 + b / 2 + (a & b & 1)],
            };
            for e in ends {
                for d in [0i64, -1, 1] {
                    let Some(x) = e.checked_add_signed(d) else { continue };
                    let mut xs = vec![x];
                    if let Some(m) = rel.modulus {
                        for _ in 0..2 {
                            let k = pick(runner, 2000) + 1;
                            if let Some(y) = m.checked_mul(k).and_then(|y| y.checked_add(x)) {
                                if y < EXACT {
                                    xs.push(y);
                                }
                            }
                        }
                    }
                    for x in xs {
                        match rel.operand {
                            'n' | 'i' => {
                                out.push(Numeral::int(x));
                                let room = 15usize.saturating_sub(x.to_string().len());
                                if room >= 3 {
                                    let f = ["0", "00", "5", "05", "50", "10", "1", "001"][pick(runner, 8) as usize];
                                    out.push(Numeral { int: x.to_string(), frac: Some(f.into()) });
                                }
                            }
                            'f' | 't' => {
                                let i = pick(runner, 12);
                                let lead = pick(runner, 3) as usize;
                                let tail = if rel.operand == 't' { pick(runner, 3) as usize } else { 0 };
                                let f = format!("{}{}{}", "0".repeat(lead), x, "0".repeat(tail));
                                if f.len() <= 13 {
                                    out.push(Numeral { int: i.to_string(), frac: Some(f) });
                                }
                            }
                            _ => {
                                if x <= 12 {
                                    let i = pick(runner, 12);
                                    let digits: String = (0..x).map(|_| (b'0' + pick(runner, 10) as u8) as char).collect();
                                    let tail = if rel.operand == 'w' { pick(runner, 3) as usize } else { 0 };
                                    let f = format!("{}{}", digits, "0".repeat(tail));
                                    out.push(Numeral { int: i.to_string(), frac: if f.is_empty() { None } else { Some(f) } });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // a fair share of every relation when there are many
    let skip = (out.len() + 239) / 240;
    let first = pick(runner, skip as u64) as usize;
    let out: Vec<Numeral> = out.into_iter().skip(first).step_by(skip.max(1)).collect();
    out.iter().filter_map(|n| n.ops()).collect()
}

pub fn pool(runner: &mut TestRunner, n: usize) -> Vec<Ops> {
    let mut v: Vec<Ops> = (0..40u64).chain([99, 100, 101, 102, 111, 112, 1000, 1001, 10_000, 100_000, 1_000_000, 1_000_001]).map(Ops::integral).collect();
    for i in 0..14u64 {
        for f in ["0", "1", "5", "00", "10", "01", "11", "50"] {
            v.push(Numeral { int: i.to_string(), frac: Some(f.into()) }.ops().unwrap());
        }
    }
    let s = exact_numeral();
    while v.len() < n {
        let o = s.new_tree(runner).unwrap().current().ops().unwrap();
        v.push(o);
    }
    v
}

// ---------------------------------------------------------------- C14

const QUIRKS: [&str; 4] = ["n-mod-range", "n-mod-fraction", "n-not-range", "not-within-range"];

fn listed_shapes() -> BTreeSet<String> {
    crate::intl::known_file()["findings"]
        .as_array()
        .unwrap()
        .iter()
        .filter(|f| f["property"] == "C14")
        .filter_map(|f| f["shape"].as_str().map(|s| s.to_string()))
        .collect()
}

enum Verdict {
    Fine,
    Known(&'static str),
    Bad(String),
}

fn judge(r: &Rules, o: &Ops, got: Option<Cat>, listed: &BTreeSet<String>) -> Verdict {
    let Some(got) = got else { return Verdict::Bad(format!("number {}: the generated rule gives no category", o.numeral().text())) };
    let accept = |truth: &dyn Fn(&Cond) -> bool| -> bool {
        if got == Cat::Other {
            !r.0.iter().any(|(_, c)| truth(c))
        } else {
            r.0.iter().any(|(k, c)| *k == got && truth(c))
        }
    };
    if accept(&|c| eval_cond(c, o)) {
        return Verdict::Fine;
    }
    let used: Vec<&'static str> = QUIRKS
        .iter()
        .copied()
        .filter(|q| listed.contains(*q) && r.0.iter().any(|(_, c)| c.0.iter().flatten().any(|r| quirk_of(r) == Some(q))))
        .collect();
    for set in 1..(1usize << used.len()) {
        let on: Vec<&str> = used.iter().enumerate().filter(|(k, _)| set >> k & 1 == 1).map(|(_, q)| *q).collect();
        if accept(&|c| eval_cond_quirk(c, o, &|r| on.contains(&quirk_of(r).unwrap()))) {
            return Verdict::Known(QUIRKS.iter().copied().find(|q| on.contains(q)).unwrap());
        }
    }
    let truths: Vec<&str> = r.0.iter().filter(|(_, c)| eval_cond(c, o)).map(|(k, _)| k.name()).collect();
    Verdict::Bad(format!(
        "number {}: the generated rule gives {}, the conditions true of it are {:?}; rules: {}",
        o.numeral().text(),
        got.name(),
        truths,
        show_rules(r)
    ))
}

fn show_rules(r: &Rules) -> String {
    r.0.iter().map(|(k, c)| format!("{}: {}", k.name(), c.text())).collect::<Vec<_>>().join("; ")
}

fn tag(k: usize) -> String {
    // 3-letter languages starting with q, then r, ...
    let l = |x: usize| (b'a' + (x % 26) as u8) as char;
    format!("{}{}{}", l(16 + k / 676), l(k / 26), l(k))
}

/// Generates and compiles one file with the given rule sets (one locale each; the types alternate).
struct Built {
    _dir: Scratch,
    bin: PathBuf,
    n: usize,
}

fn build(rules: &[Rules]) -> Result<Built, String> {
    let dir = Scratch::new();
    let mut d = Data { version: "37".into(), cardinal: Some(BTreeMap::new()), ordinal: Some(BTreeMap::new()) };
    for (k, r) in rules.iter().enumerate() {
        let t = if k % 2 == 0 { d.cardinal.as_mut() } else { d.ordinal.as_mut() };
        t.unwrap().insert(tag(k), r.clone());
    }
    std::fs::write(dir.file("in.json"), data_json(&d).to_string()).expect("HARNESS: write");
    let run = run_tool(&dir.0, &["-i".into(), "in.json".into(), "-o".into(), "gen.rs".into()]);
    if !run.ok {
        return Err(format!("the tool fails: {}", run.message));
    }
    let bin = compile(&dir.0, &[dir.file("gen.rs")]).map_err(|e| format!("the generated file does not compile: {}", e))?;
    Ok(Built { _dir: dir, bin, n: rules.len() })
}

/// Categories for each rule set on its own operand list.
fn evaluate(b: &Built, ops: &[Vec<Ops>]) -> Vec<Vec<Option<Cat>>> {
    let mut q = String::new();
    for k in 0..b.n {
        q.push_str(&format!("M 0 {} {}\n", k % 2, tag(k)));
        for o in &ops[k] {
            q.push_str(&operand_line(o));
        }
        q.push_str("E\n");
    }
    let lines = query(&b.bin, &q);
    (0..b.n)
        .map(|k| {
            let l: Vec<char> = lines.get(k).map(|l| l.chars().collect()).unwrap_or_default();
            if l.len() != ops[k].len() {
                return vec![None; ops[k].len()];
            }
            l.into_iter().map(from_letter).collect()
        })
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GenCase {
    rules: Rules,
    number: Numeral,
}

/// All one-step simplifications.
fn simpler(r: &Rules) -> Vec<Rules> {
    let mut out = vec![];
    for k in 0..r.0.len() {
        if r.0.len() > 1 {
            let mut x = r.clone();
            x.0.remove(k);
            out.push(x);
        }
        let c = &r.0[k].1;
        for a in 0..c.0.len() {
            if c.0.len() > 1 {
                let mut x = r.clone();
                x.0[k].1 .0.remove(a);
                out.push(x);
            }
            for b in 0..c.0[a].len() {
                if c.0[a].len() > 1 {
                    let mut x = r.clone();
                    x.0[k].1 .0[a].remove(b);
                    out.push(x);
                }
                let rel = &c.0[a][b];
                let mut with = |n: Rel| {
                    if n != *rel {
                        let mut x = r.clone();
                        x.0[k].1 .0[a][b] = n;
                        out.push(x);
                    }
                };
                for i in 0..rel.items.len() {
                    if rel.items.len() > 1 {
                        let mut n = rel.clone();
                        n.items.remove(i);
                        with(n);
                    }
                    match rel.items[i] {
                        Item::V(v) => {
                            for s in [0, 1, v / 2] {
                                if s < v {
                                    let mut n = rel.clone();
                                    n.items[i] = Item::V(s);
                                    with(n);
                                }
                            }
                        }
                        Item::R(x, y) => {
                            for (s, t) in [(0, y), (x, x), (x, x + 1), (x / 2, y), (x, (x + y) / 2)] {
                                if (s, t) < (x, y) {
                                    let mut n = rel.clone();
                                    n.items[i] = Item::R(s, t);
                                    with(n);
                                }
                            }
                        }
                    }
                }
                if let Some(m) = rel.modulus {
                    let mut n = rel.clone();
                    n.modulus = None;
                    with(n);
                    if m != 10 {
                        let mut n = rel.clone();
                        n.modulus = Some(10);
                        with(n);
                    }
                }
            }
        }
    }
    out
}

fn size(r: &Rules) -> (usize, usize) {
    let t = show_rules(r);
    (r.0.iter().map(|(_, c)| c.0.iter().flatten().count()).sum(), t.len())
}

/// The violating number among `ops`, smallest text first.
fn first_bad(r: &Rules, ops: &[Ops], got: &[Option<Cat>], listed: &BTreeSet<String>) -> Option<(Ops, String)> {
    ops.iter()
        .zip(got)
        .filter_map(|(o, g)| match judge(r, o, *g, listed) {
            Verdict::Bad(e) => Some((*o, e)),
            _ => None,
        })
        .min_by_key(|(o, _)| o.numeral().text().len())
}

fn shrink_gen(mut r: Rules, mut bad: (Ops, String), listed: &BTreeSet<String>, runner: &mut TestRunner) -> (GenCase, String) {
    let t0 = std::time::Instant::now();
    let base = pool(runner, 300);
    for _ in 0..40 {
        if t0.elapsed().as_secs() > 90 {
            break;
        }
        let mut cands = simpler(&r);
        cands.sort_by_key(size);
        cands.truncate(120);
        if cands.is_empty() {
            break;
        }
        let ops: Vec<Vec<Ops>> = cands
            .iter()
            .map(|c| {
                let mut v = base.clone();
                v.push(bad.0);
                v.extend(targeted(c, runner));
                v
            })
            .collect();
        let Ok(b) = build(&cands) else { break };
        let got = evaluate(&b, &ops);
        let found = cands.iter().enumerate().find_map(|(k, c)| first_bad(c, &ops[k], &got[k], listed).map(|x| (c.clone(), x)));
        match found {
            Some((c, x)) => {
                r = c;
                bad = x;
            }
            None => break,
        }
    }
    (GenCase { rules: r, number: bad.0.numeral() }, bad.1)
}

/// The smallest single rule set that does not build.
fn shrink_build(mut sets: Vec<Rules>) -> (Vec<Rules>, String) {
    let mut err = build(&sets).err().unwrap_or_default();
    while sets.len() > 1 {
        let (a, b) = sets.split_at(sets.len() / 2);
        let (a, b) = (a.to_vec(), b.to_vec());
        if let Some(e) = build(&a).err() {
            sets = a;
            err = e;
        } else if let Some(e) = build(&b).err() {
            sets = b;
            err = e;
        } else {
            break;
        }
    }
    let t0 = std::time::Instant::now();
    'outer: while sets.len() == 1 && t0.elapsed().as_secs() < 60 {
        let mut cands = simpler(&sets[0]);
        cands.sort_by_key(size);
        for c in cands.into_iter().take(40) {
            if let Some(e) = build(&[c.clone()]).err() {
                sets = vec![c];
                err = e;
                continue 'outer;
            }
        }
        break;
    }
    (sets, err)
}

fn known_text(q: &str) -> String {
    match q {
        "n-mod-range" => "relations 'n % m = a..b' lose the modulus and the fraction condition".into(),
        "n-mod-fraction" => "relations 'n % m = v' (and within) ignore the fraction of n".into(),
        "n-not-range" => "relations 'n != a..b' are false for every number with a fraction".into(),
        "not-within-range" => "relations 'x not within a..b' are never true".into(),
        _ => q.into(),
    }
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("random rule sets (1-5 categories, conditions of up to 3x3 relations over all operands, operators, moduli, values and ranges) go through the tool and rustc in files of 120 locales; each compiled rule is run on a common pool of numbers plus numbers next to its own constants; evaluations = rule x number; a rule x number pair is non-trivial when the rule has a condition and the pair is distinct");
    ctx.assume("constants are below 2^53 and moduli at least 1; numbers with a fraction have at most 15 significant digits; 'is' takes single values");
    ctx.assume("the default (formatted) output is compiled; the raw output is compiled in the sub-check `raw`");
    let listed = listed_shapes();
    if let Some((sub, v)) = &ctx.replay {
        ctx.mark_replayed();
        match sub.as_str() {
            "random" => {
                let c: GenCase = serde_json::from_value(v.clone()).expect("HARNESS: replay value");
                match build(&[c.rules.clone()]) {
                    Err(e) => ctx.violate("random", v.clone(), e),
                    Ok(b) => {
                        let ops = vec![vec![c.number.ops().expect("HARNESS: number")]];
                        let got = evaluate(&b, &ops);
                        if let Some((_, e)) = first_bad(&c.rules, &ops[0], &got[0], &listed) {
                            ctx.violate("random", v.clone(), e);
                        }
                    }
                }
            }
            "build" => {
                let c: Vec<Rules> = serde_json::from_value(v.clone()).expect("HARNESS: replay value");
                if let Err(e) = build(&c) {
                    ctx.violate("build", v.clone(), e);
                }
            }
            _ => raw_check(ctx),
        }
        return;
    }
    let files = ctx.n(72, 1200);
    let next = AtomicU64::new(0);
    let first: Mutex<Option<(u64, Rules, (Ops, String))>> = Mutex::new(None);
    let broken: Mutex<Option<Vec<Rules>>> = Mutex::new(None);
    let kinds = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..ctx.threads {
            sc.spawn(|| loop {
                let f = next.fetch_add(1, Ordering::Relaxed);
                if f >= files || first.lock().unwrap().is_some() || broken.lock().unwrap().is_some() {
                    break;
                }
                let mut runner = ctx.runner("random", f, 1);
                let strat = gen_rules();
                let sets: Vec<Rules> = (0..120).map(|_| strat.new_tree(&mut runner).unwrap().current()).collect();
                let base = pool(&mut runner, 600);
                let ops: Vec<Vec<Ops>> = sets
                    .iter()
                    .map(|r| {
                        let mut v = base.clone();
                        v.extend(targeted(r, &mut runner));
                        v
                    })
                    .collect();
                let b = match build(&sets) {
                    Ok(b) => b,
                    Err(_) => {
                        *broken.lock().unwrap() = Some(sets);
                        break;
                    }
                };
                let got = evaluate(&b, &ops);
                for (k, r) in sets.iter().enumerate() {
                    let mut log = Log::default();
                    log.extra_evals = ops[k].len() as u64 - 1;
                    let mut seen: BTreeSet<(u64, usize, u64)> = BTreeSet::new();
                    let mut cats: BTreeSet<&str> = BTreeSet::new();
                    for (o, g) in ops[k].iter().zip(&got[k]) {
                        seen.insert((o.i, o.v, o.f));
                        if let Some(g) = g {
                            cats.insert(g.name());
                        }
                        match judge(r, o, *g, &listed) {
                            Verdict::Fine => {}
                            Verdict::Known(q) => log.known.push((
                                known_text(q),
                                format!("{} gives {}; rules: {}", o.numeral().text(), g.unwrap().name(), show_rules(r)),
                            )),
                            Verdict::Bad(e) => {
                                let mut x = first.lock().unwrap();
                                if x.as_ref().map_or(true, |(f0, r0, _)| (size(r), f) < (size(r0), *f0)) {
                                    *x = Some((f, r.clone(), (*o, e)));
                                }
                            }
                        }
                    }
                    log.extra_nontrivial = seen.len() as u64;
                    let rels: Vec<&Rel> = r.0.iter().flat_map(|(_, c)| c.0.iter().flatten()).collect();
                    if rels.iter().any(|r| quirk_of(r).is_some()) {
                        log.class("rule sets with a listed defective shape");
                    } else {
                        log.class("rule sets without listed defective shapes");
                    }
                    if rels.iter().any(|r| r.op.within()) {
                        log.class("rule sets with within");
                    }
                    if rels.iter().any(|r| r.modulus.is_some()) {
                        log.class("rule sets with a modulus");
                    }
                    if cats.len() > 1 {
                        log.class("rule sets that gave more than one category");
                    }
                    kinds.fetch_add(1, Ordering::Relaxed);
                    let sample = if k == 7 && f < 6 {
                        Some(json!({"sub": format!("random {}", f), "rules": show_rules(r),
                            "number": ops[k][650.min(ops[k].len() - 1)].numeral().text(), "observed": got[k][650.min(ops[k].len() - 1)]}))
                    } else {
                        None
                    };
                    ctx.record(None, log, sample);
                }
            });
        }
    });
    if let Some(sets) = broken.into_inner().unwrap() {
        let (min, e) = shrink_build(sets);
        ctx.violate("build", json!(min), format!("{} ({})", e, min.iter().map(show_rules).collect::<Vec<_>>().join(" | ")));
        return;
    }
    if let Some((f, r, bad)) = first.into_inner().unwrap() {
        let (c, e) = shrink_gen(r, bad, &listed, &mut ctx.runner("shrink", f, 1));
        ctx.violate("random", json!(c), e);
        return;
    }
    raw_check(ctx);
}

/// The raw output (-u): one file with every value and range shape.
fn raw_check(ctx: &Ctx) {
    let dir = Scratch::new();
    let mut card = BTreeMap::new();
    let texts = ["i = 1 and v = 0", "i % 10 = 2..4 and i % 100 != 12..14", "n = 1", "n != 0,1", "n within 0..2"];
    for (k, t) in texts.iter().enumerate() {
        card.insert(tag(k), Rules(vec![(Cat::One, parse_cond(t).unwrap())]));
    }
    for (with_n, label) in [(false, "without n"), (true, "with n")] {
        let mut c = card.clone();
        if !with_n {
            c.retain(|_, r| r.0[0].1 .0.iter().flatten().all(|r| r.operand != 'n'));
        }
        let d = Data { version: "37".into(), cardinal: Some(c), ordinal: None };
        std::fs::write(dir.file("in.json"), data_json(&d).to_string()).expect("HARNESS: write");
        let run = run_tool(&dir.0, &["-u".into(), "-i".into(), "in.json".into(), "-o".into(), "gen.rs".into()]);
        let mut log = Log::default();
        log.nontrivial = true;
        ctx.record(Some(label), log, None);
        if !run.ok {
            ctx.violate("raw", json!(label), format!("the tool fails: {}", run.message));
            return;
        }
        if let Err(e) = compile(&dir.0, &[dir.file("gen.rs")]) {
            // Listed: float literals are written with blanks around the point.
            let listed = crate::intl::known_file()["findings"].as_array().unwrap().iter().any(|f| f["property"] == "C14" && f["shape"] == "raw-float-literal");
            let t = std::fs::read_to_string(dir.file("gen.rs")).expect("HARNESS: read");
            std::fs::write(dir.file("gen.rs"), t.replace(" . 0", ".0")).expect("HARNESS: write");
            if listed && with_n && compile(&dir.0, &[dir.file("gen.rs")]).is_ok() {
                ctx.known("raw output (-u) of a relation on n does not compile: float literals have blanks around the point", e);
            } else {
                ctx.violate("raw", json!(label), format!("the raw output does not compile: {}", e));
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TableCase {
    version: u64,
    /// As spelled in the input.
    cardinal: Option<Vec<String>>,
    ordinal: Option<Vec<String>>,
    root: bool,
    /// 0: every locale has rules of its own; else so many groups share rules, and the first has only `other`.
    #[serde(default)]
    share: u8,
}

/// Literals of the sources that can stand for a language, or (whole) for an identifier.
fn dict_tags(new: bool, whole: bool) -> Vec<String> {
    static T: std::sync::OnceLock<Vec<Vec<String>>> = std::sync::OnceLock::new();
    let all = T.get_or_init(|| {
        (0..4)
            .map(|k| {
                let mut v: Vec<String> = crate::dict::strings(k / 2 == 1)
                    .into_iter()
                    .filter(|s| s.is_ascii() && !s.is_empty())
                    .filter(|s| s.parse::<unic_langid::LanguageIdentifier>().map_or(false, |id| id.variants().len() == 0 && (k % 2 == 1 || id.language.as_str() == s.as_str())))
                    .collect();
                v.push("en".into());
                v
            })
            .collect()
    });
    all[new as usize * 2 + whole as usize].clone()
}

fn locale_key() -> BoxedStrategy<String> {
    let whole = prop_oneof![prop::sample::select(dict_tags(true, true)), prop::sample::select(dict_tags(false, true))];
    let lang = prop_oneof![
        6 => "[a-z]{2}",
        4 => "[a-z]{3}",
        1 => "[a-z]{5,8}",
        1 => prop::sample::select(vec!["ro", "roo", "rot", "oot", "rooti", "rootabc", "un", "undef", "undx", "nd"]).prop_map(|s: &str| s.replace("undx", "undxy")),
        1 => prop::sample::select(dict_tags(true, false)),
        1 => prop::sample::select(dict_tags(false, false)),
        3 => prop::sample::select(vec!["pt", "en", "sr", "zh", "ak", "asa", "a1"]).prop_map(|s: &str| s.replace('1', "a")),
    ];
    let script = prop::option::weighted(0.3, prop_oneof!["[A-Z][a-z]{3}", Just("Latn".to_string()), Just("Cyrl".to_string())]);
    let region = prop::option::weighted(0.4, prop_oneof!["[A-Z]{2}", "[0-9]{3}", Just("PT".to_string()), Just("US".to_string())]);
    (lang, script, region, 0u8..12, prop::option::weighted(0.03, whole))
        .prop_map(|(l, s, r, style, whole)| {
            if let Some(w) = whole {
                return w;
            }
            let mut t = l;
            for x in [s, r].into_iter().flatten() {
                t.push(if style == 1 { '_' } else { '-' });
                t.push_str(&x);
            }
            match style {
                2 => t.to_uppercase(),
                3 => t.to_lowercase(),
                _ => t,
            }
        })
        .prop_filter("reserved", |t| {
            let l = t.to_lowercase();
            let lang = l.split(|c| c == '-' || c == '_').next().unwrap_or("");
            lang != "und" && lang != "root" && lang != "zzzzz"
        })
        .boxed()
}

pub fn canonical(t: &str) -> String {
    t.parse::<unic_langid::LanguageIdentifier>().expect("HARNESS: tag").to_string()
}

fn dedup_keys(v: Vec<String>) -> Vec<String> {
    let mut seen = BTreeSet::new();
    v.into_iter().filter(|k| seen.insert(canonical(k))).collect()
}

/// Locales of few languages with many scripts and regions.
fn family() -> BoxedStrategy<Vec<String>> {
    let lang = || prop::sample::select(vec!["pt", "p", "pts", "sr", "zh", "en"]).prop_map(|s: &str| if s == "p" { "pta".to_string() } else { s.to_string() });
    let script = || prop::option::of(prop::sample::select(vec!["Latn", "Latg", "Cyrl", "Hant"]));
    let region = || prop::option::of(prop::sample::select(vec!["PT", "BR", "001", "419", "US", "PS", "TW"]));
    prop::collection::vec(
        (lang(), script(), region(), any::<bool>()).prop_map(|(l, s, r, low)| {
            let mut t = l;
            for x in [s, r].into_iter().flatten() {
                t = format!("{}-{}", t, x);
            }
            if low {
                t.to_lowercase()
            } else {
                t
            }
        }),
        2..=24,
    )
    .boxed()
}

fn table_case() -> BoxedStrategy<TableCase> {
    let keys = || {
        prop_oneof![
            1 => prop::collection::vec(locale_key(), 0..=2),
            4 => prop::collection::vec(locale_key(), 1..=14),
            1 => prop::collection::vec(locale_key(), 20..=60),
            1 => prop_oneof![3 => Just(0usize), 1 => Just(1)].prop_flat_map(|big| prop::collection::vec(locale_key(), (60 + 200 * big)..=(61 + 330 * big))),
            2 => family(),
            1 => crate::dict::len(300).prop_flat_map(|n| prop::collection::vec(locale_key(), n..=n)),
        ]
        .prop_map(dedup_keys)
    };
    (prop_oneof![8 => 0u64..=60, 2 => 0u64..=100_000, 2 => crate::dict::int(), 1 => (0u32..=64, any::<u64>()).prop_map(|(b, x)| if b == 0 { 0 } else { x >> (64 - b) })], prop::option::weighted(0.7, keys()), prop::option::weighted(0.7, keys()), any::<bool>(), prop_oneof![2 => Just(0u8), 1 => 1u8..=5])
        .prop_map(|(version, cardinal, ordinal, root, share)| {
            let (mut cardinal, ordinal) = (cardinal, ordinal);
            if cardinal.is_none() && ordinal.is_none() {
                cardinal = Some(vec!["en".into()]);
            }
            TableCase { version, cardinal, ordinal, root, share }
        })
        .boxed()
}

/// The rules of the k-th locale: its number is `one`, the next is `few`. Without sharing, only it has them.
fn marker(c: &TableCase, ordinal: bool, k: usize) -> (u64, &'static str, Rules) {
    let g = if c.share == 0 { k } else { k % c.share as usize };
    // two shared groups may also be shared by the types
    let x = 3 * g as u64 + 10_000 * ((ordinal && c.share % 2 == 0) as u64 + 1);
    if c.share > 0 && g == 0 {
        return (x, "oooo", Rules(vec![]));
    }
    (x, "1foo", Rules(vec![(Cat::Few, parse_cond(&format!("i = {}", x + 1)).unwrap()), (Cat::One, parse_cond(&format!("i = {}", x)).unwrap())]))
}

fn table_data(c: &TableCase) -> Data {
    let mk = |ord: bool, keys: &Vec<String>| -> BTreeMap<String, Rules> {
        let mut m: BTreeMap<String, Rules> = keys.iter().enumerate().map(|(k, l)| (l.clone(), marker(c, ord, k).2)).collect();
        if c.root {
            m.insert("root".into(), Rules(vec![(Cat::Many, parse_cond("i = 77").unwrap())]));
        }
        m
    };
    Data {
        version: c.version.to_string(),
        cardinal: c.cardinal.as_ref().map(|k| mk(false, k)),
        ordinal: c.ordinal.as_ref().map(|k| mk(true, k)),
    }
}

/// Builds the cases as modules of one program and judges each.
fn run_tables(cases: &[TableCase]) -> Vec<Result<(), String>> {
    let dir = Scratch::new();
    let mut res: Vec<Result<(), String>> = vec![Ok(()); cases.len()];
    let mut files = vec![];
    let mut which = vec![];
    for (k, c) in cases.iter().enumerate() {
        let d = table_data(c);
        let (i, o) = (format!("in{}.json", k), format!("gen{}.rs", k));
        std::fs::write(dir.file(&i), data_json(&d).to_string()).expect("HARNESS: write");
        let run = run_tool(&dir.0, &["-i".into(), i, "-o".into(), o.clone()]);
        if run.ok {
            files.push(dir.file(&o));
            which.push(k);
        } else {
            res[k] = Err(format!("the tool fails: {}", run.message));
        }
    }
    let bin = match compile(&dir.0, &files) {
        Ok(b) => b,
        Err(e) => {
            if cases.len() == 1 {
                res[0] = Err(format!("the generated file does not compile: {}", e));
                return res;
            }
            // find out which
            return cases.iter().flat_map(|c| run_tables(std::slice::from_ref(c))).collect();
        }
    };
    let mut q = String::new();
    let mut meta = vec![];
    for (m, k) in which.iter().enumerate() {
        let c = &cases[*k];
        for (t, keys) in [(0, &c.cardinal), (1, &c.ordinal)] {
            q.push_str(&format!("T {} {}\n", m, t));
            meta.push((*k, t, "table", String::new(), 0usize));
            if let Some(keys) = keys {
                for (j, l) in keys.iter().enumerate() {
                    q.push_str(&format!("B {} {} {}\n", m, t, canonical(l)));
                    meta.push((*k, t, "search", canonical(l), j));
                    q.push_str(&format!("M {} {} {}\n", m, t, canonical(l)));
                    let x = marker(c, t == 1, j).0;
                    for v in [x, x + 1, x + 2, 77] {
                        q.push_str(&operand_line(&Ops::integral(v)));
                    }
                    q.push_str("E\n");
                    meta.push((*k, t, "rule", canonical(l), j));
                }
            }
        }
    }
    let lines = query(&bin, &q);
    let mut tables: BTreeMap<(usize, usize), Vec<String>> = BTreeMap::new();
    for (n, (k, t, what, loc, j)) in meta.iter().enumerate() {
        if res[*k].is_err() {
            continue;
        }
        let c = &cases[*k];
        let tn = ["cardinal", "ordinal"][*t];
        let keys = if *t == 0 { &c.cardinal } else { &c.ordinal };
        let line = match lines.get(n) {
            Some(l) => l.clone(),
            None => {
                res[*k] = Err(format!("the compiled program failed: {:?}", lines.last()));
                continue;
            }
        };
        match *what {
            "table" => {
                let want: Option<BTreeSet<String>> = keys.as_ref().map(|k| k.iter().map(|l| canonical(l)).collect());
                match want {
                    None => {
                        if line != "absent" {
                            res[*k] = Err(format!("{} rules are not in the input but in the output: {}", tn, line));
                        }
                    }
                    Some(want) => {
                        let mut p = line.split(' ');
                        let ver = p.next().unwrap_or("");
                        let got: Vec<String> = p.map(|s| s.to_string()).collect();
                        if line == "absent" {
                            res[*k] = Err(format!("{} rules are in the input but not in the output", tn));
                        } else if ver != c.version.to_string() {
                            res[*k] = Err(format!("version {} becomes {}", c.version, ver));
                        } else {
                            let set: BTreeSet<String> = got.iter().cloned().collect();
                            if set != want || set.len() != got.len() {
                                res[*k] = Err(format!("{} locales {:?} become {:?}", tn, want, got));
                            }
                        }
                        tables.insert((*k, *t), got);
                    }
                }
            }
            "search" => {
                let pos = tables.get(&(*k, *t)).and_then(|v| v.iter().position(|x| x == loc));
                if pos.map(|p| p.to_string()) != Some(line.clone()) {
                    res[*k] = Err(format!("lookup of {} in the {} table finds {}, it is entry {:?} of {:?}", loc, tn, line, pos, tables.get(&(*k, *t))));
                }
            }
            _ => {
                if line != marker(c, *t == 1, *j).1 {
                    res[*k] = Err(format!("{} {} does not have its own rules: {}", tn, loc, line));
                }
            }
        }
    }
    res
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("random sets of locale tags (2-8 letter languages, scripts, regions, odd spellings, root) for cardinal, ordinal or both, and random versions, through the tool and rustc; every locale has a rule of its own (in a third of the cases some share theirs or have only `other`), up to 390 locales a type (up to 1500 in one case of every forty batches) and families of one language with many scripts and regions; tables, order (binary search), version and rules are read from the compiled program; non-trivial = at least two locales");
    ctx.assume("no two keys of one type denote the same identifier; no variants (the generator documents no support); und is a listed finding");
    if let Some((sub, v)) = &ctx.replay {
        ctx.mark_replayed();
        if sub == "und" {
            und_check(ctx);
        } else {
            let c: TableCase = serde_json::from_value(v.clone()).expect("HARNESS: replay value");
            if let Err(e) = run_tables(&[c]).remove(0) {
                ctx.violate("random", v.clone(), e);
            }
        }
        return;
    }
    let batches = ctx.n(80, 1500);
    let next = AtomicU64::new(0);
    let first: Mutex<Option<(u64, TableCase, String)>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for _ in 0..ctx.threads {
            sc.spawn(|| loop {
                let f = next.fetch_add(1, Ordering::Relaxed);
                if f >= batches || first.lock().unwrap().is_some() {
                    break;
                }
                let mut runner = ctx.runner("random", f, 1);
                let strat = table_case();
                let mut cases: Vec<TableCase> = (0..10).map(|_| strat.new_tree(&mut runner).unwrap().current()).collect();
                if f % 40 == 0 {
                    // more locales than any release has
                    let big = |r: &mut TestRunner| dedup_keys(prop::collection::vec(locale_key(), 900..=1_500).new_tree(r).unwrap().current());
                    cases.push(TableCase { version: 37, cardinal: Some(big(&mut runner)), ordinal: Some(big(&mut runner)), root: f % 80 == 0, share: 0 });
                }
                let res = run_tables(&cases);
                for (c, r) in cases.iter().zip(res) {
                    let n = c.cardinal.iter().flatten().count() + c.ordinal.iter().flatten().count();
                    let mut log = Log::default();
                    log.nontrivial = n >= 2;
                    log.extra_evals = 2 * n as u64;
                    log.class(match (&c.cardinal, &c.ordinal) {
                        (Some(_), Some(_)) => "both types",
                        (Some(_), None) => "cardinal only",
                        _ => "ordinal only",
                    });
                    if c.cardinal.iter().flatten().chain(c.ordinal.iter().flatten()).any(|l| l.contains(['-', '_'])) {
                        log.class("has script or region");
                    }
                    if n >= 20 {
                        log.class("20 or more locales");
                    }
                    if n >= 200 {
                        log.class("200 or more locales");
                    }
                    if n >= 1_000 {
                        log.class("1000 or more locales");
                    }
                    if c.share > 0 {
                        log.class("locales share rules");
                    }
                    if c.root {
                        log.class("has root");
                    }
                    let key = json!(c).to_string();
                    ctx.record(Some(&key), log, if f < 4 { Some(json!({"sub": format!("random {}", f), "case": c})) } else { None });
                    if let Err(e) = r {
                        let mut x = first.lock().unwrap();
                        if x.as_ref().map_or(true, |(_, c0, _)| json!(c).to_string().len() < json!(c0).to_string().len()) {
                            *x = Some((f, c.clone(), e));
                        }
                    }
                }
            });
        }
    });
    if let Some((_, mut c, mut e)) = first.into_inner().unwrap() {
        let t0 = std::time::Instant::now();
        while t0.elapsed().as_secs() < 60 {
            let mut cands = vec![];
            for (t, keys) in [(0, &c.cardinal), (1, &c.ordinal)] {
                if let Some(keys) = keys {
                    let mut without = |v: Option<Vec<String>>| {
                        let mut n = c.clone();
                        if t == 0 {
                            n.cardinal = v
                        } else {
                            n.ordinal = v
                        }
                        if n.cardinal.is_some() || n.ordinal.is_some() {
                            cands.push(n);
                        }
                    };
                    without(None);
                    without(Some(keys[..keys.len() / 2].to_vec()));
                    without(Some(keys[keys.len() / 2..].to_vec()));
                    for k in 0..keys.len().min(12) {
                        let mut v = keys.clone();
                        v.remove(k);
                        without(Some(v));
                    }
                }
            }
            if c.root {
                let mut n = c.clone();
                n.root = false;
                cands.push(n);
            }
            let len = |c: &TableCase| json!(c).to_string().len();
            cands.retain(|x| len(x) < len(&c));
            cands.sort_by_key(len);
            let res = run_tables(&cands);
            match cands.into_iter().zip(res).find(|(_, r)| r.is_err()) {
                Some((x, r)) => {
                    c = x;
                    e = r.unwrap_err();
                }
                None => break,
            }
        }
        ctx.violate("random", json!(c), e);
        return;
    }
    und_check(ctx);
}

/// A language identifier without a language.
fn und_check(ctx: &Ctx) {
    for key in ["und", "und-Latn", "und-US"] {
        let c = TableCase { version: 37, cardinal: Some(vec![key.into()]), ordinal: None, root: false, share: 0 };
        let mut log = Log::default();
        log.nontrivial = true;
        ctx.record(Some(key), log, None);
        if let Err(e) = run_tables(&[c.clone()]).remove(0) {
            let listed = crate::intl::known_file()["findings"].as_array().unwrap().iter().any(|f| f["property"] == "C15" && f["locale_language"] == "und");
            if listed && e.contains("does not compile") {
                ctx.known("locale keys with the language und give a file that does not compile", format!("{}: {}", key, e));
            } else {
                ctx.violate("und", json!(key), format!("{}: {}", key, e));
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C16

pub fn data_set(max: usize) -> BoxedStrategy<Data> {
    let types = move || {
        prop::option::weighted(0.8, prop::collection::vec((locale_key(), gen_rules()), 0..=max)).prop_map(|o| {
            o.map(|v| {
                let mut seen = BTreeSet::new();
                v.into_iter().filter(|(k, _)| seen.insert(canonical(k))).collect::<BTreeMap<_, _>>()
            })
        })
    };
    (prop_oneof![12 => 0u64..=60, 1 => crate::dict::int()], types(), types())
        .prop_map(|(v, cardinal, ordinal)| {
            let mut d = Data { version: v.to_string(), cardinal, ordinal };
            if d.cardinal.is_none() && d.ordinal.is_none() {
                d.cardinal = Some(BTreeMap::new());
            }
            d
        })
        .boxed()
}

/// Literals of the sources as names of members nothing is said about; the new ones alone, when there are any.
fn extra_names() -> &'static [String] {
    static N: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        const USED: [&str; 7] = ["supplemental", "version", "plurals-type-cardinal", "plurals-type-ordinal", "_cldrVersion", "_unicodeVersion", "_number"];
        let new = crate::dict::strings(true);
        let v = if new.is_empty() { crate::dict::strings(false) } else { new };
        v.into_iter().filter(|s| !USED.contains(&s.as_str())).collect()
    })
}

/// Writes JSON with member order, white space and extra members drawn from bytes.
struct JsonOut<'a> {
    bytes: &'a [u8],
    k: usize,
    out: String,
}

impl<'a> JsonOut<'a> {
    fn next(&mut self) -> u8 {
        let b = if self.bytes.is_empty() { 0 } else { self.bytes[self.k % self.bytes.len()] };
        self.k += 1;
        b.wrapping_add(if self.bytes.is_empty() { 0 } else { ((self.k / self.bytes.len()) as u8).wrapping_mul(29) })
    }
    fn ws(&mut self) {
        let w = ["", "", " ", "\n", "\t", "\r\n  "][self.next() as usize % 6];
        self.out.push_str(w);
    }
    /// `level`: 0 top, 1 supplemental, 2 version, 3 elsewhere (no extra members there).
    fn value(&mut self, v: &Value, level: u8) {
        match v {
            Value::Object(m) => {
                let mut keys: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                if level <= 2 && self.next() % 3 == 1 {
                    for _ in 0..1 + self.next() % 3 {
                        // also names close to the ones in use and those the fields may have in the code
                        const NAMES: [&str; 28] = [
                            "extra", "_number", "plurals-type-cardinals", "Plurals", "plurals-type-range", "plurals", "cardinal", "ordinal", "plurals_type_cardinal",
                            "plurals_type_ordinal", "plurals-type-Cardinal", "Plurals-Type-Ordinal", "plurals-type", "pluralRanges", "Version", "_version", "versions", "cldr_version",
                            "cldrVersion", "_cldrversion", "unicode_version", "number", "Supplemental", "supplementals", "rules", "type", "", "ěšč",
                        ];
                        let mut name = NAMES[self.next() as usize % NAMES.len()];
                        let more = extra_names();
                        if !more.is_empty() && self.next() % 4 == 0 {
                            name = &more[(self.next() as usize * 256 + self.next() as usize) % more.len()];
                        }
                        let what = match (level, name) {
                            (2, "_number") => json!("$Revision: 1 $"),
                            _ => match self.next() % 9 {
                                0 => json!({"a": [1, null, {"b": "n = x"}]}),
                                1 => json!({"qq": {"pluralRule-count-one": "n = 1", "pluralRule-count-other": ""}}),
                                2 => json!("36"),
                                3 => json!(-12.5e7),
                                4 => json!(true),
                                5 => json!(null),
                                6 => json!([[[[[[[[]]]]]]], {}, u64::MAX]),
                                7 => json!({"_cldrVersion": "36", "version": {"_cldrVersion": "1"}}),
                                _ => json!({"supplemental": {"plurals-type-cardinal": {"qq": {"pluralRule-count-other": ""}}}}),
                            },
                        };
                        keys.push((name.into(), what));
                    }
                }
                let mut seen = BTreeSet::new();
                keys.retain(|(k, _)| seen.insert(k.clone()));
                // shuffle
                for i in (1..keys.len()).rev() {
                    let j = self.next() as usize % (i + 1);
                    keys.swap(i, j);
                }
                self.out.push('{');
                for (n, (k, v)) in keys.iter().enumerate() {
                    if n > 0 {
                        self.out.push(',');
                    }
                    self.ws();
                    let esc = self.next() % 11 == 3 && k.chars().next().map_or(false, |c| (c as u32) < 0x10000);
                    if esc {
                        // the same key with an escaped first character
                        let mut cs = k.chars();
                        let c = cs.next().unwrap();
                        let rest = Value::String(cs.as_str().to_string()).to_string();
                        self.out.push_str(&format!("\"\\u{:04x}{}", c as u32, &rest[1..]));
                    } else {
                        self.out.push_str(&Value::String(k.clone()).to_string());
                    }
                    self.ws();
                    self.out.push(':');
                    self.ws();
                    let l = match (level, k.as_str()) {
                        (0, "supplemental") => 1,
                        (1, "version") => 2,
                        _ => 3,
                    };
                    self.value(v, l);
                    self.ws();
                }
                self.out.push('}');
            }
            Value::String(t) if self.next() % 4 == 1 => {
                // the same text with some characters escaped
                self.out.push('"');
                for c in t.chars() {
                    if self.next() % 9 == 4 && (c as u32) < 0x10000 {
                        self.out.push_str(&format!("\\u{:04X}", c as u32));
                    } else {
                        let q = Value::String(c.to_string()).to_string();
                        self.out.push_str(&q[1..q.len() - 1]);
                    }
                }
                self.out.push('"');
            }
            _ => self.out.push_str(&v.to_string()),
        }
    }
}

pub fn layout_json(v: &Value, bytes: &[u8]) -> String {
    let mut j = JsonOut { bytes, k: 0, out: String::new() };
    j.ws();
    j.value(v, 0);
    j.ws();
    j.out
}

pub fn gen_rs(jsons: Vec<String>) -> Result<String, String> {
    guard(|| make_pluralrules::generate_rs(&jsons))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LayoutCase {
    data: Data,
    /// Two layouts of the same data.
    a: Vec<u8>,
    b: Vec<u8>,
    split: bool,
    swap: bool,
    /// Add a file with the version only.
    bare: bool,
    /// More such files, and blank space in one of the files.
    #[serde(default)]
    more: u8,
    #[serde(default)]
    blanks: u32,
}

/// How many files without rules are added, and how much blank space goes into one file.
pub fn padding() -> BoxedStrategy<(u8, u32)> {
    (
        prop_oneof![30 => Just(0u8), 2 => 1u8..8, 1 => 8u8..60, 1 => crate::dict::len(90).prop_map(|x| x as u8)],
        prop_oneof![40 => Just(0u32), 2 => 1u32..3_000, 1 => 3_000u32..300_000, 1 => crate::dict::len(300_000).prop_map(|x| x as u32)],
    )
        .boxed()
}

/// Blank space before or after a text, or where its first object begins.
pub fn widen(t: &mut String, blanks: u32, place: u8) {
    if blanks == 0 {
        return;
    }
    let b = [" ", "\n", "\t", "\r\n"][place as usize / 4 % 4].repeat(blanks as usize);
    match place % 4 {
        0 => t.insert_str(0, &b),
        1 => t.push_str(&b),
        _ => {
            let p = t.find('{').map_or(0, |p| p + 1);
            t.insert_str(p, &b)
        }
    }
}

fn split_files(c: &LayoutCase) -> Vec<String> {
    let mut parts = vec![];
    if c.split {
        for (card, ord) in [(true, false), (false, true)] {
            let d = Data {
                version: c.data.version.clone(),
                cardinal: if card { c.data.cardinal.clone() } else { None },
                ordinal: if ord { c.data.ordinal.clone() } else { None },
            };
            if d.cardinal.is_some() || d.ordinal.is_some() {
                parts.push(data_json(&d));
            }
        }
    } else {
        parts.push(data_json(&c.data));
    }
    if c.bare {
        parts.push(data_json(&Data { version: c.data.version.clone(), cardinal: None, ordinal: None }));
    }
    for _ in 0..c.more {
        let bare = data_json(&Data { version: c.data.version.clone(), cardinal: None, ordinal: None });
        parts.insert(c.more as usize * 5 % (parts.len() + 1), bare);
    }
    let mut out: Vec<String> = parts
        .iter()
        .enumerate()
        .map(|(k, p)| {
            let mut b = c.b.clone();
            let by = if b.is_empty() { 0 } else { k * 7 % b.len() };
            b.rotate_left(by);
            layout_json(p, &b)
        })
        .collect();
    if c.swap {
        out.reverse();
    }
    let k = c.more as usize % out.len();
    widen(&mut out[k], c.blanks, c.a.first().copied().unwrap_or(0));
    out
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// What stands between the brackets of the (only) table of a single-type output.
fn table_body(full: &str, empty: &str) -> Option<String> {
    let close = empty.rfind(']')?;
    let (p, s) = empty.split_at(close);
    if full.starts_with(p) && full.ends_with(s) && full.len() >= empty.len() {
        Some(full[p.len()..full.len() - s.len()].to_string())
    } else {
        None
    }
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("random data sets generated twice: canonical JSON in one file, and a random layout (member order, white space, escapes, extra members, split into files, file order, an extra file without rules); outputs must be identical; then every locale and type alone must give its part of the whole; sequences of generations in one process, failing ones among them, each compared with a process that generates nothing else; non-trivial = at least two locales (two successful generations)");
    ctx.assume("texts are compared exactly for layout changes and without blanks for the independence check");
    ctx.prop(
        "layout",
        ctx.n(20_000, 300_000),
        || {
            (data_set(10), prop::collection::vec(any::<u8>(), 0..40), prop::collection::vec(any::<u8>(), 0..60), any::<bool>(), any::<bool>(), any::<bool>(), padding())
                .prop_map(|(data, a, b, split, swap, bare, (more, blanks))| LayoutCase { data, a, b, split, swap, bare, more, blanks })
        },
        |c, log| {
            let n = c.data.cardinal.iter().flatten().count() + c.data.ordinal.iter().flatten().count();
            log.nontrivial = n >= 2;
            log.extra_evals = 2;
            if c.split && c.data.cardinal.is_some() && c.data.ordinal.is_some() {
                log.class("split into files");
            }
            if c.bare {
                log.class("with a file without rules");
            }
            let plain = gen_rs(vec![data_json(&c.data).to_string()]);
            let again = gen_rs(vec![layout_json(&data_json(&c.data), &c.a)]);
            let split = gen_rs(split_files(c));
            match (&plain, &again, &split) {
                (Ok(p), Ok(a), Ok(s)) => {
                    log.note = Some(format!("{} characters of code", p.len()));
                    if p != a {
                        return Err(format!("the same data in another layout gives different code:\n{}\n{}", diff_at(p, a), layout_json(&data_json(&c.data), &c.a)));
                    }
                    if p != s {
                        return Err(format!("the same data split into files gives different code: {}", diff_at(p, s)));
                    }
                    Ok(())
                }
                (Err(a), Err(b), Err(c)) => Err(format!("rejected: {} / {} / {}", a, b, c)),
                _ => Err(format!(
                    "accepted in one layout, rejected in another: plain {:?}, layout {:?}, files {:?}",
                    plain.map(|_| ()),
                    again.map(|_| ()),
                    split.map(|_| ())
                )),
            }
        },
    );
    ctx.prop("independence", ctx.n(8_000, 120_000), || data_set(12), |d, log| {
        let n = d.cardinal.iter().flatten().count() + d.ordinal.iter().flatten().count();
        log.nontrivial = n >= 2;
        log.extra_evals = n as u64 + 2;
        let gen = |c: Option<BTreeMap<String, Rules>>, o: Option<BTreeMap<String, Rules>>| {
            gen_rs(vec![data_json(&Data { version: d.version.clone(), cardinal: c, ordinal: o }).to_string()]).map(|s| squeeze(&s))
        };
        let both = gen(d.cardinal.clone(), d.ordinal.clone())?;
        for ord in [false, true] {
            let name = if ord { "ordinal" } else { "cardinal" };
            let Some(t) = (if ord { &d.ordinal } else { &d.cardinal }) else { continue };
            let mk = |x: BTreeMap<String, Rules>| if ord { gen(None, Some(x)) } else { gen(Some(x), None) };
            let empty = mk(BTreeMap::new())?;
            let whole = mk(t.clone())?;
            // the table of this type alone is found in the code for both types
            let start = empty.rfind("pubconst").ok_or("HARNESS: no table in the output")?;
            if !both.contains(&whole[start.min(whole.len())..]) {
                return Err(format!("the {} table changes when the other type is present", name));
            }
            let body = table_body(&whole, &empty).ok_or_else(|| format!("the frame of the {} table depends on its locales", name))?;
            let mut rest = body.clone();
            for (l, r) in t {
                let one = mk([(l.clone(), r.clone())].into_iter().collect())?;
                let entry = table_body(&one, &empty).ok_or("the frame depends on the locales")?;
                match rest.find(&entry) {
                    Some(p) => rest.replace_range(p..p + entry.len(), ""),
                    None => return Err(format!("the entry of {} ({}) differs from the one generated for it alone: {}", l, name, entry)),
                }
            }
            if rest.chars().any(|c| c != ',') {
                return Err(format!("the {} table has more than its locales' entries: {}", name, rest));
            }
        }
        Ok(())
    });
    gen_history(ctx);
}

/// What a process of its own generates, one after another: `pv gen`, a JSON list of lists of files on standard input.
pub fn gen_main() {
    let runs: Vec<Vec<String>> = serde_json::from_reader(std::io::stdin()).expect("HARNESS: files");
    let got: Vec<Result<String, String>> = runs.into_iter().map(gen_rs).collect();
    println!("{}", serde_json::to_string(&got).unwrap());
}

fn fresh_gens(runs: &[Vec<String>]) -> Vec<Result<String, String>> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().expect("HARNESS: exe"))
        .arg("gen")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("HARNESS: cannot run a fresh process");
    c.stdin.take().unwrap().write_all(json!(runs).to_string().as_bytes()).expect("HARNESS: pipe");
    let out = c.wait_with_output().expect("HARNESS: fresh process");
    serde_json::from_slice(&out.stdout).unwrap_or_else(|_| vec![Err("the process ends without an answer".into()); runs.len()])
}

/// Several generations in one process, over the same few locales, some of them failing; each compared with a process of its own.
fn gen_history(ctx: &Ctx) {
    const KEYS: [&str; 8] = ["pt", "pt-PT", "en", "sr-Latn", "sr", "ars", "zh-Hant-TW", "EN-gb"];
    let one = || {
        (data_set(5), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..20)], any::<bool>(), any::<u8>(), prop_oneof![3 => Just(Fault::None), 1 => fault()], any::<u64>()).prop_map(
            |(mut data, layout, split, order, fault, keys)| {
                let rename = |t: Option<BTreeMap<String, Rules>>, by: u64| {
                    t.map(|t| t.into_values().enumerate().map(|(k, r)| (KEYS[((by >> 3) as usize + k * (by as usize % 4 * 2 + 1)) % 8].to_string(), r)).collect::<BTreeMap<_, _>>())
                };
                data.cardinal = rename(data.cardinal, keys & 0xffff);
                data.ordinal = rename(data.ordinal, keys >> 48);
                if keys & 0x300000 != 0 {
                    data.version = ["37", "38"][(keys >> 30 & 1) as usize].into();
                }
                FaultCase { data, layout, split, order, fault, pad: 0, blanks: 0 }
            },
        )
    };
    ctx.prop("history", ctx.n(1_600, 40_000), || prop::collection::vec(one(), 2..7), |cases, log| {
        let runs: Vec<Vec<String>> = cases.iter().filter_map(|c| fault_files(c).map(|f| f.0)).collect();
        let got = fresh_gens(&runs);
        log.extra_evals = got.len() as u64;
        log.nontrivial = got.iter().filter(|g| g.is_ok()).count() >= 2;
        if got.iter().any(|g| g.is_err()) {
            log.class("history with a failed generation");
        }
        for (k, r) in got.iter().enumerate() {
            let alone = fresh_gens(&runs[k..k + 1]).pop().unwrap();
            match (r, &alone) {
                (Ok(a), Ok(b)) if a != b => return Err(format!("generation {} of the history gives other code than a fresh process: {}", k, diff_at(a, b))),
                (Ok(_), Err(e)) => return Err(format!("generation {} succeeds, a fresh process fails: {}", k, e)),
                (Err(e), Ok(_)) => return Err(format!("generation {} fails ({}), a fresh process succeeds", k, e)),
                _ => {}
            }
        }
        Ok(())
    });
}

pub fn diff_at(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.chars().skip(k.saturating_sub(20)).take(80).collect::<String>();
    format!("at {}: ...{}... / ...{}...", k, cut(a), cut(b))
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    None,
    /// Second file states another version.
    Version(u32),
    /// A type given twice, in two files; true: the data are the same.
    Twice { ordinal: bool, same: bool, gap: bool },
    /// No rules in any file.
    NoRules { files: u8 },
    /// JSON cut at a fraction of its length.
    Cut(u16),
    /// A structural member removed or given the wrong type.
    Member(u8),
    /// A key that is no language identifier.
    Locale(u8, bool),
    /// A condition damaged in a way that leaves no complete condition.
    Condition { which: u16, how: u8 },
    /// A character no condition has, put anywhere into one.
    Char { which: u16, at: u16, ch: char },
    /// A text with such a character.
    Text { which: u16, at: u16, text: String, blanks: u8 },
    /// The condition of an `other` rule, damaged.
    Other { which: u16, how: u8 },
    /// One file with the same type twice.
    TwiceInFile { ordinal: bool, same: bool },
    /// A key made of the characters of language identifiers that is none.
    LocaleText(String, bool),
    /// JSON with a mistake in its syntax.
    Syntax { how: u8, at: u16 },
    /// A text put in place of `cut` characters of a file, which is no JSON any more.
    Edit { file: u8, at: u32, cut: u8, text: String },
}

/// Whether the text is JSON by the grammar of RFC 8259.
pub fn is_json(t: &str) -> bool {
    fn blanks(b: &[u8], p: &mut usize) {
        while *p < b.len() && b" \t\n\r".contains(&b[*p]) {
            *p += 1;
        }
    }
    fn digits(b: &[u8], p: &mut usize) -> bool {
        let from = *p;
        while *p < b.len() && b[*p].is_ascii_digit() {
            *p += 1;
        }
        *p > from
    }
    fn string(b: &[u8], p: &mut usize) -> bool {
        if b.get(*p) != Some(&b'"') {
            return false;
        }
        *p += 1;
        loop {
            match b.get(*p) {
                Some(b'"') => {
                    *p += 1;
                    return true;
                }
                Some(b'\\') => {
                    match b.get(*p + 1) {
                        Some(b'u') if b.len() >= *p + 6 && b[*p + 2..*p + 6].iter().all(|x| x.is_ascii_hexdigit()) => *p += 6,
                        Some(x) if b"\"\\/bfnrt".contains(x) => *p += 2,
                        _ => return false,
                    }
                }
                Some(x) if *x >= 0x20 => *p += 1,
                _ => return false,
            }
        }
    }
    fn value(b: &[u8], p: &mut usize, depth: usize) -> bool {
        let word = |p: &mut usize, w: &[u8]| {
            let is = b[*p..].starts_with(w);
            *p += w.len();
            is
        };
        match b.get(*p) {
            Some(b'"') => string(b, p),
            Some(b't') => word(p, b"true"),
            Some(b'f') => word(p, b"false"),
            Some(b'n') => word(p, b"null"),
            Some(c @ (b'{' | b'[')) if depth < 1000 => {
                let end = if *c == b'{' { b'}' } else { b']' };
                *p += 1;
                blanks(b, p);
                if b.get(*p) == Some(&end) {
                    *p += 1;
                    return true;
                }
                loop {
                    blanks(b, p);
                    if *c == b'{' {
                        if !string(b, p) {
                            return false;
                        }
                        blanks(b, p);
                        if b.get(*p) != Some(&b':') {
                            return false;
                        }
                        *p += 1;
                        blanks(b, p);
                    }
                    if !value(b, p, depth + 1) {
                        return false;
                    }
                    blanks(b, p);
                    match b.get(*p) {
                        Some(b',') => *p += 1,
                        Some(x) if *x == end => {
                            *p += 1;
                            return true;
                        }
                        _ => return false,
                    }
                }
            }
            Some(x) if x.is_ascii_digit() || *x == b'-' => {
                if *x == b'-' {
                    *p += 1;
                }
                if b.get(*p) == Some(&b'0') {
                    *p += 1;
                } else if !digits(b, p) {
                    return false;
                }
                if b.get(*p) == Some(&b'.') {
                    *p += 1;
                    if !digits(b, p) {
                        return false;
                    }
                }
                if matches!(b.get(*p), Some(b'e' | b'E')) {
                    *p += 1;
                    if matches!(b.get(*p), Some(b'+' | b'-')) {
                        *p += 1;
                    }
                    if !digits(b, p) {
                        return false;
                    }
                }
                true
            }
            _ => false,
        }
    }
    let (b, mut p) = (t.as_bytes(), 0);
    blanks(b, &mut p);
    let ok = value(b, &mut p, 0);
    blanks(b, &mut p);
    ok && p == b.len()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    pub data: Data,
    pub layout: Vec<u8>,
    pub split: bool,
    /// The files are given in another order (rotation; odd: reversed).
    #[serde(default)]
    pub order: u8,
    pub fault: Fault,
    /// So many files without rules besides, and so much blank space in one of the files.
    #[serde(default)]
    pub pad: u8,
    #[serde(default)]
    pub blanks: u32,
}

pub fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        4 => Just(Fault::None),
        2 => (0u32..60).prop_map(Fault::Version),
        1 => crate::dict::int().prop_map(|x| Fault::Version(x as u32)),
        2 => (any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(ordinal, same, gap)| Fault::Twice { ordinal, same, gap }),
        1 => (0u8..4).prop_map(|files| Fault::NoRules { files }),
        1 => any::<u16>().prop_map(Fault::Cut),
        2 => (0u8..16).prop_map(Fault::Member),
        2 => (0u8..12, any::<bool>()).prop_map(|(k, o)| Fault::Locale(k, o)),
        6 => (any::<u16>(), 0u8..24).prop_map(|(which, how)| Fault::Condition { which, how }),
        4 => (any::<u16>(), any::<u16>(), prop_oneof![4 => prop::sample::select("#$&()*+-/:;<>?[\\]^_`{|}\"'\u{0}\u{7f}ABCNIVZbcgjkpqxyz".chars().collect::<Vec<_>>()), 1 => any::<char>()])
            .prop_map(|(which, at, ch)| Fault::Char { which, at, ch }),
        1 => (any::<u16>(), any::<u16>(), prop_oneof![2 => crate::dict::string(), 1 => "[a-z]{1,8}", 1 => "\\PC{1,4}"], 0u8..8)
            .prop_map(|(which, at, text, blanks)| Fault::Text { which, at, text, blanks }),
        1 => (any::<u16>(), 0u8..24).prop_map(|(which, how)| Fault::Other { which, how }),
        1 => (any::<bool>(), any::<bool>()).prop_map(|(ordinal, same)| Fault::TwiceInFile { ordinal, same }),
        2 => (prop_oneof!["[a-zA-Z]{1,9}", "[a-zA-Z]{2,3}[-_][a-zA-Z0-9]{1,9}", "[a-z]{2,3}-[A-Z][a-z]{3}-[A-Z0-9]{1,4}", "[a-z0-9_-]{1,12}", "(root|Root|ROOT)[-_a-z0-9]{0,4}", crate::dict::string()], any::<bool>())
            .prop_map(|(k, o)| Fault::LocaleText(k, o)),
        3 => (any::<u8>(), any::<u16>()).prop_map(|(how, at)| Fault::Syntax { how, at }),
        3 => (any::<u8>(), prop_oneof![4 => any::<u32>(), 1 => Just(0), 2 => Just(u32::MAX)], prop_oneof![2 => Just(0u8), 1 => 1u8..4],
              prop_oneof![3 => prop::sample::select("{}[]:,\"'\\/;#\u{feff}\u{0}\u{b}\u{c}\u{a0}\u{2028}\u{85}\u{1a}a0-+.".chars().map(|c| c.to_string()).collect::<Vec<_>>()), 2 => crate::dict::string(), 1 => any::<char>().prop_map(|c| c.to_string()), 1 => Just(String::new())])
            .prop_map(|(file, at, cut, text)| Fault::Edit { file, at, cut, text }),
    ]
    .boxed()
}

const BAD_LOCALES: [&str; 30] =
    ["Root", "ROOT", "root-US", "root_US", "root-Latn", "roots-", "rootx1", " root", "root ", "i-klingon", "x-private", "*", "C.UTF-8", "en.UTF-8", "en_US@euro",
    " en", "en ", "en,de", "", "x", "e", "english-US-US-US-", "en--US", "123", "e1", "toolonglanguage", "en-", "en US", "é", "en-Latn-US-x"];

/// Letters and signs of the grammar, digits and anything that is a blank to someone.
fn harmless(ch: char) -> bool {
    ch.is_whitespace() || ch.is_numeric() || "nivwftmodsthur%=!.,@~…\u{feff}\u{200b}".contains(ch)
}

/// None when this damage does not apply to the condition.
fn damage(c: &Cond, how: u8) -> Option<String> {
    let t = c.text();
    let last = c.0.last()?.last()?;
    Some(match how % 24 {
        0 => format!("{} and", t),
        1 => format!("{} or", t),
        2 => format!("{},", t),
        3 => format!("{}..", t),
        4 => format!("{} xyz", t),
        5 => format!("{} {}", t, t),
        6 => format!("and {}", t),
        7 => format!("q{}", &t[1..]),
        8 => t.replacen(last.op.words()[0], "==", 1).replacen("===", "==", 1),
        9 => {
            let k = t.rfind(|c: char| !c.is_ascii_digit() && c != '.' && c != ',')?;
            t[..=k].trim_end().to_string()
        }
        10 => format!("{} and and {}", t, t),
        11 => format!("{} or or {}", t, t),
        12 => format!("{} xor {}", t, t),
        13 => format!("{} && {}", t, t),
        14 => format!("{}a", t),
        15 => format!("{}.5", t),
        16 => format!("{} - 5", t),
        17 => format!("not {}", t),
        18 => format!("({})", t),
        19 => format!("{} and n", t),
        20 => format!("{} or n =", t),
        21 => format!("{} and n % = 1", t),
        22 => format!("{};", t),
        _ => format!("{} and 5 = n", t),
    })
}

/// The files, and whether they must be accepted. None: the fault does not apply to this data.
pub fn fault_files(c: &FaultCase) -> Option<(Vec<String>, bool)> {
    let d = &c.data;
    let mut jsons: Vec<Value> = vec![];
    let base = data_json(d);
    if c.split && d.cardinal.is_some() && d.ordinal.is_some() {
        jsons.push(data_json(&Data { ordinal: None, ..d.clone() }));
        jsons.push(data_json(&Data { cardinal: None, ..d.clone() }));
    } else {
        jsons.push(base.clone());
    }
    // what else the files state of themselves need not agree
    for (k, j) in jsons.iter_mut().enumerate() {
        if k > 0 && c.order & 64 != 0 {
            j["supplemental"]["version"]["_unicodeVersion"] = json!("12.1.0");
        }
        if c.order & 128 != 0 {
            j["supplemental"]["version"]["_number"] = json!(format!("$Revision: {} $", 100 + k));
        }
    }
    let mut texts: Option<Vec<String>> = None;
    let mut ok = false;
    match &c.fault {
        Fault::None => ok = true,
        Fault::Version(v) => {
            if v.to_string() == d.version {
                return None;
            }
            if jsons.len() == 2 && v % 2 == 0 {
                jsons[1]["supplemental"]["version"]["_cldrVersion"] = json!(v.to_string());
            } else {
                jsons.push(data_json(&Data { version: v.to_string(), cardinal: None, ordinal: None }));
            }
        }
        Fault::Twice { ordinal, same, gap } => {
            let t = if *ordinal { d.ordinal.clone() } else { d.cardinal.clone() }?;
            let t = if *same { t } else { BTreeMap::new() };
            if *gap {
                jsons.push(data_json(&Data { version: d.version.clone(), cardinal: None, ordinal: None }));
            }
            jsons.push(data_json(&Data {
                version: d.version.clone(),
                cardinal: if *ordinal { None } else { Some(t.clone()) },
                ordinal: if *ordinal { Some(t) } else { None },
            }));
        }
        Fault::NoRules { files } => {
            jsons = (0..*files).map(|_| data_json(&Data { version: d.version.clone(), cardinal: None, ordinal: None })).collect();
        }
        Fault::Cut(at) => {
            let mut t: Vec<String> = jsons.iter().map(|j| j.to_string()).collect();
            let k = t.len() - 1;
            let mut cut = (*at as usize) % t[k].len();
            while !t[k].is_char_boundary(cut) {
                cut -= 1;
            }
            t[k].truncate(cut);
            texts = Some(t);
        }
        Fault::Syntax { how, at } => {
            let mut t: Vec<String> = jsons.iter().map(|j| layout_json(j, &c.layout)).collect();
            let k = *at as usize % t.len();
            let x = &mut t[k];
            // positions of structural characters outside strings
            let find = |x: &str, what: char| -> Vec<usize> {
                let (mut inside, mut skip, mut v) = (false, false, vec![]);
                for (p, ch) in x.char_indices() {
                    if skip {
                        skip = false;
                    } else if inside && ch == '\\' {
                        skip = true;
                    } else if ch == '"' {
                        inside = !inside;
                    } else if !inside && ch == what {
                        v.push(p);
                    }
                }
                v
            };
            let pick = |v: Vec<usize>| if v.is_empty() { None } else { Some(v[*at as usize % v.len()]) };
            // the first character of each string
            let strings = |x: &str| -> Vec<usize> {
                let (mut inside, mut skip, mut v) = (false, false, vec![]);
                for (p, ch) in x.char_indices() {
                    if skip {
                        skip = false;
                    } else if inside && ch == '\\' {
                        skip = true;
                    } else if ch == '"' {
                        inside = !inside;
                        if inside {
                            v.push(p + 1);
                        }
                    }
                }
                v
            };
            match how % 19 {
                12 => {
                    let p = pick(strings(x))?;
                    x.insert(p, ['\n', '\t', '\u{0}', '\r', '\u{1f}'][*at as usize / 7 % 5]);
                }
                13 => {
                    let p = pick(strings(x))?;
                    x.insert_str(p, ["\\x41", "\\'", "\\u00zz", "\\0"][*at as usize / 7 % 4]);
                }
                14 => {
                    let p = pick(find(x, ':'))?;
                    x.insert(p + 1, ':');
                }
                15 => {
                    let p = pick(find(x, ','))?;
                    x.insert(p, ',');
                }
                16 => {
                    // a member name without quotes
                    let p = pick(strings(x))?;
                    let e = p + x[p..].find('"')?;
                    if x[p..e].contains('\\') || serde_json::from_str::<Value>(&x[p..e]).is_ok() {
                        return None;
                    }
                    x.remove(e);
                    x.remove(p - 1);
                }
                17 => {
                    let p = pick(find(x, '}'))?;
                    x.replace_range(p..p + 1, "]");
                }
                18 => *x = format!("callback({})", x),
                0 => x.push_str(" x"),
                1 => x.push('}'),
                2 => *x = format!("{}{}", x, x),
                3 => *x = format!("{}\n{{}}", x),
                4 => x.push(','),
                5 => {
                    let p = pick(find(x, '}'))?;
                    x.insert(p, ',');
                }
                6 => {
                    let p = pick(find(x, ','))?;
                    x.remove(p);
                }
                7 => {
                    let p = pick(find(x, ':'))?;
                    x.remove(p);
                }
                8 => {
                    let p = pick(find(x, '{'))?;
                    x.insert_str(p + 1, "/* comment */");
                }
                9 => {
                    let p = pick(find(x, ','))?;
                    x.insert_str(p + 1, "// comment\n");
                }
                10 => {
                    let p = pick(find(x, ':'))?;
                    x.replace_range(p..p + 1, "=");
                }
                _ => *x = x.replace('"', "'"),
            }
            texts = Some(t);
        }
        Fault::Edit { file, at, cut, text } => {
            let mut t: Vec<String> = jsons.iter().map(|j| layout_json(j, &c.layout)).collect();
            let k = *file as usize % t.len();
            let mut x: Vec<char> = t[k].chars().collect();
            let at = if *at == u32::MAX { x.len() } else { *at as usize % (x.len() + 1) };
            let end = (at + *cut as usize).min(x.len());
            x.splice(at..end, text.chars());
            t[k] = x.into_iter().collect();
            // a byte order mark may be ignored
            if is_json(t[k].strip_prefix('\u{feff}').unwrap_or(&t[k])) {
                return None;
            }
            texts = Some(t);
        }
        Fault::Member(how) => {
            let k = jsons.len() - 1;
            let j = &mut jsons[k];
            match how % 18 {
                0 => {
                    j.as_object_mut().unwrap().remove("supplemental");
                }
                1 => {
                    j["supplemental"].as_object_mut().unwrap().remove("version");
                }
                2 => {
                    j["supplemental"]["version"].as_object_mut().unwrap().remove("_cldrVersion");
                }
                3 => j["supplemental"]["version"] = json!("37"),
                4 => j["supplemental"]["version"]["_cldrVersion"] = json!(37),
                5 => *j = json!([j.clone()]),
                6 => j["supplemental"]["plurals-type-cardinal"] = json!([1]),
                7 => j["supplemental"]["plurals-type-cardinal"] = json!({"en": "n = 1"}),
                8 => j["supplemental"]["plurals-type-ordinal"] = json!({"en": {"pluralRule-count-one": 1}}),
                9 => j["supplemental"]["plurals-type-ordinal"] = json!("none"),
                10 => j["supplemental"]["version"]["_cldrVersion"] = json!("thirty"),
                11 => j["supplemental"]["plurals-type-cardinal"] = json!({"en": null}),
                12 => j["supplemental"]["plurals-type-ordinal"] = json!({"en": {"pluralRule-count-one": null}}),
                13 => j["supplemental"]["plurals-type-cardinal"] = json!({"en": {"one": "n = 1"}}),
                14 => j["supplemental"]["version"]["_cldrVersion"] = json!(""),
                15 => jsons.iter_mut().for_each(|j| j["supplemental"]["version"]["_cldrVersion"] = json!(format!("-{}", 1 + how / 18))),
                16 => jsons.iter_mut().for_each(|j| j["supplemental"]["version"]["_cldrVersion"] = json!("thirty-seven")),
                _ => *j = json!("supplemental"),
            }
        }
        Fault::Locale(_, ord) | Fault::LocaleText(_, ord) => {
            let key = match &c.fault {
                Fault::Locale(k, _) => BAD_LOCALES[*k as usize % BAD_LOCALES.len()],
                Fault::LocaleText(k, _) => k,
                _ => unreachable!(),
            };
            if key == "root" || key.parse::<unic_langid::LanguageIdentifier>().is_ok() {
                return None;
            }
            let t = if *ord { "plurals-type-ordinal" } else { "plurals-type-cardinal" };
            let mut hit = false;
            for j in jsons.iter_mut() {
                if j["supplemental"].get(t).is_some() {
                    j["supplemental"][t].as_object_mut().unwrap().insert(key.to_string(), rules_json(&Rules(vec![]), true));
                    hit = true;
                }
            }
            if !hit {
                return None;
            }
        }
        Fault::Condition { .. } | Fault::Char { .. } | Fault::Text { .. } | Fault::Other { .. } => {
            let all: Vec<(bool, String, usize)> = [(false, &d.cardinal), (true, &d.ordinal)]
                .iter()
                .flat_map(|(o, t)| t.iter().flatten().flat_map(move |(l, r)| (0..r.0.len()).map(move |k| (*o, l.clone(), k))))
                .collect();
            if all.is_empty() {
                return None;
            }
            let which = match &c.fault {
                Fault::Condition { which, .. } | Fault::Char { which, .. } | Fault::Text { which, .. } | Fault::Other { which, .. } => *which,
                _ => unreachable!(),
            };
            let (o, l, k) = all[which as usize % all.len()].clone();
            let r = &(if o { &d.ordinal } else { &d.cardinal }).as_ref().unwrap()[&l].0[k];
            let mut name = r.0.name();
            let bad = match &c.fault {
                Fault::Condition { how, .. } => damage(&r.1, *how)?,
                Fault::Other { how, .. } => {
                    name = "other";
                    damage(&r.1, *how)?
                }
                Fault::Char { at, ch, .. } => {
                    // letters and signs of the grammar, digits and anything that is a blank to someone may be harmless
                    if harmless(*ch) {
                        return None;
                    }
                    let mut t: Vec<char> = r.1.text().chars().collect();
                    t.insert(*at as usize % (t.len() + 1), *ch);
                    t.into_iter().collect()
                }
                Fault::Text { at, text, blanks, .. } => {
                    if text.contains('@') || text.chars().all(|c| harmless(c) || c == 'a') {
                        return None;
                    }
                    let mut t = r.1.text();
                    let mut at = *at as usize % (t.len() + 1);
                    if blanks & 4 != 0 {
                        // between two conditions
                        at = t.len();
                        t = format!("{}{}", t, t);
                    }
                    let gap = |k: u8| if blanks & k != 0 { " " } else { "" };
                    format!("{}{}{}{}{}", &t[..at], gap(1), text, gap(2), &t[at..])
                }
                _ => unreachable!(),
            };
            let t = if o { "plurals-type-ordinal" } else { "plurals-type-cardinal" };
            for j in jsons.iter_mut() {
                if j["supplemental"].get(t).is_some() {
                    let with_samples = which % 3 != 0;
                    j["supplemental"][t][&l][format!("pluralRule-count-{}", name)] =
                        json!(if with_samples { format!("{} @integer 1, 2~4, …", bad) } else { bad.clone() });
                }
            }
        }
        Fault::TwiceInFile { ordinal, same } => {
            let name = if *ordinal { "plurals-type-ordinal" } else { "plurals-type-cardinal" };
            let mut hit = false;
            let t = jsons
                .iter()
                .map(|j| match j["supplemental"].get(name) {
                    Some(x) => {
                        hit = true;
                        let again = if *same { x.to_string() } else { "{}".to_string() };
                        let text = j.to_string();
                        let member = format!("\"{}\":", name);
                        let at = text.find(&member).expect("HARNESS: member");
                        format!("{}{}{},{}", &text[..at], member, again, &text[at..])
                    }
                    None => j.to_string(),
                })
                .collect();
            if !hit {
                return None;
            }
            texts = Some(t);
        }
    }
    let mut texts = texts.unwrap_or_else(|| jsons.iter().map(|j| layout_json(j, &c.layout)).collect());
    if !texts.is_empty() {
        let k = c.order as usize % texts.len();
        widen(&mut texts[k], c.blanks, c.order);
        for k in 0..c.pad as usize {
            let bare = data_json(&Data { version: d.version.clone(), cardinal: None, ordinal: None }).to_string();
            texts.insert(if c.order & 4 == 0 { texts.len() } else { k % (texts.len() + 1) }, bare);
        }
        let by = c.order as usize / 2 % texts.len();
        texts.rotate_left(by);
        if c.order % 2 == 1 {
            texts.reverse();
        }
    }
    Some((texts, ok))
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("random consistent data sets, most with one injected fault (other version, type twice, no rules, cut JSON, wrong member, wrong JSON syntax, bad locale key, condition damaged in 24 ways); generation must fail exactly on the faulty ones; non-trivial = a fault was injected, or the set has at least two locales");
    ctx.assume("conditions in consistent sets are in CLDR's own spelling; a failure is a panic of generate_rs (its documented way to refuse) or an exit failure of the tool");
    ctx.prop(
        "random",
        ctx.n(150_000, 2_000_000),
        || {
            (data_set(5), prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..30)], any::<bool>(), any::<u8>(), fault(), padding())
                .prop_map(|(data, layout, split, order, fault, (pad, blanks))| FaultCase { data, layout, split, order, fault, pad, blanks })
        },
        |c, log| {
            let Some((files, ok)) = fault_files(c) else {
                log.class("fault does not apply");
                return Ok(());
            };
            let n = c.data.cardinal.iter().flatten().count() + c.data.ordinal.iter().flatten().count();
            log.nontrivial = !ok || n >= 2;
            if ok {
                assert!(files.iter().all(|f| is_json(f)), "HARNESS: a consistent set is not JSON");
            }
            log.class(match &c.fault {
                Fault::None => "consistent",
                Fault::Version(_) => "other version",
                Fault::Twice { .. } => "type twice",
                Fault::NoRules { .. } => "no rules",
                Fault::Cut(_) => "cut JSON",
                Fault::Member(_) => "wrong member",
                Fault::Locale(..) | Fault::LocaleText(..) => "bad locale",
                Fault::Syntax { .. } => "wrong JSON syntax",
                Fault::Edit { .. } => "an edit that leaves no JSON",
                Fault::Condition { .. } | Fault::Char { .. } | Fault::Text { .. } => "bad condition",
                Fault::Other { .. } => "damaged condition of other",
                Fault::TwiceInFile { .. } => "type twice in one file",
            });
            let r = gen_rs(files.clone());
            match (ok, r) {
                (true, Ok(_)) | (false, Err(_)) => Ok(()),
                (true, Err(e)) => Err(format!("consistent input is refused: {}; input: {}", e, files.join("\n").chars().take(900).collect::<String>())),
                (false, Ok(code)) => Err(format!(
                    "{:?}: code is generated from bad input: {}; input: {}",
                    c.fault,
                    code.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect::<String>(),
                    files.join("\n").chars().take(900).collect::<String>()
                )),
            }
        },
    );
}
