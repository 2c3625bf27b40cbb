//! Checks of the make_pluralrules tool as a process (C18) and of the shipped rules against it (C19).
use crate::framework::*;
use crate::gen::*;
use crate::generator::*;
use crate::intl::{cat, object, operands, prt};
use crate::oracle::*;
use crate::tool::*;
use intl_pluralrules::PluralRules;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum FileFault {
    None,
    Missing,
    Directory,
    NotUtf8,
    Empty,
    /// An input is named twice (odd: the second time in another spelling).
    NamedTwice,
    /// The output cannot be written: its directory does not exist, it is a directory, or it is full.
    OutputDir,
    OutputIsDir,
    OutputFull,
    /// Files may not grow beyond 512 bytes, so that the first write is cut short.
    OutputLimit,
    /// The formatter fails, is absent.
    FormatterFails,
    FormatterAbsent,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Prior {
    Absent,
    Empty,
    Text(u16),
    Bytes(Vec<u8>),
    /// The right content, with something after it.
    Longer,
    Same,
    /// Another version of the right content with as many bytes: one byte of it is different.
    SameSize { raw: bool, at: u16 },
    /// As many bytes as the right content has, all of them different.
    Filler { raw: bool },
    /// The beginning of the right content.
    Prefix(u16),
    /// The output is the first input file.
    AnInput,
    /// The output is a symbolic link to a file with old text, or (false) to one that does not exist.
    Link(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CliCase {
    base: FaultCase,
    file_fault: FileFault,
    at: u8,
    prior: Prior,
    ugly: bool,
    style: u8,
    names: u8,
    /// Part of the file names.
    #[serde(default)]
    lit: String,
}

fn cli_case(formatted: bool) -> BoxedStrategy<CliCase> {
    let prior = prop_oneof![
        3 => Just(Prior::Absent),
        1 => Just(Prior::Empty),
        3 => (0u16..20_000).prop_map(Prior::Text),
        1 => prop::collection::vec(any::<u8>(), 1..200).prop_map(Prior::Bytes),
        2 => Just(Prior::Longer),
        1 => Just(Prior::Same),
        2 => (any::<bool>(), any::<u16>()).prop_map(|(raw, at)| Prior::SameSize { raw, at }),
        1 => any::<bool>().prop_map(|raw| Prior::Filler { raw }),
        1 => any::<u16>().prop_map(Prior::Prefix),
        1 => Just(Prior::AnInput),
        1 => any::<bool>().prop_map(Prior::Link),
    ];
    let ff = prop_oneof![
        14 => Just(FileFault::None),
        2 => Just(FileFault::Missing),
        1 => Just(FileFault::Directory),
        1 => Just(FileFault::NotUtf8),
        1 => Just(FileFault::Empty),
        1 => Just(FileFault::NamedTwice),
        1 => Just(FileFault::OutputDir),
        1 => Just(FileFault::OutputIsDir),
        1 => Just(FileFault::OutputFull),
        1 => Just(FileFault::OutputLimit),
        1 => Just(FileFault::FormatterFails),
        1 => Just(FileFault::FormatterAbsent),
    ];
    let layout = prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..30)];
    let fault = prop_oneof![3 => Just(Fault::None), 2 => fault()];
    let lit = prop_oneof![4 => Just(String::new()), 1 => crate::dict::string().prop_map(|s| {
        let t: String = s.chars().filter(|c| c.is_alphanumeric() || "._- ".contains(*c)).take(12).collect(); // a comma separates file names
        t.trim_start_matches(['-', '.', ' ']).trim_end_matches([' ', '.']).to_string()
    })];
    let data = prop_oneof![30 => data_set(5), 1 => data_set(if formatted { 40 } else { 150 })];
    (data, layout, any::<bool>(), fault, ff, any::<u8>(), prior, any::<u8>(), (any::<u8>(), lit, padding()))
        .prop_map(move |(data, layout, split, fault, file_fault, at, prior, style, (names, lit, (pad, blanks)))| CliCase {
            base: FaultCase { data, layout, split, order: names ^ style, fault, pad, blanks },
            file_fault,
            at,
            prior,
            ugly: !formatted,
            style,
            names,
            lit,
        })
        .boxed()
}

fn in_name(k: usize, names: u8, lit: &str) -> String {
    if !lit.is_empty() && names % 3 > 0 {
        return format!("{}{}.json", lit, k);
    }
    match names % 8 {
        0 => format!("in {}.json", k),
        1 => format!("sub/in{}.json", k),
        2 => format!("./in{}.json", k),
        3 => format!("vstup-ž{}.json", k),
        4 => format!("z{}", 200 - k),
        5 if k == 0 => "-".into(),
        _ => format!("in{}.json", k),
    }
}

fn out_name(names: u8, lit: &str) -> String {
    if !lit.is_empty() && names % 3 < 2 {
        return match names / 3 % 3 {
            0 => format!("{}.rs", lit),
            1 => format!("gen{}", lit),
            _ if lit == "sub" => "sub.rs".into(),
            _ => lit.to_string(),
        };
    }
    match names / 8 % 8 {
        0 => "out put.rs".into(),
        1 => "sub/gen.rs".into(),
        2 => "./gen.rs".into(),
        3 => "výstup.rs".into(),
        4 => "gen.rs.txt".into(),
        5 => "gen".into(),
        6 => "-gen.rs".into(),
        _ => "gen.rs".into(),
    }
}

/// What tells an untouched file from one that was written again.
fn stamp(p: &Path) -> Option<(u64, u32, i64, i64)> {
    use std::os::unix::fs::MetadataExt;
    std::fs::symlink_metadata(p).ok().map(|m| (m.ino(), m.mode(), m.mtime(), m.mtime_nsec()))
}

/// A directory on another device than the scratch directories, if there is one.
struct Elsewhere(PathBuf);
impl Elsewhere {
    fn new() -> Option<Elsewhere> {
        use std::os::unix::fs::MetadataExt;
        let dev = |p: &Path| std::fs::metadata(p).ok().map(|m| m.dev());
        let shm = Path::new("/dev/shm");
        if dev(shm)? == dev(&crate::framework::root())? {
            return None;
        }
        static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let p = shm.join(format!("pv-{}-{}", std::process::id(), NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir(&p).ok()?;
        Some(Elsewhere(p))
    }
}
impl Drop for Elsewhere {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Every file below the directory with its content.
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).expect("HARNESS: scratch") {
            let e = e.expect("HARNESS: scratch");
            if e.file_type().expect("HARNESS: scratch").is_dir() {
                todo.push(e.path());
            } else {
                // a link that leads nowhere has no content
                match std::fs::read(e.path()) {
                    Ok(b) => drop(out.insert(e.path(), b)),
                    Err(_) if e.file_type().expect("HARNESS: scratch").is_symlink() => {}
                    Err(e) => panic!("HARNESS: scratch: {}", e),
                }
            }
        }
    }
    out
}

fn run_in(cwd: &Path, args: &[String], path: Option<&Path>, stdin: Option<&Path>, piped: Option<&str>, tmp: Option<&Path>, limit: bool) -> (bool, String) {
    let mut c = if limit {
        // the write that would pass the limit is cut short, the next one fails
        let mut c = Command::new("/bin/sh");
        c.args(["-c", "trap '' XFSZ; ulimit -f 1 && exec \"$0\" \"$@\""]).arg(tool_path());
        c
    } else {
        Command::new(tool_path())
    };
    c.args(args).current_dir(cwd);
    if let Some(t) = tmp {
        c.env("TMPDIR", t);
    }
    match (piped, stdin) {
        (Some(_), _) => c.stdin(Stdio::piped()),
        (_, Some(f)) => c.stdin(std::fs::File::open(f).expect("HARNESS: open")),
        _ => c.stdin(Stdio::null()),
    };
    if let Some(p) = path {
        c.env("PATH", p);
    }
    let mut child = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("HARNESS: cannot start the tool");
    let writer = child.stdin.take().map(|mut si| {
        let text = piped.unwrap_or("").as_bytes().to_vec();
        std::thread::spawn(move || {
            use std::io::Write;
            // in two parts; a tool that refuses something else first does not read it
            let (a, b) = text.split_at(text.len() / 2);
            if si.write_all(a).and_then(|_| si.flush()).is_ok() {
                std::thread::sleep(std::time::Duration::from_millis(2));
                let _ = si.write_all(b);
            }
        })
    });
    let out = child.wait_with_output().expect("HARNESS: the tool's end");
    if let Some(w) = writer {
        w.join().expect("HARNESS: writer");
    }
    (out.status.success(), String::from_utf8_lossy(&out.stderr).chars().take(300).collect())
}

/// What rustfmt makes of the text, done in a directory of its own.
fn formatted(text: &str) -> Option<String> {
    let d = Scratch::new();
    let f = d.file("a.rs");
    std::fs::write(&f, text).expect("HARNESS: write");
    let o = Command::new("rustfmt").arg(&f).stdin(Stdio::null()).output().expect("HARNESS: cannot start rustfmt");
    if !o.status.success() {
        return None;
    }
    Some(std::fs::read_to_string(&f).expect("HARNESS: read"))
}

fn cli_check(c: &CliCase, log: &mut Log) -> Result<(), String> {
    let Some((files, consistent)) = fault_files(&c.base) else {
        log.class("fault does not apply");
        return Ok(());
    };
    if files.is_empty() {
        log.class("fault does not apply");
        return Ok(());
    }
    let dir = Scratch::new();
    let outer = Scratch::new();
    std::fs::create_dir(dir.file("sub")).expect("HARNESS: mkdir");
    let absolute = c.names / 64 == 1;
    let arg = |n: &str| if absolute { dir.file(n).to_str().unwrap().to_string() } else { n.to_string() };
    let mut ins = vec![];
    for (k, t) in files.iter().enumerate() {
        let n = in_name(k, c.names, &c.lit);
        std::fs::write(dir.file(&n), t).expect("HARNESS: write");
        ins.push(n);
    }
    let at = c.at as usize % ins.len();
    let mut ok = consistent;
    let mut bad_input = !consistent;
    let mut out = out_name(c.names, &c.lit);
    if c.prior == Prior::AnInput && ins[0] != "-" {
        out = ins[0].clone();
    }
    let target = dir.file(&ins[at]);
    match c.file_fault {
        FileFault::Missing => std::fs::remove_file(&target).expect("HARNESS: rm"),
        FileFault::Directory => {
            std::fs::remove_file(&target).expect("HARNESS: rm");
            std::fs::create_dir(&target).expect("HARNESS: mkdir");
        }
        FileFault::NotUtf8 => {
            // valid JSON but for one byte that is no UTF-8 text
            let mut b = files[at].clone().into_bytes();
            let k = b.iter().position(|x| *x == b'"').map_or(0, |p| p + 1);
            b.insert(k, 0xff);
            std::fs::write(&target, b).expect("HARNESS: write")
        }
        FileFault::Empty => std::fs::write(&target, "").expect("HARNESS: write"),
        FileFault::NamedTwice => {
            let again = if c.style % 2 == 1 { format!("sub/../{}", ins[at]) } else { ins[at].clone() };
            ins.insert(c.style as usize / 2 % (ins.len() + 1), again);
            // twice the same rules are refused; a file without rules may come twice
            let rules = serde_json::from_str::<serde_json::Value>(&files[at]).map_or(true, |v| {
                ["plurals-type-cardinal", "plurals-type-ordinal"].iter().any(|t| !v["supplemental"][t].is_null())
            });
            if rules {
                ok = false;
                bad_input = true;
            }
        }
        FileFault::OutputDir => out = "none/gen.rs".into(),
        FileFault::OutputIsDir => {
            out = "sub".into();
        }
        FileFault::OutputFull => out = "/dev/full".into(),
        _ => {}
    }
    if matches!(c.file_fault, FileFault::Missing | FileFault::Directory | FileFault::NotUtf8 | FileFault::Empty) {
        ok = false;
        bad_input = true;
        if c.prior == Prior::AnInput && at == 0 {
            out = out_name(c.names, &c.lit);
        }
    }
    let no_output = matches!(c.file_fault, FileFault::OutputDir | FileFault::OutputIsDir | FileFault::OutputFull);
    if no_output || c.file_fault == FileFault::OutputLimit {
        ok = false;
    }
    let mut raw_code = None;
    let expected = if consistent && !bad_input {
        let raw = gen_rs(files.clone()).map_err(|e| format!("generate_rs refuses consistent data: {}", e))?;
        raw_code = Some(raw.clone());
        let want = if c.ugly {
            Some(raw)
        } else {
            formatted(&raw)
        };
        match want {
            Some(w) => Some(w),
            None => {
                log.class("rustfmt cannot format this code");
                return Ok(());
            }
        }
    } else {
        None
    };
    if !no_output {
        let p = dir.file(&out);
        let w = |b: &[u8]| std::fs::write(&p, b).expect("HARNESS: write");
        let right = expected.clone().unwrap_or_else(|| "pub const OLD: u8 = 1;\n".into());
        match &c.prior {
            Prior::Absent | Prior::AnInput => {}
            Prior::Empty => w(b""),
            Prior::Text(n) => w("// old\n".repeat(*n as usize / 7 + 1).as_bytes()),
            Prior::Bytes(b) => w(b),
            Prior::Longer => w(format!("{}// old\npub fn old() {{}}\n", right).as_bytes()),
            Prior::Same => w(right.as_bytes()),
            Prior::SameSize { raw, at } => {
                let mut b = if *raw { raw_code.clone().unwrap_or(right) } else { right }.into_bytes();
                let at = *at as usize % b.len();
                b[at] = if b[at] == b'7' { b'8' } else { b'7' };
                w(&b)
            }
            Prior::Filler { raw } => {
                let n = if *raw { raw_code.as_ref().map_or(right.len(), |x| x.len()) } else { right.len() };
                w(&vec![b'/'; n])
            }
            Prior::Link(exists) => {
                if *exists {
                    std::fs::write(dir.file("sub/behind.rs"), "// old\n".repeat(900)).expect("HARNESS: write");
                }
                std::os::unix::fs::symlink(dir.file("sub/behind.rs"), &p).expect("HARNESS: link")
            }
            Prior::Prefix(n) => w(&right.as_bytes()[..*n as usize % right.len()]),
        }
    }
    let mut path: Option<PathBuf> = None;
    if matches!(c.file_fault, FileFault::FormatterFails | FileFault::FormatterAbsent) && !c.ugly {
        if c.file_fault == FileFault::FormatterFails {
            use std::os::unix::fs::PermissionsExt;
            let f = outer.file("rustfmt");
            std::fs::write(&f, "#!/bin/sh\nexit 1\n").expect("HARNESS: write");
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).expect("HARNESS: chmod");
        }
        path = Some(outer.0.clone());
        ok = false;
    }

    // the first input comes through a pipe
    let piped = c.names % 8 == 6
        && c.lit.is_empty()
        && c.prior != Prior::AnInput
        && !matches!(c.file_fault, FileFault::Missing | FileFault::Directory | FileFault::NotUtf8 | FileFault::Empty | FileFault::NamedTwice);
    if piped {
        log.class("an input comes through a pipe");
        std::fs::remove_file(dir.file(&ins[0])).expect("HARNESS: rm");
        ins[0] = "/dev/stdin".into();
    }
    let mut args: Vec<String> = vec![];
    let o = if out.starts_with('/') { out.clone() } else { arg(&out) };
    let input = |args: &mut Vec<String>| match c.style % 4 {
        0 => {
            args.push("-i".into());
            args.extend(ins.iter().map(|n| arg(n)));
        }
        1 => {
            for n in &ins {
                args.push("-i".into());
                args.push(arg(n));
            }
        }
        2 => {
            args.push("--input".into());
            args.extend(ins.iter().map(|n| arg(n)));
        }
        _ => {
            for n in &ins {
                args.push(format!("--input={}", arg(n)));
            }
        }
    };
    let output = |args: &mut Vec<String>| match c.style / 4 % 4 {
        // the only spelling the option parser takes a leading dash in
        _ if o.starts_with('-') => args.push(format!("--output={}", o)),
        0 => args.push(format!("--output={}", o)),
        1 => {
            args.push("--output".into());
            args.push(o.clone());
        }
        _ => {
            args.push("-o".into());
            args.push(o.clone());
        }
    };
    let ugly = |args: &mut Vec<String>| {
        if c.ugly {
            args.push(if c.style / 16 % 2 == 0 { "-u".into() } else { "--ugly".into() });
        }
    };
    match c.style / 32 {
        0 => {
            output(&mut args);
            ugly(&mut args);
            input(&mut args);
        }
        1 => {
            ugly(&mut args);
            input(&mut args);
            output(&mut args);
        }
        2 => {
            ugly(&mut args);
            output(&mut args);
            input(&mut args);
        }
        _ => {
            input(&mut args);
            output(&mut args);
            ugly(&mut args);
        }
    }

    log.nontrivial = true;
    log.class(if c.ugly { "raw" } else { "formatted" });
    log.class(match (ok, bad_input) {
        (true, _) => "must succeed",
        (_, true) => "must fail: input",
        _ => "must fail: output or formatter",
    });
    if c.prior != Prior::Absent && !no_output {
        log.class("output file existed before");
    }
    if files.len() > 1 {
        log.class("several input files");
    }
    let before = snapshot(&dir.0);
    // what lies on standard input is not asked for, good or bad
    let stdin = (c.at & 1 == 1).then(|| {
        let f = outer.file("stdin");
        let text = match c.at & 2 {
            0 => data_json(&c.base.data).to_string(),
            _ => "{".into(),
        };
        std::fs::write(&f, text).expect("HARNESS: write");
        f
    });
    let elsewhere = if c.at & 28 == 28 { Elsewhere::new() } else { None };
    if elsewhere.is_some() {
        log.class("temporary files belong on another device");
    }
    let old = (!no_output).then(|| stamp(&dir.file(&out))).flatten();
    let (success, message) = run_in(&dir.0, &args, path.as_deref(), stdin.as_deref(), piped.then(|| files[0].as_str()), elsewhere.as_ref().map(|e| e.0.as_path()), c.file_fault == FileFault::OutputLimit);
    let after = snapshot(&dir.0);
    log.note = Some(format!("make_pluralrules {}: success {}", args.join(" "), success));
    let show = |s: &str| format!("make_pluralrules {}: {} ({:?}; {})", args.join(" "), s, c.file_fault, message);
    if success != ok {
        return Err(show(if ok { "consistent input, but the tool reports failure" } else { "the tool reports success although it has to fail" }));
    }
    let outp = if no_output { dir.file("none/gen.rs") } else { dir.file(&out) };
    let key = |m: &BTreeMap<PathBuf, Vec<u8>>| -> Option<Vec<u8>> {
        m.iter().find(|(k, _)| same_path(k, &outp)).map(|(_, v)| v.clone())
    };
    // no other file changes, none appears
    let rest = |m: &BTreeMap<PathBuf, Vec<u8>>| -> BTreeMap<PathBuf, Vec<u8>> {
        let behind = |k: &Path| !bad_input && matches!(c.prior, Prior::Link(_)) && k.ends_with("sub/behind.rs");
        m.iter().filter(|(k, _)| !same_path(k, &outp) && !behind(k)).map(|(k, v)| (k.clone(), v.clone())).collect()
    };
    if rest(&before) != rest(&after) {
        let names = |m: &BTreeMap<PathBuf, Vec<u8>>| m.keys().map(|k| k.file_name().unwrap().to_string_lossy().to_string()).collect::<Vec<_>>();
        return Err(show(&format!("other files changed: {:?} -> {:?}", names(&before), names(&after))));
    }
    if ok {
        let got = key(&after).ok_or_else(|| show("success, but there is no output file"))?;
        let want = expected.unwrap().into_bytes();
        if got != want {
            return Err(show(&format!(
                "the output is not the generated code: {}",
                diff_at(&String::from_utf8_lossy(&got), &String::from_utf8_lossy(&want))
            )));
        }
    } else if bad_input {
        match (key(&before), key(&after)) {
            (a, b) if a == b => {
                if old.is_some() && stamp(&dir.file(&out)) != old {
                    return Err(show("a refused input touches the existing output file: it is written again or replaced"));
                }
            }
            (None, Some(_)) => return Err(show("a refused input leaves a new output file")),
            (Some(_), None) => return Err(show("a refused input removes the existing output file")),
            (_, b) => return Err(show(&format!("a refused input changes the existing output file; it now has {} bytes", b.map_or(0, |b| b.len())))),
        }
    }
    Ok(())
}

fn same_path(a: &Path, b: &Path) -> bool {
    let n = |p: &Path| p.components().filter(|c| !matches!(c, std::path::Component::CurDir)).collect::<PathBuf>();
    n(a) == n(b)
}

/// Several runs at the same time in one directory, each with its own input and output.
fn at_once(c: &(Vec<Data>, bool, u8), log: &mut Log) -> Result<(), String> {
    let (sets, ugly, names) = c;
    let dir = Scratch::new();
    std::fs::create_dir(dir.file("sub")).expect("HARNESS: mkdir");
    let mut jobs = vec![];
    for (k, d) in sets.iter().enumerate() {
        let text = data_json(d).to_string();
        let raw = gen_rs(vec![text.clone()]).map_err(|e| format!("generate_rs refuses consistent data: {}", e))?;
        let Some(want) = (if *ugly { Some(raw) } else { formatted(&raw) }) else {
            log.class("rustfmt cannot format this code");
            return Ok(());
        };
        let (i, o) = (format!("in{}.json", k), if names & 1 == 1 { format!("sub/gen{}.rs", k) } else { format!("gen{}.rs", k) });
        std::fs::write(dir.file(&i), text).expect("HARNESS: write");
        if names & 2 == 2 {
            std::fs::write(dir.file(&o), "// old\n".repeat(40_000)).expect("HARNESS: write");
        }
        let mut args = vec!["-i".to_string(), i, "-o".into(), o.clone()];
        if *ugly {
            args.push("-u".into());
        }
        jobs.push((args, o, want));
    }
    log.nontrivial = sets.len() >= 2;
    log.extra_evals = sets.len() as u64;
    let children: Vec<_> = jobs
        .iter()
        .map(|(args, _, _)| {
            Command::new(tool_path())
                .args(args)
                .current_dir(&dir.0)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("HARNESS: cannot start the tool")
        })
        .collect();
    let ends: Vec<bool> = children.into_iter().map(|mut c| c.wait().expect("HARNESS: wait").success()).collect();
    for ((args, o, want), ok) in jobs.iter().zip(ends) {
        let what = format!("make_pluralrules {}, with {} other runs in the same directory", args.join(" "), jobs.len() - 1);
        if !ok {
            return Err(format!("{}: consistent input, but the tool reports failure", what));
        }
        let got = std::fs::read(dir.file(o)).map_err(|_| format!("{}: success, but there is no output file", what))?;
        if got != want.as_bytes() {
            return Err(format!("{}: the output is not the generated code: {}", what, diff_at(&String::from_utf8_lossy(&got), want)));
        }
    }
    if snapshot(&dir.0).len() != 2 * jobs.len() {
        return Err("several runs at once: other files appear".into());
    }
    Ok(())
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("runs of the built tool in a scratch directory over random data sets (layout and file split random), option spellings and orders, file names (blanks, non-ASCII, sub-directories, absolute), prior output contents, and injected faults: the data faults of C17, a missing, unreadable, non-UTF-8 or empty input, an output that cannot be created or written, a formatter that fails or is absent; and two to five runs at the same time in one directory; every run is non-trivial when it reached the tool; distinct by the whole case");
    ctx.assume("expected raw code is generate_rs of the same texts in this process, expected formatted code is the installed rustfmt run separately on it; input names do not start with a dash (but one may be a dash), output names may (given as --output=NAME)");
    ctx.prop("raw", ctx.n(4_000, 120_000), || cli_case(false), cli_check);
    ctx.prop("formatted", ctx.n(900, 24_000), || cli_case(true), cli_check);
    ctx.prop("at_once", ctx.n(160, 6_000), || (prop::collection::vec(data_set(3), 2..6), any::<bool>(), any::<u8>()), at_once);
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ShipCase {
    ordinal: bool,
    locale: String,
    number: Numeral,
}

fn regenerate(dir: &Scratch, swap: bool) -> Result<PathBuf, String> {
    let data = Path::new("/repo/intl_pluralrules/cldr_data");
    let mut args: Vec<String> = vec!["-i".into()];
    let mut fs = vec!["cldr_pluralrules_cardinals.json", "cldr_pluralrules_ordinals.json"];
    if swap {
        fs.reverse();
    }
    args.extend(fs.iter().map(|f| data.join(f).to_str().unwrap().to_string()));
    let out = dir.file(if swap { "gen1.rs" } else { "gen0.rs" });
    args.extend(["-o".to_string(), out.to_str().unwrap().to_string()]);
    let r = run_tool(&dir.0, &args);
    if r.ok {
        Ok(out)
    } else {
        Err(format!("the tool fails on the shipped data: {}", r.message))
    }
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("the repository's CLDR files go through the tool and rustc (both file orders); locales and version are compared with the library, then every locale of both types on a common pool of numbers (complete small ranges plus random) and numbers next to the constants of its rules; evaluations = locale x number; non-trivial = distinct (type, locale, number)");
    ctx.assume("operands are those of decimal numerals");
    let dir = Scratch::new();
    let mut gens = vec![];
    for swap in [false, true] {
        match regenerate(&dir, swap) {
            Ok(p) => gens.push(p),
            Err(e) => {
                ctx.mark_replayed();
                ctx.violate("regenerate", json!(swap), e);
                return;
            }
        }
    }
    let bin = match compile(&dir.0, &gens) {
        Ok(b) => b,
        Err(e) => {
            ctx.mark_replayed();
            ctx.violate("regenerate", json!("compile"), format!("the regenerated file does not compile: {}", e));
            return;
        }
    };
    // locales and version
    let lines = query(&bin, "T 0 0\nT 0 1\nT 1 0\nT 1 1\n");
    let mut locales: Vec<Vec<String>> = vec![];
    for (n, (m, ord)) in [(0, false), (0, true), (1, false), (1, true)].iter().enumerate() {
        let mut p = lines.get(n).map_or("", |l| l.as_str()).split(' ');
        let ver = p.next().unwrap_or("").to_string();
        let got: BTreeSet<String> = p.map(|s| s.to_string()).collect();
        let want: BTreeSet<String> = PluralRules::get_locales(prt(*ord)).iter().map(|l| l.to_string()).collect();
        let mut log = Log::default();
        log.nontrivial = true;
        ctx.record(Some(&format!("table {}", n)), log, None);
        let kind = if *ord { "ordinal" } else { "cardinal" };
        if got != want {
            let a: Vec<_> = got.difference(&want).collect();
            let b: Vec<_> = want.difference(&got).collect();
            ctx.mark_replayed();
            ctx.violate("tables", json!({"module": m, "type": kind}), format!("{} locales only regenerated: {:?}, only shipped: {:?}", kind, a, b));
            return;
        }
        if ver != intl_pluralrules::CLDR_VERSION.to_string() {
            ctx.mark_replayed();
            ctx.violate("tables", json!({"module": m, "type": kind}), format!("CLDR version {} regenerated, {} shipped", ver, intl_pluralrules::CLDR_VERSION));
            return;
        }
        if *m == 0 {
            locales.push(got.into_iter().collect());
        }
    }
    if let Some((sub, v)) = &ctx.replay {
        ctx.mark_replayed();
        if sub == "categories" {
            let c: ShipCase = serde_json::from_value(v.clone()).expect("HARNESS: replay value");
            if let Some((_, e)) = compare(&bin, c.ordinal, &c.locale, &[c.number.ops().expect("HARNESS: number")]) {
                ctx.violate("categories", v.clone(), e);
            }
        }
        return;
    }
    let mut runner = ctx.runner("pool", 0, 1);
    let mut base: Vec<Ops> = (0..=1200u64).map(Ops::integral).collect();
    for i in (0..=120u64).chain([200, 1000, 1001, 1_000_000]) {
        for f in ["0", "1", "2", "3", "4", "5", "9", "00", "01", "02", "10", "11", "12", "14", "20", "50", "000", "001"] {
            base.push(Numeral { int: i.to_string(), frac: Some(f.into()) }.ops().unwrap());
        }
    }
    let s = exact_numeral();
    for _ in 0..ctx.n(6_000, 300_000) {
        base.push(s.new_tree(&mut runner).unwrap().current().ops().unwrap());
    }
    let data: Vec<BTreeMap<String, RuleSet>> = ["cardinals", "ordinals"]
        .iter()
        .map(|k| {
            let f = format!("/repo/intl_pluralrules/cldr_data/cldr_pluralrules_{}.json", k);
            std::fs::read_to_string(f).ok().and_then(|t| guard(|| load_cldr(&t).1).ok()).unwrap_or_default()
        })
        .collect();
    let mut jobs: Vec<(bool, String)> = vec![];
    for (t, ls) in locales.iter().enumerate() {
        jobs.extend(ls.iter().map(|l| (t == 1, l.clone())));
    }
    ctx.sweep(
        "locales",
        jobs.len() as u64,
        |k| json!({"ordinal": jobs[k as usize].0, "locale": jobs[k as usize].1}),
        |k, log| {
            let (ord, loc) = &jobs[k as usize];
            let mut ops = base.clone();
            if let Some(r) = data[*ord as usize].get(loc) {
                let mut runner = ctx.runner("targeted", k, 1);
                ops.extend(targeted(&Rules(r.rules.clone()), &mut runner));
            }
            let seen: BTreeSet<(u64, usize, u64)> = ops.iter().map(|o| (o.i, o.v, o.f)).collect();
            log.extra_evals = 2 * ops.len() as u64 - 1;
            log.extra_nontrivial = seen.len() as u64;
            log.class(if *ord { "ordinal locale" } else { "cardinal locale" });
            match compare(&bin, *ord, loc, &ops) {
                None => Ok(()),
                Some((n, e)) => {
                    log.minimal = Some(("categories".into(), json!(ShipCase { ordinal: *ord, locale: loc.clone(), number: n })));
                    Err(e)
                }
            }
        },
    );
}

/// The smallest number on which shipped and regenerated rules differ.
fn compare(bin: &Path, ordinal: bool, locale: &str, ops: &[Ops]) -> Option<(Numeral, String)> {
    let mut q = String::new();
    for o in ops {
        q.push_str(&operand_line(o).replacen('O', "P", 1));
    }
    for m in 0..2 {
        q.push_str(&format!("R {} {} {}\n", m, ordinal as u8, locale));
    }
    let lines = query(bin, &q);
    let kind = if ordinal { "ordinal" } else { "cardinal" };
    let Some(pr) = object(locale, ordinal) else {
        return Some((Numeral::int(0), format!("the library has no {} rules for {}", kind, locale)));
    };
    let mut best: Option<(Numeral, String)> = None;
    for (m, order) in ["cardinals first", "ordinals first"].iter().enumerate() {
        let l: Vec<char> = lines.get(m).map(|l| l.chars().collect()).unwrap_or_default();
        if l.len() != ops.len() {
            return Some((Numeral::int(0), format!("the regenerated {} rules of {} cannot be run: {:?}", kind, locale, lines.get(m).map(|l| l.chars().take(80).collect::<String>()))));
        }
        for (o, g) in ops.iter().zip(l) {
            let regen = from_letter(g);
            let shipped = guard(|| pr.select(operands(o)).ok().map(cat)).unwrap_or(None);
            if regen != shipped || regen.is_none() {
                let n = o.numeral();
                if best.as_ref().map_or(true, |(b, _)| (n.text().len(), n.text()) < (b.text().len(), b.text())) {
                    let name = |c: Option<Cat>| c.map_or("no category", |c| c.name());
                    let e = format!("{} {} {}: shipped {}, regenerated ({}) {}", kind, locale, n.text(), name(shipped), order, name(regen));
                    best = Some((n, e));
                }
            }
        }
    }
    best
}
