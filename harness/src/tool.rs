//! Runs the make_pluralrules tool, compiles what it writes against the crates under test, and queries the
//! compiled rules.
use crate::framework::root;
use crate::oracle::*;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// A scratch directory below /verif/work, removed when dropped.
pub struct Scratch(pub PathBuf);

static NEXT: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    pub fn new() -> Scratch {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let p = root().join("work").join(format!("{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("HARNESS: scratch directory");
        Scratch(p)
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn tool_path() -> PathBuf {
    root().join("target/repo/debug/make_pluralrules")
}

pub struct ToolRun {
    pub ok: bool,
    pub message: String,
}

pub fn run_tool(cwd: &Path, args: &[String]) -> ToolRun {
    let out = Command::new(tool_path())
        .args(args)
        .current_dir(cwd)
        .stdin(Stdio::null())
        .output()
        .expect("HARNESS: cannot start the tool");
    ToolRun { ok: out.status.success(), message: String::from_utf8_lossy(&out.stderr).chars().take(300).collect() }
}

fn artifact(id_part: &str, name: &str) -> PathBuf {
    let t = std::fs::read_to_string(root().join("target/build-messages.json")).expect("HARNESS: build messages");
    for l in t.lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if v["reason"] == "compiler-artifact"
            && v["target"]["name"] == name
            && v["package_id"].as_str().unwrap_or("").contains(id_part)
        {
            for f in v["filenames"].as_array().unwrap() {
                let f = f.as_str().unwrap();
                if f.ends_with(".rlib") {
                    return PathBuf::from(f);
                }
            }
        }
    }
    panic!("HARNESS: no library {} in the build messages", name);
}

const DRIVER: &str = r#"
#![allow(dead_code, unused_imports)]
pub use intl_pluralrules::operands::PluralOperands;
pub use intl_pluralrules::PluralCategory;
pub use unic_langid::{LanguageIdentifier, subtags};
use std::io::{Read, Write};

pub type Row = (LanguageIdentifier, fn(&PluralOperands) -> PluralCategory);
macro_rules! absent { () => { unsafe { LanguageIdentifier::from_raw_parts_unchecked(subtags::Language::from_raw_unchecked(0x7a7a7a7a7a), None, None, None) } } }
fn nothing(_: &PluralOperands) -> PluralCategory { PluralCategory::OTHER }
// Seen only where the generated module has no such table.
pub const PRS_CARDINAL: &[Row] = &[(absent!(), nothing)];
pub const PRS_ORDINAL: &[Row] = &[(absent!(), nothing)];

//MODULES

fn letter(c: PluralCategory) -> char {
    match c { PluralCategory::ZERO => 'z', PluralCategory::ONE => '1', PluralCategory::TWO => '2',
        PluralCategory::FEW => 'f', PluralCategory::MANY => 'm', PluralCategory::OTHER => 'o' }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut tables: Vec<[Option<Vec<Row>>; 2]> = vec![];
    let mut versions: Vec<u64> = vec![];
    //FILL
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut cur: Option<fn(&PluralOperands) -> PluralCategory> = None;
    let mut pool: Vec<PluralOperands> = vec![];
    for l in input.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        match p[0] {
            "T" => {
                // T module type -> the table as the lookup sees it
                let m: usize = p[1].parse().unwrap();
                let t: usize = p[2].parse().unwrap();
                match &tables[m][t] {
                    None => writeln!(out, "absent").unwrap(),
                    Some(rows) => {
                        write!(out, "{}", versions[m]).unwrap();
                        for (l, _) in rows { write!(out, " {}", l).unwrap(); }
                        writeln!(out).unwrap();
                    }
                }
            }
            "B" => {
                // B module type locale -> index found by binary search
                let m: usize = p[1].parse().unwrap();
                let t: usize = p[2].parse().unwrap();
                let id: LanguageIdentifier = p[3].parse().unwrap();
                let r = tables[m][t].as_ref().and_then(|rows| rows.binary_search_by_key(&&id, |(l, _)| l).ok());
                match r { None => writeln!(out, "-").unwrap(), Some(k) => writeln!(out, "{}", k).unwrap() }
            }
            "M" => {
                // M module type locale -> selects the entry with that locale for the following operands
                let m: usize = p[1].parse().unwrap();
                let t: usize = p[2].parse().unwrap();
                let id: LanguageIdentifier = p[3].parse().unwrap();
                cur = tables[m][t].as_ref().and_then(|rows| rows.iter().find(|(l, _)| *l == id).map(|(_, f)| *f));
            }
            "O" => {
                let po = PluralOperands { n: p[1].parse().unwrap(), i: p[2].parse().unwrap(), v: p[3].parse().unwrap(),
                    w: p[4].parse().unwrap(), f: p[5].parse().unwrap(), t: p[6].parse().unwrap() };
                let c = match cur {
                    None => '-',
                    Some(f) => std::panic::catch_unwind(|| letter(f(&po))).unwrap_or('P'),
                };
                write!(out, "{}", c).unwrap();
            }
            // P operands: adds to the pool; R module type locale: the entry's letters for the whole pool
            "P" => pool.push(PluralOperands { n: p[1].parse().unwrap(), i: p[2].parse().unwrap(), v: p[3].parse().unwrap(),
                    w: p[4].parse().unwrap(), f: p[5].parse().unwrap(), t: p[6].parse().unwrap() }),
            "R" => {
                let m: usize = p[1].parse().unwrap();
                let t: usize = p[2].parse().unwrap();
                let id: LanguageIdentifier = p[3].parse().unwrap();
                match tables[m][t].as_ref().and_then(|rows| rows.iter().find(|(l, _)| *l == id).map(|(_, f)| *f)) {
                    None => writeln!(out, "-").unwrap(),
                    Some(f) => {
                        let s: String = pool.iter().map(|po| std::panic::catch_unwind(|| letter(f(po))).unwrap_or('P')).collect();
                        writeln!(out, "{}", s).unwrap();
                    }
                }
            }
            "E" => writeln!(out).unwrap(),
            _ => panic!("bad command"),
        }
    }
}
"#;

/// Compiles a program holding the given generated files as modules 0, 1, ...
pub fn compile(dir: &Path, files: &[PathBuf]) -> Result<PathBuf, String> {
    let mut mods = String::new();
    let mut fill = String::new();
    for (k, f) in files.iter().enumerate() {
        mods.push_str(&format!(
            "mod b{k} {{ pub use intl_pluralrules::operands; pub use intl_pluralrules::PluralCategory; #[path = {f:?}] pub mod rules; }}\n\
             fn card{k}() -> Vec<Row> {{ use b{k}::rules::*; PRS_CARDINAL.iter().map(|(l, f)| (l.clone(), *f as fn(&PluralOperands) -> PluralCategory)).collect() }}\n\
             fn ord{k}() -> Vec<Row> {{ use b{k}::rules::*; PRS_ORDINAL.iter().map(|(l, f)| (l.clone(), *f as fn(&PluralOperands) -> PluralCategory)).collect() }}\n",
            k = k,
            f = f.to_str().unwrap()
        ));
        fill.push_str(&format!(
            "{{ let real = |v: Vec<Row>| if v.len() == 1 && v[0].0 == absent!() {{ None }} else {{ Some(v) }};\n\
             tables.push([real(card{k}()), real(ord{k}())]); versions.push(b{k}::rules::CLDR_VERSION as u64); }}\n",
            k = k
        ));
    }
    let src = DRIVER.replace("//MODULES", &mods).replace("//FILL", &fill);
    let main = dir.join("driver.rs");
    std::fs::write(&main, src).expect("HARNESS: driver");
    let bin = dir.join("driver");
    let out = Command::new("rustc")
        .args(["--edition", "2018", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "debug-assertions=on", "-C", "codegen-units=4", "-A", "warnings"])
        .arg("--extern")
        .arg(format!("intl_pluralrules={}", artifact("/repo/intl_pluralrules", "intl_pluralrules").display()))
        .arg("--extern")
        .arg(format!("unic_langid={}", artifact("unic-langid@0.9", "unic_langid").display()))
        .arg("-L")
        .arg(format!("dependency={}", root().join("target/release/deps").display()))
        .arg("-o")
        .arg(&bin)
        .arg(&main)
        .current_dir(dir)
        .output()
        .expect("HARNESS: cannot start rustc");
    if out.status.success() {
        Ok(bin)
    } else {
        let e = String::from_utf8_lossy(&out.stderr).to_string();
        if e.contains("can't find crate") || e.contains("No space left") || e.contains("linking with") {
            panic!("HARNESS: rustc cannot work here: {}", e);
        }
        Err(e.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; "))
    }
}

/// Sends commands to the compiled program and returns its output lines.
pub fn query(bin: &Path, commands: &str) -> Vec<String> {
    let mut ch = Command::new(bin)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("HARNESS: cannot start the driver");
    let mut si = ch.stdin.take().unwrap();
    let text = commands.to_string();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(text.as_bytes());
    });
    let out = ch.wait_with_output().expect("HARNESS: driver");
    let _ = h.join();
    if !out.status.success() {
        return vec![format!("driver failed: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(200).collect::<String>())];
    }
    String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect()
}

pub fn operand_line(o: &Ops) -> String {
    format!("O {:?} {} {} {} {} {}\n", o.n, o.i, o.v, o.w, o.f, o.t)
}

pub fn from_letter(c: char) -> Option<Cat> {
    Some(match c {
        'z' => Cat::Zero,
        '1' => Cat::One,
        '2' => Cat::Two,
        'f' => Cat::Few,
        'm' => Cat::Many,
        'o' => Cat::Other,
        _ => return None,
    })
}
