//! C06/C07: a generated program full of macro invocations, built with the real compiler and the
//! real macro crate, run with two different sets of caller values.
use crate::eval::*;
use hcore::*;
use std::fmt::Write;
const PRELUDE: &str = r#"#![allow(dead_code, unused, non_upper_case_globals, non_camel_case_types, unused_must_use, clippy::all)]
mod canon;
mod user {
    // names a caller may well have in scope
    pub struct Sheet; impl Sheet { pub fn mk() -> ::std::string::String { format!("SHEET") } }
    pub struct From; impl From { pub fn mk(s: &str) -> ::std::string::String { format!("from{s}") } }
    pub struct Into; pub struct Cow; impl Cow { pub fn mk(s: &str) -> ::std::string::String { format!("cow{s}") } }
    pub struct Bow; pub struct Rule; pub struct Block; pub struct Lazy; pub struct Selector; pub struct StringFragment; pub struct ToString; pub struct Display; pub struct String; pub struct Box; pub struct Vec; pub struct Clone;
    pub const ITEMS: &str = "items"; pub const RULE: &str = "rule"; pub const SHEET_REF: &str = "sref"; pub const BLOCK: &str = "block";
    // and traits with methods of common names
    pub trait Show { fn to_string(&self) -> u8 { 0 } fn clone(&self) -> u8 { 0 } fn to_owned(&self) -> u8 { 0 } fn into_owned(&self) -> u8 { 0 } fn deref(&self) -> u8 { 0 } fn borrow(&self) -> u8 { 0 } fn as_ref(&self) -> u8 { 0 } fn into(&self) -> u8 { 0 } fn fmt(&self) -> u8 { 0 } }
    impl<T: ?::core::marker::Sized> Show for T {}
    pub trait Conv<T> { fn from(t: T) -> u8; fn new(t: T) -> u8; fn default() -> u8 { 0 } }
    impl<T, U> Conv<T> for U { fn from(_: T) -> u8 { 0 } fn new(_: T) -> u8 { 0 } }
    pub mod std {} pub mod core {} pub mod stylist {} pub mod alloc {}
    macro_rules! vec { () => { compile_error!("the caller's vec!") }; ($($t:tt)*) => { compile_error!("the caller's vec!") } }
    macro_rules! m { ($e:expr) => { ::std::format!("m{}", $e) } }
    pub struct D(pub &'static str);
    impl ::std::fmt::Display for D { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(self.0) } }
    pub fn f(n: i32) -> ::std::string::String { format!("f{n}") }
    pub fn all<const N: usize>(v0: &str, v1: ::std::string::String, v2: D, w: bool, out: &mut dyn FnMut(usize, ::stylist::ast::Sheet)) {
    let WIDTH = v0;
"#;
const CANON: &str = r#"use stylist::ast::*;
fn j(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn fr(v: &[StringFragment]) -> String { j(&v.iter().map(|f| f.inner.to_string()).collect::<String>()) }
fn cs(v: &[RuleBlockContent]) -> String { v.iter().map(|c| match c { RuleBlockContent::StyleAttr(a) => format!("A({},{})", j(&a.key), fr(&a.value)), RuleBlockContent::Rule(r) => ru(r), RuleBlockContent::Block(b) => bl(b) }).collect::<Vec<_>>().join(",") }
fn ru(r: &Rule) -> String { format!("R({},[{}])", fr(&r.condition), cs(&r.content)) }
fn bl(b: &Block) -> String { format!("B([{}],[{}])", b.condition.iter().map(|x| fr(&x.fragments)).collect::<Vec<_>>().join(","), cs(&b.content)) }
pub fn canon(s: &[ScopeContent]) -> String { format!("[{}]", s.iter().map(|x| match x { ScopeContent::Rule(r) => ru(r), ScopeContent::Block(b) => bl(b) }).collect::<Vec<_>>().join(",")) }
"#;
fn alt(s: &str) -> String { s.replace("val0", "alx0").replace("val1", "alx1").replace("val2", "alx2") }
pub fn run(rep: &mut Report, seed: u64, secs: f64) {
    let mut rng = Rng::new(seed);
    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let scratch = format!("{}/real", std::env::var("HARNESS_SCRATCH").unwrap_or("/tmp".into()));
    let target = format!("{verif}/harness/mac/target/real");
    let rounds = 1 + (secs / 30.0) as usize;
    for round in 0..rounds.min(12) {
        if rep.full() { break; }
        let mut src = String::from(PRELUDE);
        let mut line = src.matches('\n').count();
        let mut cases: Vec<(String, String, usize, usize)> = vec![];
        while cases.len() < 120 {
            let (text, want) = if rng.chance(1, 3) {
                let (t, w, _, _) = crate::lit::case(&mut rng, true);
                let Ok(w) = w else { continue }; (t, w)
            } else { let (t, w, _) = crate::gen::case(&mut rng, true);
                // (a first token that is a literal selects the other syntax)
                if t.starts_with('"') || t.starts_with(|c: char| c.is_ascii_digit()) { continue; } (t, w) };
            // what the lexer of the real compiler refuses is no test of the macros
            let Ok(ts) = text.parse::<proc_macro2::TokenStream>() else { continue };
            if text.contains("'") && !text.starts_with('"') && !text.starts_with('r') { continue; }
            let k = cases.len();
            let call = match k % 5 {
                0 => format!("for _ in 0..2 {{ out({k}, ::stylist::ast::sheet!({text})); }}"),
                1 => format!("out({k}, ::stylist::ast::sheet!({text}));"),
                _ => format!("out({k}, ::stylist::ast::sheet![{text}]);"),
            };
            let n = call.matches('\n').count() + 1;
            cases.push((text, canon(&want), line + 1, line + n));
            let _ = writeln!(src, "{call}");
            line += n;
        }
        src.push_str("    }\n}\nfn main() {\n    let a: Vec<String> = std::env::args().collect();\n    for (v0, v1, v2) in [(\"val0\", \"val1\", \"val2\"), (\"alx0\", \"alx1\", \"alx2\"), (\"val0\", \"val1\", \"val2\")] {\n        println!(\"---\");\n        user::all::<7>(v0, v1.to_string(), user::D(v2), false, &mut |k, s| println!(\"{k} {}\", canon::canon(&s)));\n    }\n    tie::main();\n}\n");
        src.push_str("mod tie {\n    // every entry macro is made of the same sheet\n    pub fn main() {\n        let x = \"a\";\n        let s = ::stylist::ast::sheet!(color: ${x};);\n        println!(\"TIE {}\", ::stylist::style!(color: ${x};).unwrap().get_style_str().len() == ::stylist::Style::new(s.clone()).unwrap().get_style_str().len());\n        println!(\"TIE {}\", ::stylist::global_style!(& { color: ${x}; }).unwrap().get_style_str() == ::stylist::GlobalStyle::new(::stylist::ast::sheet!(& { color: ${x}; })).unwrap().get_style_str());\n        let c: ::stylist::StyleSource = ::stylist::css!(\"color: ${x};\", x = x);\n    }\n}\n");
        std::fs::create_dir_all(format!("{scratch}/src")).unwrap();
        std::fs::write(format!("{scratch}/src/main.rs"), &src).unwrap();
        std::fs::write(format!("{scratch}/src/canon.rs"), CANON).unwrap();
        std::fs::write(format!("{scratch}/Cargo.toml"), format!("[package]\nname = \"hreal\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\n\n[dependencies]\nstylist = {{ path = \"{repo}/packages/stylist\", features = [\"parser\", \"ssr\", \"macros\"] }}\n\n[profile.dev]\ndebug = 0\n")).unwrap();
        let _ = std::fs::copy(format!("{verif}/harness/mac/Cargo.lock"), format!("{scratch}/Cargo.lock"));
        let env = [("CARGO_TARGET_DIR", target.as_str())];
        let cargo = |args: &[&str]| std::process::Command::new("cargo").args(args).current_dir(&scratch).envs(env).stdin(std::process::Stdio::null()).output();
        if round == 0 {
            // never trust file times
            for p in ["stylist-core", "stylist-macros", "stylist", "hreal"] { let _ = cargo(&["clean", "--offline", "-q", "-p", p]); }
        }
        let Ok(o) = cargo(&["build", "--offline", "--quiet", "--message-format=json"]) else { eprintln!("inconclusive: cargo"); return };
        if !o.status.success() {
            // which invocation is refused?
            let mut seen = 0;
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
                if v["reason"] != "compiler-message" || v["message"]["level"] != "error" || v["target"]["name"] != "hreal" { continue; }
                for sp in v["message"]["spans"].as_array().into_iter().flatten() {
                    let mut s = sp;
                    while !s["expansion"].is_null() { s = &s["expansion"]["span"]; }
                    let ln = s["line_start"].as_u64().unwrap_or(0) as usize;
                    if let Some(c) = cases.iter().find(|c| c.2 <= ln && ln <= c.3) {
                        seen += 1;
                        rep.case(&c.0, true);
                        rep.violation("real-compile", &c.0, &format!("compiles to {}", c.1), v["message"]["rendered"].as_str().unwrap_or("").trim());
                        break;
                    }
                }
            }
            if seen == 0 { eprintln!("inconclusive: the generated program does not build: {} {}", String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>(), String::from_utf8_lossy(&o.stdout).lines().filter(|l| l.contains("\"level\":\"error\"")).next().unwrap_or("").chars().take(800).collect::<String>()); }
            return;
        }
        let Ok(o) = std::process::Command::new(format!("{target}/debug/hreal")).output() else { return };
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let mut run = 0;
        let mut got = vec![0usize; cases.len()];
        for l in out.lines() {
            if l == "---" { run += 1; continue; }
            if let Some(t) = l.strip_prefix("TIE ") { if t != "true" { rep.violation("real-entry", "sheet!/style!/global_style!/css! of one input", "the same style text", t); } continue; }
            let Some((k, v)) = l.split_once(' ') else { continue };
            let Ok(k) = k.parse::<usize>() else { continue };
            let want = if run == 2 { alt(&cases[k].1) } else { cases[k].1.clone() };
            got[k] += 1;
            rep.case(&format!("run {run}: {}", cases[k].0), true);
            if v != want { rep.violation("real", &format!("run {run}: {}", cases[k].0), &want, v); }
        }
        if !o.status.success() { rep.violation("real", &format!("the program of round {round}, seed {seed}"), "it runs", &String::from_utf8_lossy(&o.stderr)); }
    }
}
