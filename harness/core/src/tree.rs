//! C14 (equality, hash and clone follow the value) and C04 (parsing does not depend on history).
use crate::render::Gen;
use hcore::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use stylist_core::ast::*;
use stylist_core::bow::Bow;

fn h<T: Hash + ?Sized>(x: &T) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn chk<T: PartialEq + Hash + Clone + std::fmt::Debug>(rep: &mut Report, what: &str, a: &T, ca: &str, b: &T, cb: &str, canon: impl Fn(&T) -> String) {
    let key = format!("{what}: {ca} / {cb}");
    rep.case(&key, true);
    let same = ca == cb;
    let inp = format!("{what}: {a:?} and {b:?}");
    match guarded(|| (a == b, b == a, a != b, h(a), h(b), canon(&a.clone()))) {
        Err(e) => rep.violation(&key, &inp, "no panic", &e),
        Ok((x, y, n, p, q, c)) => {
            if x != same || y != same || n == same { rep.violation(&key, &inp, &format!("equal: {same}"), &format!("== gives {x} and {y}, != gives {n}")); }
            if same && p != q { rep.violation(&key, &inp, "equal hashes", &format!("{p:x} and {q:x}")); }
            if c != ca { rep.violation(&key, &inp, &format!("clone of value {ca}"), &c); }
        }
    }
}
fn parts(rep: &mut Report, rng: &mut Rng, a: &[RuleBlockContent], b: &[RuleBlockContent]) {
    for x in a {
        for y in b {
            chk(rep, "RuleBlockContent", x, &canon::rbc(x), y, &canon::rbc(y), canon::rbc);
            match (x, y) {
                (RuleBlockContent::StyleAttr(p), RuleBlockContent::StyleAttr(q)) => {
                    chk(rep, "StyleAttribute", p, &canon::attr(p), q, &canon::attr(q), canon::attr);
                    for f in p.value.iter() { for g in q.value.iter() { chk(rep, "StringFragment", f, &canon::frags(&[f.clone()]), g, &canon::frags(&[g.clone()]), |f| canon::frags(std::slice::from_ref(f))); } }
                }
                (RuleBlockContent::Rule(p), RuleBlockContent::Rule(q)) => {
                    chk(rep, "Bow<Rule>", p, &canon::rule(p), q, &canon::rule(q), |b| canon::rule(b));
                    chk(rep, "Rule", &**p, &canon::rule(p), &**q, &canon::rule(q), canon::rule);
                    if rng.chance(1, 3) { parts(rep, rng, &p.content, &q.content); }
                }
                (RuleBlockContent::Block(p), RuleBlockContent::Block(q)) => {
                    chk(rep, "Bow<Block>", p, &canon::block(p), q, &canon::block(q), |b| canon::block(b));
                    for f in p.condition.iter() { for g in q.condition.iter() { chk(rep, "Selector", f, &canon::sel(f), g, &canon::sel(g), canon::sel); } }
                    if rng.chance(1, 3) { parts(rep, rng, &p.content, &q.content); }
                }
                _ => {}
            }
        }
    }
}
pub fn c14(rep: &mut Report, rng: &mut Rng, clock: &Clock) {
    // Bow itself
    for n in 0..40u32 {
        let (x, y) = (n % 7, n / 7);
        let f = |v: u32, k: u32| -> Bow<'static, String> { let s = format!("t{v}"); if k % 2 == 0 { Bow::Borrowed(Box::leak(Box::new(s))) } else { Bow::from(s) } };
        for k in 0..4 { let (a, b) = (f(x, k), f(y, k / 2)); chk(rep, "Bow<String>", &a, &format!("t{x}"), &b, &format!("t{y}"), |b| b.to_string()); if *a.as_ref() != *a { rep.violation("as_ref", "as_ref", "target", "another value"); } }
    }
    if canon::sheet(&Sheet::new()) != "[]" || canon::sheet(&Sheet::default()) != "[]" { rep.violation("new", "Sheet::new()", "[]", "not empty"); }
    while clock.more() && !rep.full() {
        let d = rng.below(5); let b = 1 + rng.below(10);
        let s = Gen { rng, budget: b }.sheet(d);
        let c = canon::sheet(&s);
        let (x, y) = (canon::re_sheet(rng, &s), canon::re_sheet(rng, &s));
        chk(rep, "Sheet", &x, &c, &y, &c, |s| canon::sheet(s));
        let m = canon::mutate(rng, &s); let cm = canon::sheet(&m); let z = canon::re_sheet(rng, &m);
        chk(rep, "Sheet", &x, &c, &z, &cm, |s| canon::sheet(s));
        let set: HashSet<Sheet> = [x.clone(), y, z.clone()].into_iter().collect();
        let want = if c == cm { 1 } else { 2 };
        if set.len() != want { rep.violation(&c, &format!("set of {x:?} twice and {z:?}"), &want.to_string(), &set.len().to_string()); }
        let f = |s: &[ScopeContent]| -> Vec<RuleBlockContent> { s.iter().map(|c| match c { ScopeContent::Rule(r) => RuleBlockContent::Rule(Bow::from(r.clone())), ScopeContent::Block(b) => RuleBlockContent::Block(Bow::from(b.clone())) }).collect() };
        for (p, q) in x.iter().zip(z.iter()) { chk(rep, "ScopeContent", p, &canon::scope(p), q, &canon::scope(q), canon::scope); }
        let (fx, fz) = (f(&x), f(&z));
        parts(rep, rng, &fx, &fz);
        if rep.evals > 3_000_000 { break; }
    }
}

// ---------------------------------------------------------------- C04
pub fn answer(t: &str) -> String { match guarded(|| t.parse::<Sheet>()) { Ok(Ok(s)) => canon::sheet(&s), Ok(Err(e)) => format!("error {e}"), Err(p) => format!("panic {p}") } }
/// The answer of a process that has parsed nothing before.
fn fresh(t: &str) -> String {
    use std::io::Write;
    use std::process::*;
    let mut c = Command::new(std::env::current_exe().unwrap()).arg("parse1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    c.stdin.take().unwrap().write_all(t.as_bytes()).unwrap();
    String::from_utf8_lossy(&c.wait_with_output().unwrap().stdout).into_owned()
}
const BASE: &[&str] = &["color: red;", "a { b: c; }", "a, b { c: d; e: f; }", "@media x { a { b: c; } }", "content: \"x y\";", "& .a { b: c; }", "@keyframes k { from { a: b; } to { a: c; } }",
    "a: b; c: d;", "/* k */ a: b;", "a {", "a: b", "", "}", "@media x { a: b; } @media x { c: d; }", ".k:hover { a: url(\"/x y\"); }", "width: calc(1px + 2px);", "a{b:c;}d{e:f;}", "--x: {a};", "b: é;", "color: RED;"];
fn variant(rng: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    for _ in 0..rng.below(3) {
        let i = rng.below(v.len() + 1);
        match rng.below(11) {
            9 => { let c = *rng.pick(&['\u{a0}', '\u{3000}', '\t', '\u{feff}', '\u{b}', '\r', '\u{85}']); v.insert(0, c) }
            10 => { let c = *rng.pick(&['\u{a0}', '\u{3000}', '\t', '\u{feff}', '\u{b}', '\r', '\u{85}']); v.push(c) }
            0 => v.insert(i, ' '), 1 => v.insert(i, '\n'), 2 => v.insert(0, ' '), 3 => v.push(' '),
            4 => if let Some(k) = v.iter().position(|c| *c == ' ') { v.remove(k); },
            5 => if let Some(c) = v.get_mut(i) { *c = if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }; },
            6 => { v.truncate(i); } 7 => v.extend("x: y;".chars()), _ => v.splice(i..i, "/*c*/".chars()).for_each(drop),
        }
    }
    v.into_iter().collect()
}
pub fn c04(rep: &mut Report, rng: &mut Rng, clock: &Clock, quick: bool) {
    let mut pool: Vec<(String, String)> = vec![];
    let mut seen = HashSet::new();
    for t in BASE { if seen.insert(t.to_string()) { pool.push((t.to_string(), fresh(t))); } }
    let n = if quick { 700 } else { 4000 };
    for _ in 0..n { let b = rng.pick(BASE); let t = variant(rng, b); if seen.insert(t.clone()) { let f = fresh(&t); pool.push((t, f)); } }
    // long common prefixes
    let long: String = (0..60).map(|i| format!("p{i}: v;")).collect();
    for k in 0..12 { let t = format!("{long}q: {k};"); let f = fresh(&t); pool.push((t, f)); let t = format!("r: {k};{long}"); let f = fresh(&t); pool.push((t, f)); }
    let mut steps: Vec<String> = vec![];
    for round in 0.. {
        if !clock.more() || rep.full() || round > 40 { break; }
        for _ in 0..pool.len() {
            let (t, want) = &pool[rng.below(pool.len())];
            steps.push(t.clone());
            rep.case(&format!("{}th: {t:?}", steps.len()), steps.len() > 1);
            let got = answer(t);
            if got != *want {
                let from = steps.len().saturating_sub(40);
                rep.violation(t, &format!("after parsing {:?} (last of {} texts): {t:?}", &steps[from..steps.len() - 1], steps.len() - 1), want, &got);
                break;
            }
        }
    }
    // many texts with a known answer: no two of them may share an entry; and from several threads
    let m = if quick { 60_000 } else { 400_000 };
    for k in 0..m {
        if rep.full() { break; }
        let t = format!("k: {k};");
        rep.case("many", false);
        if let Ok(Ok(s)) = guarded(|| t.parse::<Sheet>()) {
            if canon::sheet(&s) != format!("[B([],[A(\"k\",[\"{k}\"])])]") { rep.violation("many", &format!("after k: 0; .. k: {k};: {t:?}"), &format!("k = {k}"), &canon::sheet(&s)); }
        } else { rep.violation("many", &t, "a sheet", "error"); }
    }
    let map: HashMap<String, String> = pool.iter().cloned().collect();
    let bad: Vec<(String, String, String)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4).map(|k| { let map = &map; let pool = &pool; sc.spawn(move || {
            let mut r = Rng::new(77 + k); let mut out = vec![];
            for _ in 0..2000 { let t = &pool[r.below(pool.len())].0; let g = answer(t); if g != map[t] { out.push((t.clone(), map[t].clone(), g)); break; } }
            out }) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    });
    for (t, w, g) in bad { rep.violation(&t, &format!("from four threads: {t:?}"), &w, &g); }
}
