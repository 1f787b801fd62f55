//! C05: the string-literal syntax. The literal is read by the real parser, every text of that
//! sheet is interpolated by an independent reader, and the expansion must denote the result.
use crate::eval::*;
use hcore::*;
use std::collections::BTreeSet;
use stylist_core::ast as a;
/// `$${` is a literal `${`; `${ name }` is the argument; everything else is itself.
fn interp(t: &str, env: &std::collections::HashMap<String, String>, used: &mut BTreeSet<String>) -> Result<String, String> {
    let c: Vec<char> = t.chars().collect();
    let (mut i, mut o) = (0, String::new());
    while i < c.len() {
        if c[i..].starts_with(&['$', '$', '{']) { o.push_str("${"); i += 3; continue; }
        if c[i..].starts_with(&['$', '{']) {
            let mut j = i + 2;
            let ws = |x: char| " \t\r\n".contains(x);
            while j < c.len() && ws(c[j]) { j += 1; }
            let s = j;
            if j < c.len() && c[j].is_ascii_alphabetic() { j += 1; while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_') { j += 1; } }
            let n: String = c[s..j].iter().collect();
            while j < c.len() && ws(c[j]) { j += 1; }
            if n.is_empty() || j >= c.len() || c[j] != '}' { return Err(format!("malformed interpolation in {t:?}")); }
            match env.get(&n) { Some(v) => o.push_str(v), None => return Err(format!("no argument {n}")) }
            used.insert(n);
            i = j + 1;
            continue;
        }
        o.push(c[i]); i += 1;
    }
    Ok(o)
}
struct I<'a> { env: &'a std::collections::HashMap<String, String>, used: BTreeSet<String> }
impl<'a> I<'a> {
    fn frags(&mut self, v: &[a::StringFragment]) -> Result<String, String> { let mut o = String::new(); for f in v { o.push_str(&interp(&f.inner, self.env, &mut self.used)?); } Ok(o) }
    fn conts(&mut self, v: &[a::RuleBlockContent]) -> Result<Vec<C>, String> {
        v.iter().map(|c| Ok(match c {
            a::RuleBlockContent::StyleAttr(x) => C::Attr(x.key.to_string(), self.frags(&x.value)?),
            a::RuleBlockContent::Rule(x) => C::Rule(self.rule(x)?),
            a::RuleBlockContent::Block(x) => C::Block(self.block(x)?),
        })).collect()
    }
    fn rule(&mut self, x: &a::Rule) -> Result<R, String> { Ok(R { cond: self.frags(&x.condition)?, content: self.conts(&x.content)? }) }
    fn block(&mut self, x: &a::Block) -> Result<B, String> { let mut cond = vec![]; for s in x.condition.iter() { cond.push(self.frags(&s.fragments)?); } Ok(B { cond, content: self.conts(&x.content)? }) }
    fn sheet(&mut self, x: &a::Sheet) -> Result<Vec<S>, String> { x.iter().map(|c| Ok(match c { a::ScopeContent::Block(b) => S::Block(self.block(b)?), a::ScopeContent::Rule(b) => S::Rule(self.rule(b)?) })).collect() }
}
// ---- generation
const NAMES: &[&str] = &["x", "yy", "primary_color", "A1", "z9_", "i", "selector"];
struct G<'r> { r: &'r mut Rng, names: Vec<String> }
impl<'r> G<'r> {
    fn hole(&mut self) -> String {
        let n = self.r.pick(NAMES).to_string();
        self.names.push(n.clone());
        let w = |r: &mut Rng| *r.pick(&["", "", "", " ", "\t", " \n "]);
        format!("${{{}{}{}}}", w(self.r), n, w(self.r))
    }
    fn quoted(&mut self) -> String {
        let mut o = String::from("\"");
        for _ in 0..self.r.below(5) {
            match self.r.below(12) {
                0 | 1 | 2 => { let h = self.hole(); o.push_str(&h); }
                3 => o.push_str("$${"),
                4 => o.push_str("$${x}"),
                5 => o.push('$'),
                6 => o.push_str(*self.r.pick(&["$ {", "$}", "$$", "$5"])),
                7 => o.push_str("{"),
                8 => o.push_str(*self.r.pick(&["\\\"", "\\\\", "\\${"])),
                9 => o.push_str(*self.r.pick(&["}", ";", ",", "/*", "é", "\u{1F600}"])),
                _ => o.push_str(*self.r.pick(&["a", " b ", "\n", "10px", "''"])),
            }
        }
        o.push('"');
        o
    }
    fn value(&mut self) -> String {
        let mut o = String::new();
        for _ in 0..1 + self.r.below(4) {
            match self.r.below(6) {
                0 | 1 | 2 => { let h = self.hole(); o.push_str(&h); }
                3 => { let q = self.quoted(); o.push_str(&q); }
                _ => o.push_str(*self.r.pick(&["red", "1px", " ", "calc(1px + 2px)", "#fff", ",", "a/b", "!important", "é", "\\", ":", "/* c */", "-"])),
            }
            if self.r.chance(1, 2) { o.push(' '); }
        }
        o
    }
    fn sel(&mut self) -> String {
        let mut o = String::from(*self.r.pick(&["&", "", ".a", "div", "&:hover ", "*"]));
        for _ in 0..1 + self.r.below(3) {
            match self.r.below(6) {
                0 | 1 | 2 => { let h = self.hole(); o.push_str(&h); }
                3 => { o.push('['); o.push_str("b="); let q = self.quoted(); o.push_str(&q); o.push(']'); }
                _ => o.push_str(*self.r.pick(&[" > b", ":not(.c)", " ", "::before", "#i"])),
            }
        }
        o
    }
    fn attr(&mut self) -> String { let v = self.value(); format!("{}:{}{};", self.r.pick(&["color", "-w", "--v", "é"]), self.r.pick(&["", " "]), v) }
    fn prelude(&mut self) -> String {
        let mut o = String::from(*self.r.pick(&["@media screen ", "@supports (a: b) ", "@media ", "@container "]));
        for _ in 0..self.r.below(3) { match self.r.below(4) { 0 => o.push_str("and (min-width: 10px) "), 1 => { let q = self.quoted(); o.push_str(&q); } _ => { let h = self.hole(); o.push_str(&h); } } }
        o
    }
    fn body(&mut self, d: usize) -> String {
        let mut o = String::new();
        for _ in 0..1 + self.r.below(3) { if d > 0 && self.r.chance(1, 5) { let p = self.prelude(); let b = self.body(d - 1); o.push_str(&format!("{p}{{ {b} }}\n")); } else { let x = self.attr(); o.push_str(&x); } }
        o
    }
    fn sheet(&mut self) -> String {
        let mut o = String::new();
        for _ in 0..self.r.below(4) {
            match self.r.below(8) {
                0 | 1 | 2 => { let x = self.attr(); o.push_str(&x); }
                3 | 4 => { let s = self.sel(); let t = if self.r.chance(1, 3) { format!(", {}", self.sel()) } else { String::new() }; let b = self.body(1); o.push_str(&format!("{s}{t} {{ {b} }}\n")); }
                5 => { let n = if self.r.chance(1, 2) { self.hole() } else { "k".into() }; let b = self.attr(); o.push_str(&format!("@keyframes {n} {{ from {{ {b} }} to {{ a: b; }} }}\n")); }
                6 => o.push_str("/* ${c} */"),
                _ => { let p = self.prelude(); let s = self.sel(); let b = self.body(1); let c = self.attr(); o.push_str(&format!("{p}{{ {s} {{ {b} }} {c} }}\n")); }
            }
        }
        o
    }
}
const REAL: &[(&str, &str)] = &[("v0", "val0"), ("v1", "val1"), ("WIDTH", "val0"), ("N", "7"), ("v2", "val2"), ("f(1)", "f1"), ("f(2)", "f2"), ("if w { 1 } else { 2 }", "2"), ("Sheet::mk()", "SHEET"), ("From::mk(v0)", "fromval0"), ("ITEMS", "items"), ("::std::format!(\"a{}\", v0)", "aval0"), ("\"${x}\"", "${x}"), ("v0.len() == 4", "true"), ("{ let t = &v1; t }", "val1")];
/// (source, expected value, environment, nontrivial)
pub fn case(rng: &mut Rng, real: bool) -> (String, Result<Vec<S>, String>, Env, bool) {
    let (mut text, names) = { let mut g = G { r: rng, names: vec![] }; let t = g.sheet(); (t, g.names) };
    if !real && rng.chance(1, 8) && !text.is_empty() {
        let k = rng.below(text.chars().count() + 1);
        text = text.chars().enumerate().flat_map(|(i, c)| if i == k { vec!['$', c] } else { vec![c] }).collect();
    }
    let mut env_vals = std::collections::HashMap::new();
    let mut env: Env = Env::new();
    let mut args: Vec<(String, String)> = vec![];
    let mut set: Vec<String> = names.clone(); set.sort(); set.dedup();
    let mode = if real { 9 } else { rng.below(10) };
    if mode == 0 && !set.is_empty() { let k = rng.below(set.len()); set.remove(k); }
    if mode == 1 { set.push("unused1".into()); }
    for n in &set {
        let (src, v) = if real { let (s, v) = *if rng.chance(1, 4) { rng.pick(LITX) } else { rng.pick(REAL) }; (s.to_string(), v.to_string()) } else { match rng.below(7) {
            6 => { let (s, v) = *rng.pick(LITX); (s.to_string(), v.to_string()) }
            0 => (format!("f({})", rng.below(9)), format!("F{}", rng.below(99))),
            1 => { let s = *rng.pick(&["w", "w", "WIDTH", "N", "Self::X", "T::MAX", "x!(1)"]); (s.to_string(), "W".to_string()) }
            2 => (format!("if q {{ a }} else {{ {n} }}"), format!("if-{n}")),
            3 => (format!("g(1, {n} == 2)"), format!("G,{n}")),
            4 => ("\"lit ${x} $\"".to_string(), "lit ${x} $".to_string()),
            _ => (format!("v{n}"), format!("val {n} ${{x}}")),
        } };
        let key = norm(&src);
        let v = env.get(&key).cloned().unwrap_or(v);
        env.insert(key, v.clone());
        env_vals.insert(n.clone(), v);
        args.push((n.clone(), src));
    }
    for i in (1..args.len()).rev() { let j = rng.below(i + 1); args.swap(i, j); }
    let dup = mode == 2 && !args.is_empty();
    if dup { let x = args[0].clone(); args.push(x); }
    let mut src = if rng.chance(1, 3) && !text.contains("\"##") { format!("r##\"{text}\"##") } else { format!("{text:?}") };
    for (n, e) in &args { src.push_str(&format!(", {n} = {e}")); }
    if rng.chance(1, 3) { src.push(','); }
    let want = (|| {
        if dup { return Err("duplicate argument".into()); }
        let sheet: a::Sheet = text.parse().map_err(|e: stylist_core::Error| format!("the literal does not parse: {e}"))?;
        let mut i = I { env: &env_vals, used: BTreeSet::new() };
        let v = i.sheet(&sheet)?;
        for n in &set { if !i.used.contains(n) { return Err(format!("argument {n} is not used")); } }
        Ok(v)
    })();
    (src, want, env, !names.is_empty())
}
pub fn run(rep: &mut Report, seed: u64, secs: f64) {
    let mut rng = Rng::new(seed);
    let clock = Clock::new(secs);
    let mut unknown = 0u64;
    while clock.more() && !rep.full() {
        let (src, want, env, nt) = case(&mut rng, false);
        let Ok(ts) = src.parse::<proc_macro2::TokenStream>() else { continue };
        rep.case(&src, nt);
        let got = guarded(|| expansion(crate::sheet::macro_fn(ts), &env));
        match (want, got) {
            (Ok(w), Ok(Out::Sheet(v))) => { let (w, g) = (canon(&w), canon(&v)); if w != g { rep.violation("literal", &src, &w, &g); } }
            (Ok(w), Ok(Out::Bad(m))) => rep.violation("literal", &src, &canon(&w), &m),
            (Ok(w), Ok(Out::Rejected(m))) => rep.violation("literal", &src, &canon(&w), &format!("rejected: {m}")),
            (Ok(w), Err(p)) => rep.violation("literal", &src, &canon(&w), &format!("aborts: {p}")),
            (Err(w), Ok(Out::Sheet(v))) => rep.violation("literal-accepts", &src, &format!("rejected: {w}"), &canon(&v)),
            (Err(w), Ok(Out::Bad(m))) => rep.violation("literal-accepts", &src, &format!("rejected: {w}"), &m),
            (_, Ok(Out::Unknown(m))) => { unknown += 1; if unknown < 3 { eprintln!("inconclusive: {m}"); } }
            (Err(_), _) => {}
        }
    }
    eprintln!("inconclusive cases: {unknown}");
}
