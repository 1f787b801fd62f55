//! C01 / C02: independent reading of what a rendered sheet must say.
use hcore::*;
use stylist_core::ast::*;
use stylist_core::bow::Bow;

// ---- independent oracle ------------------------------------------------------------------
pub fn sel_text(j: &str, class: Option<&str>) -> String {
    let subst = |j: &str, by: &str, root: bool| {
        // `&` first, then `:root` (in the text obtained)
        let mut a = String::new();
        for c in j.chars() { if c == '&' { a.push_str(by) } else { a.push(c) } }
        if !root { return a; }
        let mut o = String::new();
        let mut r = a.as_str();
        while !r.is_empty() {
            if let Some(n) = r.strip_prefix(":root") { o.push_str(by); r = n; } else { let c = r.chars().next().unwrap(); o.push(c); r = &r[c.len_utf8()..]; }
        }
        o
    };
    let has_amp = j.chars().any(|c| c == '&');
    let has_root = (0..j.len()).any(|k| j.is_char_boundary(k) && j[k..].starts_with(":root"));
    match class {
        Some(c) => {
            let dot = format!(".{c}");
            if has_amp || has_root { subst(j, &dot, true) }
            else if j.chars().next() == Some(':') { dot + j }
            else { format!("{dot} {j}") }
        }
        None => if has_amp { subst(j, ":root", false) } else { j.to_string() },
    }
}
pub fn frags(v: &[StringFragment]) -> String { v.iter().map(|f| f.inner.to_string()).collect() }
#[derive(Debug, Clone, PartialEq)]
pub enum It { Mark(Vec<String>), Decl(Vec<String>, String, String) }
fn full(rules: &[String], sel: &Option<String>) -> Vec<String> { let mut v = rules.to_vec(); v.extend(sel.clone()); v }
fn items_list(l: &[RuleBlockContent], rules: &[String], sel: &Option<String>, class: Option<&str>, out: &mut Vec<It>) {
    for c in l {
        match c {
            RuleBlockContent::StyleAttr(a) => out.push(It::Decl(full(rules, sel), a.key.to_string(), frags(&a.value))),
            RuleBlockContent::Rule(r) => items_rule(r, rules, sel, class, out),
            RuleBlockContent::Block(b) => items_block(b, rules, sel, class, out),
        }
    }
}
fn items_rule(r: &Rule, rules: &[String], sel: &Option<String>, class: Option<&str>, out: &mut Vec<It>) {
    let c = frags(&r.condition);
    let mut rules = rules.to_vec();
    rules.push(c.clone());
    if c.starts_with("@keyframes") { out.push(It::Mark(full(&rules, sel))); }
    items_list(&r.content, &rules, sel, class, out);
}
pub fn cond_text(cond: &[Selector], class: Option<&str>) -> String { cond.iter().map(|s| sel_text(&frags(&s.fragments), class)).collect::<Vec<_>>().join(", ") }
fn items_block(b: &Block, rules: &[String], sel: &Option<String>, class: Option<&str>, out: &mut Vec<It>) {
    let s = if !b.condition.is_empty() { cond_text(&b.condition, class) }
        else if let Some(s) = sel { s.clone() }
        else if let Some(c) = class { format!(".{c}") } else { ":root".into() };
    items_list(&b.content, rules, &Some(s), class, out);
}
pub fn items_sheet(s: &[ScopeContent], class: Option<&str>) -> Vec<It> {
    let mut out = vec![];
    for c in s { match c { ScopeContent::Block(b) => items_block(b, &[], &None, class, &mut out), ScopeContent::Rule(r) => items_rule(r, &[], &None, class, &mut out) } }
    out
}
/// Reads rendered text line by line; Err = malformed.
pub fn read(text: &str) -> Result<Vec<It>, String> {
    let mut stack: Vec<String> = vec![];
    let mut out = vec![];
    if !text.is_empty() && !text.ends_with('\n') { return Err("text does not end in a line end".into()); }
    for (n, l) in text.split_terminator('\n').enumerate() {
        let bad = |m: &str| Err(format!("line {}: {m}: {l:?}", n + 1));
        if l.trim_start_matches(' ') == "}" {
            if stack.pop().is_none() { return bad("unbalanced `}`"); }
            if l.len() != 4 * stack.len() + 1 { return bad("indentation"); }
            continue;
        }
        let d = 4 * stack.len();
        if l.len() < d || !l.is_char_boundary(d) || l[..d].chars().any(|c| c != ' ') { return bad("indentation"); }
        let r = &l[d..];
        if let Some(c) = r.strip_suffix(" {") {
            stack.push(c.to_string());
            if c.starts_with("@keyframes") { out.push(It::Mark(stack.clone())); }
        } else if let Some(c) = r.strip_suffix(';') {
            let Some((k, v)) = c.split_once(": ") else { return bad("no `: `") };
            out.push(It::Decl(stack.clone(), k.to_string(), v.to_string()));
        } else { return bad("unknown line"); }
    }
    if !stack.is_empty() { return Err(format!("left open: {stack:?}")); }
    Ok(out)
}
// ---- generators --------------------------------------------------------------------------
pub const PIECES: &[&str] = &["&", ":root", ":hover", "div", " ", ".a", "::before", "#x", " > ", "é", ":roo", "t", "&&", "ro:root", "@x", "%", "", "\n", "*"];
pub fn split(rng: &mut Rng, s: &str) -> Vec<StringFragment> {
    let cs: Vec<char> = s.chars().collect();
    let mut v: Vec<StringFragment> = vec![];
    let mut cur = String::new();
    for c in cs { cur.push(c); if rng.chance(1, 3) { v.push(std::mem::take(&mut cur).into()); } }
    if !cur.is_empty() || rng.chance(1, 2) { v.push(cur.into()); }
    v
}
fn c01_case(rep: &mut Report, rng: &mut Rng, sels: &[String], class: Option<&str>, nest: usize) {
    let cond: Vec<Selector> = sels.iter().map(|s| Selector::from(split(rng, s))).collect();
    let decl = || RuleBlockContent::StyleAttr(StyleAttribute { key: "k".into(), value: vec!["v".into()].into() });
    let block = Block { condition: cond.clone().into(), content: vec![decl()].into() };
    let sel = if sels.is_empty() { match class { Some(c) => format!(".{c}"), None => ":root".into() } } else { cond_text(&cond, class) };
    let (sheet, want) = match nest {
        0 => (Sheet::from(vec![ScopeContent::Block(block)]), format!("{sel} {{\n    k: v;\n}}\n")),
        1 => (Sheet::from(vec![ScopeContent::Rule(Rule { condition: vec!["@media x".into()].into(), content: vec![RuleBlockContent::Block(Bow::Boxed(Box::new(block)))].into() })]),
              format!("@media x {{\n    {sel} {{\n        k: v;\n    }}\n}}\n")),
        3 => { let outer = Block { condition: vec![Selector::from(split(rng, ".o"))].into(), content: vec![RuleBlockContent::Rule(Bow::Boxed(Box::new(Rule { condition: vec!["@media x".into()].into(), content: vec![RuleBlockContent::Block(Bow::Boxed(Box::new(block)))].into() })))].into() };
              let sel = if sels.is_empty() { sel_text(".o", class) } else { sel.clone() };
              (Sheet::from(vec![ScopeContent::Block(outer)]), format!("@media x {{\n    {sel} {{\n        k: v;\n    }}\n}}\n")) }
        4 => { let outer = Block { condition: vec![Selector::from(split(rng, ".o"))].into(), content: vec![RuleBlockContent::Block(Bow::Boxed(Box::new(block)))].into() };
              let sel = if sels.is_empty() { sel_text(".o", class) } else { sel.clone() };
              (Sheet::from(vec![ScopeContent::Block(outer)]), format!("{sel} {{\n    k: v;\n}}\n")) }
        _ => { let mut b = block; b.content = vec![RuleBlockContent::Rule(Bow::Boxed(Box::new(Rule { condition: vec!["@media x".into()].into(), content: vec![decl()].into() })))].into();
              (Sheet::from(vec![ScopeContent::Block(b)]), format!("@media x {{\n    {sel} {{\n        k: v;\n    }}\n}}\n")) }
    };
    let key = format!("selectors {sels:?} class {class:?} nesting {nest}");
    rep.case(&key, !sels.is_empty());
    match guarded(|| sheet.to_style_str(class)) {
        Ok(got) if got == want => {}
        Ok(got) => rep.violation(&key, &key, &want, &got),
        Err(e) => rep.violation(&key, &key, &want, &format!("panic: {e}")),
    }
    // a single selector rendered on its own
    for s in &cond { let want = sel_text(&frags(&s.fragments), class); let got = s.to_style_str(class); if got != want { rep.violation(&key, &key, &want, &got); } }
}
pub const CLASSES: &[Option<&str>] = &[None, Some("stylist-abc"), Some("c"), Some("root"), Some("a&b"), Some(""), Some("x:root")];
pub fn c01(rep: &mut Report, rng: &mut Rng, clock: &Clock) {
    // exhaustive: all selectors of up to 3 pieces, with and without a class
    let mut all = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..3 { let mut nx = vec![]; for l in &layer { for p in PIECES { nx.push(format!("{l}{p}")); } } all.extend(nx.iter().cloned()); layer = nx; }
    for s in &all { for c in &CLASSES[..3] { c01_case(rep, rng, std::slice::from_ref(s), *c, rng_nest(s)); } if rep.full() || !clock.more() { return; } }
    while clock.more() && !rep.full() {
        let n = rng.below(5);
        let sels: Vec<String> = (0..n).map(|_| { let k = rng.below(6); (0..k).map(|_| *rng.pick(PIECES)).collect() }).collect();
        let c = *rng.pick(CLASSES); let nest = rng.below(5);
        c01_case(rep, rng, &sels, c, nest);
    }
}
fn rng_nest(s: &str) -> usize { s.len() % 5 }

pub struct Gen<'r> { pub rng: &'r mut Rng, pub budget: usize }
impl Gen<'_> {
    fn word(&mut self) -> String { let w = ["a", "b", "&", ":root", ":hover", ".x", "c", "dd"]; self.rng.pick(&w).to_string() }
    fn cond(&mut self) -> Vec<StringFragment> {
        let w = ["@media a", "@media b", "@media a ", "@supports (x)", "@keyframes k", "@keyframes", "@container c", "from", "to", "@key"];
        let s = self.rng.pick(&w).to_string(); split(self.rng, &s)
    }
    fn attr(&mut self) -> StyleAttribute {
        let k = self.rng.pick(&["color", "width", "--x"]).to_string();
        let v = self.rng.pick(&["red", "1px", "a b", "é"]).to_string();
        StyleAttribute { key: k.into(), value: split(self.rng, &v).into() }
    }
    pub fn block(&mut self, d: usize) -> Block {
        let n = self.rng.below(3);
        let cond: Vec<Selector> = (0..n).map(|_| { let w = self.word(); Selector::from(split(self.rng, &w)) }).collect();
        Block { condition: cond.into(), content: self.list(d).into() }
    }
    pub fn rule(&mut self, d: usize) -> Rule { Rule { condition: self.cond().into(), content: self.list(d).into() } }
    fn list(&mut self, d: usize) -> Vec<RuleBlockContent> {
        let n = self.rng.below(4);
        let mut v = vec![];
        for _ in 0..n {
            if self.budget == 0 { break; }
            self.budget -= 1;
            let k = self.rng.below(if d == 0 { 1 } else { 4 });
            v.push(match k {
                2 => RuleBlockContent::Rule(Bow::Boxed(Box::new(self.rule(d - 1)))),
                3 => RuleBlockContent::Block(Bow::Boxed(Box::new(self.block(d - 1)))),
                _ => RuleBlockContent::StyleAttr(self.attr()),
            });
        }
        v
    }
    pub fn sheet(&mut self, d: usize) -> Vec<ScopeContent> {
        let n = 1 + self.rng.below(3);
        (0..n).map(|_| if self.rng.chance(1, 2) { ScopeContent::Block(self.block(d)) } else { ScopeContent::Rule(self.rule(d)) }).collect()
    }
}
pub fn c02_check(rep: &mut Report, sheet: &Sheet, class: Option<&str>) {
    let want = items_sheet(sheet, class);
    let key = format!("{sheet:?} class {class:?}");
    rep.case(&key, want.len() > 1);
    let got = guarded(|| sheet.to_style_str(class)).unwrap_or_else(|e| format!("panic: {e}"));
    // `It::Mark` appears in the reading every time an `@keyframes` is the newest condition opened
    // (re-opening it is not an error): compare declarations exactly and marks as containment.
    let exp: Vec<&It> = want.iter().filter(|i| matches!(i, It::Decl(..))).collect();
    match read(&got) {
        Err(e) => rep.violation(&key, &key, &format!("well-formed text with {want:?}"), &format!("{e} in {got}")),
        Ok(r) => {
            let have: Vec<&It> = r.iter().filter(|i| matches!(i, It::Decl(..))).collect();
            if have != exp { rep.violation(&key, &key, &format!("{exp:?}"), &format!("{have:?} in {got}")); return; }
            // every keyframes mark must be present, in its place between declarations
            let mut pos = 0;
            for w in &want {
                match w {
                    It::Decl(..) => { while r[pos] != *w { pos += 1; } pos += 1; }
                    It::Mark(p) => {
                        // the mark's conditions are opened (or still open) here: find a line opening it before the next declaration,
                        // or an already open one
                        let selless = p.iter().rposition(|c| c.starts_with("@keyframes")).map(|k| &p[..=k]).unwrap();
                        let near = r[..].iter().any(|i| matches!(i, It::Mark(q) if q.as_slice() == selless));
                        if !near { rep.violation(&key, &key, &format!("{p:?} opened"), &got); return; }
                    }
                }
            }
        }
    }
}
pub fn c02(rep: &mut Report, rng: &mut Rng, clock: &Clock) {
    let mut n = 0u64;
    while clock.more() && !rep.full() {
        n += 1;
        let d = 1 + (n % 5) as usize;
        let b = 1 + rng.below(14);
        let mut g = Gen { rng, budget: b };
        let s = Sheet::from(g.sheet(d));
        let class = if n % 3 == 0 { None } else { Some("cls") };
        c02_check(rep, &s, class);
        if n > 400_000 { break; }
    }
}
