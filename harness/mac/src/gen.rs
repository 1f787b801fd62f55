//! C08/C09 (and C06/C07): random inline sheets, written as tokens, against the documented reading.
use crate::eval::*;
use hcore::*;
/// a component value and the pieces of text it stands for
#[derive(Clone, Debug)]
pub enum V { Id(String, String), Punct(char), Lit(String), Func(String, String, Vec<V>), Br(char, Vec<V>), Expr(String, String) }
/// pieces: what decides the spacing between two neighbours
#[derive(Clone, Debug, PartialEq)]
pub enum P { Open, Close, Id, Lit, Punct(char), Free }
pub fn pieces(v: &[V], out: &mut Vec<(P, String)>) {
    for x in v {
        match x {
            V::Id(_, t) => out.push((P::Id, t.clone())),
            V::Punct(c) => out.push((P::Punct(*c), c.to_string())),
            V::Lit(s) => out.push((P::Lit, s.clone())),
            V::Func(_, n, a) => { out.push((P::Id, n.clone())); out.push((P::Open, "(".into())); pieces(a, out); out.push((P::Close, ")".into())); }
            V::Br(c, a) => { out.push((P::Open, c.to_string())); pieces(a, out); out.push((P::Close, if *c == '[' { "]" } else { ")" }.into())); }
            V::Expr(_, t) => out.push((P::Free, t.clone())),
        }
    }
}
/// The documented rule: a space between `L R` iff L is a closing bracket, an identifier, a literal,
/// `*` (or `&`), and R is an identifier, a literal, `*` or `#`.
pub fn spaced(v: &[V]) -> String {
    let mut p = vec![];
    pieces(v, &mut p);
    let mut o = String::new();
    for i in 0..p.len() {
        o.push_str(&p[i].1);
        if i + 1 < p.len() {
            let l = matches!(p[i].0, P::Close | P::Id | P::Lit | P::Punct('*') | P::Punct('&'));
            let r = matches!(p[i + 1].0, P::Id | P::Lit | P::Punct('*') | P::Punct('#'));
            if l && r { o.push(' '); }
        }
    }
    o
}
pub enum I { Attr(Result<(String, String), (String, String)>, Vec<V>), At((String, String), Vec<V>, Option<Vec<I>>), Block(Vec<Vec<V>>, Vec<I>) }
pub struct G<'a> { pub r: &'a mut Rng, pub env: Env, pub real: bool }
/// (source, css text)
const IDS: &[&str] = &["a", "div", "color", "background-color", "--x", "--main-color", "-webkit-foo", "red", "for", "in", "type", "r#type", "screen", "x1", "é", "b-c-d", "_u", "self", "grid-area", "-a", "a-"];
const LITS: &[&str] = &["\"s\"", "\"a\\\"b\"", "\"\"", "12", "3px", "1.5", "0", "'c'", "\"é;}{\"", "50", "2rem", "\"&\"", "r\"x\"", "\"${v}\"", "1_0"];
impl<'a> G<'a> {
    fn id(&mut self) -> (String, String) {
        let s = if self.real { *self.r.pick(&["a", "div", "color", "background-color", "--x", "-webkit-foo", "red", "for", "type", "b-c-d"]) } else { *self.r.pick(IDS) };
        if s.ends_with('-') { return ("a".into(), "a".into()); }
        (s.to_string(), s.replace("r#", ""))
    }
    fn expr(&mut self) -> (String, String) {
        let r = &mut *self.r;
        match r.below(8) {
            7 => { let (s, v) = *r.pick(LITX); self.env.insert(norm(s), v.into()); (s.into(), v.into()) }
            0 => { let t = *r.pick(&["lit", "div.x", "", "a b", "a ", " b", " ", "  c  ", "#44444e", "\\u{e9}"]); let v = if t == "\\u{e9}" { "é" } else { t }; (format!("\"{t}\""), v.to_string()) }
            6 if r.chance(1, 2) => { let (s, v) = *r.pick(&[("WIDTH", "val0"), ("N", "7")]); self.env.insert(norm(s), v.into()); (s.into(), v.into()) }
            1 if r.chance(1, 3) && !self.real => { let s = *r.pick(&["Self::WIDTH", "<T as Sized>::X", "T::MAX", "consts::SIZE", "NONE", "x!(1)", "b\"a\".len()", "\"a\".len()"]); self.env.insert(norm(s), "ANY".into()); (s.into(), "ANY".into()) }
            1 if !self.real => { let s = "& y [1 ..]".to_string(); self.env.insert(norm(&s), "EXPR1".into()); (s, "EXPR1".into()) }
            2 => { let s = format!("f({})", r.below(3)); let v = format!("F{}", s.len() + s.bytes().filter(|b| *b == b'1').count()); let v = if self.real { format!("f{}", &s[2..3]) } else { v }; self.env.insert(norm(&s), v.clone()); (s, v) }
            3 => { let s = "if w { 1 } else { 2 }".to_string(); self.env.insert(norm(&s), "2".into()); (s, "2".into()) }
            4 => { let s = "::std::format!(\"a{}\", v0)".to_string(); self.env.insert(norm(&s), "aval0".into()); (s, "aval0".into()) }
            5 if self.real => { let (s, v) = *r.pick(&[("Sheet::mk()", "SHEET"), ("From::mk(v0)", "fromval0"), ("ITEMS", "items"), ("{ let t = &v1; t }", "val1"), ("RULE", "rule"), ("Cow::mk(\"x\")", "cowx"), ("&v2 as &dyn ::std::fmt::Display", "val2"), ("m!{v0}", "mval0")]); self.env.insert(norm(s), v.into()); (s.into(), v.into()) }
            _ => { let n = r.below(3); let s = format!("v{n}"); let v = format!("val{n}"); self.env.insert(norm(&s), v.clone()); (s, v) }
        }
    }
    /// sel: selector tokens; otherwise value tokens (depth bounds nesting)
    fn vals(&mut self, n: usize, sel: bool, depth: usize, comma: bool, top: bool) -> Vec<V> {
        let mut out: Vec<V> = vec![];
        for i in 0..n {
            let prev_id = matches!(out.last(), Some(V::Id(..)));
            let prev_dollar = matches!(out.last(), Some(V::Punct('$')));
            let prev_dash = matches!(out.last(), Some(V::Punct('-')));
            let k = self.r.below(10);
            let v = match k {
                0 | 1 | 2 => { let (s, t) = self.id(); if (prev_id && s.starts_with('-')) || prev_dash || (prev_id && false) { V::Lit(if sel { "\"s\"" } else { "12" }.into()) } else { V::Id(s, t) } }
                3 => { let l = self.r.pick(LITS).to_string(); if sel && !l.contains('"') || (self.real && (l == "1_0" || l.starts_with('r'))) { V::Lit("\"s\"".into()) } else { V::Lit(l) } }
                4 | 5 => { if prev_dollar { V::Punct('=') } else { let (s, t) = self.expr(); V::Expr(s, t) } }
                6 if depth > 0 => { let (s, t) = self.id(); if (prev_id && s.starts_with('-')) || prev_dash { continue; } let k = self.r.below(4); let a = self.vals(k, sel, depth - 1, true, false); V::Func(s, t, a) }
                7 if depth > 0 && (sel || !top) => { if !top && !sel { continue; } let c = if sel { '[' } else { '(' }; let k = self.r.below(4); let a = self.vals(k, sel, depth - 1, true, false); if c == '(' && prev_id { continue; } V::Br(c, a) }
                _ => {
                    let set: &[char] = if sel { if top { &['>', '+', '~', '|', '*', '^', '.', '#', '&', ':', '='] } else { &['=', '~', '|', '*', '^', '$', '.', ':', ',', '#', '&'] } } else { &['/', '%', '#', ':', ','] };
                    let mut c = *self.r.pick(set);
                    if c == ',' && !comma { c = if sel { '.' } else { '/' }; }
                    if i == 0 && top && c == ':' { c = '#'; }
                    if !sel && self.r.chance(1, 8) && !prev_id && i + 1 < n { c = '-'; }
                    if prev_dash && c == '-' { c = '%'; }
                    if c == '$' && i + 1 == n { c = '='; }
                    V::Punct(c)
                }
            };
            // `a b` followed by `-`-led things would be read as one identifier
            if let (true, V::Id(s, _)) = (prev_id, &v) { if s.starts_with('-') { continue; } }
            if prev_dash && matches!(v, V::Id(..) | V::Func(..)) { continue; }
            out.push(v);
        }
        if matches!(out.last(), Some(V::Punct('-'))) { out.push(V::Lit("5".into())); }
        if matches!(out.last(), Some(V::Punct('$'))) { out.push(V::Punct('=')); }
        out
    }
    fn attr(&mut self) -> I {
        let name = if self.r.chance(1, 8) { Err(self.expr()) } else { Ok(self.id()) };
        let n = self.r.below(6);
        let v = self.vals(n, false, 2, true, true);
        I::Attr(name, v)
    }
    /// the prelude of an at-rule is not validated
    fn prelude(&mut self) -> Vec<V> {
        let n = self.r.below(5);
        let sel = self.r.chance(1, 3);
        let mut v = self.vals(n, sel, 2, true, true);
        // a dash after the name of the rule would be read as part of the name
        let dash = match v.first() { Some(V::Punct('-')) => true, Some(V::Id(s, _) | V::Func(s, _, _)) => s.starts_with('-'), _ => false };
        if dash { v.insert(0, V::Punct('&')); }
        v
    }
    pub fn items(&mut self, n: usize, depth: usize, in_block: bool) -> Vec<I> {
        let mut out = vec![];
        for _ in 0..n {
            out.push(match self.r.below(6) {
                0 | 1 | 2 => self.attr(),
                3 if depth > 0 => {
                    let name = if self.r.chance(1, 2) { "media" } else { "supports" };
                    let p = self.prelude();
                    let c = if self.r.chance(1, 8) { None } else { let k = self.r.below(4); Some(self.items(k, depth - 1, in_block)) };
                    // an at-rule without a block needs its `;` consumed by nobody: not generated
                    let c = c.or(Some(vec![]));
                    I::At((name.into(), name.into()), p, c)
                }
                _ if in_block || depth == 0 => self.attr(),
                _ => {
                    let k = 1 + self.r.below(3);
                    let mut q: Vec<Vec<V>> = vec![];
                    for _ in 0..k {
                        let n = 1 + self.r.below(4);
                        let mut v = self.vals(n, true, 2, false, true);
                        if v.is_empty() { v.push(V::Id("a".into(), "a".into())); }
                        q.push(v);
                    }
                    // `name:` or `${..}:` at the start is read as a declaration
                    if matches!(q[0].first(), Some(V::Id(..) | V::Expr(..))) { q[0].insert(0, V::Punct('&')); }
                    if matches!(q[0].first(), Some(V::Punct('@'))) { q[0].insert(0, V::Punct('&')); }
                    let k = self.r.below(4);
                    let c = self.items(k, depth - 1, true);
                    I::Block(q, c)
                }
            });
        }
        out
    }
    // ---- source text
    fn sp(&mut self) -> &'static str { *self.r.pick(&[" ", " ", "\n", "  ", " /* c */ "]) }
    pub fn src(&mut self, v: &[V], o: &mut String) {
        for x in v {
            match x {
                V::Id(s, _) => o.push_str(s),
                V::Punct(c) => o.push(*c),
                V::Lit(s) => o.push_str(s),
                V::Func(n, _, a) => { o.push_str(n); if self.r.chance(1, 3) { o.push(' '); } o.push('('); self.src(a, o); o.push(')'); }
                V::Br(c, a) => { o.push(*c); self.src(a, o); o.push(if *c == '[' { ']' } else { ')' }); }
                V::Expr(s, _) => { o.push_str("${"); o.push_str(s); o.push('}'); }
            }
            // punctuation and closing brackets may stand directly before what follows
            let tight = match x { V::Punct(c) => !"-/$".contains(*c), V::Func(..) | V::Br(..) | V::Expr(..) => true, _ => false };
            if tight && self.r.chance(1, 2) { continue; }
            o.push_str(self.sp());
        }
    }
    pub fn src_items(&mut self, v: &[I], o: &mut String) {
        for i in v {
            match i {
                I::Attr(n, v) => { match n { Ok((s, _)) => o.push_str(s), Err((s, _)) => { o.push_str("${"); o.push_str(s); o.push('}'); } } o.push_str(": "); self.src(v, o); o.push(';'); o.push_str(self.sp()); }
                I::At((n, _), p, c) => { o.push('@'); o.push_str(n); o.push(' '); self.src(p, o); match c { Some(c) => { o.push_str("{ "); self.src_items(c, o); o.push('}'); } None => o.push(';') } o.push_str(self.sp()); }
                I::Block(q, c) => { for (k, v) in q.iter().enumerate() { if k > 0 { o.push_str(", "); } self.src(v, o); } o.push_str("{ "); self.src_items(c, o); o.push_str("} "); }
            }
        }
    }
}
// ---- expected value
fn attr(n: &Result<(String, String), (String, String)>, v: &[V]) -> C { C::Attr(match n { Ok((_, t)) | Err((_, t)) => t.clone() }, spaced(v)) }
/// declarations that stand outside a block are grouped, maximal runs together
fn grouped(v: &[I]) -> Vec<S> {
    let mut out: Vec<S> = vec![];
    let mut run: Vec<C> = vec![];
    for i in v {
        if let I::Attr(n, v) = i { run.push(attr(n, v)); continue; }
        if !run.is_empty() { out.push(S::Block(B { cond: vec![], content: std::mem::take(&mut run) })); }
        out.push(match i {
            I::At((_, n), p, c) => S::Rule(R { cond: format!("@{n} {}", spaced(p)), content: c.as_ref().map(|c| grouped(c).into_iter().map(|s| match s { S::Rule(r) => C::Rule(r), S::Block(b) => C::Block(b) }).collect()).unwrap_or_default() }),
            I::Block(q, c) => S::Block(B { cond: q.iter().map(|v| spaced(v)).collect(), content: nested(c) }),
            I::Attr(..) => unreachable!(),
        });
    }
    if !run.is_empty() { out.push(S::Block(B { cond: vec![], content: run })); }
    out
}
fn nested(v: &[I]) -> Vec<C> {
    v.iter().map(|i| match i {
        I::Attr(n, v) => attr(n, v),
        I::At((_, n), p, c) => C::Rule(R { cond: format!("@{n} {}", spaced(p)), content: c.as_ref().map(|c| nested(c)).unwrap_or_default() }),
        I::Block(..) => unreachable!(),
    }).collect()
}
/// One case: (source, expected value, environment)
pub fn case(r: &mut Rng, real: bool) -> (String, Vec<S>, Env) {
    let n = r.below(6);
    let d = 1 + r.below(3);
    let mut g = G { r, env: Env::new(), real };
    let it = g.items(n, d, false);
    let mut src = String::new();
    g.src_items(&it, &mut src);
    (src, grouped(&it), g.env)
}
/// Plants an invalid part somewhere in the tree; None if it has no place for it. Each planted part is one error.
fn spoil(r: &mut Rng, v: &mut Vec<I>, in_block: bool) -> bool {
    let at = r.below(v.len() + 1);
    let kind = r.below(6);
    // descend into a random container first
    if r.chance(1, 2) {
        let c: Vec<usize> = (0..v.len()).filter(|i| matches!(v[*i], I::At(_, _, Some(_))) || (!in_block && matches!(v[*i], I::Block(..)))).collect();
        if !c.is_empty() {
            return match &mut v[c[r.below(c.len())]] { I::At(_, _, Some(c)) => spoil(r, c, in_block), I::Block(_, c) => spoil(r, c, true), _ => false };
        }
    }
    let bad_value = |r: &mut Rng| match r.below(5) { 0 => V::Punct('!'), 1 => V::Punct('?'), 2 => V::Br('(', vec![V::Id("b".into(), "b".into())]), 3 => V::Br('[', vec![]), _ => V::Func("f".into(), "f".into(), vec![V::Lit("1".into()), V::Punct(','), V::Punct('.')]) };
    let bad_sel = |r: &mut Rng| match r.below(5) { 0 => V::Punct('%'), 1 => V::Punct('!'), 2 => V::Lit("12".into()), 3 => V::Br('(', vec![V::Id("b".into(), "b".into())]), _ => V::Br('[', vec![V::Id("b".into(), "b".into()), V::Lit("1.5".into())]) };
    match kind {
        0 | 1 => { let b = bad_value(r); if let Some(I::Attr(_, vals)) = v.iter_mut().find(|i| matches!(i, I::Attr(..))) { let k = r.below(vals.len() + 1); if k > 0 && matches!(vals[k - 1], V::Id(..) | V::Punct('$')) { return false; } vals.insert(k, b); true } else { v.insert(at, I::Attr(Ok(("a".into(), "a".into())), vec![b])); true } }
        2 => { if in_block { return false; } let b = bad_sel(r); v.insert(at, I::Block(vec![vec![b]], vec![])); true }
        3 => { if in_block { return false; } let b = bad_sel(r); if let Some(I::Block(q, _)) = v.iter_mut().find(|i| matches!(i, I::Block(..))) { let k = r.below(q.len()); if matches!(q[k].last(), Some(V::Id(..) | V::Punct('$'))) { return false; } q[k].push(b); true } else { false } }
        4 => { let n = *r.pick(&["keyframes", "font-face", "Media", "import", "medias"]); v.insert(at, I::At((n.into(), n.into()), vec![V::Id("x".into(), "x".into())], Some(vec![]))); true }
        _ => { if !in_block { return false; } v.insert(at, I::Block(vec![vec![V::Punct('.'), V::Id("a".into(), "a".into())]], vec![])); true }
    }
}
/// Inputs outside the grammar must be rejected, not silently altered.
fn reject_expected(k: usize) -> Option<&'static str> { match k { 0 => Some("a: ! b;"), 1 => Some("@keyframes x { from { a: b; } }"), 2 => Some(".a 12 { a: b; }"), 3 => Some(".a > (b) { a: b; }"), 4 => Some("a: (b);"), 5 => Some(".a { .b { c: d; } }"), 6 => Some("a: b"), 7 => Some("@media { .a { .b { c: d; } } }"), 8 => Some("a: rgb(b; c);"), 9 => Some("a: f(! x);"), 10 => Some(".a[! b] { c: d; }"), 11 => Some(".a[12] { c: d; }"), 12 => Some("a { b: c; "), 13 => Some(".a ; { b: c; }"), 14 => Some("@media { a: ! b; }"), 15 => Some(".a ! b { c: d; }"), _ => None } }
pub fn run(rep: &mut Report, seed: u64, secs: f64) {
    let mut rng = Rng::new(seed);
    let clock = Clock::new(secs);
    let mut k = 0;
    let mut unknown = 0u64;
    while let Some(s) = reject_expected(k) {
        k += 1;
        let Ok(ts) = s.parse::<proc_macro2::TokenStream>() else { continue };
        for pre in ["", "p: q; ", "@media x { p: q; } "] {
            let Ok(pt) = pre.parse::<proc_macro2::TokenStream>() else { continue };
            let mut t = pt; t.extend(ts.clone());
            rep.case(&format!("rejected {pre}{s}"), true);
            match guarded(|| crate::sheet::macro_fn(t.clone())) {
                Ok(o) => if let Out::Sheet(v) = expansion(o, &Env::new()) { rep.violation("inline-accepts", &format!("{pre}{s}"), "rejected with a compile error", &canon(&v)); },
                Err(_) => {}
            }
        }
    }
    while clock.more() && !rep.full() {
        if rng.chance(1, 3) { refused(rep, &mut rng); continue; }
        let (src, want, env) = case(&mut rng, false);
        let Ok(ts) = src.parse::<proc_macro2::TokenStream>() else { continue };
        // a first token that is a literal selects the other syntax
        if let Some(proc_macro2::TokenTree::Literal(_)) = ts.clone().into_iter().next() { continue; }
        rep.case(&src, !want.is_empty());
        let want = canon(&want);
        match guarded(|| expansion(crate::sheet::macro_fn(ts), &env)) {
            Ok(Out::Sheet(v)) => { let got = canon(&v); if got != want { rep.violation("inline", &src, &want, &got); } }
            Ok(Out::Rejected(m)) => rep.violation("inline", &src, &want, &format!("rejected: {m}")),
            Ok(Out::Bad(m)) => rep.violation("inline", &src, &want, &m),
            Ok(Out::Unknown(m)) => { unknown += 1; if unknown < 3 { eprintln!("inconclusive: {m}"); } }
            Err(p) => rep.violation("inline", &src, &want, &format!("panic: {p}")),
        }
    }
    eprintln!("inconclusive cases: {unknown}");
}
/// A tree with one or two invalid parts: the errors of all of them, and no sheet.
fn refused(rep: &mut Report, rng: &mut Rng) {
    let (n, d) = (rng.below(5), 1 + rng.below(3));
    let mut g = G { r: rng, env: Env::new(), real: false };
    let mut it = g.items(n, d, false);
    let mut k = 0;
    for _ in 0..1 + g.r.below(2) { if spoil(g.r, &mut it, false) { k += 1; } }
    if k == 0 { return; }
    let mut src = String::new();
    g.src_items(&it, &mut src);
    let Ok(ts) = src.parse::<proc_macro2::TokenStream>() else { return };
    if let Some(proc_macro2::TokenTree::Literal(_)) = ts.clone().into_iter().next() { return; }
    rep.case(&src, true);
    let want = format!("no sheet and {k} error(s)");
    match guarded(|| crate::sheet::macro_fn(ts)) {
        Ok(o) => {
            let got = o.to_string().matches("compile_error").count();
            if got != k { rep.violation("inline-errors", &src, &want, &format!("{got} error(s): {}", o.to_string().chars().take(400).collect::<String>())); }
            else if let Out::Sheet(v) = expansion(o, &g.env) { rep.violation("inline-errors", &src, &want, &canon(&v)); }
        }
        // proc_macro_error reports by unwinding outside a macro
        Err(p) => if !p.contains("proc-macro-error") { rep.violation("inline-errors", &src, &want, &format!("panic: {p}")); }
    }
}
