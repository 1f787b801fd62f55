//! Evaluates the expression a macro expands to. `Unknown` = a form this evaluator does not know
//! (the run is inconclusive, not a violation).
use hcore::jstr;
use quote::ToTokens;
use std::collections::HashMap;
use syn::*;
pub type Env = HashMap<String, String>;
/// the value of a sheet: text is concatenated, ownership forgotten
#[derive(Debug, Clone, PartialEq)]
pub enum C { Attr(String, String), Rule(R), Block(B) }
#[derive(Debug, Clone, PartialEq)]
pub struct R { pub cond: String, pub content: Vec<C> }
#[derive(Debug, Clone, PartialEq)]
pub struct B { pub cond: Vec<String>, pub content: Vec<C> }
#[derive(Debug, Clone, PartialEq)]
pub enum S { Rule(R), Block(B) }
#[derive(Debug)]
pub enum E { Unknown(String), Bad(String) }
type Res<T> = std::result::Result<T, E>;
pub fn norm(t: &str) -> String { t.parse::<proc_macro2::TokenStream>().map(|t| t.to_string()).unwrap_or_else(|_| t.to_string()) }
fn txt<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn unk<T, X: ToTokens>(x: &X, w: &str) -> Res<T> { Err(E::Unknown(format!("{w}: {}", txt(x).chars().take(200).collect::<String>()))) }
/// literals and their `Display` text
pub const LITX: &[(&str, &str)] = &[("0.50", "0.5"), ("1e3", "1000"), ("1.0", "1"), ("1_000", "1000"), ("0x10", "16"), ("5u8", "5"), ("7.0f32", "7"), ("true", "true"), ("'c'", "c"), ("'\\n'", "\n"), ("-1.5", "-1.5"), ("r\"x\\\"", "x\\"), ("r#\"a\"b\"#", "a\"b"), ("b'a'", "97"), ("12", "12"), ("-0.0", "-0"), ("\"a\\tb\"", "a\tb")];
fn literal(e: &Expr) -> bool { match e { Expr::Lit(_) => true, Expr::Unary(u) => literal(&u.expr), Expr::Paren(p) => literal(&p.expr), _ => false } }
/// where an expression stands: everywhere, inside a `static` initialiser, inside a `const` item
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum At { Here, Static, Const }
pub struct Ev<'a> { pub env: &'a Env, pub statics: usize, pub consts: usize }
fn peel(e: &Expr) -> &Expr { match e { Expr::Paren(p) => peel(&p.expr), Expr::Group(p) => peel(&p.expr), Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(x, None) => peel(x), _ => e }, _ => e } }
fn last2(p: &Path) -> String { let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect(); v[v.len().saturating_sub(2)..].join("::") }
impl<'a> Ev<'a> {
    fn user(&self, e: &Expr, at: At) -> Res<String> {
        match self.env.get(&txt(e)) {
            Some(v) => match at {
                At::Here => Ok(v.clone()),
                At::Static if literal(e) => Ok(v.clone()),
                At::Static => Err(E::Bad(format!("`{}` refers to the caller's variables inside a static initialiser", txt(e)))),
                At::Const => Err(E::Bad(format!("`{}` is interpolated inside a const item", txt(e)))),
            },
            None => unk(e, "interpolated expression"),
        }
    }
    fn call<'e>(&self, e: &'e Expr) -> Option<(String, Vec<&'e Expr>)> {
        if let Expr::Call(c) = peel(e) { if let Expr::Path(p) = &*c.func { return Some((last2(&p.path), c.args.iter().map(peel).collect())); } }
        None
    }
    /// text
    fn cow(&mut self, e: &Expr, at: At) -> Res<String> {
        let e = peel(e);
        if let Some((f, a)) = self.call(e) {
            match (f.as_str(), &a[..]) {
                (s, [x]) if s.ends_with("::Borrowed") || s.ends_with("Cow::Borrowed") => {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = x { return Ok(s.value()); }
                    return unk(x, "borrowed text");
                }
                ("Into::into", [x]) => {
                    if at == At::Const { return Err(E::Bad("conversion call in a const item".into())); }
                    if let Some((f2, b)) = self.call(x) {
                        if let ("ToString::to_string", [y]) = (f2.as_str(), &b[..]) {
                            let mut y = *y;
                            if let Expr::Cast(c) = y { y = peel(&c.expr); }
                            if let Expr::Reference(r) = y { y = &r.expr; }
                            while let Expr::Paren(p) = y { if self.env.contains_key(&txt(y)) { break; } y = &p.expr; }
                            if let Expr::Group(p) = y { y = &p.expr; }
                            return self.user(y, at);
                        }
                    }
                    return unk(e, "conversion");
                }
                _ => {}
            }
        }
        unk(e, "text")
    }
    fn fields<'e>(&self, e: &'e Expr, ty: &str) -> Res<HashMap<String, &'e Expr>> {
        if let Expr::Struct(s) = peel(e) { if s.path.segments.last().unwrap().ident == ty { return Ok(s.fields.iter().map(|f| (txt(&f.member), &f.expr)).collect()); } }
        unk(e, ty)
    }
    /// Cow<[T]>: the element expressions and where they stand
    fn list<'e>(&mut self, e: &'e Expr, at: At) -> Res<(Vec<Expr>, At)> {
        let e = peel(e);
        if let Some((f, a)) = self.call(e) {
            if f.ends_with("::Borrowed") {
                if let [Expr::Block(b)] = &a[..] {
                    if let [Stmt::Item(Item::Const(c)), Stmt::Expr(Expr::Reference(r), None)] = &b.block.stmts[..] {
                        if txt(&*r.expr) == c.ident.to_string() {
                            if let (Expr::Array(arr), Type::Array(ty)) = (peel(&c.expr), &*c.ty) {
                                self.consts += 1;
                                let n: Option<usize> = if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = &ty.len { n.base10_parse().ok() } else { None };
                                if n.is_some() && n != Some(arr.elems.len()) { return Err(E::Bad(format!("array of {} elements declared with length {}", arr.elems.len(), n.unwrap()))); }
                                return Ok((arr.elems.iter().cloned().collect(), At::Const));
                            }
                        }
                    }
                }
            }
            if f.ends_with("::Owned") {
                if let [Expr::Macro(m)] = &a[..] {
                    if m.mac.path.segments.last().unwrap().ident == "vec" {
                        if at == At::Const { return Err(E::Bad("vec! in a const item".into())); }
                        let v = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|x| E::Unknown(x.to_string()))?;
                        return Ok((v.into_iter().collect(), at));
                    }
                }
            }
        }
        unk(e, "list")
    }
    fn frags(&mut self, e: &Expr, at: At) -> Res<String> {
        let (v, at) = self.list(e, at)?;
        let mut o = String::new();
        for x in &v { let f = self.fields(x, "StringFragment")?; let i = *f.get("inner").ok_or(E::Unknown("inner".into()))?; o.push_str(&self.cow(i, at)?); }
        Ok(o)
    }
    fn bow<'e>(&mut self, e: &'e Expr, at: At) -> Res<(Expr, At)> {
        if let Some((f, a)) = self.call(e) {
            match (f.as_str(), &a[..]) {
                ("Bow::Boxed", [x]) => {
                    if at == At::Const { return Err(E::Bad("Box::new in a const item".into())); }
                    if let Some((g, b)) = self.call(x) { if g == "Box::new" { return Ok((b[0].clone(), at)); } }
                }
                ("Bow::Borrowed", [Expr::Block(b)]) => {
                    if let [Stmt::Item(Item::Const(c)), Stmt::Expr(Expr::Reference(r), None)] = &b.block.stmts[..] {
                        if txt(&*r.expr) == c.ident.to_string() { self.consts += 1; return Ok(((*c.expr).clone(), At::Const)); }
                    }
                }
                _ => {}
            }
        }
        unk(e, "bow")
    }
    fn rule(&mut self, e: &Expr, at: At) -> Res<R> {
        let f = self.fields(e, "Rule")?;
        let g = |n: &str| f.get(n).copied().ok_or(E::Unknown(n.into()));
        Ok(R { cond: self.frags(g("condition")?, at)?, content: self.conts(g("content")?, at)? })
    }
    fn block(&mut self, e: &Expr, at: At) -> Res<B> {
        let f = self.fields(e, "Block")?;
        let g = |n: &str| f.get(n).copied().ok_or(E::Unknown(n.into()));
        let (v, at2) = self.list(g("condition")?, at)?;
        let mut cond = vec![];
        for s in &v { let h = self.fields(s, "Selector")?; let i = *h.get("fragments").ok_or(E::Unknown("fragments".into()))?; cond.push(self.frags(i, at2)?); }
        Ok(B { cond, content: self.conts(g("content")?, at)? })
    }
    fn conts(&mut self, e: &Expr, at: At) -> Res<Vec<C>> {
        let (v, at) = self.list(e, at)?;
        let mut o = vec![];
        for x in &v {
            let Some((f, a)) = self.call(x) else { return unk(x, "content") };
            o.push(match (f.as_str(), &a[..]) {
                ("RuleBlockContent::StyleAttr", [y]) => { let h = self.fields(y, "StyleAttribute")?; let g = |n: &str| h.get(n).copied().ok_or(E::Unknown(n.into())); C::Attr(self.cow(g("key")?, at)?, self.frags(g("value")?, at)?) }
                ("RuleBlockContent::Rule", [y]) => { let (r, at) = self.bow(y, at)?; C::Rule(self.rule(&r, at)?) }
                ("RuleBlockContent::Block", [y]) => { let (r, at) = self.bow(y, at)?; C::Block(self.block(&r, at)?) }
                _ => return unk(x, "content"),
            });
        }
        Ok(o)
    }
    pub fn sheet(&mut self, e: &Expr, at: At) -> Res<Vec<S>> {
        let e = peel(e);
        if let Expr::Block(b) = e {
            let st: Vec<&Stmt> = b.block.stmts.iter().filter(|s| !matches!(s, Stmt::Item(Item::Use(_)))).collect();
            let uses = b.block.stmts.len() - st.len();
            match &st[..] {
                [Stmt::Expr(x, None)] => {
                    if uses > 0 && !self.env.is_empty() && self.env.keys().any(|k| txt(x).contains(k.as_str())) { return Err(E::Bad("names are brought into the scope of interpolated expressions".into())); }
                    return self.sheet(x, at);
                }
                [Stmt::Item(Item::Static(s)), Stmt::Expr(Expr::MethodCall(m), None)] if m.method == "clone" && txt(&*m.receiver) == s.ident.to_string() => {
                    self.statics += 1;
                    if let Some((f, a)) = self.call(&s.expr) { if let ("Lazy::new", [Expr::Closure(c)]) = (f.as_str(), &a[..]) { return self.sheet(&c.body, At::Static); } }
                }
                [Stmt::Item(Item::Static(s)), Stmt::Expr(Expr::Call(c), None)] if txt(&*c.func).replace(' ', "").ends_with("Clone>::clone") || txt(&*c.func).replace(' ', "").ends_with("Clone::clone") => {
                    if c.args.len() == 1 && matches!(txt(&c.args[0]).replace(' ', ""), ref t if *t == format!("&{}", s.ident) || *t == format!("&*{}", s.ident)) {
                        self.statics += 1;
                        if let Some((f, a)) = self.call(&s.expr) { if let ("Lazy::new", [Expr::Closure(c)]) = (f.as_str(), &a[..]) { return self.sheet(&c.body, At::Static); } }
                    }
                }
                _ => {}
            }
            return unk(e, "sheet block");
        }
        if let Expr::Call(c) = e {
            if txt(&*c.func).ends_with(":: from") && txt(&*c.func).contains("Sheet") {
                let (v, at) = self.list(&c.args[0], at)?;
                let mut o = vec![];
                for x in &v {
                    let Some((f, a)) = self.call(x) else { return unk(x, "scope content") };
                    o.push(match (f.as_str(), &a[..]) {
                        ("ScopeContent::Rule", [y]) => S::Rule(self.rule(y, at)?),
                        ("ScopeContent::Block", [y]) => S::Block(self.block(y, at)?),
                        _ => return unk(x, "scope content"),
                    });
                }
                return Ok(o);
            }
        }
        unk(e, "sheet")
    }
}
pub enum Out { Sheet(Vec<S>), Rejected(String), Unknown(String), Bad(String) }
/// What the expansion of a macro means.
pub fn expansion(ts: proc_macro2::TokenStream, env: &Env) -> Out {
    let t = ts.to_string();
    if t.contains("compile_error !") { return Out::Rejected(t); }
    let e: Expr = match parse2(ts) { Ok(e) => e, Err(x) => return Out::Bad(format!("the expansion is not an expression: {x}: {t}")) };
    let mut ev = Ev { env, statics: 0, consts: 0 };
    match ev.sheet(&e, At::Here) { Ok(s) => Out::Sheet(s), Err(E::Unknown(u)) => Out::Unknown(u), Err(E::Bad(b)) => Out::Bad(format!("{b}: {t}")) }
}
// ---- canonical text, shared with the generated programs of `real`
pub fn canon(s: &[S]) -> String { format!("[{}]", s.iter().map(|x| match x { S::Rule(r) => rule(r), S::Block(b) => block(b) }).collect::<Vec<_>>().join(",")) }
fn conts(v: &[C]) -> String { v.iter().map(|c| match c { C::Attr(k, v) => format!("A({},{})", jstr(k), jstr(v)), C::Rule(r) => rule(r), C::Block(b) => block(b) }).collect::<Vec<_>>().join(",") }
fn rule(r: &R) -> String { format!("R({},[{}])", jstr(&r.cond), conts(&r.content)) }
fn block(b: &B) -> String { format!("B([{}],[{}])", b.cond.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","), conts(&b.content)) }
