//! Inlining of helper functions that carry no contract of their own (found in the same
//! sources), so that extracting a helper out of a function under contract is transparent.
use crate::overlay::FnOv;
use crate::{FnDef, Index};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Inliner<'a> {
    pub ix: &'a Index,
    pub contracted: &'a [FnOv],
    pub self_ty: Option<String>,
    pub depth: usize,
    pub done: Vec<String>,
    pub errors: Vec<String>,
    pub n: usize,
}

struct Subst<'a>(&'a HashMap<String, Expr>);
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(x) = self.0.get(&i.to_string()) {
                    *e = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        // `S { x }` becomes `S { x: .. }`
        f.colon_token.get_or_insert_with(Default::default);
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        crate::pre::subst_macro(m, self.0);
    }
}

/// Names captured inside format strings.
fn fmt_names(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_macro(&mut self, m: &'ast Macro) {
            let t = m.tokens.to_string();
            for (i, _) in t.match_indices('{') {
                let w: String = t[i + 1..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !w.is_empty() {
                    self.0.push(w);
                }
            }
        }
    }
    let mut v = V(vec![]);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}

fn escapes(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

fn esc_stmts(b: &[Stmt]) -> bool {
    escapes(&Block { brace_token: Default::default(), stmts: b.to_vec() })
}
fn esc_expr(e: &Expr) -> bool {
    esc_stmts(&[Stmt::Expr(e.clone(), None)])
}
/// `return` only (`?` does not count)
fn returns(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    visit::Visit::visit_block(&mut v, b);
    v.0
}
fn diverges(b: &[Stmt]) -> bool {
    match b.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => {
            diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map(|e| div_expr(&e.1)).unwrap_or(false)
        }
        Some(Stmt::Expr(Expr::Match(m), _)) => !m.arms.is_empty() && m.arms.iter().all(|a| div_expr(&a.body)),
        _ => false,
    }
}
fn div_expr(e: &Expr) -> bool {
    match e {
        Expr::Block(b) => diverges(&b.block.stmts),
        e => diverges(&[Stmt::Expr(e.clone(), None)]),
    }
}
fn bound(p: &Pat) -> Vec<String> {
    struct B(Vec<String>);
    impl<'ast> visit::Visit<'ast> for B {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    let mut b = B(vec![]);
    visit::Visit::visit_pat(&mut b, p);
    b.0
}
fn words<T: quote::ToTokens>(x: &[T]) -> Vec<String> {
    x.iter()
        .flat_map(|s| {
            s.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(|w| w.to_string()).collect::<Vec<_>>()
        })
        .filter(|w| !w.is_empty())
        .collect()
}
fn blk(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn body_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}

/// The same statements without early exits: what follows a conditional exit moves into the
/// other branch. None where that is not possible (exits out of loops, nested in expressions).
fn deret(stmts: Vec<Stmt>, opt: bool) -> Option<Vec<Stmt>> {
    let Some(i) = stmts.iter().position(|s| esc_stmts(std::slice::from_ref(s))) else { return Some(stmts) };
    let mut out: Vec<Stmt> = stmts[..i].to_vec();
    let s = stmts[i].clone();
    let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
    let tail = rest.is_empty() && matches!(&s, Stmt::Expr(e, semi) if semi.is_none() || matches!(e, Expr::Return(_)));
    // the branches of `e`: exits end the branch; the one that goes on is continued by `k`
    fn branches(e: &Expr, opt: bool, tail: bool, k: &dyn Fn(Vec<Stmt>, &[String]) -> Option<Vec<Stmt>>) -> Option<Expr> {
        let mut goes = 0;
        let mut one = |b: Vec<Stmt>, binds: &[String]| -> Option<Vec<Stmt>> {
            if tail || diverges(&b) {
                return deret(b, opt);
            }
            goes += 1;
            if goes > 1 || esc_stmts(&b) {
                return None;
            }
            k(b, binds)
        };
        match e {
            Expr::If(x) if !esc_expr(&x.cond) => {
                let mut x = x.clone();
                let binds = match &*x.cond {
                    Expr::Let(l) => bound(&l.pat),
                    _ => vec![],
                };
                x.then_branch = blk(one(x.then_branch.stmts.clone(), &binds)?);
                let eb = match &x.else_branch {
                    Some((_, e)) => body_of(e),
                    None => vec![],
                };
                let eb = blk(one(eb, &[])?);
                x.else_branch = Some((Default::default(), parse_quote!(#eb)));
                Some(Expr::If(x))
            }
            Expr::Match(x) if !esc_expr(&x.expr) => {
                let mut x = x.clone();
                for a in x.arms.iter_mut() {
                    if a.guard.as_ref().map(|g| esc_expr(&g.1)).unwrap_or(false) {
                        return None;
                    }
                    let b = blk(one(body_of(&a.body), &bound(&a.pat))?);
                    a.body = parse_quote!(#b);
                    a.comma = Some(Default::default());
                }
                Some(Expr::Match(x))
            }
            _ => None,
        }
    }
    let question = |e: Expr, p: Option<Pat>, rest: Vec<Stmt>| -> Option<Expr> {
        let r = blk(deret(rest, opt)?);
        let q: Pat = p.unwrap_or_else(|| parse_quote!(_));
        let rs = &r.stmts;
        Some(if opt {
            parse_quote!(match #e { Some(vtry_v) => { let #q = vtry_v; #(#rs)* }, None => None })
        } else {
            parse_quote!(match #e { Ok(vtry_v) => { let #q = vtry_v; #(#rs)* }, Err(vtry_e) => Err(vtry_e) })
        })
    };
    let e: Expr = match &s {
        Stmt::Expr(Expr::Return(r), _) => match &r.expr {
            Some(x) if esc_expr(x) => {
                let v = deret(vec![Stmt::Expr((**x).clone(), None)], opt)?;
                out.extend(v);
                return Some(out);
            }
            Some(x) => (**x).clone(),
            None => parse_quote!(()),
        },
        Stmt::Expr(Expr::Block(b), _) if tail && b.label.is_none() => {
            let b = blk(deret(b.block.stmts.clone(), opt)?);
            parse_quote!(#b)
        }
        Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_)), _) => {
            let rw = words(&rest);
            branches(e, opt, tail, &|b, binds| {
                if binds.iter().any(|n| rw.contains(n)) {
                    return None;
                }
                let r = deret(rest.clone(), opt)?;
                let b = blk(b);
                if b.stmts.is_empty() {
                    return Some(r);
                }
                let mut v: Vec<Stmt> = vec![parse_quote!(#b)];
                v.extend(r);
                Some(v)
            })?
        }
        // `Ok(e?)`
        Stmt::Expr(Expr::Call(c), None) if c.args.len() == 1 && matches!(&c.args[0], Expr::Try(t) if !esc_expr(&t.expr)) => {
            let Expr::Try(t) = &c.args[0] else { return None };
            let f = &c.func;
            question((*t.expr).clone(), Some(parse_quote!(vtry_x)), vec![Stmt::Expr(parse_quote!(#f(vtry_x)), None)])?
        }
        Stmt::Expr(Expr::Try(t), Some(_)) if !esc_expr(&t.expr) => question((*t.expr).clone(), None, rest)?,
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let lp = l.pat.clone();
            match (&*init.expr, &init.diverge) {
                (x, Some((_, d))) if !esc_expr(x) => {
                    let r = blk(deret(rest, opt)?);
                    let d = blk(deret(body_of(d), opt)?);
                    let p = match lp {
                        Pat::Type(t) => *t.pat,
                        p => p,
                    };
                    parse_quote!(if let #p = #x #r else #d)
                }
                (Expr::Try(t), None) if !esc_expr(&t.expr) => question((*t.expr).clone(), Some(lp), rest)?,
                (x @ (Expr::If(_) | Expr::Match(_)), None) => {
                    let rw = words(&rest);
                    let own = bound(&lp);
                    branches(x, opt, false, &|b, binds| {
                        if binds.iter().any(|n| rw.contains(n) && !own.contains(n)) {
                            return None;
                        }
                        let b = blk(b);
                        let v: Expr = match b.stmts.as_slice() {
                            [Stmt::Expr(x, None)] => x.clone(),
                            _ => parse_quote!(#b),
                        };
                        let mut v: Vec<Stmt> = vec![parse_quote!(let #lp = #v;)];
                        v.extend(deret(rest.clone(), opt)?);
                        Some(v)
                    })?
                }
                _ => return None,
            }
        }
        _ => return None,
    };
    out.push(Stmt::Expr(e, None));
    Some(out)
}

/// Early returns of closures, as branches.
pub fn deret_closures(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
            visit_mut::visit_expr_closure_mut(self, c);
            if let Expr::Block(x) = &mut *c.body {
                struct T(bool);
                impl<'ast> visit::Visit<'ast> for T {
                    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
                        self.0 = true;
                    }
                    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
                }
                let mut t = T(false);
                visit::Visit::visit_block(&mut t, &x.block);
                if !t.0 && returns(&x.block) {
                    if let Some(s) = deret(x.block.stmts.clone(), false) {
                        x.block.stmts = s;
                    }
                }
            }
        }
    }
    V.visit_block_mut(b);
}

/// Where a call stands: what its early exits may mean.
#[derive(Clone, Copy, PartialEq)]
enum Pos {
    Plain,
    Question,
    Tail,
}

impl<'a> Inliner<'a> {
    /// Calls in tail position: exits of the helper are exits of the caller.
    pub fn tail(&mut self, b: &mut Block) {
        struct R<'b, 'a>(&'b mut Inliner<'a>);
        impl<'b, 'a> VisitMut for R<'b, 'a> {
            fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
                visit_mut::visit_expr_return_mut(self, r);
                if let Some(x) = &mut r.expr {
                    self.0.tail_expr(x);
                }
            }
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        }
        R(self).visit_block_mut(b);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_expr(e);
        }
    }
    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_expr(e);
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail_expr(x);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail_expr(&mut a.body);
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => self.call(e, Pos::Tail),
            _ => {}
        }
    }

    fn is_contracted(&self, ty: Option<&str>, name: &str) -> bool {
        self.contracted.iter().any(|c| {
            let (t, n) = match c.path.rsplit_once("::") {
                Some((t, n)) => (Some(t), n),
                None => (None, c.path.as_str()),
            };
            n == name && (ty.is_none() || t.is_none() || c.of.as_deref().or(t) == ty || t == ty)
        })
    }

    fn candidate(&self, ty: Option<&str>, name: &str, method: bool) -> Option<FnDef> {
        if self.is_contracted(if method { None } else { ty }, name) {
            return None;
        }
        let c: Vec<&FnDef> = self
            .ix
            .fns
            .iter()
            .filter(|d| d.sig.ident == name && d.trait_.is_none())
            .filter(|d| {
                let has_self = matches!(d.sig.inputs.first(), Some(FnArg::Receiver(_)));
                if method {
                    has_self && d.self_ty.is_some()
                } else {
                    d.self_ty.as_deref() == ty
                }
            })
            .collect();
        if c.len() == 1 {
            Some(c[0].clone())
        } else {
            None
        }
    }

    fn expand(&mut self, d: &FnDef, recv: Option<Expr>, args: Vec<Expr>, pos: Pos) -> Option<Expr> {
        if self.depth > 4 {
            return None;
        }
        // type parameters: only where the body does not name them
        let tps: Vec<String> = d.sig.generics.type_params().map(|p| p.ident.to_string()).collect();
        if d.sig.generics.const_params().next().is_some() || words(&d.block.stmts).iter().any(|w| tps.contains(w)) {
            return None;
        }
        let named_ty = |t: &Type| words(std::slice::from_ref(t)).iter().any(|w| tps.contains(w) || w == "impl");
        let opt = matches!(&d.sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Option").unwrap_or(false)));
        let body = match pos {
            Pos::Tail => d.block.clone(),
            Pos::Question if !returns(&d.block) => d.block.clone(),
            _ if escapes(&d.block) => blk(deret(d.block.stmts.clone(), opt)?),
            _ => d.block.clone(),
        };
        let mut map: HashMap<String, Expr> = HashMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let fmt = fmt_names(&d.block);
        let mut named: Vec<(String, String)> = vec![];
        // parameters that are bound again in the body, or whose argument mentions a name bound there,
        // keep their name: the argument is evaluated first, then bound to it
        let mut rebound: Vec<String> = vec![];
        {
            struct Binds(Vec<String>);
            impl<'ast> visit::Visit<'ast> for Binds {
                fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                    self.0.push(p.ident.to_string());
                }
            }
            let mut bi = Binds(vec![]);
            visit::Visit::visit_block(&mut bi, &d.block);
            let skip = if matches!(d.sig.inputs.first(), Some(FnArg::Receiver(_))) && recv.is_some() { 1 } else { 0 };
            let ps: Vec<(String, String)> = d.sig.inputs.iter().skip(skip).zip(args.iter()).filter_map(|(p, a)| match p {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) if !fmt.contains(&i.ident.to_string()) => Some((i.ident.to_string(), quote::ToTokens::to_token_stream(a).to_string())),
                    _ => None,
                },
                _ => None,
            }).collect();
            loop {
                let n = rebound.len();
                for (name, a) in &ps {
                    let hit = |w: &str| bi.0.iter().any(|b| b == w) || rebound.iter().any(|b| b == w);
                    if !rebound.contains(name) && (hit(name) || a.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| !w.is_empty() && hit(w))) {
                        rebound.push(name.clone());
                    }
                }
                if rebound.len() == n {
                    break;
                }
            }
        }
        let mut inner: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        for p in d.sig.inputs.iter() {
            match p {
                FnArg::Receiver(_) => {
                    let r = recv.clone().or_else(|| ai.next())?;
                    let r = match r {
                        Expr::Reference(x) => *x.expr,
                        x => x,
                    };
                    let r = if simple(&r) {
                        r
                    } else if matches!(p, FnArg::Receiver(x) if x.reference.is_some() && x.mutability.is_none()) {
                        self.n += 1;
                        let nn = Ident::new(&format!("vr_inl{}", self.n), proc_macro2::Span::call_site());
                        lets.push(parse_quote!(let #nn = #r;));
                        parse_quote!(#nn)
                    } else {
                        return None;
                    };
                    map.insert("self".into(), r);
                }
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let Pat::Ident(i) = &*t.pat else { return None };
                    if fmt.contains(&i.ident.to_string()) {
                        let (n, ty) = (&i.ident, &t.ty);
                        named.push((n.to_string(), quote::ToTokens::to_token_stream(&a).to_string()));
                        lets.push(if named_ty(ty) { parse_quote!(let #n = #a;) } else { parse_quote!(let #n: #ty = #a;) });
                        continue;
                    }
                    if rebound.contains(&i.ident.to_string()) {
                        self.n += 1;
                        let nn = Ident::new(&format!("{}_inl{}", i.ident, self.n), proc_macro2::Span::call_site());
                        let (n, ty, m) = (&i.ident, &t.ty, &i.mutability);
                        lets.push(parse_quote!(let #nn = #a;));
                        inner.push(if named_ty(ty) { parse_quote!(let #m #n = #nn;) } else { parse_quote!(let #m #n: #ty = #nn;) });
                        continue;
                    }
                    if simple(&a) && i.mutability.is_none() {
                        map.insert(i.ident.to_string(), match a { Expr::Reference(_) => parse_quote!((#a)), o => o });
                    } else {
                        self.n += 1;
                        let nn = Ident::new(&format!("{}_inl{}", i.ident, self.n), proc_macro2::Span::call_site());
                        let ty = &t.ty;
                        let m = &i.mutability;
                        lets.push(if named_ty(ty) { parse_quote!(let #m #nn = #a;) } else { parse_quote!(let #m #nn: #ty = #a;) });
                        map.insert(i.ident.to_string(), parse_quote!(#nn));
                    }
                }
            }
        }
        // a parameter that keeps its name must not capture a name of another argument
        for (n, own) in &named {
            let other: Vec<String> = map.values().map(|e| quote::ToTokens::to_token_stream(e).to_string())
                .chain(named.iter().filter(|x| &x.0 != n).map(|x| x.1.clone())).collect();
            let _ = own;
            if other.iter().any(|t| t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == n)) {
                return None;
            }
        }
        let mut b = body;
        crate::nom::freshen(&mut b);
        // locals of the helper shadow nothing of the caller: rename is not needed because the
        // body becomes its own block scope, but parameter names that are re-bound inside the
        // helper would be substituted wrongly; refuse those.
        struct Binds(Vec<String>);
        impl<'ast> visit::Visit<'ast> for Binds {
            fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                self.0.push(p.ident.to_string());
            }
        }
        let mut bi = Binds(vec![]);
        visit::Visit::visit_block(&mut bi, &b);
        let mut used: Vec<String> = vec![];
        for e in map.values() {
            struct U<'b>(&'b mut Vec<String>);
            impl<'ast, 'b> visit::Visit<'ast> for U<'b> {
                fn visit_ident(&mut self, i: &'ast Ident) {
                    self.0.push(i.to_string());
                }
            }
            visit::Visit::visit_expr(&mut U(&mut used), e);
        }
        if bi.0.iter().any(|x| map.contains_key(x) || used.contains(x)) {
            return None;
        }
        Subst(&map).visit_block_mut(&mut b);
        crate::pre::Simplify.visit_block_mut(&mut b);
        let stmts = b.stmts;
        let mut e: Expr = parse_quote!({ #(#lets)* #(#inner)* #(#stmts)* });
        self.done.push(d.sig.ident.to_string());
        self.depth += 1;
        let save = self.self_ty.clone();
        self.self_ty = d.self_ty.clone();
        if pos == Pos::Tail {
            self.tail_expr(&mut e);
        }
        self.visit_expr_mut(&mut e);
        self.self_ty = save;
        self.depth -= 1;
        Some(e)
    }
}

impl<'a> Inliner<'a> {
    fn call(&mut self, e: &mut Expr, pos: Pos) {
        match e {
            Expr::MethodCall(m) => {
                if let Some(d) = self.candidate(None, &m.method.to_string(), true) {
                    if let Some(x) = self.expand(&d, Some((*m.receiver).clone()), m.args.iter().cloned().collect(), pos) {
                        *e = x;
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    let ty = if segs.len() >= 2 {
                        let t = segs[segs.len() - 2].clone();
                        if t == "Self" {
                            self.self_ty.clone()
                        } else if t == "self" || t == "super" || t == "crate" {
                            None
                        } else {
                            Some(t)
                        }
                    } else {
                        None
                    };
                    if let Some(d) = self.candidate(ty.as_deref(), &name, false) {
                        let a: Vec<Expr> = c.args.iter().cloned().collect();
                        if let Some(x) = self.expand(&d, None, a, pos) {
                            *e = x;
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            // the receiver and the arguments first, then the call itself
            match &mut *t.expr {
                x @ (Expr::MethodCall(_) | Expr::Call(_)) => {
                    visit_mut::visit_expr_mut(self, x);
                    self.call(x, Pos::Question);
                }
                x => self.visit_expr_mut(x),
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        self.call(e, Pos::Plain);
    }
}
