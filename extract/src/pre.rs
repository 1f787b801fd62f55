//! Rewriting of a function body before anything else: nested functions become free functions of
//! the unit, closures that are only called are inlined at their calls, and lazy iterator stages
//! that need an invariant become loops (`flat_map`, `peeking_take_while`, `batching`).
use std::collections::HashMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn id(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

/// Nested `fn` items of a body, taken out of it.
pub fn take_nested(b: &mut Block) -> Vec<ItemFn> {
    struct V(Vec<ItemFn>);
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let st = std::mem::take(&mut b.stmts);
            for s in st {
                match s {
                    Stmt::Item(Item::Fn(f)) => self.0.push(f),
                    s => b.stmts.push(s),
                }
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_block_mut(b);
    v.0
}

struct Subst<'a>(&'a HashMap<String, Expr>);
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(x) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                *e = x.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        // `S { x }` becomes `S { x: .. }`
        f.colon_token.get_or_insert_with(Default::default);
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        subst_macro(m, self.0);
    }
}

/// Substitution inside macro arguments: names by plain names or parenthesised expressions.
pub fn subst_macro(m: &mut Macro, map: &HashMap<String, Expr>) {
    fn go(ts: proc_macro2::TokenStream, map: &HashMap<String, Expr>) -> proc_macro2::TokenStream {
        use proc_macro2::TokenTree as T;
        use quote::ToTokens;
        let mut out = proc_macro2::TokenStream::new();
        let mut prev_dot = false;
        for t in ts {
            let dot = matches!(&t, T::Punct(p) if p.as_char() == '.');
            match t {
                T::Ident(i) if !prev_dot && map.contains_key(&i.to_string()) => out.extend(map[&i.to_string()].to_token_stream()),
                T::Group(g) => out.extend([T::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), map)))]),
                t => out.extend([t]),
            }
            prev_dot = dot;
        }
        out
    }
    m.tokens = go(m.tokens.clone(), map);
}

/// `(&mut x).m()` is `x.m()`, `*(&mut x)` is `x`, `&mut *x` stays.
pub struct Simplify;
impl VisitMut for Simplify {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        fn strip(e: &Expr) -> Option<Expr> {
            match e {
                Expr::Paren(p) => match &*p.expr {
                    Expr::Reference(r) => Some((*r.expr).clone()),
                    Expr::Paren(_) => strip(&p.expr),
                    _ => None,
                },
                Expr::Reference(r) => Some((*r.expr).clone()),
                _ => None,
            }
        }
        match e {
            Expr::MethodCall(m) => {
                if let Expr::Paren(_) = &*m.receiver {
                    if let Some(x) = strip(&m.receiver) {
                        if matches!(x, Expr::Path(_) | Expr::Field(_)) {
                            m.receiver = Box::new(x);
                        }
                    }
                }
            }
            Expr::Field(f) => {
                if let Expr::Paren(_) = &*f.base {
                    if let Some(x) = strip(&f.base) {
                        f.base = Box::new(x);
                    }
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(x) = strip(&u.expr) {
                    *e = x;
                }
            }
            _ => {}
        }
    }
}

fn has_escape(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

/// Uses of a name: (calls of it, all mentions).
fn uses(b: &Block, name: &str) -> (usize, usize) {
    struct V<'n>(&'n str, usize, usize);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(self.0) {
                    self.1 += 1;
                }
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_ident(&mut self, i: &'a Ident) {
            if i == self.0 {
                self.2 += 1;
            }
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.0) {
                self.2 += 1;
            }
        }
    }
    let mut v = V(name, 0, 0);
    v.visit_block(b);
    (v.1, v.2)
}

struct Binds(HashMap<String, usize>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        *self.0.entry(p.ident.to_string()).or_insert(0) += 1;
        visit::visit_pat_ident(self, p);
    }
}

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Paren(p) => simple(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple(&u.expr),
        _ => false,
    }
}

/// `let f = |a, b| body;` used only as `f(x, y)`: the body is placed at the calls.
pub fn inline_closures(b: &mut Block) {
    loop {
        // find a candidate
        struct F(Option<(String, ExprClosure)>, Block);
        impl<'a> Visit<'a> for F {
            fn visit_local(&mut self, l: &'a Local) {
                if self.0.is_none() {
                    if let (Pat::Ident(i), Some(init)) = (crate::xform::strip_pat(&l.pat), &l.init) {
                        if let Expr::Closure(c) = &*init.expr {
                            let n = i.ident.to_string();
                            let (calls, all) = uses(&self.1, &n);
                            let all_simple = c.inputs.iter().all(|p| matches!(crate::xform::strip_pat(p), Pat::Ident(i) if i.by_ref.is_none()));
                            if all == calls + 1 && calls > 0 && all_simple && !has_escape(&c.body) {
                                // names the closure captures must mean the same at its calls
                                let mut bi = Binds(HashMap::new());
                                bi.visit_block(&self.1);
                                let mut own = Binds(HashMap::new());
                                own.visit_expr(&Expr::Closure(c.clone()));
                                let mut body_idents = vec![];
                                struct W<'x>(&'x mut Vec<String>);
                                impl<'a> Visit<'a> for W<'_> {
                                    fn visit_expr_path(&mut self, p: &'a ExprPath) {
                                        if let Some(i) = p.path.get_ident() {
                                            self.0.push(i.to_string());
                                        }
                                    }
                                }
                                W(&mut body_idents).visit_expr(&c.body);
                                let clash = body_idents.iter().any(|x| !own.0.contains_key(x) && bi.0.get(x).copied().unwrap_or(0) > 1);
                                if !clash {
                                    self.0 = Some((n, c.clone()));
                                }
                            }
                        }
                    }
                }
                visit::visit_local(self, l);
            }
        }
        let mut f = F(None, b.clone());
        f.visit_block(&b.clone());
        let Some((name, c)) = f.0 else { return };
        struct R(String, ExprClosure, usize, bool);
        impl VisitMut for R {
            fn visit_block_mut(&mut self, b: &mut Block) {
                b.stmts.retain(|s| !matches!(s, Stmt::Local(l) if matches!(crate::xform::strip_pat(&l.pat), Pat::Ident(i) if i.ident == self.0.as_str()) && matches!(l.init.as_ref().map(|i| &*i.expr), Some(Expr::Closure(_)))));
                visit_mut::visit_block_mut(self, b);
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Call(k) = e else { return };
                let Expr::Path(p) = &*k.func else { return };
                if !p.path.is_ident(self.0.as_str()) || k.args.len() != self.1.inputs.len() {
                    return;
                }
                let mut map = HashMap::new();
                let mut lets: Vec<Stmt> = vec![];
                for (p, a) in self.1.inputs.iter().zip(k.args.iter()) {
                    let Pat::Ident(i) = crate::xform::strip_pat(p) else { continue };
                    if simple(a) && i.mutability.is_none() {
                        map.insert(i.ident.to_string(), if let Expr::Reference(_) = a { parse_quote!((#a)) } else { a.clone() });
                    } else {
                        self.2 += 1;
                        let n = id(&format!("{}_cl{}", i.ident, self.2));
                        let m = &i.mutability;
                        match p {
                            Pat::Type(t) => {
                                let ty = &t.ty;
                                lets.push(parse_quote!(let #m #n: #ty = #a;));
                            }
                            _ => lets.push(parse_quote!(let #m #n = #a;)),
                        }
                        map.insert(i.ident.to_string(), parse_quote!(#n));
                    }
                }
                let mut body = (*self.1.body).clone();
                Subst(&map).visit_expr_mut(&mut body);
                Simplify.visit_expr_mut(&mut body);
                *e = match body {
                    Expr::Block(bl) if bl.attrs.is_empty() && bl.label.is_none() => {
                        let st = bl.block.stmts;
                        parse_quote!({ #(#lets)* #(#st)* })
                    }
                    o => parse_quote!({ #(#lets)* #o }),
                };
            }
        }
        R(name, c, 0, false).visit_block_mut(b);
    }
}

/// Lazy stages as loops.
pub struct Loopify {
    pub n: usize,
}

/// A function argument applied to a variable: (pattern, body).
fn apply1(f: &Expr, var: &str) -> Option<(Pat, Expr)> {
    match f {
        Expr::Closure(c) if c.inputs.len() == 1 && !has_escape(&c.body) => {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            Some((p, (*c.body).clone()))
        }
        Expr::Path(p) => {
            let v = id(var);
            Some((parse_quote!(#v), parse_quote!(#p(#v))))
        }
        _ => None,
    }
}

impl Loopify {
    /// The stages between an eager consumer and its source: they may be run one after the other.
    fn mark_eager(e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            match m.method.to_string().as_str() {
                "flat_map" | "map" | "spaced_with" | "collect" | "into_iter" => Self::mark_eager(&mut m.receiver),
                "peeking_take_while" => m.method = id("peeking_take_while_all"),
                _ => {}
            }
        }
    }

    fn batching(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let Expr::MethodCall(r) = &*m.receiver else { return None };
        if m.method != "collect" || r.method != "batching" || r.args.len() != 1 {
            return None;
        }
        let Expr::Closure(c) = &r.args[0] else { return None };
        let Pat::Ident(it) = crate::xform::strip_pat(c.inputs.first()?) else { return None };
        struct Esc<'l>(bool, &'l Lifetime);
        impl VisitMut for Esc<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if matches!(e, Expr::Closure(_)) {
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
                match e {
                    Expr::Try(t) => {
                        let (x, l) = (&t.expr, self.1);
                        *e = parse_quote!(match #x { Some(vtry) => vtry, None => break #l });
                    }
                    Expr::Return(_) => self.0 = true,
                    _ => {}
                }
            }
        }
        self.n += 1;
        let lab = Lifetime::new(&format!("'vbt{}", self.n), proc_macro2::Span::call_site());
        let out = id(&format!("vbt{}", self.n));
        let it = &it.ident;
        let src = &r.receiver;
        let mut body: Block = match &*c.body {
            Expr::Block(b) => b.block.clone(),
            o => parse_quote!({ #o }),
        };
        let tail = match body.stmts.pop()? {
            Stmt::Expr(e, None) => e,
            _ => return None,
        };
        let tail: Expr = match &tail {
            Expr::Call(k) if matches!(&*k.func, Expr::Path(p) if p.path.is_ident("Some")) && k.args.len() == 1 => {
                let x = &k.args[0];
                parse_quote!(#out.push(#x))
            }
            o => parse_quote!(match #o { Some(vtl) => { #out.push(vtl); } None => break #lab }),
        };
        let mut esc = Esc(false, &lab);
        esc.visit_block_mut(&mut body);
        if esc.0 {
            return None;
        }
        let st = &body.stmts;
        Some(parse_quote!({ let mut #it = #src; let mut #out = Vec::new(); #lab: loop { #(#st)* #tail; } #out }))
    }
}

impl VisitMut for Loopify {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            // V.extend(X.flat_map(|p| B)), V.extend(X.map(|p| B))
            if m.method == "extend" && m.args.len() == 1 && simple(&m.receiver) {
                if let Expr::MethodCall(a) = &m.args[0] {
                    if (a.method == "flat_map" || a.method == "map") && a.args.len() == 1 {
                        if let Some((p, b)) = apply1(&a.args[0], "vfx") {
                            let (v, x) = (&m.receiver, &a.receiver);
                            *e = if a.method == "map" {
                                parse_quote!(for #p in #x { #v.push(#b); })
                            } else {
                                parse_quote!(for #p in #x { #v.extend(#b); })
                            };
                        }
                    }
                }
            }
        }
        match e {
            Expr::MethodCall(m) if m.method == "collect" || m.method == "extend" => {
                if m.method == "collect" {
                    Self::mark_eager(&mut m.receiver);
                    if let Some(x) = self.batching(m) {
                        *e = x;
                    }
                } else if let Some(a) = m.args.first_mut() {
                    Self::mark_eager(a);
                }
            }
            Expr::ForLoop(f) => {
                // for P in X.map(|q| B)
                if let Expr::MethodCall(m) = &*f.expr {
                    if m.method == "map" && m.args.len() == 1 {
                        if let Some((q, b)) = apply1(&m.args[0], "vmx") {
                            let (p, x, body) = (f.pat.clone(), m.receiver.clone(), f.body.stmts.clone());
                            f.expr = x;
                            f.pat = Box::new(q);
                            f.body.stmts = parse_quote!(let #p = #b; #(#body)*);
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let recv = &m.receiver;
            if m.method == "flat_map" && m.args.len() == 1 {
                if let Some((p, b)) = apply1(&m.args[0], "vfx") {
                    self.n += 1;
                    let v = id(&format!("vfm{}", self.n));
                    *e = parse_quote!({ let mut #v = Vec::new(); for #p in #recv { #v.extend(#b); } #v.into_iter() });
                }
            } else if m.method == "peeking_take_while_all" && m.args.len() == 1 && simple(recv) {
                if let Some((p, b)) = apply1(&m.args[0], "vpx") {
                    self.n += 1;
                    let v = id(&format!("vpt{}", self.n));
                    *e = parse_quote!({ let mut #v = Vec::new(); while match #recv.peek() { Some(#p) => #b, None => false } { #v.push(#recv.vtake_next()); } #v.into_iter() });
                }
            }
        }
    }
}

/// `let x; .. let d = braced!(x in input);`: the delimiter and the buffer of the tokens inside it,
/// answered together by `v_braced(input)?`.
struct Delims;
impl VisitMut for Delims {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut bare: HashMap<String, usize> = HashMap::new();
        let mut gone = vec![];
        for i in 0..b.stmts.len() {
            let Stmt::Local(l) = &mut b.stmts[i] else { continue };
            match (&l.pat, &mut l.init) {
                (Pat::Ident(p), None) => {
                    bare.insert(p.ident.to_string(), i);
                }
                (pat, Some(init)) => {
                    let Expr::Macro(m) = &*init.expr else { continue };
                    let Some(k) = m.mac.path.segments.last().map(|s| s.ident.to_string()) else { continue };
                    if !["braced", "bracketed", "parenthesized"].contains(&k.as_str()) {
                        continue;
                    }
                    let parsed = m.mac.parse_body_with(|s: parse::ParseStream| {
                        let x: Ident = s.parse()?;
                        s.parse::<Token![in]>()?;
                        Ok((x, s.parse::<Expr>()?))
                    });
                    let Ok((x, e)) = parsed else { continue };
                    let Some(j) = bare.get(&x.to_string()) else { continue };
                    gone.push(*j);
                    let f = id(&format!("v_{k}"));
                    let pat = pat.clone();
                    b.stmts[i] = parse_quote!(let (#pat, #x) = #f(#e)?;);
                }
                _ => {}
            }
        }
        let mut k = 0;
        b.stmts.retain(|_| {
            k += 1;
            !gone.contains(&(k - 1))
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // anywhere else: the buffer is assigned on the way
        let Expr::Macro(m) = &*e else { return };
        let Some(k) = m.mac.path.segments.last().map(|s| s.ident.to_string()) else { return };
        if !["braced", "bracketed", "parenthesized"].contains(&k.as_str()) {
            return;
        }
        let parsed = m.mac.parse_body_with(|s: parse::ParseStream| {
            let x: Ident = s.parse()?;
            s.parse::<Token![in]>()?;
            Ok((x, s.parse::<Expr>()?))
        });
        let Ok((x, i)) = parsed else { return };
        let f = id(&format!("v_{k}"));
        *e = parse_quote!({ let (vdd, vdx) = #f(#i)?; #x = vdx; vdd });
    }
}
/// Locals that would hide a specification function named in the annotations of the function.
pub struct RenameLocals(pub HashMap<String, String>);
impl RenameLocals {
    fn new_name(&self, i: &Ident) -> Option<Ident> {
        self.0.get(&i.to_string()).map(|n| id(n))
    }
}
impl VisitMut for RenameLocals {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.new_name(&p.ident) {
            p.ident = n;
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(n) = p.path.get_ident().and_then(|i| self.new_name(i)) {
            *p = parse_quote!(#n);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.colon_token.get_or_insert_with(Default::default);
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        f.colon_token.get_or_insert_with(Default::default);
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let map: HashMap<String, Expr> = self.0.iter().map(|(a, b)| { let b = id(b); (a.clone(), parse_quote!(#b)) }).collect();
        subst_macro(m, &map);
    }
}
/// The names bound by the patterns of a block.
pub fn bound_names(b: &Block) -> Vec<String> {
    let mut v = Binds(HashMap::new());
    v.visit_block(b);
    v.0.into_keys().collect()
}

/// `break e` of one loop, as an assignment and a `break`.
struct Breaks<'a>(&'a Ident, usize, bool);
impl VisitMut for Breaks<'_> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {
        self.2 = true;
    }
    fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
    fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Break(x) = e {
            let (None, Some(v)) = (&x.label, &x.expr) else { return };
            let n = self.0;
            *e = parse_quote!({ #n = #v; break; });
            self.1 += 1;
        }
    }
}
/// `let x = loop { .. break e .. };` read as `let x; loop { .. { x = e; break; } .. }`.
struct LoopVal(usize);
impl VisitMut for LoopVal {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut add: Vec<Stmt> = vec![];
            match &mut b.stmts[i] {
                Stmt::Local(l) => {
                    let x = match &l.pat {
                        Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => Some(p.ident.clone()),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => Some(p.ident.clone()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let (Some(x), Some(init)) = (x, &mut l.init) {
                        if let Expr::Loop(lp) = &mut *init.expr {
                            // a name the loop's body binds or reads itself would be captured
                            let mut br = Breaks(&x, 0, false);
                            if lp.label.is_none() && uses(&lp.body, &x.to_string()) == (0, 0) {
                                br.visit_block_mut(&mut lp.body);
                            }
                            if br.1 > 0 {
                                let lp = lp.clone();
                                l.init = None;
                                add.push(Stmt::Expr(Expr::Loop(lp), None));
                            }
                        }
                    }
                }
                Stmt::Expr(Expr::Loop(lp), None) if lp.label.is_none() => {
                    let x = id(&format!("vbk{}", self.0 + 1));
                    let mut br = Breaks(&x, 0, false);
                    br.visit_block_mut(&mut lp.body);
                    if br.1 > 0 {
                        self.0 += 1;
                        let lp = lp.clone();
                        b.stmts[i] = parse_quote!(let #x;);
                        add.push(Stmt::Expr(Expr::Loop(lp), None));
                        add.push(Stmt::Expr(parse_quote!(#x), None));
                    }
                }
                _ => {}
            }
            let n = add.len();
            for (k, s) in add.into_iter().enumerate() {
                b.stmts.insert(i + 1 + k, s);
            }
            i += 1 + n;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

pub fn run(b: &mut Block, loopify: bool) {
    Delims.visit_block_mut(b);
    LoopVal(0).visit_block_mut(b);
    crate::inline::deret_closures(b);
    inline_closures(b);
    if loopify {
        Loopify { n: 0 }.visit_block_mut(b);
    }
}
