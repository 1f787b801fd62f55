//! The mechanical rewriting of one function body / type from Rust to the Verus dialect.
//! Every rewrite is listed in /verif/DESIGN.md ("what the extraction drops").
use crate::overlay::FnOv;
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Opt,
    Iter,
    Res,
    Str,
    Range,
    Other,
}

pub fn cfg_ok(attrs: &[Attribute], wasm: bool) -> bool {
    fn ev(m: &Meta, wasm: bool) -> bool {
        match m {
            Meta::Path(p) => {
                if p.is_ident("test") || p.is_ident("documenting") {
                    false
                } else {
                    p.is_ident("debug_assertions")
                }
            }
            Meta::NameValue(nv) => {
                let key = nv.path.to_token_stream().to_string();
                let val = nv.value.to_token_stream().to_string();
                match key.as_str() {
                    "feature" => true,
                    "target_arch" => (val == "\"wasm32\"") == wasm,
                    _ => false,
                }
            }
            Meta::List(l) => {
                let inner: Vec<Meta> = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_default();
                if l.path.is_ident("not") {
                    !ev(&inner[0], wasm)
                } else if l.path.is_ident("any") {
                    inner.iter().any(|m| ev(m, wasm))
                } else {
                    inner.iter().all(|m| ev(m, wasm))
                }
            }
        }
    }
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match a.parse_args::<Meta>() {
                Ok(m) => ev(&m, wasm),
                Err(_) => true,
            }
        } else if a.path().is_ident("test") {
            false
        } else {
            true
        }
    })
}

pub fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

/// Information shared by all functions of a unit.
#[derive(Default)]
pub struct Cx {
    pub fields: HashMap<String, K>,
    pub fns: HashMap<String, K>,
    pub shared: HashSet<String>,
    pub erase: HashSet<String>,
    pub subst_types: HashMap<String, String>,
    pub subst_calls: HashMap<String, String>,
    pub wrap_methods: HashMap<String, String>,
    pub subst_bounds: HashMap<String, String>,
    /// functions under contract (name as used in method calls / last path segments)
    pub heap: HashMap<String, BTreeMap<String, u8>>, // heap -> 1 read, 2 write
    pub heaps: Vec<(String, String)>,
    pub heap_fns: HashMap<String, String>,
    pub cells: HashMap<String, (String, u8)>,
    pub wasm: bool,
    pub templates: bool,
    pub flags: HashSet<String>,
    pub template_ids: HashMap<String, String>,
}

pub fn kind_of_type(t: &Type) -> K {
    match t {
        Type::Reference(r) => kind_of_type(&r.elem),
        Type::Paren(p) => kind_of_type(&p.elem),
        Type::ImplTrait(i) => {
            if i.to_token_stream().to_string().contains("Iterator") {
                K::Iter
            } else {
                K::Other
            }
        }
        Type::TraitObject(i) => {
            if i.to_token_stream().to_string().contains("Iterator") {
                K::Iter
            } else {
                K::Other
            }
        }
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            match s.ident.to_string().as_str() {
                "Option" => K::Opt,
                "Result" | "IResult" | "ParseResult" => K::Res,
                "String" | "str" => K::Str,
                "Box" | "Arc" | "Rc" | "Cow" => {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        for g in &a.args {
                            if let GenericArgument::Type(t) = g {
                                return kind_of_type(t);
                            }
                        }
                    }
                    K::Other
                }
                "VIter" => K::Iter,
                _ => K::Other,
            }
        }
        _ => K::Other,
    }
}

/// `crate::a::b::T` is read as `T` (all items of a unit live in one module).
pub fn strip_crate(p: &mut Path) {
    let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
    if ["crate", "super", "self"].contains(&first.as_str()) && p.segments.len() > 1 {
        let v: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let n = v.len();
        let k = v
            .iter()
            .position(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase()))
            .unwrap_or(n - 1);
        p.leading_colon = None;
        p.segments = v[k..].iter().cloned().collect();
    } else if ["proc_macro2", "syn"].contains(&first.as_str()) && p.segments.len() > 1 {
        // external types are modelled under their own name at the root of the unit
        let v: Vec<PathSegment> = p.segments.iter().cloned().collect();
        if let Some(k) = v.iter().position(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())) {
            p.leading_colon = None;
            p.segments = std::iter::once(PathSegment::from(Ident::new("crate", v[0].ident.span()))).chain(v[k..].iter().cloned()).collect();
        }
    }
}

/// Type rewriting.
pub struct TyRw<'a>(pub &'a Cx);

impl<'a> VisitMut for TyRw<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_crate(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let new: Option<Type> = match &*t {
            Type::Reference(r) if r.mutability.is_some() => match &*r.elem {
                Type::Path(p) if self.0.shared.contains(&p.path.segments.last().unwrap().ident.to_string()) => {
                    let mut r = r.clone();
                    r.mutability = None;
                    Some(Type::Reference(r))
                }
                _ => None,
            },
            Type::ImplTrait(_) if self.0.flags.contains("iter_trait") => None,
            Type::ImplTrait(i) => iter_item(&i.bounds).map(|it| parse_quote!(VIter<#it>)).or_else(|| {
                guard_target(&i.bounds).map(|t| parse_quote!(&'vh mut #t))
            }),
            Type::Path(p) => {
                let s = p.path.segments.last().unwrap();
                let args: Vec<Type> = match &s.arguments {
                    PathArguments::AngleBracketed(a) => a
                        .args
                        .iter()
                        .filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None })
                        .collect(),
                    _ => vec![],
                };
                let name = s.ident.to_string();
                if let Some(r) = self.0.subst_types.get(&format!("{name}/{}", args.len())).or_else(|| self.0.subst_types.get(&name)) {
                    let mut rr = r.clone();
                    for (i, a) in args.iter().enumerate() {
                        rr = rr.replace(&format!("${}", i + 1), &a.to_token_stream().to_string());
                    }
                    Some(parse_str(&rr).expect("substtype"))
                } else {
                    match (name.as_str(), &args[..]) {
                        ("Cow", [Type::Slice(s)]) => {
                            let e = &s.elem;
                            Some(parse_quote!(Vec<#e>))
                        }
                        ("Cow", [Type::Path(p)]) if p.path.is_ident("str") => Some(parse_quote!(String)),
                        ("Arc", [t]) | ("Rc", [t]) if !self.0.flags.contains(&format!("keep_{name}")) => Some(t.clone()),
                        ("Mutex", [t]) | ("RefCell", [t]) => Some(parse_quote!(VCell<#t>)),
                        ("Weak", [t]) => Some(parse_quote!(VWeak<#t>)),
                        ("Bow", [t]) if !self.0.flags.contains("keep_Bow") => Some(parse_quote!(Box<#t>)),
                        ("Box", [Type::TraitObject(o)]) => {
                            iter_item(&o.bounds).map(|it| parse_quote!(VIter<#it>))
                        }
                        ("AtomicBool", []) => Some(parse_quote!(VBool)),
                        ("HashMap", [k, v]) => Some(parse_quote!(VMap<#k, #v>)),
                        ("HashSet", [k]) => Some(parse_quote!(VSet<#k>)),
                        _ => None,
                    }
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *t = n;
        }
    }
    fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
        visit_mut::visit_type_param_bound_mut(self, b);
        if let TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last_mut().unwrap();
            if let Some(r) = self.0.subst_bounds.get(&s.ident.to_string()) {
                let args = s.arguments.clone();
                t.path = parse_str(r).expect("substbound");
                let l = t.path.segments.last_mut().unwrap();
                if self.0.flags.contains("iter_trait") && l.arguments.is_none() {
                    l.arguments = args;
                }
            } else if s.ident == "Into" {
                s.ident = id("VInto");
                t.path = s.clone().into();
            } else if s.ident == "TryInto" {
                s.ident = id("VTryInto");
                t.path = s.clone().into();
            } else if s.ident == "Write" {
                t.path = parse_quote!(VWrite);
            } else if s.ident == "ToString" || s.ident == "Display" {
                t.path = parse_quote!(VDisp);
            }
        }
    }
}

/// `impl DerefMut<Target = T> + '_` (a guard) is read as `&mut T`.
fn guard_target(bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<Type> {
    for b in bounds {
        if let TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last().unwrap();
            if s.ident == "DerefMut" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for g in &a.args {
                        if let GenericArgument::AssocType(at) = g {
                            return Some(at.ty.clone());
                        }
                    }
                }
            }
        }
    }
    None
}

fn iter_item(bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<Type> {
    for b in bounds {
        if let TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last().unwrap();
            if s.ident == "Iterator" || s.ident == "DoubleEndedIterator" || s.ident == "IntoIterator" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for g in &a.args {
                        if let GenericArgument::AssocType(at) = g {
                            return Some(at.ty.clone());
                        }
                    }
                }
            }
        }
    }
    None
}

/// `vh.v_borrow_mut(..)`: the heap whose content the expression is
fn cell_content(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) if m.method.to_string().starts_with("v_") => match &*m.receiver {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            _ => None,
        },
        Expr::Reference(r) => cell_content(&r.expr),
        Expr::Paren(r) => cell_content(&r.expr),
        Expr::Unary(r) => cell_content(&r.expr),
        _ => None,
    }
}

pub struct BodyRw<'a> {
    pub cx: &'a Cx,
    pub ov: &'a FnOv,
    pub env: HashMap<String, K>,
    pub marks: BTreeMap<String, String>,
    pub loops: usize,
    pub closures: usize,
    pub calls: HashMap<String, usize>,
    pub pending_after: Vec<String>,
    pub pending_before: Vec<String>,
    pub errors: Vec<String>,
    pub tmp: usize,
    pub used_loops: HashSet<usize>,
    pub has_heap: u8,
    pub wrote_loops: usize,
    pub bc: Vec<String>,
    pub loop_reveals: String,
    pub self_ty: Option<String>,
    pub stmt_macro: bool,
    /// locals holding the content of a shared cell, and that cell's heap
    pub cell_locals: HashMap<String, String>,
    /// the accumulator of the loop being read, where its invariant calls it `vm`
    pub acc: Option<String>,
    pub mut_locals: HashSet<String>,
}

fn strlit(e: &Expr) -> Option<LitStr> {
    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e {
        Some(s.clone())
    } else {
        None
    }
}

impl<'a> BodyRw<'a> {
    pub fn new(cx: &'a Cx, ov: &'a FnOv) -> Self {
        BodyRw {
            cx,
            ov,
            env: HashMap::new(),
            marks: BTreeMap::new(),
            loops: 0,
            closures: 0,
            calls: HashMap::new(),
            pending_after: vec![],
            pending_before: vec![],
            errors: vec![],
            tmp: 0,
            used_loops: HashSet::new(),
            self_ty: None,
            stmt_macro: false,
            cell_locals: HashMap::new(),
            acc: None,
            mut_locals: HashSet::new(),
            has_heap: 0,
            wrote_loops: 0,
            bc: vec![],
            loop_reveals: String::new(),
        }
    }

    fn mark(&mut self, text: String) -> Stmt {
        let k = format!("vmark_{}", self.marks.len());
        self.marks.insert(k.clone(), text);
        let i = id(&k);
        parse_quote!(#i!();)
    }

    pub fn kind(&self, e: &Expr) -> K {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Reference(r) => self.kind(&r.expr),
            Expr::Unary(u) => self.kind(&u.expr),
            Expr::Cast(c) => kind_of_type(&c.ty),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if s == "None" {
                        return K::Opt;
                    }
                    self.env.get(&s).copied().unwrap_or(K::Other)
                } else {
                    K::Other
                }
            }
            Expr::Field(f) => match &f.member {
                Member::Named(n) => self.cx.fields.get(&n.to_string()).copied().unwrap_or(K::Other),
                _ => K::Other,
            },
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => K::Str,
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) => self.kind(&b.left),
            Expr::Range(_) => K::Range,
            Expr::Macro(m) if m.mac.path.is_ident("format") => K::Str,
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if last == "Some" {
                        return K::Opt;
                    }
                    if last == "Ok" || last == "Err" {
                        return K::Res;
                    }
                    if last == "empty" {
                        return K::Iter;
                    }
                    if last == "new" && p.path.segments.len() == 2 && p.path.segments[0].ident == "Box" && c.args.len() == 1 {
                        return self.kind(&c.args[0]);
                    }
                    if ["new", "from", "with_capacity"].contains(&last.as_str()) && p.path.segments.len() == 2 && p.path.segments[0].ident == "String" {
                        return K::Str;
                    }
                    self.cx.fns.get(&last).copied().unwrap_or(K::Other)
                } else {
                    K::Other
                }
            }
            Expr::Match(m) => {
                for a in &m.arms {
                    let k = self.kind(&a.body);
                    if k != K::Other {
                        return k;
                    }
                }
                K::Other
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => K::Other,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => K::Other,
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = || self.kind(&m.receiver);
                match n.as_str() {
                    "iter" | "into_iter" | "chars" | "chain" | "zip" | "skip" | "enumerate" | "filter_map" | "rev"
                    | "take_while" | "skip_while" | "peekable" | "lines" | "cloned_iter" | "coalesce" | "flat_map" | "keys"
                    | "values" | "windows" | "iter_mut" | "drain" | "intersperse_with" | "spaced_with" | "char_indices"
                    | "split" | "copied_iter" | "step_by" | "flatten" => {
                        if n == "flatten" && r() == K::Opt {
                            K::Opt
                        } else {
                            K::Iter
                        }
                    }
                    "next" | "first" | "last" | "pop" | "and_then" | "or_else" | "then" | "then_some" | "find" | "position"
                    | "nth" | "peek" | "strip_prefix" | "strip_suffix" | "get" | "upgrade" | "find_map" | "ok" | "next_back"
                    | "as_deref" | "split_first" | "split_last" => {
                        if (n == "and_then" || n == "or_else") && r() == K::Res {
                            K::Res
                        } else {
                            K::Opt
                        }
                    }
                    "ok_or" | "ok_or_else" | "map_err" | "parse" | "lock" => K::Res,
                    "as_str" | "to_string" | "to_owned" | "trim" | "replace" | "to_ascii_lowercase" | "to_lowercase" => K::Str,
                    "take" | "filter" | "map" | "cloned" | "copied" | "clone" | "as_ref" | "as_mut" | "by_ref" | "inspect"
                    | "borrow" | "deref" | "or" | "xor" => r(),
                    _ => self.cx.fns.get(&n).copied().unwrap_or(K::Other),
                }
            }
            _ => K::Other,
        }
    }

    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        id(&format!("{}{}", p, self.tmp))
    }

    fn has_escape(e: &Expr) -> bool {
        struct V(bool, usize);
        impl<'ast> visit::Visit<'ast> for V {
            fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, _: &'ast ExprTry) {
                self.0 = true;
            }
            fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
        }
        let mut v = V(false, 0);
        visit::Visit::visit_expr(&mut v, e);
        v.0
    }

    /// Apply a closure-or-path argument to argument expressions, if it can be inlined.
    fn apply(&mut self, f: &Expr, args: &[Ident]) -> Option<Expr> {
        match f {
            Expr::Closure(c) => {
                if Self::has_escape(&c.body) {
                    self.errors.push("closure with early return inlined".into());
                    return None;
                }
                if c.inputs.len() != args.len() {
                    return None;
                }
                let body = &c.body;
                let mut out: Expr = parse_quote!(#body);
                for (p, a) in c.inputs.iter().zip(args).rev() {
                    let p = match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    out = parse_quote!({ let #p = #a; #out });
                }
                Some(out)
            }
            Expr::Path(p) => {
                if let Some(l) = p.path.segments.last() {
                    if p.path.segments.len() > 1 && (l.ident == "to_string" || l.ident == "clone" || l.ident == "into") && args.len() == 1 {
                        let m = &l.ident;
                        let a = &args[0];
                        let e: Expr = parse_quote!(#a.#m());
                        return Some(e);
                    }
                }
                Some(parse_quote!(#p(#(#args),*)))
            }
            _ => None,
        }
    }

    fn closure_pat(f: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Closure(c) = f {
            if c.inputs.len() == 1 && !Self::has_escape(&c.body) {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                return Some((p, (*c.body).clone()));
            }
        }
        None
    }

    fn opt_method(&mut self, recv: &Expr, name: &str, args: &[Expr]) -> Option<Expr> {
        let t = self.fresh("vo");
        let one = |s: &mut Self, f: &Expr, wrap: &dyn Fn(Expr) -> Expr| -> Option<(Pat, Expr)> {
            if let Some((p, b)) = Self::closure_pat(f) {
                Some((p, wrap(b)))
            } else {
                let e = s.apply(f, &[t.clone()])?;
                Some((parse_quote!(#t), wrap(e)))
            }
        };
        Some(match (name, args) {
            ("map", [f]) => {
                let (p, b) = one(self, f, &|e| parse_quote!(Some(#e)))?;
                parse_quote!(match #recv { Some(#p) => #b, None => None })
            }
            ("and_then", [f]) => {
                let (p, b) = one(self, f, &|e| e)?;
                parse_quote!(match #recv { Some(#p) => #b, None => None })
            }
            ("is_some_and", [f]) => {
                let (p, b) = one(self, f, &|e| e)?;
                parse_quote!(match #recv { Some(#p) => #b, None => false })
            }
            ("map_or", [d, f]) => {
                let (p, b) = one(self, f, &|e| e)?;
                parse_quote!(match #recv { Some(#p) => #b, None => #d })
            }
            ("map_or_else", [d, f]) => {
                let (p, b) = one(self, f, &|e| e)?;
                let d = self.apply(d, &[])?;
                parse_quote!(match #recv { Some(#p) => #b, None => #d })
            }
            ("or_else", [f]) => {
                let e = self.apply(f, &[])?;
                parse_quote!(match #recv { Some(#t) => Some(#t), None => #e })
            }
            ("unwrap_or_else", [f]) => {
                let e = self.apply(f, &[])?;
                parse_quote!(match #recv { Some(#t) => #t, None => #e })
            }
            ("unwrap_or", [d]) => {
                parse_quote!(match #recv { Some(#t) => #t, None => #d })
            }
            ("or", [d]) => {
                parse_quote!(match #recv { Some(#t) => Some(#t), None => #d })
            }
            ("cloned", []) => {
                parse_quote!(match #recv { Some(#t) => Some(#t.clone()), None => None })
            }
            ("ok_or", [d]) => {
                parse_quote!(match #recv { Some(#t) => Ok(#t), None => Err(#d) })
            }
            ("ok_or_else", [f]) => {
                let e = self.apply(f, &[])?;
                parse_quote!(match #recv { Some(#t) => Ok(#t), None => Err(#e) })
            }
            _ => return None,
        })
    }

    fn res_method(&mut self, recv: &Expr, name: &str, args: &[Expr]) -> Option<Expr> {
        let t = self.fresh("vr");
        let u = self.fresh("ve");
        let one = |s: &mut Self, f: &Expr, wrap: &dyn Fn(Expr) -> Expr| -> Option<(Pat, Expr)> {
            if let Some((p, b)) = Self::closure_pat(f) {
                Some((p, wrap(b)))
            } else {
                let e = s.apply(f, &[t.clone()])?;
                Some((parse_quote!(#t), wrap(e)))
            }
        };
        Some(match (name, args) {
            ("map", [f]) => {
                let (p, b) = one(self, f, &|e| parse_quote!(Ok(#e)))?;
                parse_quote!(match #recv { Ok(#p) => #b, Err(#u) => Err(#u) })
            }
            ("map_err", [f]) => {
                let (p, b) = one(self, f, &|e| parse_quote!(Err(#e)))?;
                parse_quote!(match #recv { Ok(#u) => Ok(#u), Err(#p) => #b })
            }
            ("and_then", [f]) => {
                let (p, b) = one(self, f, &|e| e)?;
                parse_quote!(match #recv { Ok(#p) => #b, Err(#u) => Err(#u) })
            }
            ("unwrap_or_else", [f]) => {
                let (p, b) = one(self, f, &|e| e)?;
                parse_quote!(match #recv { Ok(#u) => #u, Err(#p) => #b })
            }
            ("unwrap_or", [d]) => parse_quote!(match #recv { Ok(#u) => #u, Err(_) => #d }),
            ("unwrap", []) | ("expect", [_]) => parse_quote!(match #recv { Ok(#u) => #u, Err(_) => vunreachable() }),
            ("expect_display", [_]) => parse_quote!(match #recv { Ok(#u) => #u, Err(_) => vmaypanic() }),
            ("ok", []) => parse_quote!(match #recv { Ok(#u) => Some(#u), Err(_) => None }),
            _ => return None,
        })
    }

    fn heap_args(&self, name: &str) -> Vec<Expr> {
        let mut v = vec![];
        if let Some(hs) = self.cx.heap.get(name) {
            for (h, _) in &self.cx.heaps {
                if hs.contains_key(h) {
                    let i = id(h);
                    v.push(parse_quote!(#i));
                }
            }
        }
        v
    }

    fn format_to_concat(&mut self, mac: &Macro) -> Option<Expr> {
        let args: punctuated::Punctuated<Expr, Token![,]> =
            mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
        let mut it = args.into_iter();
        let fmt = strlit(&it.next()?)?.value();
        let rest: Vec<Expr> = it.collect();
        let (pos, named): (Vec<Expr>, Vec<Expr>) = rest.into_iter().partition(|e| !matches!(e, Expr::Assign(_)));
        let mut parts: Vec<Expr> = vec![];
        let mut lit = String::new();
        let mut next = 0;
        let cs: Vec<char> = fmt.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    lit.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let j = (i..cs.len()).find(|&j| cs[j] == '}')?;
                    let name: String = cs[i + 1..j].iter().collect();
                    if name.contains(':') {
                        self.errors.push(format!("format spec {{{name}}} unsupported"));
                        return None;
                    }
                    if !lit.is_empty() {
                        let l = LitStr::new(&lit, Span::call_site());
                        parts.push(parse_quote!(vstr(#l)));
                        lit.clear();
                    }
                    let e: Expr = if name.is_empty() {
                        next += 1;
                        pos.get(next - 1)?.clone()
                    } else if let Ok(n) = name.parse::<usize>() {
                        pos.get(n)?.clone()
                    } else {
                        let mut r: Option<Expr> = None;
                        for n in &named {
                            if let Expr::Assign(a) = n {
                                if a.left.to_token_stream().to_string() == name {
                                    r = Some((*a.right).clone());
                                }
                            }
                        }
                        r.unwrap_or_else(|| {
                            let i = id(&name);
                            parse_quote!(#i)
                        })
                    };
                    parts.push(parse_quote!(vdisp(&#e)));
                    i = j + 1;
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        if !lit.is_empty() || parts.is_empty() {
            let l = LitStr::new(&lit, Span::call_site());
            parts.push(parse_quote!(vstr(#l)));
        }
        let mut e = parts.remove(0);
        for p in parts {
            e = parse_quote!(vcat(#e, #p));
        }
        Some(e)
    }

    fn note_call(&mut self, name: &str) {
        let n = self.calls.entry(name.to_string()).or_insert(0);
        *n += 1;
        let n = *n;
        for (cn, k, txt) in &self.ov.after {
            if cn == name && *k == n {
                self.pending_after.push(txt.clone());
            }
        }
        for (cn, k, txt) in &self.ov.before {
            if cn == name && *k == n {
                self.pending_before.push(txt.clone());
            }
        }
    }

    fn iter_source(&mut self, e: Expr) -> Expr {
        // expression used as the source of a `for` loop (already rewritten)
        e
    }
}

const STR_METHODS: &[&str] = &[
    "contains", "starts_with", "ends_with", "replace", "trim", "trim_start", "trim_end", "strip_prefix", "strip_suffix",
    "find", "to_ascii_lowercase", "trim_end_matches", "trim_start_matches", "split_at", "eq_ignore_ascii_case",
];

impl<'a> VisitMut for BodyRw<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        TyRw(self.cx).visit_type_mut(t);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_crate(p);
        visit_mut::visit_path_mut(self, p);
    }

    /// `if let Some(ref mut g) = f(..)` over a guard: the result of a call is moved, not borrowed
    fn visit_expr_let_mut(&mut self, l: &mut ExprLet) {
        let guard = match &*l.expr {
            Expr::MethodCall(m) => self.cx.heap.contains_key(&m.method.to_string()),
            _ => false,
        };
        if guard {
            if let Pat::TupleStruct(t) = &mut *l.pat {
                for p in t.elems.iter_mut() {
                    if let Pat::Ident(i) = p {
                        if i.by_ref.is_some() && i.mutability.is_some() {
                            i.by_ref = None;
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_let_mut(self, l);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let mut last_loop = false;
        for mut s in stmts {
            let attrs: Vec<Attribute> = match &s {
                Stmt::Local(l) => l.attrs.clone(),
                Stmt::Macro(m) => m.attrs.clone(),
                Stmt::Expr(e, _) => expr_attrs(e),
                Stmt::Item(i) => item_attrs(i),
            };
            if !cfg_ok(&attrs, self.cx.wasm) {
                continue;
            }
            match &mut s {
                Stmt::Local(l) => l.attrs.clear(),
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if ["trace", "debug", "info", "warn", "error"].contains(&n.as_str()) {
                        continue;
                    }
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => {}
                Stmt::Expr(e, _) => clear_expr_attrs(e),
            }
            self.stmt_macro = false;
            if let Stmt::Macro(m) = &s {
                self.stmt_macro = m.semi_token.is_some();
                s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), m.semi_token);
            }
            if let Stmt::Local(l) = &s {
                let k = if let Pat::Type(t) = &l.pat {
                    kind_of_type(&t.ty)
                } else {
                    l.init.as_ref().map(|i| self.kind(&i.expr)).unwrap_or(K::Other)
                };
                if let Pat::Ident(i) = strip_pat(&l.pat) {
                    if i.mutability.is_some() {
                        self.mut_locals.insert(i.ident.to_string());
                    }
                    self.env.insert(i.ident.to_string(), k);
                } else if let Pat::Tuple(t) = strip_pat(&l.pat) {
                    for p in &t.elems {
                        if let Pat::Ident(i) = strip_pat(p) {
                            if i.mutability.is_some() {
                                self.mut_locals.insert(i.ident.to_string());
                            }
                        }
                    }
                }
            }
            let mut pre_loop: Vec<Stmt> = vec![];
            if self.cx.flags.contains("mapcollect") {
                if let Some((init, lp)) = map_collect(&s) {
                    let mut init = init;
                    self.visit_stmt_mut(&mut init);
                    pre_loop.push(init);
                    s = lp;
                }
            }
            let save_b = std::mem::take(&mut self.pending_before);
            let save_a = std::mem::take(&mut self.pending_after);
            // `for` statements and `while let` are desugared here so that setup
            // statements can precede them.
            let mut pre: Vec<Stmt> = vec![];
            let mut post: Vec<Stmt> = vec![];
            match &mut s {
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    let (p, w, q) = self.lower_for(f.clone());
                    pre = p;
                    post = q;
                    s = Stmt::Expr(w, None);
                }
                Stmt::Expr(Expr::While(w), _) => {
                    let (p, w, q) = self.lower_while(w.clone());
                    pre = p;
                    post = q;
                    s = Stmt::Expr(w, None);
                }
                Stmt::Expr(Expr::Loop(w), _) => {
                    if !self.cx.flags.contains("nom") {
                        self.accumulator(self.loops + 1, &w.body);
                    }
                    let (p, w, q) = self.lower_loop(w.clone());
                    pre = p;
                    post = q;
                    s = Stmt::Expr(w, None);
                }
                Stmt::Item(Item::Use(u)) => {
                    // `use path::Enum::*` is kept as `use Enum::*`, `use crate::..` dropped
                    let mut last = None;
                    let mut tr = &u.tree;
                    while let UseTree::Path(p) = tr {
                        last = Some(p.ident.clone());
                        tr = &p.tree;
                    }
                    if let (Some(l), UseTree::Glob(_)) = (&last, tr) {
                        if l.to_string().starts_with(|c: char| c.is_uppercase()) {
                            *u = parse_quote!(use #l::*;);
                        }
                    }
                    let t = u.to_token_stream().to_string();
                    if t.contains("quote ::") || t.contains("syn ::") || t.contains("proc_macro2 ::") {
                        continue;
                    }
                    if t.contains("crate ::") || t.contains("super ::") || t.contains("std ::") {
                        continue;
                    }
                }
                _ => self.visit_stmt_mut(&mut s),
            }
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(i), Some(init)) = (strip_pat(&l.pat), &l.init) {
                    let n = i.ident.to_string();
                    match cell_content(&init.expr).filter(|h| self.cx.heaps.iter().any(|(x, _)| x == h)) {
                        Some(h) => self.cell_locals.insert(n, h),
                        None => self.cell_locals.remove(&n),
                    };
                }
            }
            let pb = std::mem::replace(&mut self.pending_before, save_b);
            let pa = std::mem::replace(&mut self.pending_after, save_a);
            out.extend(pre_loop);
            out.extend(pre);
            for t in pb {
                out.push(self.mark(t));
            }
            // A trailing expression followed by hints has to be bound first.
            let is_tail = matches!(&s, Stmt::Expr(_, None));
            if !pa.is_empty() && is_tail && post.is_empty() {
                if let Stmt::Expr(e, None) = s {
                    let r = self.fresh("vt");
                    out.push(parse_quote!(let #r = #e;));
                    for t in pa {
                        out.push(self.mark(t));
                    }
                    out.push(Stmt::Expr(parse_quote!(#r), None));
                }
            } else {
                let was_loop = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _));
                if last_loop && matches!(&s, Stmt::Expr(Expr::Block(_), _)) {
                    // a block right after a loop body would be read as part of the loop
                    out.push(self.mark("assert(true);".into()));
                }
                last_loop = was_loop;
                out.push(s);
                out.extend(post);
                for t in pa {
                    out.push(self.mark(t));
                }
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        clear_expr_attrs(e);
        if let Expr::Match(m) = e {
            if let Some(x) = str_match(m) {
                *e = x;
            }
        }
        // pre-order decisions needing the original kinds
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                // loop in expression position: wrap in a block and let the block visitor do it
                let inner = e.clone();
                let mut b: Block = parse_quote!({ #inner });
                self.visit_block_mut(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                return;
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let rk = self.kind(&m.receiver);
                let closure_ok = |k: K, n: &str| match k {
                    K::Opt => {
                        ["map", "and_then", "or_else", "unwrap_or_else", "unwrap_or", "map_or", "map_or_else", "ok_or", "ok_or_else", "is_some_and", "or", "cloned"]
                            .contains(&n)
                    }
                    K::Res => ["map", "map_err", "and_then", "unwrap_or_else", "unwrap_or", "expect", "unwrap", "expect_display", "ok"].contains(&n),
                    _ => false,
                };
                if n == "unwrap_or_default" && m.args.is_empty() {
                    let (recv, t) = (&m.receiver, self.fresh("vd"));
                    let mut ne: Expr = if rk == K::Res {
                        parse_quote!(match #recv { Ok(#t) => #t, Err(_) => VDefault::vdefault() })
                    } else {
                        parse_quote!(match #recv { Some(#t) => #t, None => VDefault::vdefault() })
                    };
                    self.visit_expr_mut(&mut ne);
                    *e = ne;
                    return;
                }
                if rk == K::Res && closure_ok(rk, &n) {
                    let recv = (*m.receiver).clone();
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    if let Some(mut ne) = self.res_method(&recv, &n, &args) {
                        self.visit_expr_mut(&mut ne);
                        *e = ne;
                        return;
                    }
                }
                if closure_ok(rk, &n) {
                    let recv = (*m.receiver).clone();
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    if let Some(mut ne) = self.opt_method(&recv, &n, &args) {
                        self.visit_expr_mut(&mut ne);
                        *e = ne;
                        return;
                    }
                }
                if (n == "then" || n == "then_some") && m.args.len() == 1 {
                    let recv = (*m.receiver).clone();
                    let a = m.args[0].clone();
                    let body = if n == "then" { self.apply(&a, &[]) } else { Some(a) };
                    if let Some(b) = body {
                        let mut ne: Expr = parse_quote!(if #recv { Some(#b) } else { None });
                        self.visit_expr_mut(&mut ne);
                        *e = ne;
                        return;
                    }
                }
                let argk: Vec<K> = m.args.iter().map(|a| self.kind(a)).collect();
                self.note_call(&n);
                visit_mut::visit_expr_mut(self, e);
                let Expr::MethodCall(m) = e else { return };
                // shared cells: explicit heap
                if let Some((h, _)) = self.cx.cells.get(&n).filter(|_| m.args.is_empty()) {
                    let (h, op, r) = (id(h), id(&format!("v_{n}")), &m.receiver);
                    *e = parse_quote!(#h.#op(#r.vid()));
                    return;
                }
                // a character pushed onto a string
                if n == "push" && m.args.len() == 1 {
                    if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &m.args[0] {
                        let t = LitStr::new(&c.value().to_string(), c.span());
                        m.method = id("push_str");
                        m.args[0] = parse_quote!(vstrc(#t, #c));
                    }
                }
                // post-order renames
                if let Some(w) = self.cx.wrap_methods.get(&n) {
                    m.method = id(w);
                    if self.cx.heap_fns.contains_key(&n) {
                        let hs = self.heap_args(&n);
                        m.args.extend(hs);
                    }
                    return;
                }
                match n.as_str() {
                    "iter" | "into_iter" => m.method = id(if n == "iter" { "viter" } else { "vinto_iter" }),
                    "into" => m.method = id("vinto"),
                    "as_ref" if rk != K::Opt => m.method = id("v_as_ref"),
                    "to_string" => {
                        let r = &m.receiver;
                        *e = parse_quote!(vdisp(&#r));
                        return;
                    }
                    "contains" if self.cx.flags.contains("no_str_contains") => {}
                    s if STR_METHODS.contains(&s) && rk != K::Iter => m.method = id(&format!("v_{s}")),
                    "concat" => m.method = id("v_concat"),
                    "parse" if rk == K::Str => m.method = id("v_parse"),
                    "map" if rk == K::Res => m.method = id("map"),
                    _ => {}
                }
                let _ = argk;
                if ["load", "store"].contains(&n.as_str()) {
                    if let Expr::MethodCall(m) = e {
                        if m.args.to_token_stream().to_string().contains("Ordering") {
                            m.args.push(parse_quote!(vh));
                            return;
                        }
                    }
                }
                let mut hs = self.heap_args(&n);
                let Expr::MethodCall(m) = e else { return };
                // the content of a cell does not hold that cell's heap again
                if let Expr::MethodCall(r) = &*m.receiver {
                    if let (Expr::Path(p), true) = (&*r.receiver, r.method.to_string().starts_with("v_")) {
                        hs.retain(|h| h.to_token_stream().to_string() != p.to_token_stream().to_string());
                    }
                }
                if let Expr::Path(p) = &*m.receiver {
                    if let Some(h) = p.path.get_ident().and_then(|i| self.cell_locals.get(&i.to_string())) {
                        hs.retain(|x| x.to_token_stream().to_string() != *h);
                    }
                }
                m.args.extend(hs);
                return;
            }
            Expr::Call(c) => {
                let mut name = String::new();
                let mut full = String::new();
                if let Expr::Path(p) = &*c.func {
                    name = p.path.segments.last().unwrap().ident.to_string();
                    full = p
                        .path
                        .segments
                        .iter()
                        .map(|s| s.ident.to_string())
                        .collect::<Vec<_>>()
                        .join("::");
                }
                if full == "Ghost" {
                    return;
                }
                // ownership wrappers
                if ((full == "Arc::new" || full == "Rc::new") && !self.cx.flags.contains(&format!("keep_{}", full.split("::").next().unwrap())) || full == "Cow::Owned" || full == "Cow::Borrowed" || full == "Arc::make_mut") && c.args.len() == 1 {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = if full == "Cow::Borrowed" { parse_quote!(vowned(#a)) } else { a };
                    return;
                }
                if full == "Box::new" && c.args.len() == 1 && self.kind(&c.args[0]) == K::Iter {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = a;
                    return;
                }
                if c.args.is_empty() && !self.cx.cells.contains_key(&full) && ["Arc::default", "Rc::default", "Default::default", "Cow::default", "Box::default"].contains(&full.as_str()) {
                    *e = parse_quote!(VDefault::vdefault());
                    return;
                }
                self.note_call(&name);
                let key2 = c.func.to_token_stream().to_string().replace(' ', "");
                visit_mut::visit_expr_mut(self, e);
                let Expr::Call(c) = e else { return };
                if full == "String::from" && c.args.len() == 1 {
                    c.func = parse_quote!(vstring_from);
                }
                if full == "String::with_capacity" {
                    *e = parse_quote!(String::new());
                    return;
                }
                if let Some(s) = self.cx.subst_calls.get(&full).or_else(|| self.cx.subst_calls.get(&key2)) {
                    let args = match &*c.func {
                        Expr::Path(p) => p.path.segments.last().map(|s| s.arguments.clone()),
                        _ => None,
                    };
                    c.func = Box::new(parse_str(s).expect("substcall"));
                    if let (Some(a @ PathArguments::AngleBracketed(_)), Expr::Path(p)) = (args, &mut *c.func) {
                        let l = p.path.segments.last_mut().unwrap();
                        if l.arguments.is_none() {
                            l.arguments = a;
                        }
                    }
                }
                if let Some((h, _)) = self.cx.cells.get(&full) {
                    let h = id(h);
                    let op = id(&format!("v_{name}"));
                    let args = &c.args;
                    *e = parse_quote!(#h.#op(#args));
                    return;
                }
                if full == "AtomicBool::new" {
                    c.func = parse_quote!(VBool::new);
                    c.args.push(parse_quote!(vh));
                    return;
                }
                if name == "empty" && c.args.is_empty() {
                    *e = parse_quote!(VIter::vempty());
                    return;
                }
                let full2 = match &self.self_ty {
                    Some(t) => full.replace("Self::", &format!("{t}::")),
                    None => full.replace("Self::", ""),
                };
                let hk = if self.cx.heap.contains_key(&full) { full.clone() } else { full2 };
                c.args.extend(self.heap_args(&hk));
                return;
            }
            Expr::Cast(c) => {
                if kind_of_type(&c.ty) == K::Iter {
                    let mut inner = (*c.expr).clone();
                    self.visit_expr_mut(&mut inner);
                    *e = inner;
                    return;
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::AddAssign(_)) && (self.kind(&b.left) == K::Str || self.kind(&b.right) == K::Str) => {
                let add = matches!(b.op, BinOp::Add(_));
                visit_mut::visit_expr_mut(self, e);
                let Expr::Binary(b) = e else { return };
                let (l, r) = (&b.left, &b.right);
                *e = if add { parse_quote!(vstring_add(#l, #r)) } else { parse_quote!(#l.push_str(#r)) };
                return;
            }
            Expr::Binary(b) => {
                let eq = matches!(b.op, BinOp::Eq(_));
                let ne = matches!(b.op, BinOp::Ne(_));
                let lit = |x: &Expr| {
                    matches!(
                        x,
                        Expr::Lit(ExprLit { lit: Lit::Int(_) | Lit::Char(_) | Lit::Bool(_) | Lit::Byte(_), .. })
                    )
                };
                if (eq || ne) && !lit(&b.left) && !lit(&b.right) {
                    visit_mut::visit_expr_mut(self, e);
                    let Expr::Binary(b) = e else { return };
                    let (l, r) = (&b.left, &b.right);
                    *e = if eq { parse_quote!(veq(&#l, &#r)) } else { parse_quote!(!veq(&#l, &#r)) };
                    return;
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "format" => {
                        if let Some(mut ne) = self.format_to_concat(&m.mac) {
                            self.visit_inner_fmt(&mut ne);
                            *e = ne;
                        } else {
                            self.errors.push("unsupported format!".into());
                        }
                        return;
                    }
                    "vec" => {
                        if let Ok(args) = m
                            .mac
                            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                        {
                            let mut ne: Expr = parse_quote!(Vec::new());
                            if !args.is_empty() {
                                let r = self.fresh("vv");
                                let args = args.iter();
                                ne = parse_quote!({ let mut #r = Vec::new(); #(#r.push(#args);)* #r });
                            }
                            self.visit_expr_mut(&mut ne);
                            *e = ne;
                        }
                        return;
                    }
                    "matches" => {
                        struct MA(Expr, Pat, Option<Expr>);
                        impl syn::parse::Parse for MA {
                            fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                                let e = i.parse()?;
                                i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) {
                                    i.parse::<Token![if]>()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                let _: Option<Token![,]> = i.parse()?;
                                Ok(MA(e, p, g))
                            }
                        }
                        if let Ok(MA(x, p, g)) = m.mac.parse_body::<MA>() {
                            let mut ne: Expr = match g {
                                Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }),
                                None => parse_quote!(match #x { #p => true, _ => false }),
                            };
                            self.visit_expr_mut(&mut ne);
                            *e = ne;
                        }
                        return;
                    }
                    "assert_eq" | "assert_ne" | "assert" => {
                        // a documented panic: execution continues only when the condition holds
                        let args: std::result::Result<punctuated::Punctuated<Expr, Token![,]>, _> =
                            m.mac.parse_body_with(punctuated::Punctuated::parse_terminated);
                        if let Ok(args) = args {
                            let mut ne: Expr = if n == "assert" {
                                let a = &args[0];
                                parse_quote!(if !(#a) { vmaypanic() })
                            } else {
                                let (a, b) = (&args[0], &args[1]);
                                if n == "assert_eq" { parse_quote!(if !(#a == #b) { vmaypanic() }) } else { parse_quote!(if #a == #b { vmaypanic() }) }
                            };
                            self.visit_expr_mut(&mut ne);
                            *e = ne;
                        }
                        return;
                    }
                    "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => {
                        let mac = id(n.trim_start_matches("debug_"));
                        let ts = &m.mac.tokens;
                        let mut ne: Expr = parse_quote!(#mac!(#ts));
                        self.visit_expr_mut(&mut ne);
                        *e = ne;
                        return;
                    }
                    "unreachable" | "panic" | "unimplemented" | "todo" => {
                        let f = id(if self.ov.maypanic { "vmaypanic" } else { "vunreachable" });
                        *e = if self.stmt_macro { parse_quote!(#f::<()>()) } else { parse_quote!(#f()) };
                        return;
                    }
                    "abort" | "abort_call_site" => {
                        let h = self.mark(self.ov.abort.clone());
                        *e = match (self.ov.abort.trim().is_empty(), self.stmt_macro) {
                            (true, true) => parse_quote!(vabort::<()>()),
                            (true, false) => parse_quote!(vabort()),
                            (false, true) => parse_quote!({ #h vabort::<()>() }),
                            (false, false) => parse_quote!({ #h vabort() }),
                        };
                        return;
                    }
                    "write" => {
                        let args: std::result::Result<punctuated::Punctuated<Expr, Token![,]>, _> =
                            m.mac.parse_body_with(punctuated::Punctuated::parse_terminated);
                        if let Ok(args) = args {
                            let w = args[0].clone();
                            let rest: Vec<&Expr> = args.iter().skip(1).collect();
                            let fm: Macro = parse_quote!(format!(#(#rest),*));
                            if let Some(mut ne) = self.format_to_concat(&fm) {
                                self.visit_inner_fmt(&mut ne);
                                *e = parse_quote!(vwrite_str(#w, #ne));
                                return;
                            }
                        }
                        self.errors.push("unsupported write!".into());
                        return;
                    }
                    "quote" | "quote_spanned" if self.cx.templates => {
                        let mut ts = m.mac.tokens.clone();
                        if n == "quote_spanned" {
                            // drop `span =>`
                            let v: Vec<_> = ts.into_iter().collect();
                            let mut k = 0;
                            for (i, t) in v.iter().enumerate() {
                                if t.to_string() == "=" && v.get(i + 1).map(|x| x.to_string() == ">").unwrap_or(false) {
                                    k = i + 2;
                                    break;
                                }
                            }
                            ts = v.into_iter().skip(k).collect();
                        }
                        *e = crate::template::template_expr(ts, self.cx, &mut self.errors);
                        return;
                    }
                    _ => {
                        self.errors.push(format!("unsupported macro {n}!"));
                        return;
                    }
                }
            }
            Expr::Struct(st) => {
                let wasm = self.cx.wasm;
                st.fields = st
                    .fields
                    .iter()
                    .filter(|f| cfg_ok(&f.attrs, wasm))
                    .cloned()
                    .map(|mut f| {
                        f.attrs.clear();
                        f
                    })
                    .collect();
            }
            Expr::Closure(c) => {
                // a predicate of a parser: its specification comes with it
                if let Expr::Block(b) = &mut *c.body {
                    if let Some(Stmt::Macro(m)) = b.block.stmts.first() {
                        if m.mac.path.is_ident("npred") {
                            let spec = m.mac.tokens.to_string();
                            b.block.stmts.remove(0);
                            let m = self.mark(format!("CLOSURE -> (nr: bool) ensures nr == ({spec})"));
                            let mut bl = b.block.clone();
                            self.visit_block_mut(&mut bl);
                            bl.stmts.insert(0, m);
                            b.block = bl;
                            return;
                        }
                    }
                }
                self.closures += 1;
                let n = self.closures;
                for p in c.inputs.iter() {
                    if let Pat::Type(t) = p {
                        if let Pat::Ident(i) = &*t.pat {
                            self.env.insert(i.ident.to_string(), kind_of_type(&t.ty));
                        }
                    }
                }
                // closure parameters become plain variables vc<n>_<i>
                let mut lets: Vec<Stmt> = vec![];
                for (i, p) in c.inputs.iter_mut().enumerate() {
                    let (inner, ty) = match &*p {
                        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        q => (q.clone(), None),
                    };
                    if matches!(inner, Pat::Ident(_)) && ty.is_some() {
                        continue;
                    }
                    if let Pat::Ident(pi) = &inner {
                        if pi.by_ref.is_none() && pi.mutability.is_none() {
                            continue;
                        }
                    }
                    let v = id(&format!("vc{}_{}", n, i + 1));
                    lets.push(parse_quote!(let #inner = #v;));
                    *p = match ty {
                        Some(t) => Pat::Type(PatType {
                            attrs: vec![],
                            pat: Box::new(parse_quote!(#v)),
                            colon_token: Default::default(),
                            ty: Box::new(t),
                        }),
                        None => parse_quote!(#v),
                    };
                }
                if !lets.is_empty() {
                    let b = c.body.clone();
                    c.body = parse_quote!({ #(#lets)* #b });
                }
                visit_mut::visit_expr_mut(self, e);
                let Expr::Closure(c) = e else { return };
                c.output = ReturnType::Default;
                let body = c.body.clone();
                let spec = self.ov.closures.get(&n).cloned().unwrap_or_default();
                if spec.is_empty() { self.errors.push(format!("closure {n} without a contract")); }
                let k = format!("vmark_{}", self.marks.len());
                // text is spliced between the parameter list and the body
                self.marks.insert(k.clone(), format!("CLOSURE {spec}"));
                let i = id(&k);
                let b: Block = match *body {
                    Expr::Block(b) => b.block,
                    o => parse_quote!({ #o }),
                };
                let stmts = b.stmts;
                c.body = parse_quote!({ #i!(); #(#stmts)* });
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> BodyRw<'a> {
    fn visit_inner_fmt(&mut self, e: &mut Expr) {
        // visit only the argument expressions of vdisp(&..)
        match e {
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string();
                if f == "vcat" {
                    for a in c.args.iter_mut() {
                        self.visit_inner_fmt(a);
                    }
                } else if f == "vdisp" {
                    if let Expr::Reference(r) = &mut c.args[0] {
                        self.visit_expr_mut(&mut r.expr);
                    }
                }
            }
            _ => {}
        }
    }

    /// A loop that builds up another variable than the one its invariant is about has no
    /// invariant that fits.
    fn accumulator(&mut self, n: usize, body: &Block) -> Option<String> {
        let l = self.ov.loops.get(&n)?;
        struct M(HashSet<String>, HashSet<String>);
        impl M {
            fn path(&mut self, e: &Expr) {
                if let Expr::Path(p) = e {
                    if let Some(i) = p.path.get_ident() {
                        self.0.insert(i.to_string());
                    }
                }
            }
        }
        impl<'a> syn::visit::Visit<'a> for M {
            fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                let n = m.method.to_string();
                if ["push", "push_str", "extend", "insert", "append", "push_front", "push_back"].contains(&n.as_str()) {
                    self.path(&m.receiver);
                }
                syn::visit::visit_expr_method_call(self, m);
            }
            fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
                self.path(&a.left);
                syn::visit::visit_expr_assign(self, a);
            }
            fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
                use BinOp::*;
                if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
                    self.path(&b.left);
                }
                syn::visit::visit_expr_binary(self, b);
            }
            fn visit_expr_reference(&mut self, r: &'a ExprReference) {
                if r.mutability.is_some() {
                    self.path(&r.expr);
                }
                syn::visit::visit_expr_reference(self, r);
            }
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                self.1.insert(p.ident.to_string());
            }
        }
        let mut m = M(HashSet::new(), HashSet::new());
        syn::visit::Visit::visit_block(&mut m, body);
        let split = |t: &str| -> HashSet<String> { t.split(|c: char| !c.is_alphanumeric() && c != '_').map(|w| w.to_string()).collect() };
        let inv = split(&l.inv);
        let said = split(&body.to_token_stream().to_string());
        let other = m.0.iter().any(|y| self.mut_locals.contains(y) && !m.1.contains(y) && !inv.contains(y));
        let lost = self.mut_locals.iter().any(|x| inv.contains(x) && !said.contains(x));
        if other && lost {
            self.errors.push(format!("the invariant of loop {n} is about another variable"));
        }
        // state of the loop that its invariant does not mention
        let free: Vec<&String> = m.0.iter().filter(|y| self.mut_locals.contains(*y) && !m.1.contains(*y) && !inv.contains(*y)).collect();
        let free = free.into_iter().cloned().collect::<Vec<_>>();
        // `vm` is the vector of a `.map(..).collect()` read as a loop; a loop written out has its own
        let mut own: Vec<&String> = m.0.iter().filter(|y| self.mut_locals.contains(*y) && !m.1.contains(*y) && !inv.contains(*y)).collect();
        if inv.contains("vm") && !self.mut_locals.contains("vm") && !said.contains("vm") && own.len() == 1 {
            return own.pop().cloned();
        }
        if !free.is_empty() && !(other && lost) {
            self.errors.push(format!("loop {n} changes {}, which its invariant does not mention", free.join(", ")));
        }
        None
    }

    fn loop_marks(&mut self, n: usize, base_inv: String, default_dec: String, default_ens: String) -> (Stmt, Stmt, Stmt, Stmt, Stmt) {
        self.used_loops.insert(n);
        let mut l = self.ov.loops.get(&n).cloned().unwrap_or_default();
        // `if(x) ..`: a line for code in which a local `x` is bound before the loop
        l.inv = l.inv.lines().filter_map(|t| match t.trim_start().strip_prefix("if(").and_then(|r| r.split_once(')')) {
            Some((x, rest)) => self.env.contains_key(x).then(|| rest.to_string()),
            None => Some(t.to_string()),
        }).collect::<Vec<_>>().join("\n");
        if let Some(y) = self.acc.take() {
            for t in [&mut l.inv, &mut l.start, &mut l.end, &mut l.before, &mut l.after] {
                *t = word_replace(t, "vm", &y);
            }
        }
        let mut inv = l.inv.clone();
        let mut text = String::from("LOOP ");
        // user invariants: expected to be sections `invariant ..., ensures ..., decreases ...`
        if !inv.contains("invariant") {
            inv = format!("invariant {}", inv);
        }
        if let Some(b) = base_inv.strip_prefix('\u{1}') {
            // loops read from nom combinators: no failure so far, and an end part of the start
            let (x, y) = b.split_once('\u{1}').unwrap();
            if let Some(p) = inv.find("invariant_except_break") {
                inv.insert_str(p + "invariant_except_break".len(), &format!(" {x}, "));
            } else {
                inv = format!("invariant_except_break {x} {inv}");
            }
            inv = inv.replacen(" invariant ", &format!(" invariant {y}, "), 1).replacen("\ninvariant ", &format!("\ninvariant {y}, "), 1);
        } else if !base_inv.is_empty() {
            inv = inv.replacen("invariant", &format!("invariant {base_inv},"), 1);
        }
        if !inv.contains("ensures") && !default_ens.is_empty() {
            inv.push_str(&format!(" ensures {default_ens} "));
        }
        if !inv.contains("decreases") && !default_dec.is_empty() {
            inv.push_str(&format!(" decreases {default_dec} "));
        }
        text.push_str(&inv);
        let a = self.mark(text);
        let bcs: String = self.bc.iter().map(|b| format!("broadcast use {b};\n")).collect();
        let rv = std::mem::take(&mut self.loop_reveals);
        let st = self.mark(format!("{bcs}{rv}{}", l.start));
        let en = self.mark(l.end.clone());
        let be = self.mark(l.before.clone());
        let af = self.mark(l.after.clone());
        (a, st, en, be, af)
    }

    fn lower_for(&mut self, f: ExprForLoop) -> (Vec<Stmt>, Expr, Vec<Stmt>) {
        self.loops += 1;
        let n = self.loops;
        let it = id(&format!("it{n}"));
        let k = format!("k{n}");
        let s = format!("s{n}");
        let kind = self.kind(&f.expr);
        let mut src = (*f.expr).clone();
        // strip parentheses
        while let Expr::Paren(p) = src {
            src = *p.expr;
        }
        let srcx: Expr = match &src {
            Expr::Range(r) => match (&r.start, &r.end, &r.limits) {
                (Some(a), Some(b), RangeLimits::HalfOpen(_)) => {
                    let (mut a, mut b) = ((**a).clone(), (**b).clone());
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    parse_quote!(VIter::vrange(#a, #b))
                }
                _ => {
                    self.errors.push("range form".into());
                    src.clone()
                }
            },
            _ => {
                let is_ref = matches!(&src, Expr::Reference(_));
                let mut e2 = src.clone();
                self.rewrite_range_recv(&mut e2);
                self.visit_expr_mut(&mut e2);
                if kind == K::Iter {
                    e2
                } else if is_ref {
                    if let Expr::Reference(r) = e2 {
                        let mut i = r.expr;
                        // `&*x`, `&**x`: the method call dereferences
                        while let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) | Expr::Paren(ExprParen { expr, .. }) = *i {
                            i = expr;
                        }
                        parse_quote!(#i.viter())
                    } else {
                        e2
                    }
                } else {
                    parse_quote!((#e2).vinto_iter())
                }
            }
        };
        let srcx = self.iter_source(srcx);
        let pat = (*f.pat).clone();
        let base = format!("0 <= {k} <= {s}.len(), it{n}@ == {s}.skip({k})");
        let acc = self.accumulator(n, &f.body);
        self.acc = acc;
        let (a, st, en, be, af) = self.loop_marks(n, base, format!("{s}.len() - {k}"), String::new());
        let mut pre: Vec<Stmt> = vec![];
        pre.push(be);
        pre.push(parse_quote!(let mut #it = #srcx;));
        pre.push(self.mark(format!(
            "let ghost {s} = it{n}@; let ghost mut {k}: int = 0; proof {{ vlemma_skip0({s}); }}"
        )));
        let step = self.mark(format!(
            "proof {{ vlemma_skip_step({s}, {k}); {k} = {k} + 1; }}"
        ));
        let mut body = f.body.clone();
        self.visit_block_mut(&mut body);
        let stmts = flatten_tail(body.stmts);
        let label = f.label.clone();
        let w: Expr = parse_quote!(#label while !#it.vdone() { #a #st let #pat = #it.vtake_next(); #step #(#stmts)* #en });
        (pre, w, vec![af])
    }

    fn rewrite_range_recv(&mut self, e: &mut Expr) {
        // (a..b).rev() etc.: the range receiver becomes a VIter
        if let Expr::MethodCall(m) = e {
            let mut r = (*m.receiver).clone();
            while let Expr::Paren(p) = r {
                r = *p.expr;
            }
            if let Expr::Range(rg) = &r {
                if let (Some(a), Some(b)) = (&rg.start, &rg.end) {
                    m.receiver = parse_quote!(VIter::vrange(#a, #b));
                }
            } else {
                self.rewrite_range_recv(&mut m.receiver);
            }
        }
    }

    fn lower_while(&mut self, w: ExprWhile) -> (Vec<Stmt>, Expr, Vec<Stmt>) {
        self.loops += 1;
        let n = self.loops;
        self.accumulator(n, &w.body);
        let (a, st, en, be, af) = self.loop_marks(n, String::new(), String::new(), String::new());
        let label = w.label.clone();
        let mut body = w.body.clone();
        let e: Expr = if let Expr::Let(l) = &*w.cond {
            let pat = &l.pat;
            let mut x = (*l.expr).clone();
            self.visit_expr_mut(&mut x);
            self.visit_block_mut(&mut body);
            let stmts = flatten_tail(body.stmts);
            parse_quote!(#label loop { #a #st match #x { #pat => { #(#stmts)* #en } _ => { break; } } })
        } else {
            let mut c = (*w.cond).clone();
            self.visit_expr_mut(&mut c);
            self.visit_block_mut(&mut body);
            let stmts = flatten_tail(body.stmts);
            parse_quote!(#label while #c { #a #st #(#stmts)* #en })
        };
        (vec![be], e, vec![af])
    }

    fn lower_loop(&mut self, w: ExprLoop) -> (Vec<Stmt>, Expr, Vec<Stmt>) {
        self.loops += 1;
        let n = self.loops;
        let mut body = w.body.clone();
        let (mut base, mut dec) = (String::new(), String::new());
        if let Some(Stmt::Macro(m)) = body.stmts.first() {
            if m.mac.path.is_ident("nomloop") {
                let t = m.mac.tokens.to_string();
                let v: Vec<&str> = t.split(',').map(|x| x.trim()).collect();
                base = format!("\u{1}{} is None", v[2]);
                base = format!("{base}\u{1}nsuf({}@, {}@)", v[0], v[1]);
                dec = format!("{}@.len()", v[1]);
                body.stmts.remove(0);
                self.loop_reveals = reveals(&body, usize::MAX);
            }
        }
        let (a, st, en, be, af) = self.loop_marks(n, base, dec, String::new());
        let label = w.label.clone();
        self.visit_block_mut(&mut body);
        let stmts = flatten_tail(body.stmts);
        let e: Expr = parse_quote!(#label loop { #a #st #(#stmts)* #en });
        (vec![be], e, vec![af])
    }
}

thread_local! {
    /// Flag `keepwords`: the characters of literals like "@media" are left to the lemmas of the unit.
    pub static KEEP_WORDS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// The characters of the string literals of a body, made known to the verifier.
/// What the characters of the string literals (up to a length) of a body are.
pub fn reveals(b: &Block, max: usize) -> String {
    struct L(Vec<String>, usize);
    impl<'a> Visit<'a> for L {
        fn visit_lit_str(&mut self, l: &'a LitStr) {
            let t = l.to_token_stream().to_string();
            if !self.0.contains(&t) && l.value().chars().count() <= self.1 {
                self.0.push(t);
            }
        }
    }
    let mut l = L(vec![], max);
    l.visit_block(b);
    let at = KEEP_WORDS.with(|k| k.get());
    l.0.iter().filter(|t| !(at && t.starts_with("\"@"))).map(|t| format!("proof {{ reveal_strlit({t}); }}\n")).collect()
}

/// `let V: Vec<T> = I.map(|p| B).collect();` is read as the loop that builds V.
fn map_collect(s: &Stmt) -> Option<(Stmt, Stmt)> {
    let Stmt::Local(l) = s else { return None };
    let Pat::Type(pt) = &l.pat else { return None };
    if !pt.ty.to_token_stream().to_string().starts_with("Vec <") {
        return None;
    }
    let Pat::Ident(v) = &*pt.pat else { return None };
    let Expr::MethodCall(c) = &*l.init.as_ref()?.expr else { return None };
    if c.method != "collect" {
        return None;
    }
    let Expr::MethodCall(m) = &*c.receiver else { return None };
    if m.method != "map" || m.args.len() != 1 {
        return None;
    }
    let (p, b) = BodyRw::closure_pat(&m.args[0])?;
    let (v, ty, recv) = (&v.ident, &pt.ty, &m.receiver);
    Some((parse_quote!(let mut #v: #ty = Vec::new();), parse_quote!(for #p in #recv { #v.push(#b); })))
}

/// The last statement of a loop body may be an expression of type () without
/// semicolon; make room for a hint after it.
fn flatten_tail(mut v: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, semi)) = v.last_mut() {
        if semi.is_none() && !matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) {
            *semi = Some(Default::default());
        }
    }
    v
}

/// A match on string literals, as comparisons.
fn str_match(m: &ExprMatch) -> Option<Expr> {
    fn lits(p: &Pat) -> Option<Vec<Expr>> {
        match p {
            Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![Expr::Lit(l.clone())]),
            Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
            Pat::Paren(p) => lits(&p.pat),
            _ => None,
        }
    }
    if !m.arms.iter().any(|a| lits(&a.pat).is_some()) {
        return None;
    }
    let mut out: Option<Expr> = None;
    for a in m.arms.iter().rev() {
        let body = &a.body;
        match (lits(&a.pat), &a.pat) {
            (Some(ls), _) => {
                let mut c: Expr = {
                    let f = &ls[0];
                    parse_quote!(vms == #f)
                };
                for l in &ls[1..] {
                    c = parse_quote!(#c || vms == #l);
                }
                if let Some((_, g)) = &a.guard {
                    c = parse_quote!((#c) && #g);
                }
                let rest = out?;
                out = Some(parse_quote!(if #c { #body } else { #rest }));
            }
            (None, Pat::Wild(_)) if a.guard.is_none() => out = Some((**body).clone()),
            (None, Pat::Ident(i)) if a.guard.is_none() && i.subpat.is_none() => out = Some(parse_quote!({ let #i = vms; #body })),
            _ => return None,
        }
    }
    let (x, o) = (&m.expr, out?);
    Some(parse_quote!(match #x { vms => #o }))
}

pub fn strip_pat(p: &Pat) -> &Pat {
    match p {
        Pat::Type(t) => strip_pat(&t.pat),
        p => p,
    }
}

pub fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::Block(b) => b.attrs.clone(),
        Expr::MethodCall(b) => b.attrs.clone(),
        Expr::Call(b) => b.attrs.clone(),
        Expr::If(b) => b.attrs.clone(),
        Expr::Match(b) => b.attrs.clone(),
        Expr::Macro(b) => b.attrs.clone(),
        Expr::Assign(b) => b.attrs.clone(),
        Expr::ForLoop(b) => b.attrs.clone(),
        Expr::While(b) => b.attrs.clone(),
        Expr::Loop(b) => b.attrs.clone(),
        Expr::Return(b) => b.attrs.clone(),
        Expr::Path(b) => b.attrs.clone(),
        _ => vec![],
    }
}

pub fn item_attrs(i: &Item) -> Vec<Attribute> {
    match i {
        Item::Fn(f) => f.attrs.clone(),
        Item::Impl(f) => f.attrs.clone(),
        Item::Mod(f) => f.attrs.clone(),
        Item::Struct(f) => f.attrs.clone(),
        Item::Enum(f) => f.attrs.clone(),
        Item::Trait(f) => f.attrs.clone(),
        Item::Use(f) => f.attrs.clone(),
        _ => vec![],
    }
}

pub fn clear_expr_attrs(e: &mut Expr) {
    match e {
        Expr::Block(b) => b.attrs.clear(),
        Expr::MethodCall(b) => b.attrs.clear(),
        Expr::Call(b) => b.attrs.clear(),
        Expr::If(b) => b.attrs.clear(),
        Expr::Match(b) => b.attrs.clear(),
        Expr::Macro(b) => b.attrs.clear(),
        Expr::Assign(b) => b.attrs.clear(),
        Expr::ForLoop(b) => b.attrs.clear(),
        Expr::While(b) => b.attrs.clear(),
        Expr::Loop(b) => b.attrs.clear(),
        Expr::Return(b) => b.attrs.clear(),
        Expr::Path(b) => b.attrs.clear(),
        _ => {}
    }
}

pub fn toks<T: ToTokens>(t: &T) -> TokenStream {
    quote!(#t)
}

/// Replaces whole words.
pub fn word_replace(t: &str, a: &str, b: &str) -> String {
    let (mut out, mut w) = (String::new(), String::new());
    for c in t.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            out.push_str(if w == a { b } else { &w });
            w.clear();
            out.push(c);
        }
    }
    out.pop();
    out
}
