//! extract <repo> <overlay> <out.rs> <out.json> [--wasm]
//! Mechanical extraction of functions of /repo into the Verus dialect, with the contracts of
//! an overlay file attached.  Exit 0: extracted.  Exit 3: lost anchor / unsupported construct
//! (listed in out.json).
mod derive;
mod inline;
mod nom;
mod overlay;
mod pre;
mod template;
mod xform;

use overlay::{FnOv, Item as OItem, Overlay};
use quote::{quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::PathBuf;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;
use xform::{cfg_ok, id, kind_of_type, BodyRw, Cx, TyRw};

#[derive(Clone)]
pub struct FnDef {
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    pub generics: Generics,
    pub sig: Signature,
    pub block: Block,
    pub source: String,
    pub is_default: bool,
    /// generic arguments of the type in the impl header
    pub self_args: Option<PathArguments>,
}

#[derive(Default)]
pub struct Index {
    pub fns: Vec<FnDef>,
    pub structs: Vec<(String, ItemStruct)>,
    pub enums: Vec<(String, ItemEnum)>,
    pub consts: Vec<(String, ItemConst)>,
    pub renames: Vec<String>,
}

fn last_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => last_ident(&r.elem),
        _ => String::new(),
    }
}

fn ty_args(t: &Type) -> Option<PathArguments> {
    match t {
        Type::Path(p) => Some(p.path.segments.last().unwrap().arguments.clone()),
        Type::Reference(r) => ty_args(&r.elem),
        _ => None,
    }
}

fn index_items(items: &[Item], source: &str, wasm: bool, ix: &mut Index) {
    for i in items {
        if !cfg_ok(&xform::item_attrs(i), wasm) {
            continue;
        }
        match i {
            Item::Fn(f) => ix.fns.push(FnDef {
                self_ty: None,
                trait_: None,
                generics: Generics::default(),
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                source: source.into(),
                is_default: false,
                self_args: None,
            }),
            Item::Impl(im) => {
                let ty = last_ident(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| {
                    let seg = t.1.segments.last().unwrap();
                    seg.to_token_stream().to_string().replace(' ', "")
                });
                let mut assoc = HashMap::new();
                for ii in &im.items {
                    if let ImplItem::Const(c) = ii {
                        let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                        ix.consts.push((source.into(), parse_quote!(const #i: #t = #e;)));
                    }
                    if let ImplItem::Type(t) = ii {
                        assoc.insert(t.ident.to_string(), t.ty.clone());
                    }
                }
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        let mut f = f.clone();
                        AssocSubst(&assoc).visit_impl_item_fn_mut(&mut f);
                        let f = &f;
                        if !cfg_ok(&f.attrs, wasm) {
                            continue;
                        }
                        ix.fns.push(FnDef {
                            self_ty: Some(ty.clone()),
                            trait_: tr.clone(),
                            generics: im.generics.clone(),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            source: source.into(),
                            is_default: false,
                            self_args: ty_args(&im.self_ty),
                        });
                    }
                }
            }
            Item::Trait(t) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            ix.fns.push(FnDef {
                                self_ty: None,
                                trait_: Some(t.ident.to_string()),
                                generics: Generics::default(),
                                sig: f.sig.clone(),
                                block: b.clone(),
                                source: source.into(),
                                is_default: true,
                                self_args: None,
                            });
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    index_items(items, source, wasm, ix);
                }
            }
            Item::Struct(s) => {
                for f in derive::struct_fns(s) {
                    ix.fns.push(mk_derived(f, &s.ident.to_string(), &s.generics, source));
                }
                ix.structs.push((source.into(), s.clone()))
            }
            Item::Enum(s) => {
                for f in derive::enum_fns(s) {
                    ix.fns.push(mk_derived(f, &s.ident.to_string(), &s.generics, source));
                }
                ix.enums.push((source.into(), s.clone()))
            }
            Item::Const(c) => ix.consts.push((source.into(), c.clone())),
            Item::Static(c) if matches!(c.mutability, StaticMutability::None) => {
                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                ix.consts.push((source.into(), parse_quote!(const #i: #t = #e;)))
            }
            _ => {}
        }
    }
}

fn mk_derived((tr, f): (String, ItemFn), ty: &str, g: &Generics, source: &str) -> FnDef {
    FnDef {
        self_ty: Some(ty.into()),
        trait_: Some(tr),
        generics: g.clone(),
        sig: f.sig,
        block: *f.block,
        source: format!("{source} (derived)"),
        is_default: false,
        self_args: None,
    }
}

impl Index {
    fn find(&self, f: &FnOv) -> Option<&FnDef> {
        let (ty, name) = match f.path.rsplit_once("::") {
            Some((t, n)) => (Some(t.to_string()), n.to_string()),
            None => (None, f.path.clone()),
        };
        let cand: Vec<&FnDef> = self
            .fns
            .iter()
            .filter(|d| {
                if d.sig.ident != name {
                    return false;
                }
                if let (Some(tr), Some(_of)) = (&f.trait_, &f.of) {
                    return d.is_default && d.trait_.as_deref() == Some(tr);
                }
                if d.self_ty != ty {
                    return false;
                }
                match &f.trait_ {
                    Some(t) => d.trait_.as_deref() == Some(t),
                    None => true,
                }
            })
            .collect();
        cand.iter().find(|d| d.source == f.source).copied().or_else(|| cand.first().copied())
    }
}

/// `Self::Target` etc. inside an impl block is read as the type it is bound to there.
struct AssocSubst<'a>(&'a HashMap<String, Type>);
impl VisitMut for AssocSubst<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(n) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = n.clone();
                    return;
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

struct DropFields<'a> {
    d: &'a HashMap<String, Vec<String>>,
    self_ty: Option<String>,
}
impl VisitMut for DropFields<'_> {
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        let n = e.path.segments.last().unwrap().ident.to_string();
        let n = if n == "Self" { self.self_ty.clone().unwrap_or_default() } else { n };
        if let Some(fs) = self.d.get(&n) {
            let keep: Vec<FieldValue> = e.fields.iter().filter(|f| !fs.contains(&f.member.to_token_stream().to_string())).cloned().collect();
            e.fields = keep.into_iter().collect();
        }
        visit_mut::visit_expr_struct_mut(self, e);
    }
}

struct Effects<'a> {
    calls: Vec<String>,
    prim: BTreeMap<String, u8>,
    self_ty: Option<&'a str>,
    cells: &'a HashMap<String, (String, u8)>,
    heap_fns: &'a HashMap<String, String>,
}
impl<'a> Effects<'a> {
    fn eff(&mut self, h: &str, l: u8) {
        let e = self.prim.entry(h.to_string()).or_insert(0);
        *e = (*e).max(l);
    }
}
impl<'a, 'ast> Visit<'ast> for Effects<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let n = m.method.to_string();
        let has_ordering = m.args.to_token_stream().to_string().contains("Ordering");
        match n.as_str() {
            "load" if has_ordering => self.eff("vh", 1),
            "store" | "swap" if has_ordering => self.eff("vh", 2),
            m => {
                if let Some((h, l)) = self.cells.get(m).cloned() {
                    self.eff(&h, l);
                }
                if let Some(h) = self.heap_fns.get(m).cloned() {
                    self.eff(&h, 2);
                }
            }
        }
        self.calls.push(n);
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if full == "AtomicBool::new" {
                self.eff("vh", 2);
            }
            if let Some((h, l)) = self.cells.get(&full).cloned() {
                self.eff(&h, l);
            }
            if let Some(h) = self.heap_fns.get(&full).cloned() {
                self.eff(&h, 2);
            }
            let full = if let Some(t) = self.self_ty { full.replace("Self::", &format!("{t}::")) } else { full };
            self.calls.push(full);
        }
        visit::visit_expr_call(self, c);
    }
}

/// `?Sized` is dropped when the unit's replacement bounds need sized types.
fn drop_unsized(b: &punctuated::Punctuated<TypeParamBound, Token![+]>, cx: &Cx) -> punctuated::Punctuated<TypeParamBound, Token![+]> {
    b.iter().filter(|b| !cx.flags.contains("sized") || !b.to_token_stream().to_string().contains("? Sized")).cloned().collect()
}

fn rewrite_generics(g: &Generics, cx: &Cx) -> (String, String) {
    let mut g = g.clone();
    let wc = g.where_clause.take();
    for p in g.params.iter_mut() {
        match p {
            GenericParam::Type(t) => {
                let mut rw = TyRw(cx);
                t.bounds = drop_unsized(&t.bounds, cx);
                if t.bounds.is_empty() {
                    t.colon_token = None;
                }
                for b in t.bounds.iter_mut() {
                    rw.visit_type_param_bound_mut(b);
                }
            }
            _ => {}
        }
    }
    let gs = if g.params.is_empty() { String::new() } else { g.to_token_stream().to_string() };
    let ws = match wc {
        Some(mut w) => {
            w.predicates = w
                .predicates
                .iter()
                .filter(|p| !p.to_token_stream().to_string().contains(":: Error"))
                .cloned()
                .collect();
            let mut rw = TyRw(cx);
            for p in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = p {
                    t.bounds = drop_unsized(&t.bounds, cx);
                }
            }
            rw.visit_where_clause_mut(&mut w);
            w.to_token_stream().to_string()
        }
        None => String::new(),
    };
    (gs, ws)
}

/// A `Cell<bool>` field is a shared flag like an `AtomicBool` one.
fn cell_flags(f: &mut File) {
    #[derive(Default)]
    struct V {
        fields: HashSet<String>,
        other: bool,
        on: bool,
    }
    fn cell(t: &Type) -> Option<bool> {
        let Type::Path(p) = t else { return None };
        let s = p.path.segments.last()?;
        (s.ident == "Cell").then(|| s.arguments.to_token_stream().to_string().replace(' ', "") == "<bool>")
    }
    impl VisitMut for V {
        fn visit_field_mut(&mut self, f: &mut Field) {
            if let (Some(i), Some(true)) = (&f.ident, cell(&f.ty)) {
                self.fields.insert(i.to_string());
            }
            visit_mut::visit_field_mut(self, f);
        }
        fn visit_type_mut(&mut self, t: &mut Type) {
            match cell(t) {
                Some(true) if self.on => *t = parse_quote!(AtomicBool),
                Some(true) => {}
                Some(false) => self.other = true,
                None => visit_mut::visit_type_mut(self, t),
            }
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if !self.on {
                return;
            }
            match e {
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let q: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if q.len() >= 2 && q[q.len() - 2] == "Cell" && q[q.len() - 1] == "new" {
                            c.func = parse_quote!(AtomicBool::new);
                        }
                    }
                }
                Expr::MethodCall(m) => {
                    let named = matches!(&*m.receiver, Expr::Field(f) if matches!(&f.member, Member::Named(n) if self.fields.contains(&n.to_string())));
                    let (r, a) = (&m.receiver, m.args.first());
                    match (m.method.to_string().as_str(), a) {
                        ("get", None) if named => *e = parse_quote!(#r.load(Ordering::Relaxed)),
                        ("set", Some(a)) if named => *e = parse_quote!(#r.store(#a, Ordering::Relaxed)),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
    }
    let mut v = V::default();
    v.visit_file_mut(f);
    if !v.fields.is_empty() && !v.other {
        v.on = true;
        v.visit_file_mut(f);
    }
}

/// A literal, or a tuple / array / reference of literals.
fn literal(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Reference(r) => r.mutability.is_none() && literal(&r.expr),
        Expr::Array(a) => a.elems.iter().all(literal),
        Expr::Tuple(a) => a.elems.iter().all(literal),
        Expr::Unary(u) => literal(&u.expr),
        Expr::Paren(u) => literal(&u.expr),
        _ => false,
    }
}

/// Constants that are literals are read as those literals (of the module, an impl or a body).
fn fold_consts(ix: &mut Index) {
    struct C {
        map: HashMap<String, Expr>,
    }
    impl VisitMut for C {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let save = self.map.clone();
            for s in &b.stmts {
                if let Stmt::Item(Item::Const(c)) = s {
                    if literal(&c.expr) {
                        self.map.insert(c.ident.to_string(), (*c.expr).clone());
                    } else {
                        self.map.remove(&c.ident.to_string());
                    }
                }
            }
            b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Const(c)) if literal(&c.expr)));
            visit_mut::visit_block_mut(self, b);
            self.map = save;
        }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            f.colon_token.get_or_insert_with(Default::default);
            visit_mut::visit_field_value_mut(self, f);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let q = p.path.segments.len();
                let via = q == 1 || (q == 2 && ["Self", "self", "super", "crate"].contains(&p.path.segments[0].ident.to_string().as_str()));
                if via {
                    if let Some(x) = self.map.get(&n) {
                        *e = x.clone();
                        return;
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Ident(i) = p {
                if let Some(Expr::Lit(l)) = self.map.get(&i.ident.to_string()).filter(|_| i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none()) {
                    *p = Pat::Lit(l.clone());
                    return;
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            pre::subst_macro(m, &self.map);
        }
    }
    let mut map: HashMap<String, Expr> = HashMap::new();
    let mut twice: HashSet<String> = HashSet::new();
    for (_, c) in &ix.consts {
        let n = c.ident.to_string();
        match map.get(&n) {
            Some(o) if o.to_token_stream().to_string() != c.expr.to_token_stream().to_string() => {
                twice.insert(n);
            }
            _ if literal(&c.expr) => {
                map.insert(n, (*c.expr).clone());
            }
            _ => {
                twice.insert(n);
            }
        }
    }
    map.retain(|n, _| !twice.contains(n));
    let mut v = C { map };
    for d in ix.fns.iter_mut() {
        v.visit_block_mut(&mut d.block);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--templates" {
        // list the quote! templates of a file (development aid)
        let f = parse_file(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        struct V;
        impl<'a> Visit<'a> for V {
            fn visit_macro(&mut self, m: &'a Macro) {
                if m.path.is_ident("quote") {
                    println!("{}", template::template_text(m.tokens.clone()).0);
                }
            }
        }
        V.visit_file(&f);
        return;
    }
    let repo = PathBuf::from(&args[1]);
    let mut trust: Vec<String> = vec![];
    let mut vacuity = false;
    for a in &args[5.min(args.len())..] {
        if let Some(t) = a.strip_prefix("--trust=") {
            trust = t.split(',').map(|s| s.to_string()).collect();
        } else if a == "--vacuity" {
            vacuity = true;
        }
    }
    let mut degraded: Vec<(String, String)> = vec![];
    let mut ov = Overlay::default();
    overlay::load(&PathBuf::from(&args[2]), &mut ov);
    for it in ov.items.iter_mut() {
        if let OItem::Fn(f) = it {
            if vacuity {
                f.entry.push_str("\nproof { assert(false); }\n");
                for l in f.loops.values_mut() {
                    l.start.push_str("\nproof { assert(false); }\n");
                }
            }
            if trust.contains(&f.vname()) {
                f.trusted = true;
                degraded.push((f.vname(), "body outside the verifier's subset".into()));
            }
        }
    }
    let mut errors: Vec<String> = vec![];
    let wasm = ov.flag("wasm");
    let mut ix = Index::default();
    for s in &ov.sources {
        let p = repo.join(s);
        match std::fs::read_to_string(&p) {
            Ok(t) => match parse_file(&t) {
                Ok(mut f) => {
                    cell_flags(&mut f);
                    index_items(&f.items, s, wasm, &mut ix)
                }
                Err(e) => errors.push(format!("cannot parse {s}: {e}")),
            },
            Err(e) => errors.push(format!("lost anchor: {s}: {e}")),
        }
    }

    fold_consts(&mut ix);
    // nested functions, local closures, lazy stages
    let mut k = 0;
    while k < ix.fns.len() {
        let nested = pre::take_nested(&mut ix.fns[k].block);
        for f in nested {
            let src = ix.fns[k].source.clone();
            ix.fns.push(FnDef { self_ty: None, trait_: None, generics: Generics::default(), sig: f.sig, block: *f.block, source: src, is_default: false, self_args: None });
        }
        k += 1;
    }
    xform::KEEP_WORDS.with(|k| k.set(ov.flag("keepwords")));
    if ov.flag("nom") {
        let all = ix.fns.clone();
        let insts: Vec<String> = ov
            .items
            .iter()
            .filter_map(|i| if let OItem::Fn(f) = i { f.path.rsplit("::").next().filter(|n| n.contains("__")).map(|n| n.to_string()) } else { None })
            .collect();
        let mut made = vec![];
        for d in ix.fns.iter_mut() {
            made.extend(nom::run(d, &all, &insts));
        }
        ix.fns.extend(made);
    }
    for d in ix.fns.iter_mut() {
        pre::run(&mut d.block, ov.flag("loopify"));
    }

    let mut cx = Cx { wasm, templates: ov.flag("templates"), ..Default::default() };
    cx.heaps = vec![("vh".into(), "VHeap".into())];
    for (h, t, ms) in &ov.heaps {
        cx.heaps.push((h.clone(), t.clone()));
        for m in ms {
            let (m, l) = match m.strip_suffix(":r") { Some(m) => (m, 1), None => (m.as_str(), 2) };
            cx.cells.insert(m.to_string(), (h.clone(), l));
        }
    }
    for (h, t, ms) in &ov.heap_fns {
        cx.heaps.push((h.clone(), t.clone()));
        for m in ms {
            cx.heap_fns.insert(m.clone(), h.clone());
        }
    }
    cx.shared = ov.shared.iter().cloned().collect();
    cx.flags = ov.flags.iter().cloned().collect();
    for (a, b) in &ov.subst_types {
        cx.subst_types.insert(a.clone(), b.clone());
    }
    for (a, b) in &ov.subst_calls {
        if let Some(t) = a.strip_prefix("template:") {
            cx.template_ids.insert(t.to_string(), b.clone());
        } else {
            cx.subst_calls.insert(a.clone(), b.clone());
        }
    }
    for (a, b) in &ov.subst_bounds {
        cx.subst_bounds.insert(a.clone(), b.clone());
    }
    for (a, b) in &ov.wrap_methods {
        cx.wrap_methods.insert(a.clone(), b.clone());
    }
    // templates file next to the overlay
    for it in &ov.items {
        if let OItem::Raw(t, _) = it {
            for l in t.lines() {
                if let Some(r) = l.trim().strip_prefix("//TEMPLATE ") {
                    if let Some((k, t)) = r.split_once(' ') {
                        cx.template_ids.insert(t.trim().to_string(), k.to_string());
                    }
                }
            }
        }
    }

    // struct fields
    for (_, s) in &ix.structs {
        for f in &s.fields {
            if let Some(i) = &f.ident {
                cx.fields.insert(i.to_string(), kind_of_type(&f.ty));
            }
        }
    }
    // function kinds by name
    let contracted: Vec<FnOv> =
        ov.items.iter().filter_map(|i| if let OItem::Fn(f) = i { Some(f.clone()) } else { None }).collect();
    for d in &ix.fns {
        if let ReturnType::Type(_, t) = &d.sig.output {
            let n = d.sig.ident.to_string();
            if contracted.iter().any(|c| c.path.rsplit("::").next() == Some(n.as_str())) || d.trait_.is_none() {
                cx.fns.entry(n).or_insert(kind_of_type(t));
            }
        }
    }

    // fields dropped from a type (ghost of a debugging aid): also dropped from its literals
    let mut dropped: HashMap<String, Vec<String>> = HashMap::new();
    for it in &ov.items {
        if let OItem::Type { name, opts, .. } = it {
            for o in opts {
                if let Some(l) = o.strip_prefix("drop=") {
                    dropped.entry(name.clone()).or_default().extend(l.split(',').map(|x| x.to_string()));
                }
            }
        }
    }
    if !dropped.is_empty() {
        for d in ix.fns.iter_mut() {
            DropFields { d: &dropped, self_ty: d.self_ty.clone() }.visit_block_mut(&mut d.block);
        }
    }

    // locate contract functions and inline uncontracted helpers
    let mut defs: BTreeMap<usize, FnDef> = BTreeMap::new();
    let mut inlined: Vec<String> = vec![];
    let mut inline_failed: HashSet<usize> = HashSet::new();
    for (i, f) in contracted.iter().enumerate() {
        match ix.find(f) {
            Some(d) => {
                let mut d = d.clone();
                let mut il = inline::Inliner {
                    ix: &ix,
                    contracted: &contracted,
                    self_ty: d.self_ty.clone(),
                    depth: 0,
                    done: vec![],
                    errors: vec![],
                    n: 0,
                };
                if ov.flag("collectloop") {
                    nom::collect_loops(&mut d.block);
                }
                il.tail(&mut d.block);
                il.visit_block_mut(&mut d.block);
                if ov.flag("collectloop") {
                    nom::collect_loops(&mut d.block);
                }
                if ov.flag("nom") {
                    nom::number(&mut d.block);
                }
                inlined.extend(il.done.iter().map(|s| format!("{} into {}", s, f.path)));
                if !il.errors.is_empty() {
                    degraded.push((f.vname(), il.errors.join("; ")));
                    inline_failed.insert(i);
                }
                defs.insert(i, d);
            }
            // an instance of a generic parser that is not made: it is inlined where it is used
            None if ov.flag("nom") && f.path.contains("__") => {}
            None => degraded.push((f.vname(), "lost anchor: no such function".into())),
        }
    }

    // heap effects fixpoint
    if !ov.flag("noheap") {
        let mut eff: HashMap<usize, (BTreeMap<String, u8>, Vec<String>)> = HashMap::new();
        for (i, d) in &defs {
            let mut e = Effects { calls: vec![], prim: BTreeMap::new(), self_ty: d.self_ty.as_deref(), cells: &cx.cells, heap_fns: &cx.heap_fns };
            if !contracted[*i].trusted {
                e.visit_block(&d.block);
            }
            // a contract that speaks about the state is checked with it in any case
            let spec = contracted[*i].spec.clone();
            if spec.contains("old(") || spec.contains("final(") {
                for (h, _) in &cx.heaps {
                    if spec.contains(&format!("old({h})")) || spec.contains(&format!("final({h})")) {
                        e.eff(h, 2);
                    }
                }
            }
            if contracted[*i].trusted {
                for (h, _) in &cx.heaps {
                    if spec.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == h) {
                        e.eff(h, 1);
                    }
                }
            }
            eff.insert(*i, (e.prim, e.calls));
        }
        let mut heap: HashMap<String, BTreeMap<String, u8>> = HashMap::new();
        for (m, h) in &cx.heap_fns {
            heap.entry(m.clone()).or_default().insert(h.clone(), 2);
        }
        loop {
            let mut changed = false;
            for (i, d) in &defs {
                let (p, calls) = &eff[i];
                let mut l = p.clone();
                for c in calls {
                    if let Some(o) = heap.get(c) {
                        for (h, v) in o {
                            let e = l.entry(h.clone()).or_insert(0);
                            *e = (*e).max(*v);
                        }
                    }
                }
                if l.is_empty() {
                    continue;
                }
                let n = d.sig.ident.to_string();
                let has_self = matches!(d.sig.inputs.first(), Some(FnArg::Receiver(_)));
                let mut keys = vec![];
                if has_self {
                    keys.push(n.clone());
                }
                let ty = contracted[*i].of.clone().or(d.self_ty.clone());
                match ty {
                    Some(t) => keys.push(format!("{t}::{n}")),
                    None => keys.push(n.clone()),
                }
                for k in keys {
                    let e = heap.entry(k).or_default();
                    for (h, v) in &l {
                        let x = e.entry(h.clone()).or_insert(0);
                        if *x < *v {
                            *x = *v;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        cx.heap = heap;
    }

    // emit
    let mut body = String::new();
    let mut info_fns = vec![];
    let mut linemap: Vec<(usize, String)> = vec![];
    let mut fi = 0usize;
    for it in &ov.items {
        match it {
            OItem::Raw(t, _) => {
                body.push_str(t);
                body.push('\n');
            }
            OItem::Generated { .. } => {}
            OItem::Type { name, opts, source } => {
                match emit_type(&ix, source, name, opts, &cx) {
                    Some(s) => body.push_str(&s),
                    None => errors.push(format!("lost anchor: type {name}")),
                }
            }
            OItem::Fn(f) => {
                let i = fi;
                fi += 1;
                let Some(d) = defs.get(&i) else { continue };
                let start = body.lines().count() + 1;
                let mut f = f.clone();
                if inline_failed.contains(&i) {
                    f.trusted = true;
                }
                let mut res = emit_fn(&f, d, &cx, f.bc.as_ref().unwrap_or(&ov.broadcast));
                if let Err(e) = &res {
                    degraded.push((f.vname(), e.join("; ")));
                    f.trusted = true;
                    res = emit_fn(&f, d, &cx, f.bc.as_ref().unwrap_or(&ov.broadcast));
                }
                match res {
                    Ok((s, loops)) => {
                        linemap.push((start, f.path.clone()));
                        body.push_str(&s);
                        info_fns.push(json!({
                            "name": f.vname(), "source": d.source, "trusted": f.trusted, "loops": loops,
                            "line": start,
                            "lines": s.lines().count(),
                            "props": f.props,
                        }));
                    }
                    Err(e) => errors.extend(e.into_iter().map(|x| format!("{}: {}", f.path, x))),
                }
            }
        }
    }
    std::fs::write(&args[3], &body).unwrap();
    let j = json!({ "errors": errors, "functions": info_fns, "inlined": inlined, "degraded": degraded, "features": ov.features });
    std::fs::write(&args[4], serde_json::to_string_pretty(&j).unwrap()).unwrap();
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("extract: {e}");
        }
        std::process::exit(3);
    }
}

fn emit_type(ix: &Index, source: &str, name: &str, opts: &[String], cx: &Cx) -> Option<String> {
    let drop_fields: HashSet<String> =
        opts.iter().filter_map(|o| o.strip_prefix("drop=")).flat_map(|s| s.split(',').map(|x| x.to_string())).collect();
    let attrs: Vec<String> = opts.iter().filter_map(|o| o.strip_prefix("attr=")).map(|s| s.to_string()).collect();
    let mut head: String = attrs.iter().map(|a| format!("#[{a}]\n")).collect();
    let ss: Vec<_> = ix.structs.iter().filter(|(_, s)| s.ident == name).collect();
    let copy = |at: &[Attribute]| at.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().contains("Copy"));
    if let Some((_, s)) = ss.iter().find(|(p, _)| p == source).or(ss.first()) {
        let mut s = s.clone();
        if copy(&s.attrs) {
            head.push_str("#[derive(Clone, Copy)]\n");
        }
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        let wasm = cx.wasm;
        let filt = |f: &Field| {
            cfg_ok(&f.attrs, wasm) && !f.ident.as_ref().map(|i| drop_fields.contains(&i.to_string())).unwrap_or(false)
        };
        match &mut s.fields {
            Fields::Named(n) => {
                n.named = n.named.iter().filter(|f| filt(f)).cloned().collect();
            }
            _ => {}
        }
        for f in s.fields.iter_mut() {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
        }
        TyRw(cx).visit_item_struct_mut(&mut s);
        let f: File = parse_quote!(#s);
        head.push_str(&prettyplease::unparse(&f));
        return Some(head);
    }
    let es: Vec<_> = ix.enums.iter().filter(|(_, s)| s.ident == name).collect();
    if let Some((_, s)) = es.iter().find(|(p, _)| p == source).or(es.first()) {
        let mut s = s.clone();
        if copy(&s.attrs) {
            head.push_str("#[derive(Clone, Copy)]\n");
        }
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        for v in s.variants.iter_mut() {
            v.attrs.clear();
            for f in v.fields.iter_mut() {
                f.attrs.clear();
            }
        }
        TyRw(cx).visit_item_enum_mut(&mut s);
        let f: File = parse_quote!(#s);
        head.push_str(&prettyplease::unparse(&f));
        return Some(head);
    }
    None
}

fn rename_self(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(proc_macro2::Ident::new("vself", i.span())),
            proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename_self(g.stream()))),
            t => t,
        })
        .collect()
}

/// Argument-position `impl Trait` as a named type parameter `A0`, `A1`, ...
struct NameImpl(Vec<GenericParam>);
impl VisitMut for NameImpl {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(i) = t {
            let n = id(&format!("A{}", self.0.len()));
            let b = &i.bounds;
            self.0.push(parse_quote!(#n: #b));
            *t = parse_quote!(#n);
            return;
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

fn emit_fn(f: &FnOv, d: &FnDef, cx: &Cx, bc: &[String]) -> std::result::Result<(String, usize), Vec<String>> {
    let mut named = d.clone();
    if cx.flags.contains("implgen") {
        let mut ni = NameImpl(vec![]);
        for p in named.sig.inputs.iter_mut() {
            ni.visit_fn_arg_mut(p);
        }
        named.sig.generics.params.extend(ni.0);
    }
    let d = &named;
    let mut rw = BodyRw::new(cx, f);
    rw.bc = bc.to_vec();
    rw.self_ty = f.of.clone().or(d.self_ty.clone());
    let mut block = d.block.clone();
    {
        let mut said = format!("{} {} {}", f.spec, f.entry, f.abort);
        for l in f.loops.values() {
            said.push_str(&format!(" {} {} {} {} {}", l.inv, l.start, l.end, l.before, l.after));
        }
        for t in f.closures.values().chain(f.after.iter().map(|x| &x.2)).chain(f.before.iter().map(|x| &x.2)) {
            said.push(' ');
            said.push_str(t);
        }
        let called = |n: &str| said.match_indices(&format!("{n}(")).any(|(i, _)| !said[..i].ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '.'));
        let map: HashMap<String, String> = pre::bound_names(&block).into_iter().filter(|n| called(n)).map(|n| (n.clone(), format!("{n}_vl"))).collect();
        if !map.is_empty() {
            pre::RenameLocals(map).visit_block_mut(&mut block);
        }
    }
    // parameters
    let mut params: Vec<String> = vec![];
    let mut entry_lets: Vec<Stmt> = vec![];
    for (pi, p) in d.sig.inputs.iter().enumerate() {
        match p {
            FnArg::Receiver(r) => {
                let mut r2 = r.clone();
                r2.attrs.clear();
                let ty = f.of.clone().or(d.self_ty.clone()).unwrap_or_default();
                if r2.reference.is_some() && r2.mutability.is_some() && cx.shared.contains(&ty) {
                    r2.mutability = None;
                    params.push(if let Some((_, Some(l))) = &r2.reference { format!("&{l} self") } else { "&self".into() });
                } else {
                    params.push(if let Some((_, lt)) = &r2.reference {
                        format!(
                            "&{} {}self",
                            lt.as_ref().map(|l| l.to_string()).unwrap_or_default(),
                            if r2.mutability.is_some() { "mut " } else { "" }
                        )
                    } else if r2.mutability.is_some() {
                        // `mut self`: a local copy under another name
                        block = parse2(rename_self(block.to_token_stream())).expect("self rename");
                        entry_lets.push(parse_quote!(let mut vself = self;));
                        "self".into()
                    } else {
                        "self".into()
                    });
                }
            }
            FnArg::Typed(t) => {
                let k = kind_of_type(&t.ty);
                let mut ty = (*t.ty).clone();
                TyRw(cx).visit_type_mut(&mut ty);
                match &*t.pat {
                    Pat::Ident(i) => {
                        rw.env.insert(i.ident.to_string(), k);
                        params.push(format!("{}: {}", i.to_token_stream(), ty.to_token_stream()));
                    }
                    p => {
                        let n = id(&format!("varg{pi}"));
                        params.push(format!("{}: {}", n, ty.to_token_stream()));
                        entry_lets.push(parse_quote!(let #p = #n;));
                    }
                }
            }
        }
    }
    let n = d.sig.ident.to_string();
    let ty = f.of.clone().or(d.self_ty.clone());
    let hk = match &ty {
        Some(t) => format!("{t}::{n}"),
        None => n.clone(),
    };
    let has_self = matches!(d.sig.inputs.first(), Some(FnArg::Receiver(_)));
    let hk = if cx.heap.contains_key(&hk) || !has_self || d.trait_.is_none() { hk } else { n.clone() };
    let guard = matches!(&d.sig.output, ReturnType::Type(_, t) if t.to_token_stream().to_string().contains("DerefMut"));
    if let Some(hs) = cx.heap.get(&hk) {
        for (h, ty) in &cx.heaps {
            if let Some(l) = hs.get(h) {
                params.push(format!("{h}: &{}{}{ty}", if guard { "'vh " } else { "" }, if *l == 2 { "mut " } else { "" }));
            }
        }
    }
    rw.visit_block_mut(&mut block);
    let mut stmts = entry_lets;
    stmts.extend(block.stmts);
    block.stmts = stmts;
    for k in f.loops.keys() {
        if !rw.used_loops.contains(k) {
            rw.errors.push(format!("lost anchor: loop {k}"));
        }
    }
    // a loop the overlay does not know: its invariant is missing, the numbers of the others may have moved
    for k in 1..=rw.loops {
        if !f.loops.contains_key(&k) && !f.trusted {
            rw.errors.push(format!("loop {k} without an invariant"));
        }
    }
    for (cn, k, _) in f.after.iter().chain(f.before.iter()) {
        if rw.calls.get(cn).copied().unwrap_or(0) < *k {
            rw.errors.push(format!("lost anchor: call {cn} #{k}"));
        }
    }
    for k in f.closures.keys() {
        if *k > rw.closures {
            rw.errors.push(format!("lost anchor: closure {k}"));
        }
    }
    if !rw.errors.is_empty() && !f.trusted {
        return Err(rw.errors);
    }
    let file: File = parse_quote!(fn vbody() #block);
    let mut text = prettyplease::unparse(&file);
    text = text.trim_start_matches("fn vbody()").trim().to_string();
    // splice marks
    for (k, v) in &rw.marks {
        let pat = format!("{k}!();");
        let Some(pos) = text.find(&pat) else { continue };
        if let Some(inv) = v.strip_prefix("LOOP ") {
            // `{ <ws> vmark!();` -> ` INV {`
            let open = text[..pos].rfind('{').unwrap();
            let before = text[..open].to_string();
            let after = text[pos + pat.len()..].to_string();
            text = format!("{before}\n{inv}\n{{{after}");
        } else if let Some(spec) = v.strip_prefix("CLOSURE ") {
            let open = text[..pos].rfind('{').unwrap();
            let before = text[..open].to_string();
            let after = text[pos + pat.len()..].to_string();
            text = format!("{before} {spec} {{{after}");
        } else {
            text = text.replacen(&pat, v, 1);
        }
    }
    let mut bcs: String = bc.iter().map(|b| format!("broadcast use {b};\n")).collect();
    if cx.flags.contains("nom") {
        bcs.push_str(&xform::reveals(&block, usize::MAX));
    } else {
        bcs.push_str(&xform::reveals(&block, 1));
    }
    let entry = format!("{}{}", bcs, f.entry);
    if let Some(rest) = text.strip_prefix('{') {
        text = format!("{{\n{entry}\n{rest}");
    }
    let (mut fg, fw) = rewrite_generics(&d.sig.generics, cx);
    if guard {
        fg = if fg.is_empty() { "<'vh>".into() } else { fg.replacen('<', "<'vh, ", 1) };
    }
    // type parameters of the impl that the type itself does not mention become parameters of the function
    let mut dg = d.generics.clone();
    if let Some(a) = &d.self_args {
        let txt = a.to_token_stream().to_string();
        let words: HashSet<&str> = txt.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
        let mut moved = vec![];
        dg.params = dg.params.iter().filter(|p| match p {
            GenericParam::Type(t) if !words.contains(t.ident.to_string().as_str()) => { moved.push((*p).clone()); false }
            _ => true,
        }).cloned().collect();
        if !moved.is_empty() && f.of.is_none() {
            let mut g = d.sig.generics.clone();
            g.params.extend(moved);
            fg = rewrite_generics(&g, cx).0;
        }
    }
    let (ig, iw) = rewrite_generics(&dg, cx);
    let ret = match &d.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            let mut t = (**t).clone();
            TyRw(cx).visit_type_mut(&mut t);
            format!(" -> ({}: {})", f.ret, t.to_token_stream())
        }
    };
    let mut s = String::new();
    // facts about unchanged variables stay available inside loops
    let mut f = f.clone();
    if rw.loops > 0 && !cx.flags.contains("isolated") && !f.attrs.iter().any(|a| a.starts_with("loop_isolation")) {
        f.attrs.push("loop_isolation(false)".into());
        f.attrs.push("allow_complex_invariants".into());
    }
    let attrs: String = f.attrs.iter().map(|a| format!("#[verifier::{a}]\n")).collect();
    let trusted = if f.trusted { "#[verifier::external_body]\n" } else { "" };
    let body = if f.trusted { "{ unimplemented!() }".to_string() } else { text };
    let out_name = f.rename.clone().unwrap_or(n.clone());
    let vis = if f.header.contains(" for ") { "" } else { "pub " };
    let fntext = format!(
        "{attrs}{trusted}{vis}fn {out_name}{fg}({}){ret} {fw}\n{}\n{body}\n",
        params.join(", "),
        f.spec
    );
    match &ty {
        Some(_) if !f.header.is_empty() => s.push_str(&format!("{} {{\n{fntext}}}\n\n", f.header.trim())),
        Some(t) if !f.free => {
            // generics of the type: reuse the impl's generics
            let targs: Vec<String> = d
                .generics
                .params
                .iter()
                .map(|p| match p {
                    GenericParam::Type(t) => t.ident.to_string(),
                    GenericParam::Lifetime(l) => l.lifetime.to_string(),
                    GenericParam::Const(c) => c.ident.to_string(),
                })
                .collect();
            let ta = match &d.self_args {
                Some(a) if f.of.is_none() => {
                    let mut t: Type = { let i = id(t); parse_quote!(#i #a) };
                    if let Type::Path(p) = &mut t {
                        if let PathArguments::AngleBracketed(a) = &mut p.path.segments[0].arguments {
                            for g in a.args.iter_mut() {
                                if let GenericArgument::Type(x) = g {
                                    TyRw(cx).visit_type_mut(x);
                                }
                            }
                        }
                        p.path.segments[0].arguments.to_token_stream().to_string()
                    } else {
                        String::new()
                    }
                }
                _ if targs.is_empty() || f.of.is_some() => String::new(),
                _ => format!("<{}>", targs.join(",")),
            };
            let ig = if f.of.is_some() { String::new() } else { ig };
            s.push_str(&format!("impl{ig} {t}{ta} {iw} {{\n{fntext}}}\n\n"));
        }
        _ => s.push_str(&fntext),
    }
    let _ = quote!();
    Ok((s, rw.loops))
}
