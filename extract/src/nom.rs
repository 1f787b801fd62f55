//! Functions written with the nom combinator library (`@flag nom`) are read as the code they run:
//! an application of a parser expression to an input is replaced by the documented behaviour of its
//! combinators (nom 7, complete input), closures and parser-valued locals by their bodies, and
//! functions that build parsers by what they build. Primitive parsers (`tag`, `is_not`, ...) become
//! calls of `n_*` functions, whose contracts are assumed; parsers that are functions of the
//! repository stay calls. Error payloads (trees of messages) are dropped.
use crate::FnDef;
use quote::ToTokens;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn id(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

#[derive(Clone)]
struct PVal {
    e: Expr,
    env: Env,
}
type Env = Rc<HashMap<String, PVal>>;
type R<T> = std::result::Result<T, String>;

const COMB: &[&str] = &[
    "map", "opt", "not", "peek", "recognize", "cut", "context", "all_consuming", "value", "verify", "alt", "many0", "many1", "separated_list0",
    "separated_list1", "pair", "separated_pair", "preceded", "terminated", "delimited", "tuple", "tag", "is_not", "is_a", "none_of", "one_of",
    "char", "take_while", "take_while1",
];
const NULLARY: &[&str] = &["alpha1", "alphanumeric1", "digit1", "anychar", "fail", "multispace0", "multispace1", "eof"];

thread_local! { static UID: Cell<usize> = Cell::new(0); }
fn uid() -> usize {
    UID.with(|u| {
        u.set(u.get() + 1);
        u.get()
    })
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => strip(x),
            _ => e,
        },
        e => e,
    }
}

fn has_escape(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}

fn ret_txt(d: &FnDef) -> String {
    d.sig.output.to_token_stream().to_string().replace(' ', "")
}
fn is_builder(d: &FnDef) -> bool {
    let r = ret_txt(d);
    r.contains("implFnMut") || r.contains("implFn(") || r.contains("implParser") || r.contains("implnom::Parser")
}
fn is_parser_fn(d: &FnDef) -> bool {
    ret_txt(d).contains("IResult<")
}
/// A parser function with parameters that are parsers themselves.
fn is_generic(d: &FnDef) -> bool {
    d.sig.generics.params.iter().any(|p| matches!(p, GenericParam::Type(_)))
        || d.sig.inputs.iter().any(|a| a.to_token_stream().to_string().contains("impl "))
}

fn pat_name(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_name(&t.pat),
        _ => None,
    }
}
fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    visit::Visit::visit_pat(&mut v, p);
    v.0
}

pub struct Nom<'a> {
    fns: &'a [FnDef],
    self_ty: Option<String>,
    depth: usize,
    /// name of the function being rewritten
    caller: String,
    /// instances of generic parsers (`generic__caller`) that have contracts of their own
    insts: &'a [String],
    made: Vec<FnDef>,
}

impl<'a> Nom<'a> {
    fn find(&self, p: &Path) -> Option<&'a FnDef> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last()?;
        let ty = if segs.len() >= 2 {
            let t = segs[segs.len() - 2].clone();
            if t == "Self" {
                self.self_ty.clone()
            } else if t.starts_with(|c: char| c.is_uppercase()) {
                Some(t)
            } else {
                return None;
            }
        } else {
            None
        };
        self.fns.iter().find(|d| d.sig.ident == name.as_str() && d.self_ty == ty && d.trait_.is_none())
    }

    fn comb(&self, f: &Expr) -> Option<String> {
        let Expr::Path(p) = strip(f) else { return None };
        if self.find(&p.path).is_some() {
            return None;
        }
        let n = p.path.segments.last()?.ident.to_string();
        let lower_prefix = p.path.segments.iter().all(|s| s.ident.to_string().starts_with(|c: char| c.is_lowercase()));
        (lower_prefix && COMB.contains(&n.as_str())).then_some(n)
    }

    fn is_parser(&self, e: &Expr, env: &Env) -> bool {
        match strip(e) {
            Expr::Closure(c) => c.inputs.len() == 1,
            Expr::Call(c) => {
                if self.comb(&c.func).is_some() {
                    return true;
                }
                matches!(strip(&c.func), Expr::Path(p) if self.find(&p.path).map(is_builder).unwrap_or(false))
            }
            Expr::Path(p) => {
                if let Some(v) = p.path.get_ident().and_then(|i| env.get(&i.to_string())) {
                    return self.is_parser(&v.e, &v.env);
                }
                match self.find(&p.path) {
                    Some(d) => is_parser_fn(d),
                    None => NULLARY.contains(&p.path.segments.last().unwrap().ident.to_string().as_str()),
                }
            }
            Expr::MethodCall(m) => ["map", "or", "and"].contains(&m.method.to_string().as_str()) && self.is_parser(&m.receiver, env),
            Expr::Tuple(t) => t.elems.iter().any(|x| self.is_parser(x, env)),
            _ => false,
        }
    }

    /// `match P(input) { Ok((r, o)) => k, Err(e) => Err(e) }`
    fn bind(&mut self, p: &Expr, env: &Env, input: &Ident, k: impl FnOnce(&mut Self, &Ident, &Ident) -> R<Expr>) -> R<Expr> {
        let a = self.apply(p, env, input)?;
        let u = uid();
        let (r, o, e) = (id(&format!("nr_{u}")), id(&format!("no_{u}")), id(&format!("ne_{u}")));
        let k = k(self, &r, &o)?;
        Ok(parse_quote!(match #a { Ok((#r, #o)) => #k, Err(#e) => Err(#e) }))
    }

    /// Several parsers one after the other; `k` gets the rest and the outputs.
    fn chain(&mut self, ps: &[Expr], env: &Env, input: &Ident, outs: Vec<Ident>, k: &dyn Fn(&Ident, &[Ident]) -> Expr) -> R<Expr> {
        if ps.is_empty() {
            return Ok(k(input, &outs));
        }
        let rest = ps[1..].to_vec();
        self.bind(&ps[0], env, input, |s, r, o| {
            let mut outs = outs;
            outs.push(o.clone());
            s.chain(&rest, env, r, outs, k)
        })
    }

    /// A function argument applied to a variable.
    fn fapply(&mut self, f: &Expr, env: &Env, v: &Ident, by_ref: bool) -> R<Expr> {
        let arg: Expr = if by_ref { parse_quote!(&#v) } else { parse_quote!(#v) };
        match strip(f) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                if has_escape(&c.body) {
                    return Err("`return` or `?` in a closure".into());
                }
                let mut env2 = (**env).clone();
                for n in pat_names(&c.inputs[0]) {
                    env2.remove(&n);
                }
                let body = self.rewrite((*c.body).clone(), &Rc::new(env2))?;
                let p = &c.inputs[0];
                Ok(parse_quote!({ let #p = #arg; #body }))
            }
            Expr::Path(p) => {
                if let Some(x) = p.path.get_ident().and_then(|i| env.get(&i.to_string())).cloned() {
                    return self.fapply(&x.e, &x.env, v, by_ref);
                }
                Ok(parse_quote!(#p(#arg)))
            }
            f => Err(format!("function argument {}", f.to_token_stream())),
        }
    }

    fn tuple(&self, e: &Expr, env: &Env) -> R<(Vec<Expr>, Env)> {
        match strip(e) {
            Expr::Tuple(t) => Ok((t.elems.iter().cloned().collect(), env.clone())),
            Expr::Path(p) => match p.path.get_ident().and_then(|i| env.get(&i.to_string())) {
                Some(v) => self.tuple(&v.e, &v.env),
                None => Err("alternatives that are not a tuple".into()),
            },
            _ => Err("alternatives that are not a tuple".into()),
        }
    }

    fn many(&mut self, p: &Expr, env: &Env, input: &Ident, one: bool) -> R<Expr> {
        let u = uid();
        let (b, i, a, f) = (id(&format!("nomb_{u}")), id(&format!("nomi_{u}")), id(&format!("noma_{u}")), id(&format!("nomf_{u}")));
        let (r, o, e) = (id(&format!("nr_{u}")), id(&format!("no_{u}")), id(&format!("ne_{u}")));
        let x = self.apply(p, env, &i)?;
        let body = |end: Expr| -> Expr {
            parse_quote!(loop {
                nomloop!(#b, #i, #f);
                match #x {
                    Err(NErr::Error(_)) => { #end }
                    Err(#e) => { #f = Some(#e); break; }
                    Ok((#r, #o)) => {
                        if n_same(#r, #i) { #f = Some(NErr::Error(verr())); break; }
                        #a.push(#o);
                        #i = #r;
                    }
                }
            })
        };
        if one {
            let first = self.apply(p, env, input)?;
            let l = body(parse_quote!({ break; }));
            let (r2, o2) = (id(&format!("nr_{u}f")), id(&format!("no_{u}f")));
            return Ok(parse_quote!(match #first {
                Err(#e) => Err(#e),
                Ok((#r2, #o2)) => {
                    let #b = #r2;
                    let mut #i = #b;
                    let mut #a = Vec::new();
                    #a.push(#o2);
                    let mut #f: Option<NErr> = None;
                    #l
                    match #f { None => Ok((#i, #a)), Some(#e) => Err(#e) }
                }
            }));
        }
        let l = body(parse_quote!({ break; }));
        Ok(parse_quote!({
            let #b = #input;
            let mut #i = #b;
            let mut #a = Vec::new();
            let mut #f: Option<NErr> = None;
            #l
            match #f { None => Ok((#i, #a)), Some(#e) => Err(#e) }
        }))
    }

    fn separated(&mut self, sep: &Expr, p: &Expr, env: &Env, input: &Ident, one: bool) -> R<Expr> {
        let u = uid();
        let (b, i, a, f) = (id(&format!("nomb_{u}")), id(&format!("nomi_{u}")), id(&format!("noma_{u}")), id(&format!("nomf_{u}")));
        let (r, o, e, s) = (id(&format!("nr_{u}")), id(&format!("no_{u}")), id(&format!("ne_{u}")), id(&format!("ns_{u}")));
        let first = self.apply(p, env, input)?;
        let sx = self.apply(sep, env, &i)?;
        let px = self.apply(p, env, &s)?;
        let none: Expr = if one { parse_quote!(Err(NErr::Error(#e))) } else { parse_quote!(Ok((#input, Vec::new()))) };
        Ok(parse_quote!(match #first {
            Err(NErr::Error(#e)) => #none,
            Err(#e) => Err(#e),
            Ok((#r, #o)) => {
                let #b = #r;
                let mut #i = #b;
                let mut #a = Vec::new();
                #a.push(#o);
                let mut #f: Option<NErr> = None;
                loop {
                    nomloop!(#b, #i, #f);
                    match #sx {
                        Err(NErr::Error(_)) => { break; }
                        Err(#e) => { #f = Some(#e); break; }
                        Ok((#s, _)) => {
                            if n_same(#s, #i) { #f = Some(NErr::Error(verr())); break; }
                            match #px {
                                Err(NErr::Error(_)) => { break; }
                                Err(#e) => { #f = Some(#e); break; }
                                Ok((#r, #o)) => { #a.push(#o); #i = #r; }
                            }
                        }
                    }
                }
                match #f { None => Ok((#i, #a)), Some(#e) => Err(#e) }
            }
        }))
    }

    /// The result of running the parser `p` on the variable `input`.
    fn apply(&mut self, p: &Expr, env: &Env, input: &Ident) -> R<Expr> {
        self.depth += 1;
        if self.depth > 200 {
            return Err("parser expression too deep".into());
        }
        let r = self.apply_(p, env, input);
        self.depth -= 1;
        r
    }

    fn apply_(&mut self, p: &Expr, env: &Env, input: &Ident) -> R<Expr> {
        match strip(p) {
            Expr::Path(x) => {
                if let Some(v) = x.path.get_ident().and_then(|i| env.get(&i.to_string())).cloned() {
                    return self.apply(&v.e, &v.env, input);
                }
                if self.find(&x.path).is_none() {
                    let n = x.path.segments.last().unwrap().ident.to_string();
                    if NULLARY.contains(&n.as_str()) {
                        let f = id(&format!("n_{n}"));
                        return Ok(parse_quote!(#f(#input)));
                    }
                }
                Ok(parse_quote!(#x(#input)))
            }
            Expr::Closure(_) => self.fapply(p, env, input, false),
            Expr::Call(c) => {
                let a: Vec<Expr> = c.args.iter().cloned().collect();
                if let Some(n) = self.comb(&c.func) {
                    return self.combinator(&n, &a, env, input);
                }
                if let Expr::Path(f) = strip(&c.func) {
                    if let Some(d) = self.find(&f.path) {
                        if is_builder(d) {
                            return self.build(d, &a, env, input);
                        }
                    }
                }
                Err(format!("parser expression {}", c.func.to_token_stream()))
            }
            Expr::MethodCall(m) => {
                let a: Vec<Expr> = m.args.iter().cloned().collect();
                let r = (*m.receiver).clone();
                match (m.method.to_string().as_str(), a.len()) {
                    ("map", 1) => self.combinator("map", &[r, a[0].clone()], env, input),
                    ("and", 1) => self.combinator("pair", &[r, a[0].clone()], env, input),
                    ("or", 1) => {
                        let q = &a[0];
                        let t: Expr = parse_quote!((#r, #q));
                        self.combinator("alt", &[t], env, input)
                    }
                    (n, _) => Err(format!("parser method {n}")),
                }
            }
            x => Err(format!("parser expression {}", x.to_token_stream())),
        }
    }

    /// A parser given as what a function of the repository builds.
    fn build(&mut self, d: &'a FnDef, args: &[Expr], env: &Env, input: &Ident) -> R<Expr> {
        let mut new: HashMap<String, PVal> = HashMap::new();
        if d.sig.inputs.len() != args.len() {
            return Err("arity".into());
        }
        for (p, a) in d.sig.inputs.iter().zip(args) {
            let FnArg::Typed(t) = p else { return Err("method parser".into()) };
            let n = pat_name(&t.pat).ok_or("pattern parameter")?;
            new.insert(n, PVal { e: a.clone(), env: env.clone() });
        }
        let save = std::mem::replace(&mut self.self_ty, d.self_ty.clone());
        let r = self.built_block(&unself(&d.block, &d.self_ty), new, input);
        self.self_ty = save;
        r
    }

    fn built_block(&mut self, b: &Block, mut new: HashMap<String, PVal>, input: &Ident) -> R<Expr> {
        let mut stmts: Vec<Stmt> = vec![];
        for (k, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Item(_) | Stmt::Macro(_) => {}
                Stmt::Local(l) => {
                    if !crate::xform::cfg_ok(&l.attrs, false) {
                        continue;
                    }
                    let (Some(n), Some(init)) = (pat_name(&l.pat), &l.init) else { return Err("binding in a parser builder".into()) };
                    let env: Env = Rc::new(new.clone());
                    if self.is_parser(&init.expr, &env) {
                        new.insert(n, PVal { e: (*init.expr).clone(), env });
                    } else {
                        let x = self.rewrite((*init.expr).clone(), &env)?;
                        let v = id(&format!("nv_{}", uid()));
                        stmts.push(parse_quote!(let #v = #x;));
                        new.insert(n, PVal { e: parse_quote!(#v), env: Default::default() });
                    }
                }
                Stmt::Expr(e, None) if k + 1 == b.stmts.len() => {
                    let env: Env = Rc::new(new.clone());
                    let x = self.apply(e, &env, input)?;
                    return Ok(if stmts.is_empty() { x } else { parse_quote!({ #(#stmts)* #x }) });
                }
                _ => return Err("statement in a parser builder".into()),
            }
        }
        Err("parser builder without result".into())
    }

    fn combinator(&mut self, n: &str, a: &[Expr], env: &Env, input: &Ident) -> R<Expr> {
        let want = match n {
            "map" | "context" | "value" | "verify" | "separated_list0" | "separated_list1" | "pair" | "preceded" | "terminated" => 2,
            "separated_pair" | "delimited" => 3,
            _ => 1,
        };
        if a.len() != want {
            return Err(format!("arity of {n}"));
        }
        let u = uid();
        let (r, o, e) = (id(&format!("nr_{u}")), id(&format!("no_{u}")), id(&format!("ne_{u}")));
        match n {
            "context" => self.apply(&a[1], env, input),
            "map" => {
                let f = a[1].clone();
                self.bind(&a[0], env, input, |s, r, o| {
                    let x = s.fapply(&f, env, o, false)?;
                    Ok(parse_quote!(Ok((#r, #x))))
                })
            }
            "value" => {
                let v = self.rewrite(a[0].clone(), env)?;
                self.bind(&a[1], env, input, |_, r, _| Ok(parse_quote!(Ok((#r, #v)))))
            }
            "verify" => {
                let f = a[1].clone();
                self.bind(&a[0], env, input, |s, r, o| {
                    let x = s.fapply(&f, env, o, true)?;
                    Ok(parse_quote!(if #x { Ok((#r, #o)) } else { Err(NErr::Error(verr())) }))
                })
            }
            "opt" => {
                let x = self.apply(&a[0], env, input)?;
                Ok(parse_quote!(match #x { Ok((#r, #o)) => Ok((#r, Some(#o))), Err(NErr::Error(_)) => Ok((#input, None)), Err(#e) => Err(#e) }))
            }
            "not" => {
                let x = self.apply(&a[0], env, input)?;
                Ok(parse_quote!(match #x { Ok(_) => Err(NErr::Error(verr())), Err(NErr::Error(_)) => Ok((#input, ())), Err(#e) => Err(#e) }))
            }
            "peek" => self.bind(&a[0], env, input, |_, _, o| Ok(parse_quote!(Ok((#input, #o))))),
            "cut" => {
                let x = self.apply(&a[0], env, input)?;
                Ok(parse_quote!(match #x { Err(NErr::Error(#e)) => Err(NErr::Failure(#e)), #r => #r }))
            }
            "recognize" => self.bind(&a[0], env, input, |_, r, _| Ok(parse_quote!(Ok((#r, n_before(#input, #r)))))),
            "all_consuming" => self.bind(&a[0], env, input, |_, r, o| Ok(parse_quote!(if n_empty(#r) { Ok((#r, #o)) } else { Err(NErr::Error(verr())) }))),
            "alt" => {
                let (ps, env2) = self.tuple(&a[0], env)?;
                let mut xs = vec![];
                for p in &ps {
                    xs.push(self.apply(p, &env2, input)?);
                }
                let mut it = xs.into_iter().rev();
                let mut acc = it.next().ok_or("empty alt")?;
                for x in it {
                    let v = id(&format!("nx_{}", uid()));
                    acc = parse_quote!(match #x { Err(NErr::Error(_)) => #acc, #v => #v });
                }
                Ok(acc)
            }
            "many0" => self.many(&a[0], env, input, false),
            "many1" => self.many(&a[0], env, input, true),
            "separated_list0" => self.separated(&a[0], &a[1], env, input, false),
            "separated_list1" => self.separated(&a[0], &a[1], env, input, true),
            "pair" => self.chain(a, env, input, vec![], &|r, o| { let (x, y) = (&o[0], &o[1]); parse_quote!(Ok((#r, (#x, #y)))) }),
            "separated_pair" => self.chain(a, env, input, vec![], &|r, o| { let (x, y) = (&o[0], &o[2]); parse_quote!(Ok((#r, (#x, #y)))) }),
            "preceded" => self.chain(a, env, input, vec![], &|r, o| { let x = &o[1]; parse_quote!(Ok((#r, #x))) }),
            "terminated" => self.chain(a, env, input, vec![], &|r, o| { let x = &o[0]; parse_quote!(Ok((#r, #x))) }),
            "delimited" => self.chain(a, env, input, vec![], &|r, o| { let x = &o[1]; parse_quote!(Ok((#r, #x))) }),
            "tuple" => {
                let (ps, env2) = self.tuple(&a[0], env)?;
                self.chain(&ps, &env2, input, vec![], &|r, o| parse_quote!(Ok((#r, (#(#o,)*)))))
            }
            "take_while" | "take_while1" => {
                let f = id(&format!("n_{n}"));
                let (exec, spec) = self.predicate(&a[0], env)?;
                Ok(parse_quote!(#f(#input, |nc: char| { npred!(#spec); #exec }, Ghost(|nc: char| #spec))))
            }
            "tag" | "is_not" | "is_a" | "none_of" | "one_of" | "char" => {
                let f = id(&format!("n_{n}"));
                let x = self.rewrite(a[0].clone(), env)?;
                Ok(parse_quote!(#f(#input, #x)))
            }
            n => Err(format!("combinator {n}")),
        }
    }

    /// A predicate on characters: its body over `nc`, and the same as a specification.
    fn predicate(&mut self, f: &Expr, env: &Env) -> R<(Expr, Expr)> {
        match strip(f) {
            Expr::Closure(c) if c.inputs.len() == 1 && !has_escape(&c.body) => {
                let n = pat_name(&c.inputs[0]).ok_or("pattern in a predicate")?;
                let mut env2 = (**env).clone();
                env2.insert(n, PVal { e: parse_quote!(nc), env: Default::default() });
                let mut body = (*c.body).clone();
                unmatches(&mut body);
                let x = self.rewrite(body, &Rc::new(env2))?;
                let s = pred_spec(&x)?;
                Ok((x, s))
            }
            Expr::Path(p) => {
                if let Some(v) = p.path.get_ident().and_then(|i| env.get(&i.to_string())).cloned() {
                    return self.predicate(&v.e, &v.env);
                }
                let d = self.find(&p.path).filter(|d| d.sig.inputs.len() == 1);
                if let Some(d) = d {
                    let (FnArg::Typed(t), [Stmt::Expr(b, None)]) = (&d.sig.inputs[0], &d.block.stmts[..]) else { return Err("predicate".into()) };
                    let (p, b) = (&t.pat, b);
                    let c: Expr = parse_quote!(|#p| #b);
                    return self.predicate(&c, &Default::default());
                }
                Err("predicate".into())
            }
            _ => Err("predicate".into()),
        }
    }

    /// Parser applications inside ordinary code.
    fn rewrite(&mut self, e: Expr, env: &Env) -> R<Expr> {
        let mut v = Rw { n: self, env: env.clone(), err: None };
        let mut e = e;
        v.visit_expr_mut(&mut e);
        match v.err {
            Some(x) => Err(x),
            None => Ok(e),
        }
    }
}

/// `matches!(e, p)` is a `match`.
fn unmatches(e: &mut Expr) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Macro(m) = &*e {
                if m.mac.path.is_ident("matches") {
                    let r = m.mac.parse_body_with(|i: syn::parse::ParseStream| {
                        let x: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let _: Option<Token![,]> = i.parse()?;
                        Ok((x, p))
                    });
                    if let Ok((x, p)) = r {
                        *e = parse_quote!(match #x { #p => true, _ => false });
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    V.visit_expr_mut(e);
}

/// The specification of a predicate body over the character `nc`.
fn pred_spec(e: &Expr) -> R<Expr> {
    Ok(match strip(e) {
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
            let x = pred_spec(&u.expr)?;
            parse_quote!(!(#x))
        }
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => pred_spec(&u.expr)?,
        Expr::Binary(b) => {
            let (l, r, op) = (pred_spec(&b.left)?, pred_spec(&b.right)?, &b.op);
            parse_quote!((#l #op #r))
        }
        Expr::MethodCall(m) => {
            let r = &m.receiver;
            match (m.method.to_string().as_str(), m.args.len()) {
                ("contains", 1) => {
                    let a = pred_spec(&m.args[0])?;
                    parse_quote!(spec_contains(#r.view(), seq![#a]))
                }
                (n @ ("is_ascii" | "is_ascii_alphabetic" | "is_ascii_alphanumeric" | "is_ascii_digit" | "is_ascii_whitespace" | "is_whitespace"), 0) => {
                    let f = id(&format!("sp_{n}"));
                    let x = pred_spec(r)?;
                    parse_quote!(#f(#x))
                }
                (n, _) => return Err(format!("predicate method {n}")),
            }
        }
        Expr::Match(m) => {
            let x = pred_spec(&m.expr)?;
            let mut arms = vec![];
            for a in &m.arms {
                if a.guard.is_some() {
                    return Err("guard in a predicate".into());
                }
                let (p, b) = (&a.pat, pred_spec(&a.body)?);
                arms.push(quote::quote!(#p => #b,));
            }
            parse_quote!((match #x { #(#arms)* }))
        }
        Expr::Lit(_) | Expr::Path(_) => e.clone(),
        Expr::Reference(r) => pred_spec(&r.expr)?,
        x => return Err(format!("predicate {}", x.to_token_stream())),
    })
}

/// No parser-valued local occurs in the expression.
fn closed(e: &Expr, env: &Env) -> bool {
    struct V<'e>(&'e Env, bool);
    impl<'a, 'e> visit::Visit<'a> for V<'e> {
        fn visit_ident(&mut self, i: &'a Ident) {
            if self.0.contains_key(&i.to_string()) {
                self.1 = false;
            }
        }
    }
    let mut v = V(env, true);
    visit::Visit::visit_expr(&mut v, e);
    v.1
}

/// The text of a body without the numbers of its generated names.
fn uncounted(s: &str) -> String {
    s.split(' ').map(|w| match w.rfind('_') {
        Some(k) if w[k + 1..].trim_end_matches('f').chars().all(|c| c.is_ascii_digit()) && w.starts_with('n') => &w[..k],
        _ => w,
    }).collect::<Vec<_>>().join(" ")
}

struct Rw<'b, 'a> {
    n: &'b mut Nom<'a>,
    env: Env,
    err: Option<String>,
}
impl<'b, 'a> Rw<'b, 'a> {
    fn fail(&mut self, s: String) {
        self.err.get_or_insert(s);
    }
    fn without<T>(&mut self, names: Vec<String>, f: impl FnOnce(&mut Self) -> T) -> T {
        let save = self.env.clone();
        if names.iter().any(|n| save.contains_key(n)) {
            let mut e = (*save).clone();
            for n in &names {
                e.remove(n);
            }
            self.env = Rc::new(e);
        }
        let r = f(self);
        self.env = save;
        r
    }
    fn application(&mut self, p: &Expr, arg: &Expr) -> Expr {
        let env = self.env.clone();
        let mut a = arg.clone();
        self.visit_expr_mut(&mut a);
        let r = match strip(&a) {
            Expr::Path(x) if x.path.get_ident().is_some() => self.n.apply(p, &env, x.path.get_ident().unwrap()),
            _ => {
                let v = id(&format!("nin_{}", uid()));
                self.n.apply(p, &env, &v).map(|x| parse_quote!({ let #v = #a; #x }))
            }
        };
        match r {
            Ok(x) => x,
            Err(m) => {
                self.fail(m);
                arg.clone()
            }
        }
    }
    /// A generic parser with its parser arguments filled in becomes a function of its own.
    fn outline(&mut self, d: &'a FnDef, args: &[Expr], inst: &str) -> R<Option<Expr>> {
        let mut new = HashMap::new();
        let (mut params, mut vals): (Vec<FnArg>, Vec<Expr>) = (vec![], vec![]);
        for (p, a) in d.sig.inputs.iter().zip(args) {
            let FnArg::Typed(t) = p else { return Ok(None) };
            let Some(n) = pat_name(&t.pat) else { return Ok(None) };
            if self.n.is_parser(a, &self.env) {
                if !closed(a, &self.env) {
                    return Ok(None);
                }
                new.insert(n, PVal { e: a.clone(), env: Default::default() });
            } else {
                let mut x = a.clone();
                self.visit_expr_mut(&mut x);
                vals.push(x);
                params.push(p.clone());
            }
        }
        let b = unself(&d.block, &d.self_ty);
        let b: Expr = parse_quote!(#b);
        if has_escape(&b) {
            return Ok(None);
        }
        let save = std::mem::replace(&mut self.n.self_ty, d.self_ty.clone());
        self.n.depth += 1;
        let b = self.n.rewrite(b, &Rc::new(new));
        self.n.depth -= 1;
        self.n.self_ty = save;
        let Expr::Block(b) = b? else { return Ok(None) };
        let name = id(inst);
        let mut nd = d.clone();
        nd.sig.ident = name.clone();
        nd.sig.inputs = params.into_iter().collect();
        nd.sig.generics.params = nd.sig.generics.params.into_iter().filter(|p| !matches!(p, GenericParam::Type(_))).collect();
        nd.sig.generics.where_clause = None;
        nd.block = b.block;
        if let Some(o) = self.n.made.iter().find(|x| x.sig.ident == name) {
            let k = |d: &FnDef| uncounted(&d.block.to_token_stream().to_string());
            if k(o) != k(&nd) {
                return Ok(None);
            }
        } else {
            self.n.made.push(nd);
        }
        Ok(Some(match &d.self_ty {
            Some(t) => {
                let t = id(t);
                parse_quote!(#t::#name(#(#vals),*))
            }
            None => parse_quote!(#name(#(#vals),*)),
        }))
    }
    fn inline_generic(&mut self, d: &'a FnDef, args: &[Expr]) -> R<Expr> {
        if d.sig.inputs.len() != args.len() || self.n.depth > 60 {
            return Err("call of a generic parser".into());
        }
        let inst = format!("{}__{}", d.sig.ident, self.n.caller);
        if self.n.insts.contains(&inst) {
            if let Some(x) = self.outline(d, args, &inst)? {
                return Ok(x);
            }
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut new = HashMap::new();
        for (p, a) in d.sig.inputs.iter().zip(args) {
            let FnArg::Typed(t) = p else { return Err("method parser".into()) };
            let n = pat_name(&t.pat).ok_or("pattern parameter")?;
            if self.n.is_parser(a, &self.env) {
                new.insert(n, PVal { e: a.clone(), env: self.env.clone() });
            } else {
                let mut x = a.clone();
                self.visit_expr_mut(&mut x);
                let v = id(&format!("nv_{}", uid()));
                lets.push(parse_quote!(let #v = #x;));
                new.insert(n, PVal { e: parse_quote!(#v), env: Default::default() });
            }
        }
        let mut b: Expr = { let b = unself(&d.block, &d.self_ty); parse_quote!(#b) };
        if has_escape(&b) {
            return Err("`return` or `?` in a generic parser".into());
        }
        let save = std::mem::replace(&mut self.n.self_ty, d.self_ty.clone());
        self.n.depth += 1;
        b = self.n.rewrite(b, &Rc::new(new))?;
        self.n.depth -= 1;
        self.n.self_ty = save;
        Ok(match b {
            Expr::Block(x) => {
                let st = x.block.stmts;
                parse_quote!({ #(#lets)* #(#st)* })
            }
            x => parse_quote!({ #(#lets)* #x }),
        })
    }
}
impl<'b, 'a> VisitMut for Rw<'b, 'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let k = s.len();
        if k >= 2 && s[k - 2] == "Err" && ["Error", "Failure", "Incomplete"].contains(&s[k - 1].as_str()) {
            let l = id(&s[k - 1]);
            *p = parse_quote!(NErr::#l);
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let save = self.env.clone();
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            match &mut s {
                Stmt::Local(l) => {
                    if !crate::xform::cfg_ok(&l.attrs, false) {
                        continue;
                    }
                    let name = pat_name(&l.pat);
                    if let (Some(n), Some(init)) = (&name, &l.init) {
                        if init.diverge.is_none() && self.n.is_parser(&init.expr, &self.env) {
                            let mut e = (*self.env).clone();
                            e.insert(n.clone(), PVal { e: (*init.expr).clone(), env: self.env.clone() });
                            self.env = Rc::new(e);
                            continue;
                        }
                    }
                    if let Some(init) = &mut l.init {
                        self.visit_local_init_mut(init);
                    }
                    self.visit_pat_mut(&mut l.pat);
                    let names = pat_names(&l.pat);
                    if names.iter().any(|n| self.env.contains_key(n)) {
                        let mut e = (*self.env).clone();
                        for n in names {
                            e.remove(&n);
                        }
                        self.env = Rc::new(e);
                    }
                }
                Stmt::Item(Item::Use(u)) => {
                    if u.to_token_stream().to_string().contains("nom ::") {
                        continue;
                    }
                }
                s => visit_mut::visit_stmt_mut(self, s),
            }
            b.stmts.push(s);
        }
        self.env = save;
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.visit_pat_mut(&mut a.pat);
        let n = pat_names(&a.pat);
        self.without(n, |s| {
            if let Some((_, g)) = &mut a.guard {
                s.visit_expr_mut(g);
            }
            s.visit_expr_mut(&mut a.body);
        });
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let n: Vec<String> = c.inputs.iter().flat_map(pat_names).collect();
        self.without(n, |s| s.visit_expr_mut(&mut c.body));
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() {
            return;
        }
        match e {
            Expr::Path(p) => {
                if let Some(v) = p.path.get_ident().and_then(|i| self.env.get(&i.to_string())).cloned() {
                    if self.n.is_parser(&v.e, &v.env) {
                        self.fail(format!("parser {} used as a value", p.to_token_stream()));
                        return;
                    }
                    match self.n.rewrite(v.e, &v.env) {
                        Ok(x) => *e = x,
                        Err(m) => self.fail(m),
                    }
                    return;
                }
            }
            Expr::Call(c) => {
                let f = strip(&c.func).clone();
                if c.args.len() == 1 {
                    let local = matches!(&f, Expr::Path(p) if p.path.get_ident().map(|i| self.env.contains_key(&i.to_string())).unwrap_or(false));
                    if (local || !matches!(f, Expr::Path(_))) && self.n.is_parser(&f, &self.env) {
                        let a = c.args[0].clone();
                        *e = self.application(&f, &a);
                        return;
                    }
                }
                if let Expr::Path(p) = &f {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let k = segs.len();
                    if k >= 2 && segs[k - 2] == "Err" && segs[k - 1] != "Incomplete" && c.args.len() == 1 && !matches!(c.args[0], Expr::Path(_)) {
                        c.args[0] = parse_quote!(verr());
                    }
                    if let Some(d) = self.n.find(&p.path) {
                        if is_parser_fn(d) && is_generic(d) {
                            let a: Vec<Expr> = c.args.iter().cloned().collect();
                            match self.inline_generic(d, &a) {
                                Ok(x) => *e = x,
                                Err(m) => self.fail(m),
                            }
                            return;
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                if m.method == "parse" && m.args.len() == 1 && self.n.is_parser(&m.receiver, &self.env) {
                    let (p, a) = ((*m.receiver).clone(), m.args[0].clone());
                    *e = self.application(&p, &a);
                    return;
                }
                if m.method == "map" && m.args.len() == 1 {
                    if let Expr::Path(p) = &m.args[0] {
                        let v = p.path.clone();
                        if v.segments.last().unwrap().ident.to_string().starts_with(|c: char| c.is_uppercase()) {
                            m.args[0] = parse_quote!(|nv| #v(nv));
                        }
                    }
                }
            }
            Expr::Struct(s) => {
                let segs: Vec<String> = s.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs == ["Error", "Parse"] {
                    *e = parse_quote!(Error::vparse());
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `Self` written out, since parts of a body move into other functions.
fn unself(b: &Block, ty: &Option<String>) -> Block {
    struct V(Ident);
    impl VisitMut for V {
        fn visit_path_mut(&mut self, p: &mut Path) {
            if p.segments[0].ident == "Self" {
                p.segments[0].ident = self.0.clone();
            }
            visit_mut::visit_path_mut(self, p);
        }
    }
    let mut b = b.clone();
    if let Some(t) = ty {
        V(id(t)).visit_block_mut(&mut b);
    }
    b
}

/// Rewrites one function; functions that only make sense inlined are left alone.
pub fn run(d: &mut FnDef, fns: &[FnDef], insts: &[String]) -> Vec<FnDef> {
    if is_builder(d) || (is_parser_fn(d) && is_generic(d)) || d.trait_.is_some() {
        return vec![];
    }
    let mut n = Nom { fns, self_ty: d.self_ty.clone(), depth: 0, caller: d.sig.ident.to_string(), insts, made: vec![] };
    let b = unself(&d.block, &d.self_ty);
    let e: Expr = parse_quote!(#b);
    match n.rewrite(e, &Default::default()) {
        Ok(Expr::Block(b)) => d.block = b.block,
        Ok(_) => {}
        Err(m) => {
            let m = format!("nom: {m}");
            d.block = parse_quote!({ unsupported!(#m) });
        }
    }
    n.made
}

fn loop_name(s: &str) -> Option<(&'static str, &str)> {
    for (p, q) in [("nomb_", "nb"), ("nomi_", "ni"), ("noma_", "na"), ("nomf_", "nf")] {
        if let Some(r) = s.strip_prefix(p) {
            return Some((q, r));
        }
    }
    None
}

/// Loop variables get their final names: numbered by the order of the loops in the body.
pub fn number(b: &mut Block) {
    struct V(HashMap<String, usize>, usize);
    impl VisitMut for V {
        fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
            self.1 += 1;
            if let Some(Stmt::Macro(m)) = l.body.stmts.first() {
                if m.mac.path.is_ident("nomloop") {
                    let t = m.mac.tokens.to_string();
                    let u = t.split(',').next().unwrap().trim().trim_start_matches("nomb_").to_string();
                    let k = self.1;
                    self.0.entry(u).or_insert(k);
                }
            }
            visit_mut::visit_expr_loop_mut(self, l);
        }
        fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) {
            self.1 += 1;
            visit_mut::visit_expr_for_loop_mut(self, l);
        }
        fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) {
            self.1 += 1;
            visit_mut::visit_expr_while_mut(self, l);
        }
    }
    let mut v = V(HashMap::new(), 0);
    v.visit_block_mut(b);
    rename(b, &|s| loop_name(s).and_then(|(p, u)| v.0.get(u).map(|k| format!("{p}{k}"))));
}

/// `X.into_iter().map(f).collect()` is read as the loop that builds the vector (flag `collectloop`).
pub fn collect_loops(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let Expr::MethodCall(c) = &*e else { return };
            if c.method != "collect" || !c.args.is_empty() {
                return;
            }
            let Expr::MethodCall(m) = strip(&c.receiver) else { return };
            if m.method != "map" || m.args.len() != 1 {
                return;
            }
            let (p, x): (Pat, Expr) = match strip(&m.args[0]) {
                Expr::Closure(f) if f.inputs.len() == 1 && !has_escape(&f.body) => (
                    match &f.inputs[0] {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    },
                    (*f.body).clone(),
                ),
                Expr::Path(f) => (parse_quote!(vx), parse_quote!(#f(vx))),
                _ => return,
            };
            let recv = &m.receiver;
            *e = parse_quote!({ let mut vm = Vec::new(); for #p in #recv { vm.push(#x); } vm });
        }
    }
    V.visit_block_mut(b);
}

/// A copy of a body placed at another call gets its own loop variables.
pub fn freshen(b: &mut Block) {
    if !b.to_token_stream().to_string().contains("nomb_") {
        return;
    }
    let base = uid();
    for _ in 0..1000 {
        uid();
    }
    let seen = std::cell::RefCell::new(HashMap::<String, usize>::new());
    rename(b, &|s| {
        let (_, u) = loop_name(s)?;
        let mut m = seen.borrow_mut();
        let k = m.len();
        let k = *m.entry(u.to_string()).or_insert(base + k);
        Some(format!("{}_{}", s.split('_').next().unwrap(), k))
    });
}

fn rename(b: &mut Block, f: &dyn Fn(&str) -> Option<String>) {
    fn go(ts: proc_macro2::TokenStream, f: &dyn Fn(&str) -> Option<String>) -> proc_macro2::TokenStream {
        use proc_macro2::TokenTree as T;
        ts.into_iter()
            .map(|t| match t {
                T::Ident(i) => match f(&i.to_string()) {
                    Some(n) => T::Ident(proc_macro2::Ident::new(&n, i.span())),
                    None => T::Ident(i),
                },
                T::Group(g) => T::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), f))),
                t => t,
            })
            .collect()
    }
    if let Ok(n) = parse2::<Block>(go(b.to_token_stream(), f)) {
        *b = n;
    }
}
