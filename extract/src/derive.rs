//! The standard expansion of `#[derive(PartialEq, Hash, Clone)]`, so that derived
//! implementations are verified against the same contracts as handwritten ones.
use quote::{format_ident, quote};
use syn::*;

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    out
}

pub fn struct_fns(s: &ItemStruct) -> Vec<(String, ItemFn)> {
    let d = derives(&s.attrs);
    let mut out = vec![];
    let mem: Vec<Member> = s
        .fields
        .iter()
        .enumerate()
        .filter(|(_, f)| crate::xform::cfg_ok(&f.attrs, false))
        .map(|(i, f)| match &f.ident {
            Some(n) => Member::Named(n.clone()),
            None => Member::Unnamed(Index::from(i)),
        })
        .collect();
    if d.contains(&"PartialEq".into()) {
        let f: ItemFn = parse_quote!(fn eq(&self, other: &Self) -> bool { #(self.#mem == other.#mem)&&* });
        out.push(("PartialEq".into(), f));
    }
    if d.contains(&"Hash".into()) {
        let f: ItemFn = parse_quote!(fn hash<H: Hasher>(&self, state: &mut H) { #(Hash::hash(&self.#mem, state);)* });
        out.push(("Hash".into(), f));
    }
    if d.contains(&"Clone".into()) {
        let f: ItemFn = match &s.fields {
            Fields::Named(_) => parse_quote!(fn clone(&self) -> Self { Self { #(#mem: self.#mem.clone()),* } }),
            _ => parse_quote!(fn clone(&self) -> Self { Self(#(self.#mem.clone()),*) }),
        };
        out.push(("Clone".into(), f));
    }
    out
}

pub fn enum_fns(s: &ItemEnum) -> Vec<(String, ItemFn)> {
    let d = derives(&s.attrs);
    let mut out = vec![];
    let mut eqs = vec![];
    let mut hashes = vec![];
    let mut clones = vec![];
    for (k, v) in s.variants.iter().enumerate() {
        let n = &v.ident;
        let k = k as u64;
        match &v.fields {
            Fields::Unnamed(u) => {
                let a: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("va{}", i)).collect();
                let b: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("vb{}", i)).collect();
                eqs.push(quote!((Self::#n(#(#a),*), Self::#n(#(#b),*)) => #(*#a == *#b)&&*));
                hashes.push(quote!(Self::#n(#(#a),*) => { vhash_discr(#k, state); #(Hash::hash(#a, state);)* }));
                clones.push(quote!(Self::#n(#(#a),*) => Self::#n(#(#a.clone()),*)));
            }
            Fields::Unit => {
                eqs.push(quote!((Self::#n, Self::#n) => true));
                hashes.push(quote!(Self::#n => { vhash_discr(#k, state); }));
                clones.push(quote!(Self::#n => Self::#n));
            }
            Fields::Named(_) => return out,
        }
    }
    if d.contains(&"PartialEq".into()) {
        let f: ItemFn = if s.variants.len() > 1 {
            parse_quote!(fn eq(&self, other: &Self) -> bool { match (self, other) { #(#eqs,)* _ => false } })
        } else {
            parse_quote!(fn eq(&self, other: &Self) -> bool { match (self, other) { #(#eqs,)* } })
        };
        out.push(("PartialEq".into(), f));
    }
    if d.contains(&"Hash".into()) {
        out.push(("Hash".into(), parse_quote!(fn hash<H: Hasher>(&self, state: &mut H) { match self { #(#hashes)* } })));
    }
    if d.contains(&"Clone".into()) {
        out.push(("Clone".into(), parse_quote!(fn clone(&self) -> Self { match self { #(#clones,)* } })));
    }
    out
}
