//! `quote!` templates as data: the template text (normalised token text with numbered holes)
//! becomes a constant; the interpolated values become children.
use crate::xform::{id, Cx};
use proc_macro2::{TokenStream, TokenTree};
use syn::*;

fn flat(ts: TokenStream, holes: &mut Vec<(String, bool)>, out: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                match v.get(i + 1) {
                    Some(TokenTree::Ident(name)) => {
                        out.push_str(&format!(" #{}", holes.len()));
                        holes.push((name.to_string(), false));
                        i += 2;
                        continue;
                    }
                    Some(TokenTree::Group(g)) => {
                        // repetition #( #x, )*
                        let mut inner = String::new();
                        let before = holes.len();
                        flat(g.stream(), holes, &mut inner);
                        for h in holes[before..].iter_mut() {
                            h.1 = true;
                        }
                        out.push_str(&format!(" #({inner} )"));
                        i += 2;
                        continue;
                    }
                    _ => out.push_str(" #"),
                }
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                out.push_str(&format!(" {a}"));
                flat(g.stream(), holes, out);
                out.push_str(&format!(" {b}"));
            }
            t => {
                out.push(' ');
                out.push_str(&t.to_string());
            }
        }
        i += 1;
    }
}

pub fn template_text(ts: TokenStream) -> (String, Vec<(String, bool)>) {
    let mut holes = vec![];
    let mut s = String::new();
    flat(ts, &mut holes, &mut s);
    (s.trim().to_string(), holes)
}

pub fn template_expr(ts: TokenStream, cx: &Cx, errors: &mut Vec<String>) -> Expr {
    let (t, holes) = template_text(ts);
    let konst = cx.template_ids.get(&t).cloned().unwrap_or_else(|| "T_UNKNOWN".to_string());
    if konst == "T_UNKNOWN" {
        errors.push(format!("unknown template: {t}"));
    }
    let k = id(&konst);
    let mut e: Expr = parse_quote!(ts_node(#k));
    for (h, rep) in holes {
        let h = id(&h);
        e = if rep { parse_quote!(ts_addv(#e, &#h)) } else { parse_quote!(ts_add(#e, &#h)) };
    }
    e
}
