//! Value of a sheet, independent of how its parts are owned, and ways to own the same value.
use crate::Rng;
use std::borrow::Cow;
use stylist_core::ast::*;
use stylist_core::bow::Bow;
fn s(x: &str) -> String { crate::jstr(x) }
pub fn frags(v: &[StringFragment]) -> String { format!("[{}]", v.iter().map(|f| s(&f.inner)).collect::<Vec<_>>().join(",")) }
pub fn attr(a: &StyleAttribute) -> String { format!("A({},{})", s(&a.key), frags(&a.value)) }
pub fn sel(a: &Selector) -> String { format!("S{}", frags(&a.fragments)) }
pub fn block(b: &Block) -> String { format!("B([{}],[{}])", b.condition.iter().map(sel).collect::<Vec<_>>().join(","), b.content.iter().map(rbc).collect::<Vec<_>>().join(",")) }
pub fn rule(r: &Rule) -> String { format!("R({},[{}])", frags(&r.condition), r.content.iter().map(rbc).collect::<Vec<_>>().join(",")) }
pub fn rbc(c: &RuleBlockContent) -> String { match c { RuleBlockContent::StyleAttr(a) => attr(a), RuleBlockContent::Rule(r) => format!("r{}", rule(r)), RuleBlockContent::Block(b) => format!("b{}", block(b)) } }
pub fn scope(c: &ScopeContent) -> String { match c { ScopeContent::Block(b) => block(b), ScopeContent::Rule(r) => rule(r) } }
pub fn sheet(c: &[ScopeContent]) -> String { format!("[{}]", c.iter().map(scope).collect::<Vec<_>>().join(",")) }

fn leak<T: Clone + 'static>(v: Vec<T>) -> &'static [T] { Box::leak(v.into_boxed_slice()) }
fn own<T: Clone + 'static>(rng: &mut Rng, v: Vec<T>) -> Cow<'static, [T]> { if rng.chance(1, 2) { Cow::Borrowed(leak(v)) } else { Cow::Owned(v) } }
fn ostr(rng: &mut Rng, v: &str) -> Cow<'static, str> { if rng.chance(1, 2) { Cow::Borrowed(Box::leak(v.to_string().into_boxed_str())) } else { Cow::Owned(v.to_string()) } }
fn obow<T: 'static>(rng: &mut Rng, v: T) -> Bow<'static, T> { if rng.chance(1, 2) { Bow::Borrowed(Box::leak(Box::new(v))) } else { Bow::Boxed(Box::new(v)) } }
pub fn re_frags(r: &mut Rng, v: &[StringFragment]) -> Cow<'static, [StringFragment]> { let w = v.iter().map(|f| StringFragment { inner: ostr(r, &f.inner) }).collect(); own(r, w) }
pub fn re_attr(r: &mut Rng, a: &StyleAttribute) -> StyleAttribute { StyleAttribute { key: ostr(r, &a.key), value: re_frags(r, &a.value) } }
pub fn re_sel(r: &mut Rng, a: &Selector) -> Selector { Selector { fragments: re_frags(r, &a.fragments) } }
pub fn re_block(r: &mut Rng, b: &Block) -> Block { let c = b.condition.iter().map(|s| re_sel(r, s)).collect(); let d = b.content.iter().map(|x| re_rbc(r, x)).collect(); Block { condition: own(r, c), content: own(r, d) } }
pub fn re_rule(r: &mut Rng, b: &Rule) -> Rule { let c = re_frags(r, &b.condition); let d = b.content.iter().map(|x| re_rbc(r, x)).collect(); Rule { condition: c, content: own(r, d) } }
pub fn re_rbc(r: &mut Rng, c: &RuleBlockContent) -> RuleBlockContent { match c {
    RuleBlockContent::StyleAttr(a) => RuleBlockContent::StyleAttr(re_attr(r, a)),
    RuleBlockContent::Rule(x) => { let y = re_rule(r, x); RuleBlockContent::Rule(obow(r, y)) }
    RuleBlockContent::Block(x) => { let y = re_block(r, x); RuleBlockContent::Block(obow(r, y)) } } }
/// The same value, owned differently.
pub fn re_sheet(r: &mut Rng, c: &[ScopeContent]) -> Sheet {
    let v: Vec<ScopeContent> = c.iter().map(|x| match x { ScopeContent::Block(b) => ScopeContent::Block(re_block(r, b)), ScopeContent::Rule(b) => ScopeContent::Rule(re_rule(r, b)) }).collect();
    match r.below(3) { 0 => Sheet::from(v), 1 => Sheet::from(leak(v)), _ => Sheet::from(Cow::<'static, [ScopeContent]>::Owned(v)) }
}
/// A small change somewhere (the value usually changes; the caller compares canonical forms).
pub fn mutate(r: &mut Rng, c: &[ScopeContent]) -> Vec<ScopeContent> {
    let mut v: Vec<ScopeContent> = re_sheet(r, c).to_vec();
    if v.is_empty() { return v; }
    let i = r.below(v.len());
    match &mut v[i] {
        ScopeContent::Block(b) => mut_block(r, b),
        ScopeContent::Rule(x) => mut_rule(r, x),
    }
    if r.chance(1, 10) { v.reverse(); }
    if r.chance(1, 12) { v.pop(); }
    v
}
fn mut_frags(r: &mut Rng, f: &mut Cow<'static, [StringFragment]>) {
    let mut w = f.to_vec();
    match r.below(5) {
        0 => w.push("z".into()),
        1 => { w.pop(); }
        2 => w.reverse(),
        3 if !w.is_empty() => { let k = r.below(w.len()); let mut t = w[k].inner.to_string(); t.push('q'); w[k] = t.into(); }
        _ if w.len() > 1 => { let t = format!("{}{}", w[0].inner, w[1].inner); w.remove(0); w[0] = t.into(); }
        _ => w.push("".into()),
    }
    *f = w.into();
}
fn mut_content(r: &mut Rng, c: &mut Cow<'static, [RuleBlockContent]>) {
    let mut w = c.to_vec();
    match r.below(5) {
        0 => { w.pop(); }
        1 => w.reverse(),
        2 => { if let Some(x) = w.first().cloned() { w.push(x) } }
        _ if !w.is_empty() => { let k = r.below(w.len()); match &mut w[k] {
            RuleBlockContent::StyleAttr(a) => if r.chance(1, 2) { a.key = format!("{}x", a.key).into() } else { mut_frags(r, &mut a.value) },
            RuleBlockContent::Rule(x) => { let mut y = (**x).clone(); mut_rule(r, &mut y); *x = Bow::Boxed(Box::new(y)); }
            RuleBlockContent::Block(x) => { let mut y = (**x).clone(); mut_block(r, &mut y); *x = Bow::Boxed(Box::new(y)); }
        } }
        _ => {}
    }
    *c = w.into();
}
fn mut_block(r: &mut Rng, b: &mut Block) {
    if r.chance(1, 2) { mut_content(r, &mut b.content) } else {
        let mut w = b.condition.to_vec();
        match r.below(4) { 0 => { w.pop(); } 1 => w.reverse(), 2 => w.push(Selector { fragments: vec!["s".into()].into() }), _ => if !w.is_empty() { let k = r.below(w.len()); let mut f = w[k].fragments.clone(); mut_frags(r, &mut f); w[k].fragments = f; } }
        b.condition = w.into();
    }
}
fn mut_rule(r: &mut Rng, x: &mut Rule) { if r.chance(1, 2) { mut_content(r, &mut x.content) } else { let mut f = x.condition.clone(); mut_frags(r, &mut f); x.condition = f; } }
