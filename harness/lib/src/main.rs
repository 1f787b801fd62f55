//! C10-C13: registries, server-side records and hydration against a reference model.
use hcore::*;
use std::collections::BTreeMap;
use stylist::ast::{Block, Rule, RuleBlockContent, ScopeContent, Selector, Sheet, StringFragment, StyleAttribute};
use stylist::manager::{render_static, StaticReader, StyleData, StyleManager};
use stylist::{GlobalStyle, Style};

#[derive(Clone)]
enum H { S(Style), G(GlobalStyle) }
impl H {
    fn id(&self) -> String { match self { H::S(s) => s.id().to_string(), H::G(g) => g.id().to_string() } }
    fn text(&self) -> String { match self { H::S(s) => s.get_style_str().to_string(), H::G(g) => g.get_style_str().to_string() } }
    fn addr(&self) -> usize { match self { H::S(s) => s.get_style_str().as_ptr() as usize, H::G(g) => g.get_style_str().as_ptr() as usize } }
    fn unregister(&self) { match self { H::S(s) => s.unregister(), H::G(g) => g.unregister() } }
}
type Key = (bool, String, String);
struct Mgr { m: Option<StyleManager>, prefix: String, reader: Option<StaticReader>, reg: BTreeMap<Key, (String, String, usize)>, log: Vec<(Key, String, String)> }

const CSS: &[&str] = &[
    "color: red;", "color: blue;", "color: red; color: red;", ".a { color: red; }", "&.a { color: red; }", "@media print { color: red; }", "@supports (display: grid) { color: red; }",
    "@media print { .a, .b { color: red; } }", "@media print { .b, .a { color: red; } }", ":hover { width: 1px; } height: 2px;", "height: 2px; :hover { width: 1px; }",
    "content: \"</style><b>\";", "content: \"</STYLE>\";", "background: url(a.png);", "@keyframes k { from { width: 0; } to { width: 1px; } }", ":root { --x: é; }", "header, footer { color: red; @media print { color: blue; } }",
    "",
];
/// A requested value: the tree and, where it is the tree of a text, that text.
#[derive(Clone)]
struct Src { s: Sheet, css: Option<&'static str> }
impl Src {
    fn show(&self) -> String { match self.css { Some(t) => format!("{t:?}"), None => format!("tree {}", canon::sheet(&self.s)) } }
    fn get(&self, rng: &mut Rng) -> Sheet { if rng.chance(1, 2) { canon::re_sheet(rng, &self.s) } else { self.s.clone() } }
}
/// The same text in other pieces: fragments are part of the value of a sheet.
fn pieces(rng: &mut Rng, v: &[StringFragment]) -> Vec<StringFragment> {
    let mut o = vec![];
    for f in v {
        let t = f.inner.to_string();
        let cut: Vec<usize> = t.char_indices().map(|c| c.0).filter(|c| *c > 0).collect();
        if !cut.is_empty() && rng.chance(1, 2) { let c = *rng.pick(&cut); o.push(StringFragment { inner: t[..c].to_string().into() }); o.push(StringFragment { inner: t[c..].to_string().into() }); } else { o.push(StringFragment { inner: t.into() }); }
        if rng.chance(1, 8) { o.push(StringFragment { inner: "".into() }); }
    }
    o
}
fn cut_block(rng: &mut Rng, b: &Block) -> Block {
    let mut c: Vec<Selector> = b.condition.iter().map(|s| Selector { fragments: pieces(rng, &s.fragments).into() }).collect();
    if rng.chance(1, 12) { c.clear(); }
    Block { condition: c.into(), content: cut_body(rng, &b.content).into() }
}
fn cut_rule(rng: &mut Rng, r: &Rule) -> Rule { Rule { condition: pieces(rng, &r.condition).into(), content: cut_body(rng, &r.content).into() } }
fn cut_body(rng: &mut Rng, v: &[RuleBlockContent]) -> Vec<RuleBlockContent> {
    if rng.chance(1, 12) { return vec![]; }
    v.iter().map(|c| match c {
        RuleBlockContent::StyleAttr(a) => RuleBlockContent::StyleAttr(StyleAttribute { key: a.key.clone(), value: pieces(rng, &a.value).into() }),
        RuleBlockContent::Rule(r) => RuleBlockContent::Rule(cut_rule(rng, r).into()),
        RuleBlockContent::Block(b) => RuleBlockContent::Block(cut_block(rng, b).into()),
    }).collect()
}
fn src(rng: &mut Rng) -> Src {
    let css = *rng.pick(CSS);
    let s: Sheet = css.parse().unwrap();
    if rng.chance(2, 3) { return Src { s, css: Some(css) }; }
    let mut v: Vec<ScopeContent> = s.iter().map(|c| match c { ScopeContent::Block(b) => ScopeContent::Block(cut_block(rng, b)), ScopeContent::Rule(r) => ScopeContent::Rule(cut_rule(rng, r)) }).collect();
    if rng.chance(1, 4) { let css = *rng.pick(CSS); let t: Sheet = css.parse().unwrap(); v.extend(t.iter().cloned()); }
    Src { s: Sheet::from(v), css: None }
}
const PREFIX: &[&str] = &["stylist", "p", "p-global", "my-comp", "", "q\u{e9}", "stylist-global"];

fn key_of(glob: bool, prefix: &str, s: &Sheet) -> Key { (glob, prefix.to_string(), canon::sheet(s)) }
fn expect_text(s: &Sheet, glob: bool, id: &str) -> String { use stylist::ast::ToStyleStr; s.to_style_str(if glob { None } else { Some(id) }) }
fn id_ok(glob: bool, prefix: &str, id: &str) -> bool {
    let pre = format!("{prefix}{}", if glob { "-global-" } else { "-" });
    id.strip_prefix(pre.as_str()).map(|e| e.len() >= 6 && e.chars().all(|c| c.is_ascii_alphanumeric() || c == '-')).unwrap_or(false)
}
fn enc(s: &str) -> String {
    // `</style` (any case) becomes `<\/style`
    let l = s.to_ascii_lowercase();
    let (mut o, mut i) = (String::new(), 0);
    while i < s.len() { if l[i..].starts_with("</style") { o.push_str("<\\/"); i += 2; } else { let c = s[i..].chars().next().unwrap(); o.push(c); i += c.len_utf8(); } }
    o
}
/// Identifiers of all histories (each runs in a thread of its own); bounded, so that chance repeats stay out.
static SEEN: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
fn first_use(id: &str) -> bool { let e = id.rsplit('-').next().unwrap_or(id).to_string(); let mut s = SEEN.lock().unwrap(); s.len() > 20_000 || s.insert(e) }
struct W<'a> { rep: &'a mut Report, trace: Vec<String>, pid: &'a str, bad: bool }
impl W<'_> {
    fn fail(&mut self, want: &str, got: &str) { let t = self.trace.join("; "); self.rep.violation(&t, &t, want, got); self.bad = true; }
}
fn build(rng: &mut Rng, prefix: &str, ssr: bool) -> (StyleManager, Option<StaticReader>) {
    let mut b = StyleManager::builder();
    let mut rd = None;
    let first = rng.chance(1, 2);
    if first { b = b.prefix(prefix.to_string().into()); }
    if ssr { let (w, r) = render_static(); b = b.writer(w); rd = Some(r); }
    if rng.chance(1, 3) { b = b.append(rng.chance(1, 2)); }
    if !first { b = b.prefix(prefix.to_string().into()); }
    (b.build().unwrap(), rd)
}
fn create(rng: &mut Rng, m: &StyleManager, def: bool, glob: bool, prefix: Option<&str>, x: &Src) -> H {
    let byref = rng.chance(1, 2);
    let astext = x.css.is_some() && rng.chance(1, 3);
    let (s, css) = (x.get(rng), x.css.unwrap_or(""));
    if def && rng.chance(1, 2) {
        return match (glob, prefix) {
            (true, _) => H::G(if astext { GlobalStyle::new(css) } else { GlobalStyle::new(s) }.unwrap()),
            (false, None) => H::S(if astext { Style::new(css) } else { Style::new(s) }.unwrap()),
            (false, Some(p)) => H::S(if astext { Style::create(p.to_string(), css) } else { Style::create(p.to_string(), s) }.unwrap()),
        };
    }
    match (glob, prefix) {
        (true, _) => H::G(match (astext, byref) { (true, true) => GlobalStyle::new_with_manager(css, m), (true, false) => GlobalStyle::new_with_manager(css.to_string(), m.clone()), (false, true) => GlobalStyle::new_with_manager(s, m), _ => GlobalStyle::new_with_manager(s, m.clone()) }.unwrap()),
        (false, None) => H::S(match (astext, byref) { (true, true) => Style::new_with_manager(css, m), (true, false) => Style::new_with_manager(std::borrow::Cow::Borrowed(css), m.clone()), (false, true) => Style::new_with_manager(s, m), _ => Style::new_with_manager(s, m.clone()) }.unwrap()),
        (false, Some(p)) => H::S(match (astext, byref) { (true, true) => Style::create_with_manager(p.to_string(), css, m), (true, false) => Style::create_with_manager(p.to_string(), css.to_string(), m.clone()), (false, true) => Style::create_with_manager(p.to_string(), s, m), _ => Style::create_with_manager(p.to_string(), s, m.clone()) }.unwrap()),
    }
}
/// One history of creations, unregistrations and manager drops, checked step by step.
fn history(rep: &mut Report, rng: &mut Rng, pid: &str) {
    let mut w = W { rep, trace: vec![], pid, bad: false };
    let nm = 1 + rng.below(3);
    let mut ms: Vec<Mgr> = vec![];
    // one manager may be the default one of this (fresh) thread, which is never dropped
    let with_default = rng.chance(1, 2);
    if with_default { w.trace.push("manager 0 is the default manager".into()); ms.push(Mgr { m: Some(StyleManager::default()), prefix: "stylist".into(), reader: None, reg: BTreeMap::new(), log: vec![] }); }
    for _ in 0..nm {
        let p = rng.pick(PREFIX).to_string();
        let ssr = pid == "C12" || rng.chance(1, 3);
        let (m, reader) = build(rng, &p, ssr);
        w.trace.push(format!("manager {} prefix {p:?} writer {ssr}", ms.len()));
        if m.prefix() != p.as_str() { w.fail(&format!("prefix {p}"), &m.prefix()); }
        ms.push(Mgr { m: Some(m), prefix: p, reader, reg: BTreeMap::new(), log: vec![] });
    }
    let npool = 2 + rng.below(4);
    let pool: Vec<Src> = (0..npool).map(|_| src(rng)).collect();
    let mut handles: Vec<(H, usize, Key, String, String)> = vec![];
    let mut seen_ids: Vec<String> = vec![];
    let steps = 3 + rng.below(20);
    let mut distinct = 0;
    for _ in 0..steps {
        if w.bad { return; }
        let mi = rng.below(ms.len());
        match rng.below(10) {
            0..=6 => {
                let Some(m) = ms[mi].m.clone() else { continue };
                let (glob, x) = (rng.chance(1, 3), rng.pick(&pool).clone());
                let own = if rng.chance(1, 3) { Some(rng.pick(PREFIX).to_string()) } else { None };
                let pre = if glob { ms[mi].prefix.clone() } else { own.clone().unwrap_or(ms[mi].prefix.clone()) };
                let key = key_of(glob, &pre, &x.s);
                w.trace.push(format!("create m{mi} global {glob} prefix {own:?} {}", x.show()));
                let h = match guarded(|| create(rng, &m, with_default && mi == 0, glob, own.as_deref(), &x)) { Ok(h) => h, Err(e) => { w.fail("a style", &format!("panic: {e}")); return; } };
                let (id, text) = (h.id(), h.text());
                if let H::S(x) = &h { if x.get_class_name() != id { w.fail(&format!("class name = id {id}"), x.get_class_name()); return; } }
                if let Some((eid, etext, addr)) = ms[mi].reg.get(&key) {
                    if (eid, etext, *addr) != (&id, &text, h.addr()) { w.fail(&format!("the registered instance {eid} with {etext}"), &format!("{id} with {text} (same instance: {})", *addr == h.addr())); return; }
                } else {
                    if !id_ok(glob, &pre, &id) { w.fail(&format!("identifier {pre}{}<random>", if glob { "-global-" } else { "-" }), &id); return; }
                    if seen_ids.contains(&id) || !first_use(&id) { w.fail("a new identifier", &format!("{id}, already used by another style")); return; }
                    let et = expect_text(&x.s, glob, &id);
                    if text != et { w.fail(&et, &text); return; }
                    seen_ids.push(id.clone());
                    let addr = h.addr();
                    ms[mi].reg.insert(key.clone(), (id.clone(), text.clone(), addr));
                    if ms[mi].reader.is_some() { ms[mi].log.push((key.clone(), id.clone(), text.clone())); }
                    distinct += 1;
                }
                handles.push((h, mi, key, id, text));
            }
            7 | 8 => {
                if handles.is_empty() { continue; }
                let k = rng.below(handles.len());
                let (h, hm, key, id, _) = &handles[k];
                w.trace.push(format!("unregister {id} of m{hm}"));
                let r = guarded(|| h.unregister());
                if let Err(e) = r { w.fail("no panic", &e); return; }
                let (hm, key) = (*hm, key.clone());
                if ms[hm].m.is_some() { ms[hm].reg.remove(&key); }
            }
            _ => {
                if pid == "C10" || ms.iter().filter(|m| m.m.is_some()).count() < 2 || (with_default && mi == 0) { continue; }
                w.trace.push(format!("drop m{mi}"));
                ms[mi].m = None; ms[mi].reg.clear();
            }
        }
        // every handle keeps its identity and text
        for (h, _, _, id, text) in &handles { if h.id() != *id || h.text() != *text { let (a, b) = (format!("{id} {text}"), format!("{} {}", h.id(), h.text())); w.fail(&a, &b); return; } }
    }
    // final: everything the model says is registered is found again, unchanged
    for mi in 0..ms.len() {
        let Some(m) = ms[mi].m.clone() else { continue };
        let reg = ms[mi].reg.clone();
        for (key, (id, _, _)) in reg {
            let x = pool.iter().find(|x| canon::sheet(&x.s) == key.2).unwrap().clone();
            let h = create(rng, &m, with_default && mi == 0, key.0, Some(&key.1), &x);
            w.trace.push(format!("re-request {id} of m{mi}"));
            if h.id() != id { let g = h.id(); w.fail(&format!("registered {id}"), &g); return; }
        }
    }
    // server-side records
    for mi in 0..ms.len() {
        let Some(r) = ms[mi].reader.take() else { continue };
        w.trace.push(format!("read m{mi}"));
        let data = match guarded(|| r.read_style_data()) { Ok(d) => d, Err(e) => { w.fail("style data", &e); return; } };
        let want: String = ms[mi].log.iter().map(|(_, id, text)| format!("<style data-style=\"{id}\">{}</style>", enc(text))).collect();
        let mut got = String::new();
        if data.write_static_markup(&mut got).is_err() || got != want { w.fail(&want, &got); return; }
        let ids: Vec<String> = ms[mi].log.iter().map(|l| l.1.clone()).collect();
        let json = serde_json::to_value(&data).unwrap();
        let gids: Vec<String> = json.as_array().map(|a| a.iter().map(|x| x["id"].as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
        if ids != gids { w.fail(&format!("{ids:?}"), &format!("{gids:?}")); return; }
    }
    // dropped managers: unregistering is harmless
    for m in ms.iter_mut() { m.m = None; }
    for (h, ..) in &handles { if let Err(e) = guarded(|| h.unregister()) { w.trace.push("unregister after the managers are gone".into()); w.fail("no panic", &e); return; } }
    let key = w.trace.join("; ");
    w.rep.case(&key, distinct > 1);
    let _ = w.pid;
}
fn hydrate(rep: &mut Report, rng: &mut Rng) {
    let mut w = W { rep, trace: vec![], pid: "C13", bad: false };
    let prefix = rng.pick(PREFIX).to_string();
    let (srv, rd) = build(rng, &prefix, true);
    let n = rng.below(6);
    let mut made: Vec<(bool, Option<String>, Src, String, String)> = vec![];
    for _ in 0..n {
        let (glob, x) = (rng.chance(1, 3), if !made.is_empty() && rng.chance(1, 4) { rng.pick(&made).2.clone() } else { src(rng) });
        let own = if !glob && rng.chance(1, 3) { Some(rng.pick(PREFIX).to_string()) } else { None };
        let h = create(rng, &srv, false, glob, own.as_deref(), &x);
        w.trace.push(format!("server: global {glob} prefix {own:?} (manager {prefix:?}) {}", x.show()));
        made.push((glob, own, x, h.id(), h.text()));
    }
    let data = rd.unwrap().read_style_data();
    let data: StyleData = match rng.below(3) {
        0 => data,
        1 => { let t = serde_json::to_string(&data).unwrap(); w.trace.push("through JSON text".into()); match serde_json::from_str(&t) { Ok(d) => d, Err(e) => { w.fail("data that reads back", &e.to_string()); return; } } }
        _ => { let t = serde_json::to_value(&data).unwrap(); w.trace.push("through a JSON value".into()); match serde_json::from_value(t) { Ok(d) => d, Err(e) => { w.fail("data that reads back", &e.to_string()); return; } } }
    };
    let (cl, crd) = { let ssr = rng.chance(1, 4); build(rng, &prefix, ssr) };
    let other = build(rng, &prefix, false).0;
    // something of the client's own may be there first
    let mut before: Option<(H, Src, bool)> = None;
    if rng.chance(1, 3) {
        let x = src(rng); let glob = rng.chance(1, 2);
        if !made.iter().any(|m| m.0 == glob && canon::sheet(&m.2.s) == canon::sheet(&x.s) && m.1.as_deref().unwrap_or(&prefix) == prefix) {
            w.trace.push(format!("client first: global {glob} {}", x.show())); before = Some((create(rng, &cl, false, glob, None, &x), x, glob));
        }
    }
    for _ in 0..1 + rng.below(2) { w.trace.push("load".into()); if let Err(e) = guarded(|| cl.load_style_data(&data)) { w.fail("data loads", &format!("panic: {e}")); return; } }
    let mut order: Vec<usize> = (0..made.len()).collect();
    if rng.chance(1, 2) { order.reverse(); }
    let mut hs = vec![];
    for k in order {
        let (glob, own, x, id, text) = &made[k];
        let h = create(rng, &cl, false, *glob, own.as_deref(), x);
        w.trace.push(format!("client: global {glob} prefix {own:?} {}", x.show()));
        if (h.id(), h.text()) != (id.clone(), text.clone()) { let g = format!("{} with {}", h.id(), h.text()); w.fail(&format!("{id} with {text}"), &g); return; }
        hs.push((h, k));
    }
    if let Some((h, x, glob)) = before { let g = create(rng, &cl, false, glob, None, &x); if g.id() != h.id() { w.fail(&h.id(), &g.id()); return; } }
    // another manager knows nothing of the loaded records; a style not in the data gets its own identity
    if let Some((glob, own, x, id, _)) = made.first() { let h = create(rng, &other, false, *glob, own.as_deref(), x); if h.id() == *id { w.trace.push("another manager".into()); w.fail("an identity of its own", &h.id()); return; } }
    let h = create(rng, &cl, false, false, None, &Src { s: "left: 9px;".parse().unwrap(), css: Some("left: 9px;") });
    if made.iter().any(|m| m.3 == h.id()) { w.fail("a new identity", &h.id()); return; }
    // a hydrated style belongs to this manager
    if let Some((h, k)) = hs.first() {
        h.unregister();
        w.trace.push("unregister a hydrated style".into());
        let (glob, own, x, id, _) = &made[*k];
        let g = create(rng, &cl, false, *glob, own.as_deref(), x);
        if g.id() == *id { w.fail("a new identity after unregistering", &g.id()); return; }
    }
    // loaded records are not rendered again by a client that records
    if let Some(r) = crd { let d = serde_json::to_value(r.read_style_data()).unwrap(); let ids: Vec<&str> = d.as_array().unwrap().iter().map(|x| x["id"].as_str().unwrap()).collect(); if made.iter().any(|m| ids.contains(&m.3.as_str())) { w.fail("only styles made here are recorded", &format!("{ids:?}")); return; } }
    // a manager that already gave the style another class refuses the data
    if let Some((glob, own, x, ..)) = made.first() {
        let c2 = build(rng, &prefix, false).0;
        create(rng, &c2, false, *glob, own.as_deref(), x);
        w.trace.push("load into a manager that has the style under another class".into());
        if guarded(|| c2.load_style_data(&data)).is_ok() { w.fail("the documented panic", "loaded silently"); return; }
    }
    let key = w.trace.join("; ");
    w.rep.case(&key, made.len() > 1);
}
fn main() {
    let a = args();
    let mut rep = Report::new();
    let mut rng = Rng::new(a.seed);
    let clock = Clock::new(a.secs);
    // the default manager of the thread
    {
        let s1 = Style::new("color: red; left: 0;").unwrap(); let s2 = Style::create("stylist", "color: red; left: 0;").unwrap(); let s3 = Style::create("other", "color: red; left: 0;").unwrap();
        let g1 = GlobalStyle::new("color: red; left: 0;").unwrap(); let g2 = GlobalStyle::new("color: red; left: 0;").unwrap();
        let t = "default manager: Style::new, Style::create(\"stylist\"), Style::create(\"other\"), GlobalStyle::new twice";
        if s1.id().to_string() != s2.id().to_string() || s1.id().to_string() == s3.id().to_string() || g1.id().to_string() != g2.id().to_string() || !id_ok(false, "stylist", s1.id()) || !id_ok(false, "other", s3.id()) || !id_ok(true, "stylist", g1.id()) {
            rep.violation(t, t, "equal requests share an identity", &format!("{} {} {} {} {}", s1.id(), s2.id(), s3.id(), g1.id(), g2.id()));
        }
    }
    while clock.more() && !rep.full() && rep.evals < 200_000 {
        match a.prop.as_str() { "C13" => hydrate(&mut rep, &mut rng), p => std::thread::scope(|t| { let (r, g) = (&mut rep, &mut rng); t.spawn(move || history(r, g, p)).join().ok(); }) }
    }
    rep.print();
}
