//! Contract overlay files: which items of /repo are extracted, and the contracts,
//! loop invariants and proof hints attached to them.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct LoopOv {
    pub inv: String,
    pub start: String,
    pub end: String,
    pub before: String,
    pub after: String,
}

#[derive(Default, Debug, Clone)]
pub struct FnOv {
    pub path: String,
    pub source: String,
    pub trait_: Option<String>,
    pub of: Option<String>,
    pub attrs: Vec<String>,
    pub trusted: bool,
    pub free: bool,
    /// `unreachable!` and `panic!` of this function are documented panics, not obligations
    pub maypanic: bool,
    pub ret: String,
    pub spec: String,
    pub entry: String,
    pub loops: BTreeMap<usize, LoopOv>,
    pub closures: BTreeMap<usize, String>,
    pub after: Vec<(String, usize, String)>,
    pub before: Vec<(String, usize, String)>,
    pub line: usize,
    pub props: Vec<String>,
    pub rename: Option<String>,
    /// replacement of the impl header (for blanket impls)
    pub header: String,
    /// what holds whenever `abort!` is reached (proof code)
    pub abort: String,
    /// the lemma groups of this function, instead of those of the unit
    pub bc: Option<Vec<String>>,
}

#[derive(Debug, Clone)]
pub enum Item {
    Raw(String, usize),
    Type { source: String, name: String, opts: Vec<String> },
    Fn(FnOv),
    Generated { source: String, kind: String },
}

#[derive(Default, Debug)]
pub struct Overlay {
    pub items: Vec<Item>,
    pub shared: Vec<String>,
    pub erase: Vec<String>,
    pub features: Vec<String>,
    pub subst_types: Vec<(String, String)>,
    pub subst_calls: Vec<(String, String)>,
    pub wrap_methods: Vec<(String, String)>,
    pub subst_bounds: Vec<(String, String)>,
    pub sources: Vec<String>,
    pub flags: Vec<String>,
    pub broadcast: Vec<String>,
    /// (parameter, type, operations) of explicit heaps for shared cells
    pub heaps: Vec<(String, String, Vec<String>)>,
    /// (parameter, type, methods and functions that take it) of explicit state behind shared references
    pub heap_fns: Vec<(String, String, Vec<String>)>,
}

impl Overlay {
    pub fn flag(&self, f: &str) -> bool {
        self.flags.iter().any(|x| x == f)
    }
}

pub fn load(path: &std::path::Path, out: &mut Overlay) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {e}", path.display()));
    let mut source = String::new();
    #[derive(Clone)]
    enum Sec {
        None,
        Raw,
        Spec,
        Entry,
        Loop(usize, u8),
        Closure(usize),
        Header,
        Abort,
        After(String, usize),
        Before(String, usize),
    }
    let mut sec = Sec::None;
    for (ln, line) in text.lines().enumerate() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("@@") {
            let mut p = d.split_whitespace();
            let k = p.next().unwrap();
            let n = p.next().unwrap_or("1").to_string();
            sec = match k {
                "entry" => Sec::Entry,
                "header" => Sec::Header,
                "abort" => Sec::Abort,
                "spec" => Sec::Spec,
                "loop" => Sec::Loop(n.parse().unwrap(), 0),
                "loopstart" => Sec::Loop(n.parse().unwrap(), 1),
                "loopend" => Sec::Loop(n.parse().unwrap(), 2),
                "loopbefore" => Sec::Loop(n.parse().unwrap(), 3),
                "loopafter" => Sec::Loop(n.parse().unwrap(), 4),
                "closure" => Sec::Closure(n.parse().unwrap()),
                "after" => Sec::After(n, p.next().unwrap_or("1").parse().unwrap()),
                "before" => Sec::Before(n, p.next().unwrap_or("1").parse().unwrap()),
                _ => panic!("{}:{}: unknown @@{}", path.display(), ln + 1, k),
            };
            continue;
        }
        if let Some(d) = t.strip_prefix('@') {
            let mut p = d.split_whitespace();
            let k = p.next().unwrap();
            let rest: Vec<String> = p.map(|s| s.to_string()).collect();
            sec = Sec::None;
            match k {
                "source" => {
                    source = rest[0].clone();
                    if !out.sources.contains(&source) {
                        out.sources.push(source.clone());
                    }
                }
                "include" => {
                    let p2 = path.parent().unwrap().join(&rest[0]);
                    load(&p2, out);
                }
                "raw" => {
                    out.items.push(Item::Raw(String::new(), ln + 2));
                    sec = Sec::Raw;
                }
                "type" => out.items.push(Item::Type {
                    source: source.clone(),
                    name: rest[0].clone(),
                    opts: rest[1..].to_vec(),
                }),
                "generated" => out.items.push(Item::Generated { source: source.clone(), kind: rest[0].clone() }),
                "fn" => {
                    let mut f = FnOv {
                        path: rest[0].clone(),
                        source: source.clone(),
                        ret: "r".into(),
                        line: ln + 1,
                        ..Default::default()
                    };
                    for o in &rest[1..] {
                        if let Some(v) = o.strip_prefix("trait=") {
                            f.trait_ = Some(v.into());
                        } else if let Some(v) = o.strip_prefix("of=") {
                            f.of = Some(v.into());
                        } else if let Some(v) = o.strip_prefix("ret=") {
                            f.ret = v.into();
                        } else if let Some(v) = o.strip_prefix("attr=") {
                            f.attrs.push(v.into());
                        } else if let Some(v) = o.strip_prefix("props=") {
                            f.props = v.split(',').map(|s| s.to_string()).collect();
                        } else if let Some(v) = o.strip_prefix("as=") {
                            f.rename = Some(v.into());
                        } else if let Some(v) = o.strip_prefix("bc=") {
                            f.bc = Some(v.split(',').map(|s| s.to_string()).collect());
                        } else if o == "trusted" {
                            f.trusted = true;
                        } else if o == "maypanic" {
                            f.maypanic = true;
                        } else if o == "free" {
                            f.free = true;
                        } else {
                            panic!("{}:{}: bad option {}", path.display(), ln + 1, o);
                        }
                    }
                    out.items.push(Item::Fn(f));
                    sec = Sec::Spec;
                }
                "shared" => out.shared.extend(rest),
                "erase" => out.erase.extend(rest),
                "feature" => out.features.extend(rest),
                "broadcast" => out.broadcast.extend(rest),
                "heap" => out.heaps.push((rest[0].clone(), rest[1].clone(), rest[2..].to_vec())),
                "heapfn" => out.heap_fns.push((rest[0].clone(), rest[1].clone(), rest[2..].to_vec())),
                "flag" => out.flags.extend(rest),
                "substtype" => out.subst_types.push((rest[0].clone(), rest[1..].join(" "))),
                "substcall" => out.subst_calls.push((rest[0].clone(), rest[1..].join(" "))),
                "substbound" => out.subst_bounds.push((rest[0].clone(), rest[1..].join(" "))),
                "wrapmethod" => out.wrap_methods.push((rest[0].clone(), rest[1].clone())),
                "#" => {}
                _ => panic!("{}:{}: unknown @{}", path.display(), ln + 1, k),
            }
            continue;
        }
        let dst: &mut String = match (&sec, out.items.last_mut()) {
            (Sec::Raw, Some(Item::Raw(s, _))) => s,
            (Sec::Spec, Some(Item::Fn(f))) => &mut f.spec,
            (Sec::Entry, Some(Item::Fn(f))) => &mut f.entry,
            (Sec::Header, Some(Item::Fn(f))) => &mut f.header,
            (Sec::Abort, Some(Item::Fn(f))) => &mut f.abort,
            (Sec::Loop(n, w), Some(Item::Fn(f))) => {
                let l = f.loops.entry(*n).or_default();
                match w {
                    0 => &mut l.inv,
                    1 => &mut l.start,
                    2 => &mut l.end,
                    3 => &mut l.before,
                    _ => &mut l.after,
                }
            }
            (Sec::Closure(n), Some(Item::Fn(f))) => f.closures.entry(*n).or_default(),
            (Sec::After(n, k), Some(Item::Fn(f))) => {
                if !f.after.iter().any(|a| &a.0 == n && a.1 == *k) {
                    f.after.push((n.clone(), *k, String::new()));
                }
                &mut f.after.iter_mut().find(|a| &a.0 == n && a.1 == *k).unwrap().2
            }
            (Sec::Before(n, k), Some(Item::Fn(f))) => {
                if !f.before.iter().any(|a| &a.0 == n && a.1 == *k) {
                    f.before.push((n.clone(), *k, String::new()));
                }
                &mut f.before.iter_mut().find(|a| &a.0 == n && a.1 == *k).unwrap().2
            }
            _ => {
                if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
                    panic!("{}:{}: stray text", path.display(), ln + 1);
                }
                continue;
            }
        };
        dst.push_str(line);
        dst.push('\n');
    }
}

impl FnOv {
    /// The name the function has in the emitted text (its path, with an `as=` name as last part).
    pub fn vname(&self) -> String {
        let h = self.header.trim();
        if let (false, Some((_, n))) = (h.is_empty(), self.path.rsplit_once("::")) {
            // `impl<T: X> Type<T>`: the functions are named after `Type`
            let mut depth = 0;
            let mut rest = &h[4..];
            if rest.starts_with('<') {
                for (i, c) in rest.char_indices() {
                    if c == '<' { depth += 1 } else if c == '>' { depth -= 1; if depth == 0 { rest = &rest[i + 1..]; break } }
                }
            }
            let ty: String = rest.trim().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            return format!("{ty}::{}", self.rename.as_deref().unwrap_or(n));
        }
        match (&self.rename, self.path.rsplit_once("::")) {
            (None, _) => self.path.clone(),
            (Some(n), Some((o, _))) => format!("{o}::{n}"),
            (Some(n), None) => n.clone(),
        }
    }
}
