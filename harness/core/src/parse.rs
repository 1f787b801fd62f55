//! C03: the parser against an independent reading of style texts.
use hcore::*;
use stylist_core::ast::*;

// ---------------------------------------------------------------- values: texts of fragments put together
fn cat(v: &[StringFragment]) -> String { v.iter().map(|f| f.inner.as_ref()).collect() }
fn rbc(c: &RuleBlockContent) -> String { match c { RuleBlockContent::StyleAttr(a) => decl(&a.key, &cat(&a.value)), RuleBlockContent::Rule(r) => rule(r), RuleBlockContent::Block(b) => block(b) } }
fn decl(k: &str, v: &str) -> String { format!("{}: {}", jstr(k), jstr(v)) }
fn many<'a, T: 'a>(v: impl IntoIterator<Item = &'a T>, f: impl Fn(&'a T) -> String) -> String { v.into_iter().map(f).collect::<Vec<_>>().join("; ") }
fn mk_rule(c: &str, b: &str) -> String { format!("RULE {} [{b}]", jstr(c)) }
fn mk_block(c: &[String], b: &str) -> String { format!("BLOCK ({}) [{b}]", c.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")) }
fn rule(r: &Rule) -> String { mk_rule(&cat(&r.condition), &many(r.content.iter(), rbc)) }
fn block(b: &Block) -> String { mk_block(&b.condition.iter().map(|s| cat(&s.fragments)).collect::<Vec<_>>(), &many(b.content.iter(), rbc)) }
pub fn value(s: &Sheet) -> String { many(s.iter(), |c| match c { ScopeContent::Block(b) => block(b), ScopeContent::Rule(r) => rule(r) }) }

// ---------------------------------------------------------------- the independent reading
struct Rd { t: Vec<char> }
type R<T> = Option<(T, usize)>;
impl Rd {
    fn at(&self, i: usize) -> Option<char> { self.t.get(i).copied() }
    fn is(&self, i: usize, s: &str) -> bool { s.chars().enumerate().all(|(k, c)| self.at(i + k) == Some(c)) }
    fn text(&self, i: usize, j: usize) -> String { self.t[i..j].iter().collect() }
    fn trimmed(&self, i: usize, j: usize) -> String { self.text(i, j).trim().to_string() }
    fn find(&self, i: usize, s: &str) -> Option<usize> { (i..=self.t.len()).find(|k| self.is(*k, s)) }
    /// Past whitespace and complete comments.
    fn blank(&self, mut i: usize) -> usize {
        loop {
            match self.at(i) {
                Some(' ' | '\t' | '\r' | '\n') => i += 1,
                Some('/') if self.at(i + 1) == Some('*') => match self.find(i + 2, "*/") { Some(e) => i = e + 2, None => return i },
                _ => return i,
            }
        }
    }
    fn quoted(&self, i: usize) -> Option<usize> {
        let mut j = self.blank(i);
        if self.at(j)? != '"' { return None; }
        j += 1;
        loop { match self.at(j)? { '"' => return Some(self.blank(j + 1)), '\\' => { self.at(j + 1)?; j += 2 } _ => j += 1 } }
    }
    fn interp(&self, i: usize) -> Option<usize> {
        let mut j = self.blank(i);
        if !self.is(j, "${") { return None; }
        j = self.blank(j + 2);
        if !self.at(j)?.is_ascii_alphabetic() { return None; }
        while self.at(j).map_or(false, |c| c.is_ascii_alphanumeric() || c == '_') { j += 1; }
        j = self.blank(j);
        if self.at(j)? == '}' { Some(self.blank(j + 1)) } else { None }
    }
    fn value_piece(&self, i: usize) -> Option<usize> {
        let c = self.at(i)?;
        if !"${;}/\"".contains(c) { return Some(i + 1); }
        if let Some(j) = self.interp(i).or_else(|| self.quoted(i)) { return Some(j); }
        if c == '/' { let d = self.at(i + 1)?; if d == '/' || (d != '*' && !"${;}\"".contains(d)) { return Some(i + 2); } }
        None
    }
    fn pieces(&self, i: usize, f: impl Fn(usize) -> Option<usize>) -> Option<usize> { let mut j = f(i)?; while let Some(k) = f(j) { j = k; } Some(j) }
    fn declaration(&self, i: usize) -> R<String> {
        let a = self.blank(i);
        let st = |c: char| c == '-' || c == '_' || c.is_ascii_alphabetic() || !c.is_ascii();
        if !st(self.at(a)?) { return None; }
        let mut b = a;
        while self.at(b).map_or(false, |c| st(c) || c.is_ascii_digit()) { b += 1; }
        let c = self.blank(b);
        if self.at(c)? != ':' { return None; }
        let v = self.blank(c + 1);
        let w = self.pieces(v, |k| self.value_piece(k))?;
        Some((decl(&self.trimmed(a, b), &self.trimmed(v, w)), self.blank(w)))
    }
    /// Declarations separated by `;`; `open`: outside of braces, where the last `;` is needed.
    fn declarations(&self, i: usize, open: bool) -> R<Vec<String>> {
        let (d, mut j) = self.declaration(i)?;
        let mut l = vec![d];
        while self.at(j) == Some(';') { match self.declaration(j + 1) { Some((d, k)) => { l.push(d); j = k; } None => break } }
        j = self.blank(j);
        if self.at(j) == Some(';') { return Some((l, self.blank(j + 1))); }
        if open { None } else { Some((l, j)) }
    }
    fn selector(&self, i: usize) -> R<String> {
        let a = self.blank(i);
        let piece = |k: usize| -> Option<usize> {
            match self.at(k)? {
                '}' | '@' | '$' | ',' | '"' | '{' => self.quoted(k).or_else(|| self.interp(k)),
                _ => { let mut m = k; while self.at(m).map_or(false, |c| !"$,\"{".contains(c)) { m += 1; } Some(m) }
            }
        };
        let b = self.pieces(a, piece)?;
        Some((self.trimmed(a, b), self.blank(b)))
    }
    fn selectors(&self, i: usize) -> R<Vec<String>> {
        let (mut l, mut j) = (vec![], i);
        while let Some((s, k)) = self.selector(j) { l.push(s); j = k; if self.at(j) == Some(',') { j += 1; } }
        if l.is_empty() { None } else { Some((l, self.blank(j))) }
    }
    fn at_head(&self, i: usize, words: &[&str]) -> R<String> {
        let a = self.blank(i);
        let w = words.iter().find(|w| self.is(a, &format!("{w} ")))?;
        let b = a + w.chars().count() + 1;
        let c = self.pieces(b, |k| match self.at(k)? { '$' | '{' => self.interp(k), _ => Some(k + 1) })?;
        Some((format!("{w} {}", self.trimmed(b, c)), self.blank(c)))
    }
    fn braces<T>(&self, i: usize, f: impl Fn(usize) -> (T, usize)) -> R<T> {
        if self.at(i)? != '{' { return None; }
        let (v, j) = f(self.blank(i + 1));
        let k = self.blank(j);
        if self.at(k)? == '}' { Some((v, self.blank(k + 1))) } else { None }
    }
    fn items(&self, mut i: usize) -> (Vec<String>, usize) {
        let mut l = vec![];
        loop {
            if let Some((d, j)) = self.declarations(i, false) { l.extend(d); i = j; }
            else if let Some((r, j)) = self.inner_rule(i) { l.push(r); i = j; }
            else { return (l, i); }
        }
    }
    fn inner_rule(&self, i: usize) -> R<String> {
        let (c, j) = self.at_head(i, &["@media", "@supports", "@container"])?;
        let (l, k) = self.braces(j, |x| self.items(x))?;
        Some((mk_rule(&c, &l.join("; ")), k))
    }
    fn frame(&self, i: usize) -> R<String> {
        let a = self.blank(i);
        let (_, j) = self.selectors(i)?;
        let (l, k) = self.braces(j, |x| self.items(x))?;
        Some((mk_rule(&self.trimmed(a, j), &l.join("; ")), k))
    }
    fn scope(&self, i: usize) -> R<String> {
        if let Some((l, j)) = self.declarations(i, true) { return Some((mk_block(&[], &l.join("; ")), j)); }
        if let Some((s, j)) = self.selectors(i) { if let Some((l, k)) = self.braces(j, |x| self.items(x)) { return Some((mk_block(&s, &l.join("; ")), k)); } }
        if let Some((c, j)) = self.at_head(i, &["@media", "@supports", "@container"]) { if let Some((l, k)) = self.braces(j, |x| self.scopes(x)) { return Some((mk_rule(&c, &l.join("; ")), k)); } }
        if let Some((c, j)) = self.at_head(i, &["@keyframes"]) {
            let fs = |mut x: usize| { let mut l = vec![]; while let Some((f, y)) = self.frame(x) { l.push(f); x = y; } (l, x) };
            if let Some((l, k)) = self.braces(j, fs) { return Some((mk_rule(&c, &l.join("; ")), k)); }
        }
        None
    }
    fn scopes(&self, mut i: usize) -> (Vec<String>, usize) { let mut l = vec![]; while let Some((s, j)) = self.scope(i) { l.push(s); i = j; } (l, i) }
}
pub fn read(t: &str) -> Option<String> {
    let r = Rd { t: t.chars().collect() };
    let (l, j) = r.scopes(r.blank(0));
    if r.blank(j) == r.t.len() { Some(l.join("; ")) } else { None }
}

// ---------------------------------------------------------------- texts
struct Gen<'a> { r: &'a mut Rng }
impl Gen<'_> {
    fn w(&mut self) -> &'static str { self.r.pick(&["", "", "", " ", "\n", "\t", "\r\n", " /* x */ ", "/**/", "/* } */", "/*;*/", "  ", "/***/", "/* \" */"]) }
    fn name(&mut self) -> String { self.r.pick(&["a", "color", "-b", "--c", "_d", "é", "x1", "background-image", "Z9-_", "日本", "a日", "--"]).to_string() }
    fn string(&mut self) -> String { let n = self.r.below(4); let mut s = String::from("\""); for _ in 0..n { s.push_str(self.r.pick(&["x", " ", ";", "}", "{", "\\\"", "\\\\", "\\n", "/*", "*/", "$", "${a}", ",", "é", "\n", "'", "@media "])); } s.push('"'); s }
    fn interp(&mut self) -> String { format!("${{{}{}{}}}", self.w(), self.r.pick(&["a", "b_1", "Xy", "z9"]), self.w()) }
    fn value(&mut self) -> String {
        let n = 1 + self.r.below(4); let mut s = String::new();
        for _ in 0..n { match self.r.below(12) { 0 => s += &self.string(), 1 => s += &self.interp(), 2 => s.push_str(self.r.pick(&["/", "//", " / ", "url(http://a/b)", "/a", "/ /"])), 3 => s.push_str(self.r.pick(&["\u{a0}", "\u{2003}", "\u{b}", "日", "😀", ":", ",", "(", ")", "@", "!important", "#fff", "&", "*", "\\", "'", "~"])), 4 => s += self.w(), _ => s.push_str(self.r.pick(&["red", "1px", "calc(1px + 2px)", "a b", " ", "solid", "0", "f(1, 2)", "-1"])) } }
        s
    }
    fn selector(&mut self) -> String {
        let n = 1 + self.r.below(3); let mut s = String::new();
        for _ in 0..n { match self.r.below(9) { 0 => s += &self.interp(), 1 => { s += "[a="; s += &self.string(); s += "]"; } 2 => s.push_str(self.r.pick(&["}", "@", ";", ":", "\\", "\u{a0}", "/", "/*c*/", "(", ")", "日"])), 3 => s += self.w(), _ => s.push_str(self.r.pick(&["a", ".b", "&", "#c", " ", "> d", ":hover", "&:not(.x)", "::after", "*", "from", "50%", "to", "e f"])) } }
        s
    }
    fn selectors(&mut self) -> String { let n = 1 + self.r.below(3); let mut s = String::new(); for k in 0..n { if k > 0 { s += self.r.pick(&[",", ", ", " ,", ",", ",\n", ",,"]); } s += &self.selector(); } s }
    fn cond(&mut self) -> String { let n = 1 + self.r.below(3); let mut s = String::new(); for _ in 0..n { match self.r.below(8) { 0 => s += &self.interp(), 1 => s += self.w(), 2 => s.push_str(self.r.pick(&["\"", ";", "}", ",", "@", "日", "\u{a0}", "/*c*/"])), _ => s.push_str(self.r.pick(&["screen", " and ", "(max-width: 5px)", "print", " ", "name", "x"])) } } s }
    fn decl(&mut self) -> String { format!("{}{}{}:{}{}{}", self.w(), self.name(), self.w(), self.w(), self.value(), self.w()) }
    fn items(&mut self, d: usize) -> String {
        let n = self.r.below(4); let mut s = self.w().to_string();
        for k in 0..n {
            if d > 0 && self.r.chance(1, 4) { s += &format!("{} {}{{{}}}{}", self.r.pick(&["@media", "@supports", "@container"]), self.cond(), self.items(d - 1), self.w()); }
            else { s += &self.decl(); if k + 1 < n || self.r.chance(2, 3) { s += ";"; } s += self.w(); }
        }
        s
    }
    fn scope(&mut self, d: usize) -> String {
        match self.r.below(8) {
            0 | 1 => { let n = 1 + self.r.below(3); let mut s = String::new(); for _ in 0..n { s += &self.decl(); s += ";"; } s }
            2 | 3 if d > 0 => format!("{} {}{{{}}}", self.r.pick(&["@media", "@supports", "@container"]), self.cond(), self.scopes(d - 1)),
            4 => { let n = self.r.below(3); let mut s = format!("@keyframes {}{{{}", self.cond(), self.w()); for _ in 0..n { s += &format!("{}{}{{{}}}{}", self.w(), self.selectors(), self.items(1), self.w()); } s + "}" }
            _ => format!("{}{}{{{}}}", self.selectors(), self.w(), self.items(d)),
        }
    }
    fn scopes(&mut self, d: usize) -> String { let n = self.r.below(4); let mut s = self.w().to_string(); for _ in 0..n { s += &self.scope(d); s += self.w(); } s }
}
const BITS: &[&str] = &[";", ":", "{", "}", ",", "\"", "\\", "/", "*", "$", "${a}", "${ a1 }", "@media ", "@keyframes ", "@supports ", "@container ", "@media", "@", " ", "\n", "a", "b:c;", "b:c", "é", "&", "/*", "*/", "//", "a{", "a{b:c}", "1", "_", "-", "@font-face ", "@media x", "@keyframes k{", "from{", "\u{a0}", "(", ")"];
fn mutate(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(3) {
        let i = r.below(v.len() + 1);
        match r.below(6) { 0 if i < v.len() => { v.remove(i); } 1 => v.truncate(i), 2 if i < v.len() => { let j = r.below(v.len()); v.swap(i, j); } _ => { let b: Vec<char> = r.pick(BITS).chars().collect(); v.splice(i..i, b).for_each(drop); } }
    }
    v.into_iter().collect()
}
const FIXED: &[&str] = &["", " ", "/*", "/*/", "/**/", "a:b", "a:b;", "a:b;;", ";", "a{}", "a{b:c}", "a{;}", "a,{b:c;}", ",a{}", "a,,b{}", "@media x{}", "@media x { }", "@media x { a { @media y { } } }", "@keyframes k {}", "@keyframes k { from {} }", "@keyframes k { from { } to { a: b } }", "@keyframes k { }",
    "a:${b};", "a: ${ b };", "a:${1};", "a:$;", "a:\"\\\"\";", "a:\"", "a:\"\\", "a:b/c;", "a:b//c;", "a:b/*c*/d;", "a:/;", "a:b/", "@mediax{}", "@media{}", "@media {a{b:c;}}", "}", "a}b{c:d;}", "a{b:c;}}", "a{b:c;", "a{b:c; d{e:f;}}", "@media x{b:c;}", "@media x{b:c}", "@font-face{a:b;}", "a\"{\"{b:c;}", "a\"\\\"{\"{b:c;}", "a:b;c{d:e;}f:g;", "é:ü;", "1a:b;", "a1:b;", "-:b;", "a b:c;", "a/**/:/**/b/**/;", "/* a */ /* b */ a:b;", "a { /* x */ }", "a:b c ;", "a:\u{a0}b\u{a0};", "@import \"x\";", "@media x;", "a:{;}", "a: {b};"];
pub fn one(rep: &mut Report, t: &str) {
    let want = match read(t) { Some(v) => format!("sheet: {v}"), None => "refused".into() };
    rep.case(&format!("{t:?}"), want != "refused" && want.len() > 20);
    let got = match guarded(|| t.parse::<Sheet>()) { Ok(Ok(s)) => format!("sheet: {}", value(&s)), Ok(Err(_)) => "refused".into(), Err(p) => format!("panic {p}") };
    if got != want { rep.violation(t, &format!("parsing {t:?}"), &want, &got); }
}
pub fn c03(rep: &mut Report, rng: &mut Rng, clock: &Clock) {
    for t in FIXED { one(rep, t); }
    let mut n = 0u64;
    while clock.more() && !rep.full() {
        let d = rng.below(4);
        let t = Gen { r: &mut *rng }.scopes(d);
        one(rep, &t);
        let m = mutate(rng, &t); one(rep, &m);
        let m = mutate(rng, FIXED[n as usize % FIXED.len()]); one(rep, &m);
        let k = rng.below(9); let s: String = (0..k).map(|_| *rng.pick(BITS)).collect(); one(rep, &s);
        n += 1;
        if n > 150_000 { break; } // parsed texts stay in the cache of the library
    }
}
