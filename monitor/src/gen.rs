//! Grammar-directed generator of Modelica sources: random derivations with
//! swarm-style random weights, random lexemes, random layout and comments.
use crate::gram::*;
use crate::layout;
use crate::lex::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub target: usize,
    pub depth: usize,
    pub opt_p: f64,
    pub star_p: f64,
    pub burst_p: f64,
    pub deep_p: f64,
    /// per-rule alternative weights (swarm)
    pub wseed: u64,
    pub wspread: f64,
}

impl Cfg {
    pub fn random(r: &mut Rng, scale: usize) -> Cfg {
        let sizes = [10, 30, 60, 120, 250, 500, 1200];
        let t = *r.pick(&sizes[..(3 + scale).min(sizes.len())]);
        Cfg {
            target: t,
            depth: *r.pick(&[2, 3, 4, 5, 6, 8, 12]),
            opt_p: *r.pick(&[0.1, 0.25, 0.4, 0.5, 0.6, 0.85]),
            star_p: *r.pick(&[0.2, 0.4, 0.55, 0.7, 0.85]),
            burst_p: if r.chance(0.15) { 0.02 } else { 0.0 },
            deep_p: if r.chance(0.1) { 0.05 } else { 0.0 },
            wseed: r.u64(),
            wspread: *r.pick(&[0.0, 1.0, 2.0, 4.0]),
        }
    }
}

pub struct Gen<'a> {
    pub g: &'a Grammar,
    pub cfg: Cfg,
    out: Vec<Sym>,
    depth: usize,
    counted: Vec<bool>,
    eq: RuleId,
    ex: RuleId,
    s_end: Sym,
}

/// The generator's grammar: like the reference grammar, but with the strict
/// form of equations (the reference recogniser is as lenient as the tool).
pub fn gen_grammar() -> Grammar {
    let strict = GRAMMAR
        .replace("simple_expression ('=' expression)?)", "simple_expression '=' expression | component_reference function_call_args)")
        .replace("!'end' ", "");
    assert!(strict != GRAMMAR);
    let strict = strict.replace("&(IDENT '=') ", "");
    Grammar::from_text(&strict)
}

impl<'a> Gen<'a> {
    pub fn new(g: &'a Grammar, cfg: Cfg) -> Gen<'a> {
        let counted = g
            .names
            .iter()
            .map(|n| {
                matches!(
                    n.as_str(),
                    "expression" | "class_definition" | "equation" | "statement" | "class_modification" | "class_or_inheritance_modification"
                )
            })
            .collect();
        Gen {
            g,
            cfg,
            out: Vec::new(),
            depth: 0,
            counted,
            eq: g.rule("equation"),
            ex: g.rule("expression"),
            s_end: sym("end"),
        }
    }
    pub fn derive(mut self, rule: RuleId, r: &mut Rng) -> Vec<Sym> {
        self.rule(rule, r);
        self.out
    }
    fn tight(&self) -> bool {
        self.depth >= self.cfg.depth || self.out.len() >= self.cfg.target
    }
    fn rule(&mut self, id: RuleId, r: &mut Rng) {
        let c = self.counted[id as usize];
        if c {
            self.depth += 1;
        }
        let mark = self.out.len();
        let g = self.g;
        if id == self.ex && self.cfg.deep_p > 0.0 && self.out.len() < self.cfg.target && r.chance(self.cfg.deep_p) {
            self.deep(r);
        } else {
            self.ex(&g.rules[id as usize], id, 1, r);
        }
        if id == self.eq {
            // an equation that starts with the primary `end` cannot be told
            // from the keyword at that place
            let mut tries = 0;
            while self.out[mark] == self.s_end {
                self.out.truncate(mark);
                tries += 1;
                if tries > 4 {
                    for s in ["connect", "(", "IDENT", ",", "IDENT", ")"] {
                        self.out.push(sym(s));
                    }
                    break;
                }
                self.ex(&g.rules[id as usize], id, 1, r);
            }
        }
        if c {
            self.depth -= 1;
        }
    }
    fn deep(&mut self, r: &mut Rng) {
        let k = r.range(3, 40);
        let mut tails: Vec<Vec<&str>> = Vec::new();
        let one = r.chance(0.5);
        let fixed = r.below(11);
        for _ in 0..k {
            let w = if one { fixed } else { r.below(11) };
            let (pre, post): (Vec<&str>, Vec<&str>) = match w {
                0 => (vec!["("], vec![")"]),
                1 => (vec!["{"], vec!["}"]),
                2 => (vec!["IDENT", "("], vec![")"]),
                3 => (vec!["if", "IDENT", "then"], vec!["else", "UINT"]),
                4 => (vec!["-", "("], vec![")"]),
                5 => (vec!["IDENT", "["], vec!["]"]),
                6 => (vec!["["], vec!["]"]),
                7 => (vec!["not", "("], vec![")"]),
                8 => (vec!["UINT", "^", "("], vec![")"]),
                9 => (vec!["IDENT", "(", "IDENT", "="], vec![")"]),
                _ => (vec!["(", "UINT", "*", "("], vec![")", "+", "IDENT", ")"]),
            };
            for p in pre {
                self.out.push(sym(p));
            }
            tails.push(post);
        }
        self.out.push(IDENT);
        for t in tails.iter().rev() {
            for p in t {
                self.out.push(sym(p));
            }
        }
    }
    fn weights(&self, rule: RuleId, salt: u64, n: usize) -> Vec<f64> {
        let mut w = Rng::of(&[self.cfg.wseed, rule as u64, salt, n as u64]);
        (0..n).map(|_| (w.f() * self.cfg.wspread).exp()).collect()
    }
    fn ex(&mut self, e: &Ex, rule: RuleId, salt: u64, r: &mut Rng) {
        match e {
            Ex::Tok(s) => self.out.push(*s),
            Ex::Rule(id) => self.rule(*id, r),
            Ex::Seq(v) => {
                for (i, x) in v.iter().enumerate() {
                    self.ex(x, rule, salt * 31 + i as u64, r);
                }
            }
            Ex::Alt(v) => {
                let k = if self.tight() {
                    let hs: Vec<(usize, usize)> = v.iter().map(|x| self.g.min_of(x)).collect();
                    let m = hs.iter().map(|h| h.1).min().unwrap();
                    let c: Vec<usize> = (0..v.len()).filter(|i| hs[*i].1 == m).collect();
                    *r.pick(&c)
                } else {
                    r.weighted(&self.weights(rule, salt, v.len()))
                };
                self.ex(&v[k], rule, salt * 31 + 7 + k as u64, r);
            }
            Ex::Opt(x) => {
                let p = if self.tight() { 0.03 } else { self.cfg.opt_p * (0.5 + self.weights(rule, salt, 1)[0].min(1.5) * 0.5) };
                let cheap = self.g.min_of(x).1 <= 1;
                if (!self.tight() || cheap) && r.chance(p.min(0.95)) {
                    self.ex(x, rule, salt * 31 + 3, r);
                }
            }
            Ex::Star(x) => {
                let mut k = 0;
                if !self.tight() {
                    while k < 12 && r.chance(self.cfg.star_p) {
                        k += 1;
                    }
                    if self.cfg.burst_p > 0.0 && r.chance(self.cfg.burst_p) {
                        k = if r.chance(0.15) { r.range(250, 300) } else { r.range(20, 130) };
                    }
                    // the top of a file and section bodies are never empty for long
                    if k == 0 && self.out.is_empty() {
                        k = 1;
                    }
                }
                for _ in 0..k {
                    self.ex(x, rule, salt * 31 + 5, r);
                }
            }
            Ex::Not(_) | Ex::And(_) => (),
        }
    }
}

// ---- lexemes -----------------------------------------------------------------

const NAMES: [&str; 88] = [
    "time", "assert", "terminate", "reinit", "pre", "edge", "change", "sample", "smooth", "homotopy", "size", "noEvent", "delay", "abs", "max",
    "String", "Boolean", "Placement", "Icon", "Diagram", "Documentation", "info", "Dialog", "experiment", "choices", "Evaluate", "Line", "points",
    "Rectangle", "extent", "version", "uses", "Medium", "SI", "K", "l", "O0", "is", "o", "an", "en", "ends", "for_", "I", "R2", "state", "start", "fixed",
    "x", "y", "Foo", "bar_1", "R", "Real", "T", "i", "a1", "Modelica", "pi", "phi2", "_", "_x", "End", "endx", "end_",
    "modelx", "iff", "If", "not_", "in1", "e", "E1", "true_", "False", "TRUE", "within1", "algorithms", "initialize",
    "derx", "Der", "connectx", "connection", "Annotation", "nan", "x1e5", "stateSelect", "elseiff", "Integer",
];
const QUOTED: [&str; 16] = [
    "'q'", "'with space'", "'a.b'", "'x\"y'", "'//not a comment'", "'/* no */'", "'\\''", "'\\\\'", "'end'", "'1+2'", "'a;b'",
    "'{[()]}'", "'Quoted record \"whatever\"'", "'~|^@?'", "'\\n\\t'", "'model'",
];
const UINTS: [&str; 9] = ["0", "1", "2", "42", "007", "10", "1234567890123456789012345", "3", "12"];
const UREALS: [&str; 15] = [
    "0.5", "1.", "1e5", "1E5", "2.5e-3", "1.e+7", "0.0", "3.14159", "1e-10", "5.E2", "12.34E+056", "1e0", "00.10", "9.99e99", "1.0",
];
const STRS: [&str; 24] = [
    "\"\"", "\"a\"", "\"Some text\"", "\"m\"", "\"ąęł\"", "\"日本語 text\"", "\"emoji 🎉\"", "\"esc \\\" quote\"",
    "\"back\\\\slash\"", "\"\\n\\t\"", "\"// no comment\"", "\"/* no */ \"", "\"end model\"", "\"  two  spaces  \"",
    "\"line1\nline2\"", "\"l1\r\nl2\"", "\"a;b,c\"", "\"<html>\n<p>x</p>\n</html>\"", "\"'q'\"", "\"tab\there\"",
    "\"trailing \"", "\"\n\"", "\"é\"", "\"x + y\"",
];

const ANY: [char; 44] = [
    'a', 'b', 'z', 'Q', 'e', '0', '7', '9', '_', ' ', ' ', ' ', '\t', '.', ',', ';', ':', '(', ')', '[', ']', '{', '}', '+', '-', '*', '/', '<', '>', '=',
    '!', '#', '$', '%', '&', '?', '@', '^', '|', '~', '`', 'ä', '中', '🎉',
];

/// Random text of ordinary and odd characters, none of those in `not`.
fn any_text(n: usize, not: &str, r: &mut Rng) -> String {
    let mut t = String::new();
    let plain = r.chance(0.4);
    while t.chars().count() < n {
        let c = if plain { *r.pick(&ANY[..10]) } else if r.chance(0.02) { *r.pick(&['\u{0}', '\u{7f}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{301}', '\u{b}']) } else { *r.pick(&ANY) };
        if !not.contains(c) {
            t.push(c);
        }
    }
    t
}

/// A lexeme of random content.
fn odd_lexeme(s: Sym, r: &mut Rng) -> Option<String> {
    let digits = |r: &mut Rng, n: usize| (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
    Some(match s {
        IDENT if r.chance(0.4) => {
            let mut t = String::from("'");
            for _ in 0..r.range(1, 15) {
                if r.chance(0.1) {
                    t.push_str(r.pick(&["\\'", "\\\"", "\\\\", "\\n", "\\t", "\\?"]));
                } else {
                    t.push_str(&any_text(1, "'\\`\t$ä中🎉\u{0}\u{7f}\u{a0}\u{2028}\u{feff}\u{301}\u{b}", r));
                }
            }
            t.push('\'');
            t
        }
        IDENT => {
            let set = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
            let n = r.range(1, 16);
            let mut t: String = (0..n).map(|k| set[r.below(if k == 0 { 53 } else { set.len() })] as char).collect();
            if lex(&t).all[0].sym != IDENT {
                t.push('_');
            }
            t
        }
        UINT => {
            let n = r.range(1, 25);
            digits(r, n)
        }
        UREAL => {
            let (n, m, k) = (r.range(1, 8), r.below(8), r.range(1, 4));
            let mut t = digits(r, n);
            let dot = r.chance(0.7);
            if dot {
                t.push('.');
                t.push_str(&digits(r, m));
            }
            if !dot || r.chance(0.5) {
                t.push_str(r.pick(&["e", "E", "e+", "e-", "E+", "E-"]));
                t.push_str(&digits(r, k));
            }
            t
        }
        STRING => {
            let mut t = String::from("\"");
            for _ in 0..r.below(30) {
                match r.below(12) {
                    0 => t.push_str(r.pick(&["\\'", "\\\"", "\\\\", "\\n", "\\t", "\\?", "\\r"])),
                    1 => t.push_str(r.pick(&["\n", "\n", "\r\n", " \n", "\n\n", "\t\n  "])),
                    2 => t.push_str(r.pick(&["/*", "*/", "//", "''", "end", ";"])),
                    _ => t.push_str(&any_text(1, "\"\\", r)),
                }
            }
            t.push('"');
            t
        }
        _ => return None,
    })
}

pub fn lexeme(s: Sym, r: &mut Rng, plain: bool) -> String {
    if !plain && r.chance(0.08) {
        if let Some(t) = odd_lexeme(s, r) {
            return t;
        }
    }
    match s {
        IDENT => {
            if plain {
                return r.pick(&NAMES[..12]).to_string();
            }
            match r.below(20) {
                0..=12 => r.pick(&NAMES).to_string(),
                13..=14 => {
                    let n = r.range(1, 12);
                    let mut t = String::new();
                    for k in 0..n {
                        let set = if k == 0 { "abcxyzABCXYZ_" } else { "abcxyzABCXYZ_019" };
                        let b = set.as_bytes();
                        t.push(b[r.below(b.len())] as char);
                    }
                    if lex(&t).all[0].sym != IDENT {
                        t.push('_');
                    }
                    t
                }
                15 => {
                    // keyword look-alikes
                    let k = FIXED[r.below(NKW)];
                    match r.below(4) {
                        0 => format!("{k}_"),
                        1 => format!("{k}1"),
                        2 => {
                            let mut t = k.to_string();
                            t[..1].make_ascii_uppercase();
                            t
                        }
                        _ => format!("_{k}"),
                    }
                }
                16 if r.chance(0.1) => "n".repeat(r.range(30, 400)),
                _ => r.pick(&QUOTED).to_string(),
            }
        }
        UINT => {
            if plain || r.chance(0.8) {
                r.pick(&UINTS[..4]).to_string()
            } else {
                r.pick(&UINTS).to_string()
            }
        }
        UREAL => r.pick(&UREALS).to_string(),
        STRING => {
            if plain {
                return r.pick(&STRS[..4]).to_string();
            }
            if r.chance(0.02) {
                let mut t = String::from("\"");
                for _ in 0..r.range(50, 600) {
                    t.push(*r.pick(&['a', ' ', 'ż', '\n', '*', '/', ';', '\'', '€']));
                }
                t.push('"');
                return t;
            }
            r.pick(&STRS).to_string()
        }
        BOOL => if r.chance(0.5) { "true" } else { "false" }.to_string(),
        _ => FIXED[s as usize].to_string(),
    }
}

const LCOM: [&str; 17] = [
    "// c", "//", "// note: x = 1;", "//\"", "// /* open", "// */", "//// four", "// ąć", "// ends \\", "//x", "// 🎉 party",
    "// end Foo;", "// tab\there", "// trailing  ", "//'", "// model A", "//\t",
];
const BCOM: [&str; 19] = [
    "/* c */", "/**/", "/***/", "/** doc **/", "/* a\n b */", "/* a\r\n b */", "/*\n*/", "/* // */", "/* \" */", "/* ' */",
    "/* ąć 🎉 */", "/* /* */", "/* * / */", "/*x*/", "/*/ */", "/* model A;\n\n end A; */", "/*\n\n\n*/", "/* l1\n   l2\n   l3 */", "/*;*/",
];

pub fn comment(r: &mut Rng) -> String {
    // a unique suffix makes every comment identifiable in the output
    let id = r.below(100000);
    if r.chance(0.12) {
        let n = r.below(40);
        if r.chance(0.5) {
            return format!("//{}", any_text(n, "", r));
        }
        let mut t = String::from("/*");
        for _ in 0..n {
            if r.chance(0.12) {
                t.push_str(r.pick(&["\n", "\n", "\r\n", " \n", "\n\n", "\n\t", "\n   * "]));
            } else {
                t.push_str(&any_text(1, "/", r));
            }
        }
        t.push_str("*/");
        return t;
    }
    if r.chance(0.55) {
        let c = r.pick(&LCOM);
        if r.chance(0.5) {
            format!("{c} {id}")
        } else {
            c.to_string()
        }
    } else {
        let c = r.pick(&BCOM);
        if r.chance(0.4) && c.len() > 4 && !c.ends_with("/*/ */") {
            format!("{} {id} */", &c[..c.len() - 2])
        } else {
            c.to_string()
        }
    }
}

// ---- layout --------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Lay {
    /// newline probability after `;` / in other gaps, blank line probability
    pub p_semi: f64,
    pub p_nl: f64,
    pub p_blank: f64,
    pub p_com: f64,
    /// bias of comments to gaps after `;` or after section words
    pub com_at_semi: f64,
    pub wide: f64,
    pub tight: f64,
    pub eol: u8,
    /// start from the model's canonical text and disturb a few gaps
    pub canonical: Option<f64>,
}

impl Lay {
    pub fn random(r: &mut Rng) -> Lay {
        let mode = r.below(10);
        let mut l = Lay {
            p_semi: *r.pick(&[0.0, 0.7, 0.9, 1.0]),
            p_nl: *r.pick(&[0.0, 0.02, 0.05, 0.1, 0.2, 0.5]),
            p_blank: *r.pick(&[0.0, 0.1, 0.3, 0.6]),
            p_com: *r.pick(&[0.0, 0.0, 0.02, 0.05, 0.15]),
            com_at_semi: *r.pick(&[0.0, 0.1, 0.3]),
            wide: *r.pick(&[0.0, 0.1, 0.5]),
            tight: *r.pick(&[0.0, 0.3, 1.0]),
            eol: r.below(8) as u8,
            canonical: None,
        };
        if mode < 5 {
            l.canonical = Some(*r.pick(&[0.0, 0.005, 0.02, 0.05, 0.1]));
        }
        l
    }
    fn eol(&self, r: &mut Rng) -> &'static str {
        match self.eol {
            0 => "\r\n",
            1 => *r.pick(&["\n", "\r\n"]),
            _ => "\n",
        }
    }
    fn blanks(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        let n = if r.chance(self.wide) { r.range(0, 6) } else { r.below(2) };
        for _ in 0..n {
            s.push(if self.wide > 0.0 && r.chance(0.15) { *r.pick(&['\t', '\t', '\x0C']) } else { ' ' });
        }
        s
    }
    fn newlines(&self, r: &mut Rng) -> String {
        let mut s = self.blanks(r);
        s.push_str(self.eol(r));
        if r.chance(self.p_blank) {
            for _ in 0..(if r.chance(0.2) { r.range(2, 5) } else { 1 }) {
                s.push_str(&self.blanks(r));
                s.push_str(self.eol(r));
            }
        }
        s.push_str(&self.blanks(r));
        s
    }
    /// white space and comments between two tokens (or at the ends)
    pub fn gap(&self, prev: &str, next: &str, r: &mut Rng) -> String {
        let semi = prev == ";" || prev.is_empty() || next.is_empty();
        let pc = if semi { self.p_com.max(self.com_at_semi) } else { self.p_com };
        let pn = if semi { self.p_semi } else { self.p_nl };
        let mut s = String::new();
        let mut last = prev.to_string();
        let ncom = if r.chance(pc) { if r.chance(0.3) { r.range(2, 4) } else { 1 } } else { 0 };
        for k in 0..=ncom {
            let item = if k < ncom { comment(r) } else { next.to_string() };
            let pn = if k < ncom || ncom > 0 { pn.max(0.4) } else { pn };
            let ws = if last.starts_with("//") && k > 0 {
                // a line comment needs a line end
                let w = self.newlines(r);
                // trailing blanks would become part of the comment text
                w.trim_start_matches(|c| c == ' ' || c == '\t' || c == '\x0C').to_string()
            } else if r.chance(pn) {
                self.newlines(r)
            } else if r.chance(self.tight) || last.is_empty() || item.is_empty() {
                String::new()
            } else {
                let b = self.blanks(r);
                if b.is_empty() {
                    " ".into()
                } else {
                    b
                }
            };
            let need = ws.is_empty() && !last.is_empty() && !item.is_empty() && !joinable(&last, &item);
            s.push_str(&ws);
            if need {
                s.push(' ');
            }
            if k < ncom {
                s.push_str(&item);
            }
            last = item;
        }
        s
    }
    pub fn lay(&self, toks: &[String], r: &mut Rng) -> String {
        let mut s = String::new();
        for i in 0..=toks.len() {
            let prev = if i == 0 { "" } else { toks[i - 1].as_str() };
            let next = if i == toks.len() { "" } else { toks[i].as_str() };
            s.push_str(&self.gap(prev, next, r));
            s.push_str(next);
        }
        s
    }
}

/// Copy a class's name to its `end` (most sources have matching names).
fn match_names(g: &Grammar, t: &Tree, texts: &mut [String], r: &mut Rng) {
    let rid = g.rule("long_class_specifier");
    for n in &t.nodes {
        if n.rule == rid && r.chance(0.85) {
            let a = n.a as usize;
            let name = if texts[a] == "extends" { a + 1 } else { a };
            texts[n.b as usize] = texts[name].clone();
        }
    }
}

pub struct Source {
    pub text: String,
    pub profile: String,
}

pub struct Grammars {
    pub rec: Grammar,
    pub gen: Grammar,
}
impl Grammars {
    pub fn new() -> Grammars {
        Grammars { rec: Grammar::new(), gen: gen_grammar() }
    }
}

/// Token texts of a random derivation of `rule`.
pub fn tokens(gs: &Grammars, rule: &str, cfg: &Cfg, r: &mut Rng) -> Vec<String> {
    let plain = r.chance(0.3);
    let syms = Gen::new(&gs.gen, cfg.clone()).derive(gs.gen.rule(rule), r);
    let mut texts: Vec<String> = syms.iter().map(|s| lexeme(*s, r, plain)).collect();
    if let Some(t) = recognise(&gs.rec, &syms, gs.rec.rule(rule)).tree {
        match_names(&gs.rec, &t, &mut texts, r);
    }
    texts
}

/// Disturb the canonical text: each gap is replaced with probability p.
pub fn disturb(gs: &Grammars, text: &str, p: f64, lay: &Lay, r: &mut Rng) -> String {
    let lx = lex(text);
    let syms = symbols(&lx.all);
    let t = match recognise(&gs.rec, &syms, gs.rec.rule("stored_definition")).tree {
        Some(t) => t,
        None => return text.to_string(),
    };
    let m = layout::Model::new(&gs.rec, &t, &lx.all);
    let (items, _) = layout::expected(&lx.all, &m.want);
    let mut s = String::new();
    let mut prev = String::new();
    for it in &items {
        let tx = lx.all[it.lexeme].text(text);
        let line_com = prev.starts_with("//");
        if r.chance(p) && !line_com {
            let l = Lay { p_nl: 0.5, p_semi: 0.7, ..lay.clone() };
            s.push_str(&l.gap(&prev, tx, r));
        } else {
            s.push_str(&it.ws);
        }
        s.push_str(tx);
        prev = tx.to_string();
    }
    if r.chance(0.7) {
        s.push('\n');
    } else {
        s.push_str(&lay.gap(&prev, "", r));
    }
    s
}

/// A random valid stored definition.
pub fn source(gs: &Grammars, r: &mut Rng, scale: usize, lay: Option<Lay>) -> Source {
    let cfg = Cfg::random(r, scale);
    let lay = lay.unwrap_or_else(|| Lay::random(r));
    let mut toks = tokens(gs, "stored_definition", &cfg, r);
    let mut tries = 0;
    while toks.len() < 4 && tries < 3 {
        toks = tokens(gs, "stored_definition", &cfg, r);
        tries += 1;
    }
    let mut text = lay.lay(&toks, r);
    if let Some(p) = lay.canonical {
        text = disturb(gs, &text, p, &lay, r);
    }
    Source { profile: format!("target={} depth={} canonical={:?} eol={}", cfg.target, cfg.depth, lay.canonical, lay.eol), text }
}

/// Lengths near the limits of small integers, and beyond.
pub fn extreme_len(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=9 => r.range(60, 300),
        10..=15 => r.range(250, 262),
        16..=18 => r.range(300, 1200),
        _ if r.chance(0.3) => r.range(65530, 65545),
        _ => r.range(500, 600),
    }
}

/// A lexeme of a length near or beyond powers of two.
pub fn long_lexeme(s: Sym, r: &mut Rng) -> String {
    let n = match r.below(10) {
        0..=4 => (1usize << r.range(4, 13)) + r.below(7) - 3,
        5..=8 => r.range(60, 5000),
        _ if r.chance(0.1) => r.range(65530, 65545),
        _ => r.range(30, 300),
    };
    let digits = |n: usize, r: &mut Rng| (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
    match s {
        UINT => digits(n, r),
        UREAL => {
            let (a, b, c) = match r.below(4) {
                0 => (n, 1, 1),
                1 => (1, n, 1),
                2 => (1, 1, n),
                _ => (n / 3 + 1, n / 3 + 1, n / 3 + 1),
            };
            let (a, b, c) = (digits(a, r), digits(b, r), digits(c, r));
            match r.below(3) {
                0 => format!("{a}.{b}"),
                1 => format!("{a}.{b}{}{c}", r.pick(&["e", "E-", "e+"])),
                _ => format!("{a}{}{c}", r.pick(&["e", "E-", "e+"])),
            }
        }
        STRING => {
            let t = any_text(n, "\"\\", r);
            format!("\"{t}{}\"", r.pick(&["", "", "\\\"", "\\\\"]))
        }
        _ if r.chance(0.4) => format!("'{}'", r.pick(&["q", "a b", "\\'", "-"]).repeat(n / 2 + 1)),
        _ => {
            let set = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
            (0..n).map(|k| set[r.below(if k == 0 { 53 } else { set.len() })] as char).collect()
        }
    }
}

/// One gap of the text made extremely wide or high, or filled with an
/// extremely long comment, or the text as a whole nested deeply.
pub fn extreme(text: &str, r: &mut Rng) -> String {
    let lx = lex(text);
    let n = lx.all.len();
    let k = if r.chance(0.3) { r.below(n + 1) } else { r.below(n.min(30) + 1) };
    let from = if k == 0 { 0 } else { lx.all[k - 1].end.byte };
    let line = k > 0 && lx.all[k - 1].text(text).starts_with("//");
    let to = if k == n { text.len() } else { lx.all[k].start.byte };
    let len = extreme_len(r);
    if r.chance(0.2) {
        // one lexeme made extremely long
        let fit: Vec<usize> = (0..n).filter(|i| matches!(lx.all[*i].sym, IDENT | UINT | UREAL | STRING)).collect();
        if !fit.is_empty() {
            let l = &lx.all[*r.pick(&fit)];
            return format!("{}{}{}", &text[..l.start.byte], long_lexeme(l.sym, r), &text[l.end.byte..]);
        }
    }
    let glue = if line { "\n" } else { "" };
    let sp = match r.below(10) {
        0..=2 => format!("{glue}{}", " ".repeat(len)),
        3..=6 => format!("{glue}{}", r.pick(&["\n", "\n", "\r\n", " \n"]).repeat(len)),
        7 => {
            let c = format!("//{}", r.pick(&["-", "x y ", "ą"]).repeat(len));
            format!("{glue}{}{c}\n", r.pick(&["", " ", "\n", "\n\n"]))
        }
        8 => {
            let c = format!("/*{}*/", r.pick(&["*", "ż", "\n", "line\n", " x"]).repeat(len));
            format!("{glue}{}{c}{}", r.pick(&["", " ", "\n", "\n\n"]), r.pick(&["", " ", "\n", "\n\n"]))
        }
        _ => {
            if lx.all.iter().any(|l| matches!(l.text(text), "within")) {
                return text.to_string();
            }
            let k = if r.chance(0.05) { r.range(125, 140) } else { r.range(5, 70) };
            let b = *r.pick(&["\n", " ", "\n\n"]);
            let mut s = String::new();
            for i in 0..k {
                s.push_str(&format!("{} P{i}{b}", r.pick(&["package", "model", "partial block"])));
            }
            s.push_str(text);
            s.push('\n');
            for i in (0..k).rev() {
                s.push_str(&format!("end P{i};{b}"));
            }
            return s;
        }
    };
    format!("{}{sp}{}{}", &text[..from], &text[from..to], &text[to..])
}

/// Deeply nested blocks, modifications, calls or classes (tokens).
pub fn nested(r: &mut Rng) -> Vec<String> {
    let k = if r.chance(0.05) { r.range(120, 135) } else { r.range(4, 60) };
    let (mut pre, mut post): (Vec<&str>, Vec<&str>) = (Vec::new(), Vec::new());
    let eq: [(&str, &str); 6] = [
        ("if a then", "end if ;"),
        ("if a then x = 1 ; elseif b then", "else y = 2 ; end if ;"),
        ("for i in 1 : n loop", "end for ;"),
        ("when c then", "end when ;"),
        ("when c then x = 1 ; elsewhen d then", "end when ;"),
        ("if a then else", "end if ; x = 3 ;"),
    ];
    let st: [(&str, &str); 6] = [
        ("if a then", "end if ;"),
        ("if a then x := 1 ; elseif b then", "else y := 2 ; end if ;"),
        ("for i in 1 : n loop", "end for ;"),
        ("while c loop", "end while ;"),
        ("when c then x := 1 ; elsewhen d then", "end when ;"),
        ("if a then else", "end if ; return ;"),
    ];
    let ex: [(&str, &str); 12] = [
        ("f (", ")"),
        ("{", "}"),
        ("[", "]"),
        ("(", ")"),
        ("x [", "]"),
        ("if a then", "else b"),
        ("f ( a =", ")"),
        ("{ 1 ,", ", 2 }"),
        ("a * (", "+ c )"),
        ("f ( function g ( a =", ") )"),
        ("[ 1 , 2 ;", "]"),
        ("a or not (", ")"),
    ];
    let md: [(&str, &str); 4] = [("a (", ")"), ("redeclare T x (", ")"), ("a ( b = 1 ,", ")"), ("each final a (", ", c = 2 )")];
    let cl: [(&str, &str); 4] = [("model A", "end A ;"), ("package A", "Real x ; end A ;"), ("partial function A", "end A ;"), ("model extends A ( b = 1 )", "end A ;")];
    let (set, a, mid, b): (&[(&str, &str)], &str, &str, &str) = match r.below(6) {
        0 => (&eq, "model M equation", "x = y ;", "end M ;"),
        1 => (&st, "function f algorithm", "x := y ;", "end f ;"),
        2 => (&ex, "model M equation x =", "y", "; z = 2 ; end M ;"),
        3 => (&ex, "model M Real x =", "y + z", "; Real w ; end M ;"),
        4 => (&md, "model M extends B (", "x = 1", ") ; Real y ; end M ;"),
        _ => (&cl, "package P", "Real x ;", "end P ;"),
    };
    let one = r.chance(0.5);
    let f = *r.pick(set);
    for _ in 0..k {
        let (p, q) = if one { f } else { *r.pick(set) };
        pre.push(p);
        post.push(q);
    }
    post.reverse();
    let all = [vec![a], pre, vec![mid], post, vec![b]].concat();
    all.iter().flat_map(|t| t.split(' ')).map(String::from).collect()
}
