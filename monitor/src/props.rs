//! Per property: how inputs are made and how an observed execution is judged.
use crate::gen::{self, Cfg, Grammars, Lay};
use crate::gram::*;
use crate::judge::{self, Valid};
use crate::lex::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::target::{self, Out};
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct Input {
    pub rule: String,
    pub mode: String,
    pub a: String,
    pub b: String,
}

#[derive(Default)]
pub struct Verdict {
    pub bad: Option<String>,
    pub skip: Option<&'static str>,
    pub nontrivial: bool,
    pub stats: Vec<(&'static str, u64)>,
    /// hashes of observed situations (counted as a set)
    pub features: Vec<u64>,
}

impl Verdict {
    fn skip(s: &'static str) -> Verdict {
        Verdict { skip: Some(s), ..Default::default() }
    }
    fn bad(s: String) -> Verdict {
        Verdict { bad: Some(s), nontrivial: true, ..Default::default() }
    }
}

pub struct Ctx {
    pub gs: Grammars,
    pub kinds: HashMap<Sym, String>,
    pub kinds_bad: Vec<String>,
    pub corpus: Vec<String>,
}

impl Ctx {
    pub fn new() -> Ctx {
        let (kinds, kinds_bad) = target::learn_kinds();
        let gs = Grammars::new();
        let mut corpus: Vec<String> = crate::corpus::TEXTS.iter().map(|s| s.to_string()).collect();
        corpus.retain(|c| matches!(judge::reference(&gs.rec, c, "stored_definition"), Valid::Yes(_)));
        Ctx { gs, kinds, kinds_bad, corpus }
    }
}

// ---- making inputs -------------------------------------------------------------

fn lay_for(prop: &str, r: &mut Rng) -> Option<Lay> {
    let mut l = Lay::random(r);
    match prop {
        "C02" | "C15" => {
            l.p_com = *r.pick(&[0.0, 0.02, 0.05, 0.15, 0.4]);
            l.com_at_semi = *r.pick(&[0.1, 0.3, 0.6]);
            if l.canonical.is_some() {
                l.canonical = Some(*r.pick(&[0.02, 0.1, 0.3]));
            }
        }
        "C14" => {
            l.p_blank = *r.pick(&[0.2, 0.5, 0.9]);
            l.p_semi = *r.pick(&[0.8, 1.0]);
        }
        "C12" | "C13" => {
            l.p_nl = *r.pick(&[0.0, 0.01, 0.03, 0.08, 0.2, 0.4]);
        }
        "C10" => {
            l.p_nl = *r.pick(&[0.0, 0.0, 0.02, 0.1]);
            if r.chance(0.5) {
                l.canonical = None;
            }
        }
        _ => (),
    }
    Some(l)
}

fn a_source(ctx: &Ctx, prop: &str, r: &mut Rng, thorough: bool) -> (String, &'static str) {
    if r.chance(0.0015) {
        return (bulk_source(ctx, prop, r), "bulk");
    }
    if r.chance(0.04) {
        let mut lay = lay_for(prop, r).unwrap();
        lay.canonical = None;
        let base = if r.chance(0.5) { gen::nested(r) } else { Vec::new() };
        let mut t = if base.is_empty() { ordinary_source(ctx, prop, r, false).0 } else { lay.lay(&base, r) };
        t = gen::extreme(&t, r);
        if r.chance(0.3) {
            t = gen::extreme(&t, r);
        }
        return (t, "extreme");
    }
    ordinary_source(ctx, prop, r, thorough)
}

/// Sequences of the grammar: text around the items, construct of the items,
/// what separates them, text behind, and how many items are ordinary.
const MANY: [(&str, &str, &str, &str, usize); 34] = [
    ("", "class_definition", ";", ";", 3000),
    ("model M\n", "element", ";", ";\nend M;", 6000),
    ("model M\npublic\n", "component_clause", ";", ";\nprotected Real x;\nend M;", 6000),
    ("model M\n", "import_clause", ";", ";\nend M;", 6000),
    ("model M\nequation\n", "equation", ";", ";\nend M;", 6000),
    ("model M\nequation\n", "connect_equation", ";", ";\nend M;", 6000),
    ("function f\nalgorithm\n", "statement", ";", ";\nend f;", 6000),
    ("model M\nequation\nif c then\n", "equation", ";", ";\nend if;\nend M;", 3000),
    ("model M\ninitial equation\nwhen c then\n", "equation", ";", ";\nend when;\nx = 1;\nend M;", 3000),
    ("function f\nalgorithm\nwhile c loop\n", "statement", ";", ";\nend while;\nend f;", 3000),
    ("model M\n", "equation_section", "\n", "\nend M;", 1500),
    ("model M extends A(", "argument", ",", ");\nend M;", 900),
    ("model M annotation(", "argument", ",", ");\nend M;", 900),
    ("type E = enumeration(", "enumeration_literal", ",", ") \"e\";\ntype F = E;", 3000),
    ("model M Real ", "component_declaration", ",", ";\nReal last;\nend M;", 3000),
    ("model M\nimport A.{", "IDENT", ",", "};\nReal x;\nend M;", 3000),
    ("function f = der(A, ", "IDENT", ",", ") \"d\";", 3000),
    ("within ", "IDENT", ".", ";\nmodel M\nend M;", 3000),
    ("model M\nequation\nx = {", "expression", ",", "};\ny = 1;\nend M;", 900),
    ("model M\nequation\nf(", "named_argument", ",", ");\ny = 1;\nend M;", 900),
    ("model M\nequation\nf(", "expression", ",", ");\ny = 1;\nend M;", 900),
    ("model M\nequation\nx = [", "expression", ";", "];\ny = 1;\nend M;", 900),
    ("model M\nequation\nx[", "subscript", ",", "] = 1;\ny = 1;\nend M;", 900),
    ("function f\nalgorithm\n(", "expression", ",", ") := g();\ny := 1;\nend f;", 900),
    ("model M\nequation\nx = ", "term", "+", ";\ny = 1;\nend M;", 900),
    ("model M\nequation\nx = ", "factor", "*", ";\ny = 1;\nend M;", 900),
    ("model M\nequation\nx = ", "logical_term", "or", ";\ny = 1;\nend M;", 900),
    ("model M\nequation\nx = ", "logical_factor", "and", ";\ny = 1;\nend M;", 900),
    ("model M\nequation\nx = if c then ", "expression", " elseif d then ", " else 1;\ny = 1;\nend M;", 300),
    ("model M\nequation\nif a then x = 1; elseif ", "expression", " then z = 2; elseif ", " then else y = 1; end if;\ny = 1;\nend M;", 600),
    ("model M\nequation\nfor ", "for_index", ",", " loop\ny = 1;\nend for;\nend M;", 900),
    ("model M \"a\" + ", "STRING", "+", "\nReal x;\nend M;", 3000),
    ("", "COMMENT", "", "\nmodel M\n\nend M;", 6000),
    ("model M\n\nequation\n\n  x = 1;", "COMMENT", "", "\nend M;", 6000),
];

/// A text with far more of something than people write, beyond the limits of
/// small integers, and things to get wrong in front, in between and behind.
fn bulk_source(ctx: &Ctx, prop: &str, r: &mut Rng) -> String {
    let mut lay = lay_for(prop, r).unwrap();
    lay.canonical = None;
    let m = if r.chance(0.12) { &MANY[0] } else { r.pick(&MANY) };
    let huge = r.chance(0.025) && m.4 >= 3000;
    let want = if huge { r.range(65600, 70000) } else { *r.pick(&[130, 260, 260, 300, 520, 1100, m.4.min(3000)]) }.min(if huge { usize::MAX } else { m.4 });
    let kinds = r.range(1, 8);
    let mut parts: Vec<String> = Vec::new();
    for _ in 0..40 {
        if parts.len() == kinds {
            break;
        }
        let p = match m.1 {
            "IDENT" => gen::lexeme(IDENT, r, false),
            "STRING" => gen::lexeme(STRING, r, false),
            "COMMENT" => gen::comment(r),
            rule => match part(ctx, rule, r, &lay) {
                Some(p) => p,
                None => continue,
            },
        };
        if p.len() > if huge { 40 } else { 400 } {
            continue;
        }
        let mut alone = format!("{}{p}{}{p}{}", m.0, m.2, m.3);
        if m.1 == "COMMENT" {
            alone = format!("{p}\n");
        } else if !matches!(judge::reference(&ctx.gs.rec, &alone, "stored_definition"), Valid::Yes(_)) {
            continue;
        }
        parts.push(p);
    }
    if parts.is_empty() {
        return format!("{}\nmodel M\nend M;\n", "// c\n".repeat(want));
    }
    let comments: Vec<String> = (0..4).map(|_| gen::comment(r)).collect();
    let gaps = ["\n", "\n", " ", "\n\n", "\n\n\n", " \n  ", "\r\n"];
    // the spacing within a line shows only where nothing is broken
    let flat = r.chance(if prop == "C10" { 0.5 } else { 0.1 });
    let steady = flat || r.chance(0.5);
    let (same, p_com) = (if flat { 2 } else { r.below(gaps.len()) }, *r.pick(&[0.0, 0.0, 0.01, 0.3]));
    let mut s = String::from(m.0);
    for i in 0..want {
        if i > 0 {
            if r.chance(p_com * 0.3) && m.1 != "COMMENT" {
                s.push_str(&format!(" {}\n", r.pick(&comments)));
            }
            s.push_str(m.2);
            if r.chance(p_com) && m.1 != "COMMENT" {
                s.push_str(&format!("{}{}\n", r.pick(&[" ", "\n", "\n\n"]), r.pick(&comments)));
            }
            s.push_str(gaps[if steady { same } else { r.below(gaps.len()) }]);
            if m.1 == "COMMENT" {
                s.push('\n');
            }
        }
        s.push_str(r.pick(&parts));
    }
    s.push_str(m.3);
    if r.chance(0.5) {
        s.push_str("\n\n// the end\nmodel Last\n  Real x; // c\n\n\nequation\n  x = {1,\n2};\nend Last;\n");
    }
    s
}

fn ordinary_source(ctx: &Ctx, prop: &str, r: &mut Rng, thorough: bool) -> (String, &'static str) {
    let lay = lay_for(prop, r);
    if r.chance(0.08) && !ctx.corpus.is_empty() {
        let t = r.pick(&ctx.corpus).clone();
        let mut lay = lay.unwrap();
        lay.p_com = lay.p_com.min(0.05);
        let p = *r.pick(&[0.01, 0.03, 0.1, 0.3]);
        return (gen::disturb(&ctx.gs, &t, p, &lay, r), "corpus");
    }
    if r.chance(0.12) {
        // one construct in a minimal frame, to reach every construct often
        let (pre, rule, post) = *r.pick(&FRAMES);
        let mut cfg = Cfg::random(r, 1);
        cfg.depth = cfg.depth.min(5);
        let frame: Vec<String> = lex(pre).all.iter().map(|l| l.text(pre).to_string()).collect();
        let tail: Vec<String> = lex(post).all.iter().map(|l| l.text(post).to_string()).collect();
        let mut toks = frame;
        toks.extend(gen::tokens(&ctx.gs, rule, &cfg, r));
        toks.extend(tail);
        let lay = lay.unwrap();
        let mut t = lay.lay(&toks, r);
        if let Some(p) = lay.canonical {
            t = gen::disturb(&ctx.gs, &t, p.max(0.02), &lay, r);
        }
        return (t, "frame");
    }
    let scale = if thorough { r.below(5) } else { r.below(3) };
    let s = gen::source(&ctx.gs, r, scale, lay);
    (s.text, "derivation")
}

const FRAMES: [(&str, &str, &str); 24] = [
    ("model M equation", "equation", "; end M;"),
    ("model M initial equation", "if_equation", "; end M;"),
    ("model M equation", "when_equation", "; x = 1; end M;"),
    ("model M equation", "for_equation", "; end M;"),
    ("function f algorithm", "statement", "; end f;"),
    ("function f algorithm", "if_statement", "; x := 1; end f;"),
    ("function f algorithm", "while_statement", "; end f;"),
    ("function f initial algorithm", "when_statement", "; end f;"),
    ("model M", "element", "; end M;"),
    ("model M", "component_clause", "; equation x = y; end M;"),
    ("model M", "import_clause", "; end M;"),
    ("model M", "extends_clause", "; end M;"),
    ("model M", "annotation_clause", "; end M;"),
    ("type E =", "short_class_specifier", ";"),
    ("type", "short_class_specifier", ";"),
    ("function", "der_class_specifier", ";"),
    ("model M Real x =", "expression", "; end M;"),
    ("model M equation x =", "expression", "; y = 2; end M;"),
    ("model M equation", "simple_expression", "= 1; y = 2; end M;"),
    ("function f external", "external_function_call", "; end f;"),
    ("model M Real x", "class_modification", "; Real y; end M;"),
    ("model M extends A", "class_or_inheritance_modification", "; Real y; end M;"),
    ("model M Real", "component_list", "; Real y; end M;"),
    ("function f algorithm x := f", "function_call_args", "; y := 1; end f;"),
];

/// Same text up to horizontal white space, line ends and surplus blank lines.
pub fn respace(src: &str, r: &mut Rng) -> String {
    let lx = lex(src);
    let style = r.below(4);
    let eol = |r: &mut Rng| -> &'static str {
        match style {
            0 => "\r\n",
            1 => "\n",
            _ => *r.pick(&["\n", "\r\n"]),
        }
    };
    let amount = *r.pick(&[0.0, 0.3, 1.0]);
    let hor = |r: &mut Rng| -> String {
        if !r.chance(amount) {
            return String::new();
        }
        (0..r.range(0, 5)).map(|_| *r.pick(&[' ', ' ', ' ', '\t', '\x0C'])).collect()
    };
    let mut out = String::new();
    let mut prev = 0;
    let n = lx.all.len();
    // at most one gap is made extremely large, of the kind drawn
    let mut extreme = if r.chance(0.12) { 1 + r.below(2) } else { 0 };
    let mut left = if extreme == 0 { 0 } else { r.below(n.min(40) + 1) };
    for k in 0..=n {
        let s = if k == n { src.len() } else { lx.all[k].start.byte };
        let ws = &src[prev..s];
        let pt = if k == 0 { "" } else { lx.all[k - 1].text(src) };
        let nt = if k == n { "" } else { lx.all[k].text(src) };
        let after_line_comment = pt.starts_with("//");
        let nls = ws.matches('\n').count();
        if k == 0 || (k == n && !after_line_comment) {
            // blank lines at the start and end of the file are free
            for _ in 0..r.below(4) {
                out.push_str(&hor(r));
                if r.chance(0.5) {
                    out.push_str(eol(r));
                }
            }
        } else if nls == 0 {
            let keep = r.chance(0.3) || after_line_comment;
            let mut w = if keep { ws.to_string() } else { hor(r) };
            if extreme == 1 && !after_line_comment {
                if left == 0 {
                    w.push_str(&r.pick(&[" ", " ", "\t"]).repeat(gen::extreme_len(r)));
                    extreme = 0;
                } else {
                    left -= 1;
                }
            }
            if w.is_empty() && !pt.is_empty() && !nt.is_empty() && !joinable(pt, nt) {
                w = " ".into();
            }
            out.push_str(&w);
        } else {
            let mut m = if nls >= 2 { r.range(2, 5) } else { 1 };
            let mut indent = 0;
            if extreme > 0 && (nls >= 2 || extreme == 1) {
                if left > 0 {
                    left -= 1;
                } else {
                    if extreme == 1 {
                        indent = gen::extreme_len(r);
                    } else {
                        m = gen::extreme_len(r) + r.below(2);
                    }
                    extreme = 0;
                }
            }
            for j in 0..m {
                if !(j == 0 && after_line_comment) {
                    out.push_str(&hor(r));
                }
                out.push_str(eol(r));
            }
            out.push_str(&hor(r));
            out.push_str(&" ".repeat(indent));
        }
        out.push_str(nt);
        if k < n {
            prev = lx.all[k].end.byte;
        }
    }
    out
}

/// Shift formatted text right by one level, except inside tokens.
pub fn shift(text: &str, levels: usize) -> String {
    let lx = lex(text);
    let pad = "  ".repeat(levels);
    let mut out = pad.clone();
    let mut prev = 0;
    for l in &lx.all {
        let ws = &text[prev..l.start.byte];
        match ws.rfind('\n') {
            Some(p) => {
                out.push_str(&ws[..=p]);
                out.push_str(&pad);
                out.push_str(&ws[p + 1..]);
            }
            None => out.push_str(ws),
        }
        out.push_str(l.text(text));
        prev = l.end.byte;
    }
    out
}

/// Corrupt the token sequence or the characters of a valid text.
pub fn corrupt(src: &str, r: &mut Rng) -> String {
    let lx = lex(src);
    let idx: Vec<usize> = (0..lx.all.len()).filter(|i| !lx.all[*i].is_comment()).collect();
    if idx.is_empty() {
        return "end".into();
    }
    let any = |r: &mut Rng| -> String {
        let s = match r.below(12) {
            0..=1 => IDENT,
            2 => UINT,
            3 => *r.pick(&[UREAL, STRING, BOOL]),
            _ => r.below(FIXED.len()) as Sym,
        };
        gen::lexeme(s, r, true)
    };
    let mut text = src.to_string();
    let i = if r.chance(0.15) { idx.len() - 1 - r.below(idx.len().min(3)) } else { r.below(idx.len()) };
    let l = &lx.all[idx[i]];
    let (s, e) = (l.start.byte, l.end.byte);
    match r.below(12) {
        0..=2 => text.replace_range(s..e, " "),
        3..=4 => text.insert_str(s, &format!(" {} ", any(r))),
        5..=6 => text.replace_range(s..e, &format!(" {} ", any(r))),
        7 => {
            let t = l.text(src).to_string();
            text.insert_str(s, &format!("{t} "));
        }
        8 => {
            // swap with the next token
            if i + 1 < idx.len() {
                let m = &lx.all[idx[i + 1]];
                let (a, b) = (l.text(src).to_string(), m.text(src).to_string());
                text.replace_range(m.start.byte..m.end.byte, &format!(" {a} "));
                text.replace_range(s..e, &format!(" {b} "));
            }
        }
        9 => {
            // truncate at this token, or drop a range
            if r.chance(0.5) {
                text.truncate(s);
            } else {
                let j = (i + r.range(1, 6)).min(idx.len() - 1);
                text.replace_range(s..lx.all[idx[j]].end.byte, " ");
            }
        }
        10 => {
            // move a token elsewhere
            let j = r.below(idx.len());
            let t = l.text(src).to_string();
            let at = lx.all[idx[j]].start.byte;
            if at >= e {
                text.insert_str(at, &format!(" {t} "));
                text.replace_range(s..e, " ");
            } else {
                text.replace_range(s..e, " ");
                text.insert_str(at, &format!(" {t} "));
            }
        }
        _ => {
            // lexical damage
            let nums: Vec<usize> = idx.iter().copied().filter(|k| matches!(lx.all[*k].sym, UINT | UREAL)).collect();
            if !nums.is_empty() && r.chance(0.15) {
                // numerals that are none
                let l = &lx.all[*r.pick(&nums)];
                let t = *r.pick(&["1e", "2E+", "1.e-", "0.5E", "0x1F", "1_000", "1f", "1..2", ".5", "1.5.2", "5e1.2", "1e5e5", "1e+-5", "1,5", "1e 5", "1 .5", "0b1", "1i", "1E_", "1ee5"]);
                text.replace_range(l.start.byte..l.end.byte, t);
                return text;
            }
            let odd = ["²", "ä", "Å", "٣", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}", "½", "Ⅷ", "–", "≤", "“", "′", "＝", "；", "\u{301}", "\u{200b}", "\u{feff}", "日", "߁", "ª"];
            if r.chance(0.2) {
                // a text that ends inside of something, or only just
                let t = *r.pick(&["/* c *", "/**", "/*", "/*/", "/* */ /* *", "/* \n **", "/* // */*", "\"abc", "\"a\\\"", "\"a\\\\\\\"", "\"", "'q", "'q\\'", "'", "'a b;", "*/", "/", "\\", "\"é", "'\\\\'", "/* é *\n"]);
                text.truncate(text.trim_end().len());
                text.push_str(r.pick(&[" ", "\n", "\n\n// c\n", ""]));
                text.push_str(t);
                text.push_str(r.pick(&["", "", "", "\n", " "]));
                return text;
            }
            if r.chance(0.5) {
                // a foreign letter, digit, sign or space inside or at an end of a token
                let names: Vec<usize> = idx.iter().copied().filter(|k| lx.all[*k].sym >= IDENT && lx.all[*k].sym != STRING || r.chance(0.1)).collect();
                let l = if names.is_empty() { l } else { &lx.all[*r.pick(&names)] };
                let mut at = l.start.byte + r.below(l.end.byte - l.start.byte + 1);
                while !text.is_char_boundary(at) {
                    at -= 1;
                }
                text.insert_str(at, r.pick(&odd));
                return text;
            }
            let bad = *r.pick(&["\"", "'", "/*", "@", "$", "`", "ą", "🎉", "\\", "'é'", "?", "\u{0}", "\u{a0}", "!", "&", "|", "~", "%", "#", "\u{b}"]);
            let mut at = r.below(text.len() + 1);
            while !text.is_char_boundary(at) {
                at -= 1;
            }
            if r.chance(0.3) {
                let nl = r.pick(&["// 🎉 ą\n", "/* é\n */", "\r\n", "\"ż\"", "\n\n"]).to_string();
                text.insert_str(0, &nl);
                at = text.len().min(at + nl.len());
            }
            text.insert_str(at, bad);
        }
    }
    text
}

fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let glue = r.chance(0.3);
    let mut prev = String::new();
    for _ in 0..n {
        let t = match r.below(14) {
            0..=3 => gen::lexeme(IDENT, r, false),
            4 => gen::lexeme(UINT, r, false),
            5 => gen::lexeme(UREAL, r, false),
            6 => gen::lexeme(STRING, r, false),
            7 => gen::lexeme(BOOL, r, false),
            8 => gen::comment(r),
            9..=11 => FIXED[NKW + r.below(FIXED.len() - NKW)].to_string(),
            _ => FIXED[r.below(NKW)].to_string(),
        };
        if prev.starts_with("//") {
            s.push_str(r.pick(&["\n", "\r\n", "\r", "\n\n"]));
        } else if !glue || !joinable(&prev, &t) {
            s.push_str(r.pick(&[" ", "\n", "\t", "  ", " \n ", "\r\n", "\x0C"]));
        }
        s.push_str(&t);
        prev = t;
    }
    if r.chance(0.5) {
        s.push('\n');
    }
    s
}

fn chaos(ctx: &Ctx, r: &mut Rng) -> String {
    match r.below(10) {
        0 => {
            // characters
            let n = r.range(0, 200);
            let set: Vec<char> = " \n\t\r\"'/*.:=<>+-^(){}[];,abexE019_\\ąż€🎉\u{0}\u{7f}\u{feff}\u{2028}@#$%&|!?~`".chars().collect();
            (0..n).map(|_| *r.pick(&set)).collect()
        }
        1 => {
            let n = r.range(0, 80);
            (0..n).map(|_| char::from_u32(r.below(0x3000) as u32).unwrap_or('?')).collect()
        }
        2..=3 => {
            let n = r.range(1, 120);
            soup(r, n)
        }
        4 => {
            // truncated valid text
            let (t, _) = a_source(ctx, "C04", r, false);
            let mut at = r.below(t.len() + 1);
            while !t.is_char_boundary(at) {
                at -= 1;
            }
            t[..at].to_string()
        }
        5..=7 => {
            let (mut t, _) = a_source(ctx, "C04", r, false);
            for _ in 0..r.range(1, 5) {
                t = corrupt(&t, r);
            }
            t
        }
        8 => {
            // character-level damage
            let (t, _) = a_source(ctx, "C04", r, false);
            let mut cs: Vec<char> = t.chars().collect();
            for _ in 0..r.range(1, 8) {
                if cs.is_empty() {
                    break;
                }
                let i = r.below(cs.len());
                match r.below(4) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs.insert(i, *r.pick(&['"', '\'', '/', '*', '\\', 'ą', '\n', '(', ')', ';', '🎉', '\0', '=', ','])),
                    2 => {
                        let j = (i + r.range(1, 30)).min(cs.len());
                        cs.drain(i..j);
                    }
                    _ => {
                        let j = (i + r.range(1, 30)).min(cs.len());
                        let d: Vec<char> = cs[i..j].to_vec();
                        let k = r.below(cs.len() + 1);
                        cs.splice(k..k, d);
                    }
                }
            }
            cs.into_iter().collect()
        }
        _ => {
            // ordinary nesting, long runs
            let k = if r.chance(0.04) { r.range(60, 300) } else { r.range(2, 60) };
            if r.chance(0.1) {
                let n = if r.chance(0.1) { r.range(1000, 5000) } else { r.range(50, 800) };
                let (pre, sep, post) = *r.pick(&[
                    ("model A Real x = f(", ",", "); end A;"),
                    ("model A Real x = {", ",", "}; end A;"),
                    ("model A Real x = [", ";", "]; end A;"),
                    ("model A equation x = ", "+", "; end A;"),
                    ("model A equation x = ", " or ", "; end A;"),
                    ("model A equation ", "=y;", "; end A;"),
                    ("model A Real ", ",", "; end A;"),
                    ("model A annotation(x(", "),x(", ")); end A;"),
                    ("type E = enumeration(", ",", ");"),
                    ("function f algorithm ", "();", "(); end f;"),
                    ("function f algorithm (", ",", ") := g(); end f;"),
                    ("model A import B.{", ",", "}; end A;"),
                    ("model A Real x = a", ".", "; end A;"),
                    ("model A Real x = \"s\"", "+", "; end A;"),
                    ("model A Real x \"", "\"+\"", "\"; end A;"),
                    ("", ";\n", "\n"),
                    ("model A equation ", ";", "if a then "),
                ]);
                let item = *r.pick(&["x", "x", "x", "1", "a=1", "", "x y", ")", "(1)", "\"s\"", "// c\nx", "x\n"]);
                return format!("{pre}{}{post}", vec![item; n].join(sep));
            }
            let p = *r.pick(&[
                ("(", ")"), ("{", "}"), ("[", "]"), ("f(", ")"), ("if a then ", " else b"), ("-(", ")"), ("not (", ")"), ("x[", "]"),
                ("(", ""), ("{", ""), ("", ")"), ("if a then ", ""), ("f(a = ", ")"), ("f(function g(a = ", "))"), ("{x for i in ", "}"),
            ]);
            let mid = *r.pick(&["1", "x", "", ",", "\"s\"", "end", ":"]);
            let e = format!("{}{}{}", p.0.repeat(k), mid, p.1.repeat(k));
            match r.below(6) {
                0 => format!("model A Real x = {e}; end A;"),
                1 => format!("model A equation {e} = 1; end A;"),
                2 => format!("function f algorithm x := {e}; end f;"),
                3 => format!("model A annotation({}x{}); end A;", "a(".repeat(k), ")".repeat(k)),
                4 => {
                    let mut s = String::new();
                    for i in 0..k {
                        s.push_str(&format!("package P{i} "));
                    }
                    for i in (0..k).rev() {
                        s.push_str(&format!("end P{i}; "));
                    }
                    s
                }
                _ => {
                    let w = *r.pick(&["if a then ", "for i in a loop ", "when a then "]);
                    let z = match w.as_bytes()[0] {
                        b'i' => "end if; ",
                        b'f' => "end for; ",
                        _ => "end when; ",
                    };
                    let b = if r.chance(0.3) { "" } else { z };
                    format!("model A equation {} x = 1; {} end A;", w.repeat(k), b.repeat(k))
                }
            }
        }
    }
}

/// characters that meet in lexical decisions
const LEXA: [char; 24] =
    ['.', '+', '-', '*', '/', '^', '<', '>', '=', ':', '\'', '"', '\\', 'a', 'e', 'E', '1', '0', '_', '\n', '\r', ' ', 'ą', '('];

fn part(ctx: &Ctx, rule: &str, r: &mut Rng, lay: &Lay) -> Option<String> {
    // a fragment without comments at its ends
    let cfg = Cfg::random(r, 1);
    let toks = gen::tokens(&ctx.gs, rule, &cfg, r);
    let text = lay.lay(&toks, r);
    let lx = lex(&text);
    let c: Vec<&Lexeme> = lx.all.iter().filter(|l| !l.is_comment()).collect();
    let (f, l) = (c.first()?, c.last()?);
    Some(text[f.start.byte..l.end.byte].to_string())
}

/// A frame for compositional formatting: text around the items and between
/// them, before and after formatting, and the construct of the items. Where
/// `fsep` is empty it follows the blank lines of the source.
struct Frame {
    pre: &'static str,
    post: &'static str,
    fpre: &'static str,
    fpost: &'static str,
    rule: &'static str,
    sep: &'static str,
    fsep: &'static str,
}

const fn items(pre: &'static str, post: &'static str, fpre: &'static str, fpost: &'static str, rule: &'static str) -> Frame {
    Frame { pre, post, fpre, fpost, rule, sep: ";", fsep: "" }
}

const fn sections(rule: &'static str) -> Frame {
    Frame { pre: "model M\n", post: ";\nend M;", fpre: "model M\n\n", fpost: ";\n\nend M;", rule, sep: ";\n", fsep: ";\n\n" }
}

const fn list(pre: &'static str, post: &'static str, fpre: &'static str, fpost: &'static str, rule: &'static str, fsep: &'static str) -> Frame {
    Frame { pre, post, fpre, fpost, rule, sep: ",\n", fsep }
}

const COMPOSE: [Frame; 22] = [
    items("", ";", "", ";", "class_definition"),
    items("model M\n", ";\nend M;", "model M\n\n", ";\n\nend M;", "element"),
    items("model M\nprotected\n", ";\nend M;", "model M\n\nprotected\n\n", ";\n\nend M;", "element"),
    items("model M\nequation\n", ";\nend M;", "model M\n\nequation\n\n", ";\n\nend M;", "equation"),
    items("model M\ninitial equation\n", ";\nend M;", "model M\n\ninitial equation\n\n", ";\n\nend M;", "equation"),
    items("function f\nalgorithm\n", ";\nend f;", "function f\n\nalgorithm\n\n", ";\n\nend f;", "statement"),
    items("model M\nequation\nif c then\n", ";\nend if;\nend M;", "model M\n\nequation\n\n  if c then\n", ";\n  end if;\n\nend M;", "equation"),
    items("model M\nequation\nif c then\nelseif d then\n", ";\nelse\nend if;\nend M;", "model M\n\nequation\n\n  if c then\n  elseif d then\n", ";\n  else\n  end if;\n\nend M;", "equation"),
    items("model M\nequation\nfor i in r loop\n", ";\nend for;\nend M;", "model M\n\nequation\n\n  for i in r loop\n", ";\n  end for;\n\nend M;", "equation"),
    items("function f\nalgorithm\nwhile c loop\n", ";\nend while;\nend f;", "function f\n\nalgorithm\n\n  while c loop\n", ";\n  end while;\n\nend f;", "statement"),
    items("function f\nalgorithm\nfor i loop\n", ";\nend for;\nend f;", "function f\n\nalgorithm\n\n  for i loop\n", ";\n  end for;\n\nend f;", "statement"),
    items("function f\nalgorithm\nif c then\nelse\n", ";\nend if;\nend f;", "function f\n\nalgorithm\n\n  if c then\n  else\n", ";\n  end if;\n\nend f;", "statement"),
    items("function f\nalgorithm\nwhen c then\nelsewhen d then\n", ";\nend when;\nend f;", "function f\n\nalgorithm\n\n  when c then\n  elsewhen d then\n", ";\n  end when;\n\nend f;", "statement"),
    items("model M\nequation\nwhen c then\n", ";\nend when;\nend M;", "model M\n\nequation\n\n  when c then\n", ";\n  end when;\n\nend M;", "equation"),
    sections("equation_section"),
    sections("algorithm_section"),
    list("model M\nextends A(\n", ");\nend M;", "model M\n\n  extends A(\n    ", ");\n\nend M;", "argument", ",\n    "),
    list("model M\nReal x(\n", ");\nend M;", "model M\n\n  Real x(\n    ", ");\n\nend M;", "argument", ",\n    "),
    list("model M\nannotation(\n", ");\nend M;", "model M\n\n  annotation (\n    ", ");\n\nend M;", "argument", ",\n    "),
    list("type E = enumeration(\n", ");", "type E = enumeration(\n  ", ");", "enumeration_literal", ",\n  "),
    list("model M\nequation\nx = {\n", "};\nend M;", "model M\n\nequation\n\n  x = {\n    ", "};\n\nend M;", "expression", ",\n    "),
    list("model M\nequation\nf(\n", ");\nend M;", "model M\n\nequation\n\n  f(\n    ", ");\n\nend M;", "named_argument", ",\n    "),
];

/// What may stand in some places of a program, and not in others.
const PHRASES: [&str; 78] = [
    "[2]", "[:]", "[x, 1]", "[]", "(x)", "()", "(x = 1)", "(x, y)", "(, x)", "= 1", ":= 1", "= break", "\"d\"", "\"a\" + \"b\"", "annotation()", "\"d\" annotation(x = 1)",
    "constrainedby A", "constrainedby A(x = 1) \"d\"", ", x", "x ,", ", ,", ",", ".x", "x.", ".x[1]", "x[1].y", ". *", ".*", ".{a, b}", ".{a}", "if a", "if a then b else c", "if x then",
    "each final", "final each", "final", ": 2", ": 2 : 3", ":", "for i in x", "for i", "i in 1 : 2", "then x", "else x", "elseif a then x", "{x}", "{}", "[1; 2]", "{x for i in y}",
    "der(x)", "initial()", "pure(x())", "not x", "- x", "+ x", "and x", "* x", "^ 2", "< 1", "; x", ";", "; ;", "x =", "end x", "end ;", "encapsulated", "partial", "input output", "parameter constant",
    "inner outer", "replaceable", "redeclare", "function A()", "connect(a, b)", "enumeration(a)", "break x", "external \"C\"", "extends A",
];

/// Every slice of up to six tokens left out, doubled, and copied or moved
/// elsewhere.
fn slices(toks: &[String], r: &mut Rng, sink: &mut dyn FnMut(String)) {
    let n = toks.len();
    for i in 0..n {
        for j in i + 1..(i + 6).min(n) + 1 {
            let part = toks[i..j].join(" ");
            sink(format!("{} {}", toks[..i].join(" "), toks[j..].join(" ")));
            sink(format!("{} {part} {}", toks[..j].join(" "), toks[j..].join(" ")));
            let k = r.below(n + 1);
            sink(format!("{} {part} {}", toks[..k].join(" "), toks[k..].join(" ")));
            if k <= i {
                sink(format!("{} {part} {} {}", toks[..k].join(" "), toks[k..i].join(" "), toks[j..].join(" ")));
            } else if k >= j {
                sink(format!("{} {} {part} {}", toks[..i].join(" "), toks[j..k].join(" "), toks[k..].join(" ")));
            }
        }
    }
}

/// Every phrase at every place.
fn phrases(toks: &[String], sink: &mut dyn FnMut(String)) {
    for i in 0..toks.len() + 1 {
        for p in PHRASES {
            sink(format!("{} {p} {}", toks[..i].join(" "), toks[i..].join(" ")));
        }
    }
}

pub fn gen_inputs(ctx: &Ctx, prop: &str, seed: u64, id: u64, thorough: bool, sink: &mut dyn FnMut(Input)) {
    let mut rng = Rng::of(&[seed, hash_bytes(prop.as_bytes()), id]);
    let r = &mut rng;
    let one = |mode: &str, a: String| Input { rule: "stored_definition".into(), mode: mode.into(), a, b: String::new() };
    match prop {
        "C04" => {
            for _ in 0..8 {
                sink(one("chaos", chaos(ctx, r)));
            }
        }
        "C06" | "C07" => {
            let mut cfg = Cfg::random(r, 0);
            cfg.target = *r.pick(&[12, 20, 40, 80]);
            let lay = Lay { p_com: 0.0, com_at_semi: 0.0, canonical: None, ..Lay::random(r) };
            let toks = if r.chance(0.3) {
                let (pre, rule, post) = *r.pick(&FRAMES);
                let f = |t: &str| lex(t).all.iter().map(|l| l.text(t).to_string()).collect::<Vec<_>>();
                let mut v = f(pre);
                v.extend(gen::tokens(&ctx.gs, rule, &cfg, r));
                v.extend(f(post));
                v
            } else {
                gen::tokens(&ctx.gs, "stored_definition", &cfg, r)
            };
            let base = lay.lay(&toks, r);
            if r.chance(0.004) {
                let base = bulk_source(ctx, prop, r);
                for _ in 0..6 {
                    sink(one("bulk", corrupt(&base, r)));
                }
                return;
            }
            if r.chance(0.12) && toks.len() < 50 {
                // every single-token edit of this text
                for i in 0..toks.len() {
                    let join = |v: &[String]| v.join(" ");
                    let mut t = toks.clone();
                    t.remove(i);
                    sink(one("delete", join(&t)));
                    for s in 0..FIXED.len() + 5 {
                        let tx = if s < FIXED.len() { FIXED[s].to_string() } else { gen::lexeme(100 + (s - FIXED.len()) as Sym, r, true) };
                        let mut t = toks.clone();
                        if r.chance(0.5) {
                            t[i] = tx;
                            sink(one("replace", join(&t)));
                        } else {
                            t.insert(i, tx);
                            sink(one("insert", join(&t)));
                        }
                    }
                }
            } else if r.chance(0.05) && toks.len() < 40 {
                phrases(&toks, &mut |t| sink(one("phrase", t)));
            } else if r.chance(0.1) && toks.len() < 50 {
                slices(&toks, r, &mut |t| sink(one("slice", t)));
            } else {
                for _ in 0..30 {
                    let mut t = corrupt(&base, r);
                    while r.chance(0.15) {
                        t = corrupt(&t, r);
                    }
                    sink(one("corrupt", t));
                }
            }
        }
        "C08" => {
            if id < 24 * 24 {
                // every string of up to 4 critical characters (by first two)
                let (c1, c2) = (LEXA[(id / 24) as usize], LEXA[(id % 24) as usize]);
                for k in 0..(1 + 24 + 24 * 24) {
                    let mut s: String = [c1, c2].iter().collect();
                    if k > 0 {
                        let k = k - 1;
                        if k < 24 {
                            s.push(LEXA[k]);
                        } else {
                            s.push(LEXA[(k - 24) / 24]);
                            s.push(LEXA[(k - 24) % 24]);
                        }
                    }
                    sink(one("strings", s));
                }
                return;
            }
            if r.chance(0.05) {
                let n = r.range(1, 8);
                let t = format!("{} {} ", soup(r, n), gen::long_lexeme(*r.pick(&[IDENT, UINT, UREAL, STRING]), r));
                sink(one("long", t + &soup(r, n)));
            }
            for _ in 0..4 {
                let n = r.range(1, 60);
                sink(one("soup", soup(r, n)));
                let n = r.range(1, 40);
                let s: String = (0..n).map(|_| *r.pick(&LEXA)).collect();
                sink(one("chars", s));
            }
            sink(one("source", a_source(ctx, prop, r, thorough).0));
        }
        "C16" => {
            let (a, m) = a_source(ctx, prop, r, thorough);
            let a = if r.chance(0.08) { corrupt(&a, r) } else { a };
            if !lex(&a).errors.is_empty() {
                return;
            }
            for _ in 0..2 {
                let b = respace(&a, r);
                sink(Input { rule: "stored_definition".into(), mode: m.into(), a: a.clone(), b });
            }
            if let Some(b) = rename(&a, r) {
                sink(Input { rule: "stored_definition".into(), mode: "renamed".into(), a, b });
            }
        }
        "C17" => {
            let mut lay = Lay::random(r);
            lay.canonical = None;
            let fr = if r.chance(0.3) { &COMPOSE[0] } else { r.pick(&COMPOSE) };
            let rule = fr.rule;
            let n = r.range(2, 5);
            let mut parts = Vec::new();
            let mut tries = 0;
            while parts.len() < n && tries < 20 {
                tries += 1;
                if let Some(mut p) = part(ctx, rule, r, &lay) {
                    if rule.ends_with("_section") {
                        match p.strip_suffix(';') {
                            Some(q) => p = q.to_string(),
                            None => continue,
                        }
                    }
                    // alone
                    let alone = format!("{}{p}{}", fr.pre, fr.post);
                    if !matches!(judge::reference(&ctx.gs.rec, &alone, "stored_definition"), Valid::Yes(_)) {
                        continue;
                    }
                    parts.push(p);
                }
            }
            if parts.len() < 2 {
                return;
            }
            if r.chance(0.003) {
                // far more of them
                let n = *r.pick(&[130, 260, 300, 520]);
                let few = parts.clone();
                while parts.len() < n {
                    parts.push(r.pick(&few).clone());
                }
            }
            let nest = if rule == "class_definition" && r.chance(0.5) { r.range(1, 3) } else { 0 };
            let mut src = String::new();
            for k in 0..nest {
                src.push_str(&format!("package P{k}\n"));
            }
            src.push_str(fr.pre);
            // b: the formatted frame and the parts, in a self-describing form
            let mut fields = vec![fr.pre.to_string(), fr.post.to_string(), fr.fpre.to_string(), fr.fpost.to_string()];
            for (i, p) in parts.iter().enumerate() {
                if i > 0 {
                    src.push_str(fr.sep);
                    let blank = r.chance(0.4);
                    if fr.fsep.is_empty() {
                        src.push_str(if blank { "\n\n" } else { "\n" });
                        fields.push(if blank { ";\n\n" } else { ";\n" }.to_string());
                    } else {
                        if blank {
                            src.push('\n');
                        }
                        fields.push(fr.fsep.to_string());
                    }
                }
                src.push_str(p);
                fields.push(p.clone());
            }
            src.push_str(fr.post);
            for k in (0..nest).rev() {
                src.push_str(&format!("\nend P{k};"));
            }
            let mut b = format!("{nest}|");
            for x in &fields {
                b.push_str(&format!("{}:{}", x.len(), x));
            }
            sink(Input { rule: "stored_definition".into(), mode: format!("{rule} nest={nest}"), a: src, b });
        }
        "C23" => {
            let rules = &ctx.gs.rec.names;
            if (id as usize) < rules.len() {
                // all texts of up to two tokens, each for every construct
                let rule = &rules[id as usize];
                let tx: Vec<String> = (0..FIXED.len()).map(|k| FIXED[k].to_string()).chain(["x", "1", "1.5", "\"s\"", "true"].map(String::from)).collect();
                let f = |a: String| Input { rule: rule.clone(), mode: "short".into(), a, b: String::new() };
                sink(f(String::new()));
                sink(f(" \n".into()));
                sink(f("// c\n".into()));
                for a in &tx {
                    sink(f(a.clone()));
                    for b in &tx {
                        sink(f(format!("{a} {b}")));
                    }
                }
                return;
            }
            let rule = rules[(id as usize) % rules.len()].clone();
            let mut cfg = Cfg::random(r, 1);
            cfg.depth = cfg.depth.min(6);
            let mut lay = Lay::random(r);
            lay.canonical = None;
            let toks = gen::tokens(&ctx.gs, &rule, &cfg, r);
            let a = lay.lay(&toks, r);
            sink(Input { rule: rule.clone(), mode: "derived".into(), a: a.clone(), b: String::new() });
            // texts one token away from this one: with all tokens, or all classes of them
            let first = if toks.len() < 24 && r.chance(0.008) { 0 } else if toks.len() < 30 && r.chance(0.2) { FIXED.len() } else { usize::MAX };
            for i in 0..if first == usize::MAX { 0 } else { toks.len() + 1 } {
                let mut send = |t: Vec<String>| sink(Input { rule: rule.clone(), mode: "neighbour".into(), a: t.join(" "), b: String::new() });
                if i < toks.len() {
                    let mut t = toks.clone();
                    t.remove(i);
                    send(t);
                }
                for s in first..FIXED.len() + 5 {
                    let tx = if s < FIXED.len() { FIXED[s].to_string() } else { ["x", "1", "1.5", "\"s\"", "true"][s - FIXED.len()].to_string() };
                    if i < toks.len() {
                        let mut t = toks.clone();
                        t[i] = tx.clone();
                        send(t);
                    }
                    if first == 0 || i == toks.len() {
                        let mut t = toks.clone();
                        t.insert(i, tx);
                        send(t);
                    }
                }
            }
            if toks.len() < 30 && r.chance(0.25) {
                slices(&toks, r, &mut |t| sink(Input { rule: rule.clone(), mode: "slice".into(), a: t, b: String::new() }));
            }
            if toks.len() < 20 && r.chance(0.02) {
                phrases(&toks, &mut |t| sink(Input { rule: rule.clone(), mode: "phrase".into(), a: t, b: String::new() }));
            }
            for _ in 0..3 {
                let m = match r.below(4) {
                    0 => format!("{a} {}", gen::lexeme(*r.pick(&[IDENT, UINT, 0, 30, 57, 58, 60, 63, 66, 71]), r, true)),
                    1 => {
                        // cut the tail
                        let k = r.below(toks.len() + 1);
                        toks[..k].join(" ")
                    }
                    _ => corrupt(&a, r),
                };
                sink(Input { rule: rule.clone(), mode: "damaged".into(), a: m, b: String::new() });
            }
        }
        "C09" => {
            let (a, m) = a_source(ctx, prop, r, thorough);
            sink(one(m, a));
            let rule = r.pick(&ctx.gs.rec.names).clone();
            let cfg = Cfg::random(r, 1);
            let lay = Lay { p_com: 0.02, ..Lay::random(r) };
            let toks = gen::tokens(&ctx.gs, &rule, &cfg, r);
            sink(Input { rule, mode: "fragment".into(), a: lay.lay(&toks, r), b: String::new() });
        }
        _ => {
            let (a, m) = a_source(ctx, prop, r, thorough);
            sink(one(m, a));
        }
    }
}

// ---- judging -------------------------------------------------------------------

fn pos_of(d: &str, name: &str) -> Option<(usize, usize)> {
    let rest = d.strip_prefix(name)?.strip_prefix(':')?;
    let mut p = rest.splitn(3, ':');
    let l: usize = p.next()?.parse().ok()?;
    let c: usize = p.next()?.parse().ok()?;
    let m = p.next()?.strip_prefix(' ')?;
    if m.trim().is_empty() {
        return None;
    }
    Some((l, c))
}

fn situations(r: &judge::Ref) -> Vec<u64> {
    // innermost construct x previous symbol x symbol
    let toks: Vec<&Lexeme> = r.lx.all.iter().filter(|l| !l.is_comment()).collect();
    let mut v = Vec::new();
    for n in &r.tree.nodes {
        for c in &n.ch {
            let i = match c {
                Ch::Tok(i) => *i as usize,
                Ch::Node(k) => r.tree.nodes[*k as usize].a as usize,
            };
            if i > n.a as usize {
                v.push(mix((n.rule as u64) << 32 | (toks[i - 1].sym as u64) << 16 | toks[i].sym as u64));
            }
        }
    }
    v
}

fn stats(r: &judge::Ref) -> Vec<(&'static str, u64)> {
    vec![
        ("tokens", r.tokens() as u64),
        ("comments", r.lx.all.iter().filter(|l| l.is_comment()).count() as u64),
        ("comments_dropped_by_design", r.dropped as u64),
        ("manual_wraps", r.wraps as u64),
        ("lists_flat", r.flat as u64),
        ("lists_broken", r.broken as u64),
    ]
}

pub fn judge_input(ctx: &Ctx, prop: &str, inp: &Input) -> Verdict {
    let g = &ctx.gs.rec;
    match prop {
        "C04" => return judge_any(inp),
        "C08" => return judge_scan(ctx, inp),
        "C16" => return judge_pair(inp),
        "C17" => return judge_compose(inp),
        _ => (),
    }
    let kind = target::kind_of(&inp.rule);
    let re = judge::reference(g, &inp.a, &inp.rule);
    if prop == "C06" || prop == "C07" || (prop == "C23" && !matches!(re, Valid::Yes(_))) {
        let far = match re {
            Valid::Yes(_) => return Verdict::skip("still valid"),
            Valid::LexError => None,
            Valid::SyntaxError(k) => Some(k),
        };
        let name = source_name(&inp.a);
        let (toks, _, errors) = match target::scan(name, &inp.a, kind) {
            Err(p) => return Verdict::bad(format!("no diagnostic for an invalid text but a panic: {p}")),
            Ok(x) => x,
        };
        if errors.is_empty() {
            return Verdict::bad(if prop == "C07" {
                "invalid text without any diagnostic".to_string()
            } else {
                match far {
                    Some(k) => format!("invalid text accepted; it stops being valid at token {k} {:?}", toks.get(k).map(|t| &t.text)),
                    None => "text with a lexical error accepted".into(),
                }
            });
        }
        let mut v = Verdict { nontrivial: true, ..Default::default() };
        v.stats.push((if far.is_some() { "syntax_errors" } else { "lexical_errors" }, 1));
        v.stats.push(("diagnostics", errors.len() as u64));
        v.features.push(hash_bytes(errors[0].rsplit(": ").next().unwrap_or("").as_bytes()));
        if prop == "C07" {
            v.bad = judge_positions(&inp.a, far, &errors).or_else(|| judge_names(ctx, &inp.a, far, &errors));
            v.stats.push(("messages_naming_a_token", errors.first().and_then(|e| named(e)).is_some() as u64));
        }
        return v;
    }
    let r = match re {
        Valid::Yes(r) => r,
        _ => return Verdict::skip("not a valid text"),
    };
    let mut v = Verdict { nontrivial: r.tokens() >= 5, stats: stats(&r), features: situations(&r), ..Default::default() };
    if prop == "C09" {
        match target::tree(&inp.a, kind) {
            Err(p) => v.bad = Some(format!("no tree for a valid text: {p}")),
            Ok(Err(_)) => v.skip = Some("rejected"),
            Ok(Ok(d)) => {
                let want = if r.tokens() == 0 {
                    target::Dump::Node(target::camel(&inp.rule), vec![])
                } else {
                    judge::dump_of(g, &r.tree, &r.lx.all)
                };
                v.stats.push(("tree_nodes", r.tree.nodes.len() as u64));
                v.bad = judge::diff_trees(&want, &d);
            }
        }
        return v;
    }
    let out = match target::format_at("file.mo", &inp.a, kind) {
        Out::Text(t) => t,
        Out::Panic(p) => {
            v.bad = Some(format!("no formatted text for a valid source: {p}"));
            return v;
        }
        Out::Errors(e) => {
            if prop == "C05" || prop == "C23" {
                v.bad = Some(format!("valid text rejected: {}", e[0]));
            } else {
                v.skip = Some("rejected");
            }
            return v;
        }
    };
    match prop {
        "C05" => match target::format_at("file.mo", &out, kind) {
            Out::Text(_) => (),
            o => v.bad = Some(format!("own output not accepted: {}", o.describe())),
        },
        "C03" | "C23" => {
            if prop == "C23" {
                let lo = lex(&out);
                if let Some(d) = judge::tokens_differ(&inp.a, &r.lx.all, &out, &lo.all) {
                    v.bad = Some(d);
                    return v;
                }
                let inner = r.tokens() > 0 && r.lx.all.first().is_some_and(|l| !l.is_comment()) && r.lx.all.last().is_some_and(|l| !l.is_comment());
                if let Some(x) = judge::judge(&inp.a, &r, &out).iter().find(|x| inner && !(x.1.starts_with("output ends") && out.ends_with(", "))) {
                    v.bad = Some(format!("{}: {}", x.0, x.1));
                    return v;
                }
            }
            for (t, how) in [(out.clone(), "formatted text"), (format!("{out}\n"), "formatted text with final newline")] {
                match target::format_at("file.mo", &t, kind) {
                    Out::Text(o2) => {
                        if o2 != out {
                            v.bad = Some(format!("formatting the {how} again changes it: {}", first_diff(&out, &o2)));
                            return v;
                        }
                    }
                    o => {
                        v.bad = Some(format!("{how} not accepted: {}", o.describe()));
                        return v;
                    }
                }
            }
        }
        _ => {
            let f = judge::judge(&inp.a, &r, &out);
            if let Some(x) = f.iter().find(|x| x.0 == prop) {
                v.bad = Some(x.1.clone());
            }
            // relevance: what this property looks at was present
            let nl = r.items.iter().filter(|i| matches!(i.kind, crate::layout::Gap::Line { .. })).count();
            v.stats.push(("lines_checked", nl as u64));
            v.nontrivial &= match prop {
                "C02" | "C15" => r.lx.all.len() > r.tokens() + r.dropped,
                "C12" => r.wraps > 0 || r.flat > 0,
                "C13" => r.max_lvl > 1,
                "C14" => r.items.iter().any(|i| matches!(i.kind, crate::layout::Gap::Line { blank: crate::layout::Blank::Legal, .. })),
                _ => true,
            };
        }
    }
    v
}

pub fn first_diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split('\n').collect(), b.split('\n').collect());
    for i in 0..x.len().max(y.len()) {
        if x.get(i) != y.get(i) {
            return format!("line {}: {:?} / {:?}", i + 1, x.get(i), y.get(i));
        }
    }
    "no difference".into()
}

/// What a message says it has found there: (name, is it about the next token)
fn named(msg: &str) -> Option<(&str, bool)> {
    if let Some(k) = msg.rfind(", found ") {
        return Some((msg[k + 8..].trim_matches('\''), false));
    }
    let rest = msg.split("unexpected token '").nth(1)?;
    for (end, next) in [("' following", true), ("' after '.'", true), ("' after", false), ("' used", false), ("': ", false)] {
        if let Some(k) = rest.find(end) {
            return Some((rest[..k].trim_matches('\''), next));
        }
    }
    Some((rest.trim_matches('\''), false))
}

fn judge_names(ctx: &Ctx, src: &str, far: Option<usize>, errors: &[String]) -> Option<String> {
    let lx = lex(src);
    let toks: Vec<&Lexeme> = lx.all.iter().filter(|l| !l.is_comment()).collect();
    // the first message of each stage
    let lexical = |e: &str| pos_of(e, source_name(src)).is_some_and(|p| lx.errors.iter().any(|x| (x.1.line, x.1.col) == p));
    for e in errors.iter().filter(|e| lexical(e)) {
        let (l, c) = pos_of(e, source_name(src))?;
        if let Some(k) = e.rfind("unexpected character: '") {
            let at = src.split('\n').nth(l - 1).and_then(|x| x.chars().nth(c - 1));
            if e[k + 23..].chars().next() != at {
                return Some(format!("the character at the position of {e:?} is {at:?}"));
            }
        }
    }
    if !lx.errors.is_empty() {
        return None;
    }
    errors.iter().enumerate().find_map(|(k, e)| {
        let p = pos_of(e, source_name(src))?;
        let i = toks.iter().position(|t| (t.start.line, t.start.col) == p)?;
        let (name, next) = named(e)?;
        let i = i + next as usize;
        if name == "EOF" {
            if i + 1 < toks.len() {
                return Some(format!("{e:?}, but the text does not end there"));
            }
            return None;
        }
        let t = toks.get(i)?;
        if k == 0 && far.is_some_and(|k| k >= toks.len()) && i + 1 == toks.len() && e.contains(", found ") {
            return Some(format!("{e:?}, but the text is in order up to its end, which comes too early"));
        }
        let class = ctx.kinds.get(&t.sym).map(|k| k.trim_matches('\''));
        if name != t.text(src).trim_matches('\'') && Some(name) != class {
            return Some(format!("{e:?}, but the token there is {:?}", t.text(src)));
        }
        None
    })
}

fn judge_positions(src: &str, far: Option<usize>, errors: &[String]) -> Option<String> {
    let lx = lex(src);
    let mut ps = Vec::new();
    for e in errors {
        match pos_of(e, source_name(src)) {
            None => return Some(format!("diagnostic has not the form name:line:column: message: {e:?}")),
            Some(p) => ps.push(p),
        }
    }
    // every position is that of a token or of a lexical error
    for (p, e) in ps.iter().zip(errors) {
        let known = lx.all.iter().any(|l| !l.is_comment() && (l.start.line, l.start.col) == *p)
            || lx.errors.iter().any(|x| (x.1.line, x.1.col) == *p);
        let empty = lx.all.iter().all(|l| l.is_comment());
        if !known && !(empty && *p == (1, 1)) {
            return Some(format!("no token or faulty character at the position of {e:?}"));
        }
    }
    for x in &lx.errors {
        if !ps.contains(&(x.1.line, x.1.col)) {
            return Some(format!("no diagnostic at {}:{} where {:?} starts; first is {:?}", x.1.line, x.1.col, x.0, errors[0]));
        }
    }
    if let Some(k) = far {
        let toks: Vec<&Lexeme> = lx.all.iter().filter(|l| !l.is_comment()).collect();
        if toks.is_empty() {
            return None;
        }
        let at = |i: usize| (toks[i].start.line, toks[i].start.col);
        let i = toks.iter().position(|t| (t.start.line, t.start.col) == ps[0]).unwrap_or(0);
        let limit = k.min(toks.len() - 1);
        if i > limit {
            return Some(format!("first diagnostic {:?} lies after {:?}, where the text stops being valid", errors[0], at(limit)));
        }
        // a few messages about a token are placed at the one before it
        let ahead = named(&errors[0]).is_some_and(|n| n.1) || toks[i].text(src) == "." || toks[limit].text(src) == "=";
        if limit - i > ahead as usize {
            return Some(format!("first diagnostic {:?} lies {} tokens before {:?}, where the text stops being valid", errors[0], limit - i, at(limit)));
        }
    }
    None
}

fn judge_any(inp: &Input) -> Verdict {
    let text = inp.a.clone();
    let kind = target::kind_of(&inp.rule);
    let before = crate::alloc::total();
    crate::alloc::reset_peak();
    let base = crate::alloc::live();
    let out = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || target::format_at("any.mo", &text, kind))
        .unwrap()
        .join()
        .unwrap_or_else(|_| Out::Panic("thread died".into()));
    let spent = crate::alloc::total() - before;
    let peak = crate::alloc::peak().saturating_sub(base);
    let len = inp.a.len() as u64;
    let mut v = Verdict { nontrivial: inp.a.trim().len() > 1, ..Default::default() };
    v.stats.push(("bytes_processed", len));
    v.stats.push(("bytes_allocated", spent));
    match &out {
        Out::Panic(p) => v.bad = Some(format!("panic: {p}")),
        Out::Text(_) => v.stats.push(("formatted", 1)),
        Out::Errors(e) => {
            v.stats.push(("diagnosed", 1));
            v.stats.push(("diagnostics", e.len() as u64));
            v.features.push(hash_bytes(e[0].rsplit(": ").next().unwrap_or("").as_bytes()));
        }
    }
    if v.bad.is_none() && peak > (16 << 20) + 20_000 * len {
        v.bad = Some(format!("{peak} bytes of memory for a text of {len} bytes"));
    }
    if v.bad.is_none() && spent > (64 << 20) + 200_000 * len {
        v.bad = Some(format!("{spent} bytes allocated for a text of {len} bytes"));
    }
    v
}

fn judge_scan(ctx: &Ctx, inp: &Input) -> Verdict {
    if !ctx.kinds_bad.is_empty() {
        return Verdict::bad(format!("token classes: {}", ctx.kinds_bad.join("; ")));
    }
    let lx = lex(&inp.a);
    if !lx.errors.is_empty() {
        // the scanned lexemes before the first error are still judged
        return match target::scan("s.mo", &inp.a, target::kind_of("stored_definition")) {
            Err(p) => Verdict::bad(format!("panic: {p}")),
            Ok(_) => Verdict::skip("lexical error"),
        };
    }
    let mut v = Verdict { nontrivial: !lx.all.is_empty(), ..Default::default() };
    v.stats.push(("lexemes", lx.all.len() as u64));
    for w in lx.all.windows(2) {
        let glued = (w[0].end.byte == w[1].start.byte) as u64;
        v.features.push(mix((w[0].sym as u64) << 16 | (w[1].sym as u64) << 1 | glued));
    }
    match target::scan("s.mo", &inp.a, target::kind_of("stored_definition")) {
        Err(p) => v.bad = Some(format!("panic: {p}")),
        Ok((t, c, _)) => {
            v.bad = target::compare_lexemes(&inp.a, &lx.all, &t, &c, &ctx.kinds);
        }
    }
    v
}

/// The name a text is given where diagnostics are judged.
fn source_name(src: &str) -> &'static str {
    NAMES[(mix(hash_bytes(src.as_bytes())) % NAMES.len() as u64) as usize]
}

/// Source names that look special to some tool or another.
const NAMES: [&str; 26] = [
    "one.mo", "package.mo", "a/package.mo", "", "-", "x.mos", "PACKAGE.MO", "test.mo", "\u{fc}n\u{ef}.mo", "a:b:1:2", "package.order", "/dev/stdin",
    "some/other name.mo", "Modelica/Blocks/Continuous.mo", "C:\\lib\\A.mo", "file.txt", "no suffix", ".mo", "script.mos", "Test/tests/a.mo",
    "./a.mo", "../b/./c.mo", "dir/na me.mo", "tab\tand\nline.mo", "trailing.mo ",
    "a/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/name-that-goes-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on.mo",
];

/// The same text but for one name or number, mostly of the same length.
fn rename(src: &str, r: &mut Rng) -> Option<String> {
    let lx = lex(src);
    let fit: Vec<&crate::lex::Lexeme> = lx.all.iter().filter(|l| matches!(l.sym, IDENT | UINT)).collect();
    if fit.is_empty() {
        return None;
    }
    let n = fit.len();
    let l = fit[if r.chance(0.5) { n - 1 - r.below(n.min(4)) } else { r.below(n) }];
    let old = l.text(src);
    let len = if r.chance(0.7) { old.len().saturating_sub(if old.starts_with('\'') { 2 } else { 0 }).max(1) } else { r.range(1, 20) };
    let set: &[u8] = if l.sym == UINT { b"0123456789" } else { b"qwxzQWXZ_" };
    let mut new: String = (0..len).map(|_| set[r.below(set.len())] as char).collect();
    if old.starts_with('\'') {
        // may touch its neighbours
        new = format!("'{new}'");
    }
    (new != old).then(|| format!("{}{new}{}", &src[..l.start.byte], &src[l.end.byte..]))
}

/// Texts formatted one after the other that differ in one name or number
/// only: so do the results.
fn judge_renamed(inp: &Input) -> Verdict {
    let mut v = Verdict { nontrivial: inp.a.len() > 12, ..Default::default() };
    let kind = target::kind_of(&inp.rule);
    let x = target::format_at("one.mo", &inp.a, kind);
    let y = target::format_at("one.mo", &inp.b, kind);
    let z = target::format_at("one.mo", &inp.a, kind);
    match (&x, &y, &z) {
        (Out::Panic(p), _, _) | (_, Out::Panic(p), _) | (_, _, Out::Panic(p)) => v.bad = Some(format!("no result: {p}")),
        (Out::Text(a), Out::Text(b), Out::Text(c)) => {
            v.stats.push(("renamed_formatted", 1));
            let toks = |t: &str| lex(t).all.iter().filter(|l| !l.is_comment()).map(|l| l.text(t).to_string()).collect::<Vec<_>>();
            let (ta, tb) = (toks(&inp.a), toks(&inp.b));
            let lo = lex(a);
            let out: Vec<_> = lo.all.iter().filter(|l| !l.is_comment()).collect();
            let k = (0..ta.len()).find(|k| ta[*k] != tb[*k]).unwrap_or(0);
            if ta.len() != tb.len() || out.len() != ta.len() {
                return Verdict::skip("tokens are lost");
            }
            let want = format!("{}{}{}", &a[..out[k].start.byte], tb[k], &a[out[k].end.byte..]);
            if a != c {
                v.bad = Some(format!("second formatting of the same text differs: {}", first_diff(a, c)));
            } else if *b != want {
                v.bad = Some(format!("{:?} in place of {:?}, formatted right after it, makes another difference: {}", tb[k], ta[k], first_diff(&want, b)));
            }
        }
        (Out::Errors(a), Out::Errors(_), Out::Errors(c)) if a == c => (),
        _ => v.bad = Some(format!("{} / {} / {}", x.describe(), y.describe(), z.describe())),
    }
    v
}

fn judge_pair(inp: &Input) -> Verdict {
    if inp.mode == "renamed" {
        return judge_renamed(inp);
    }
    let mut v = Verdict { nontrivial: inp.a != inp.b && inp.a.len() > 12, ..Default::default() };
    let kind = target::kind_of(&inp.rule);
    let h = hash_bytes(inp.b.as_bytes());
    let name = |k: u64| NAMES[(mix(h ^ k) % NAMES.len() as u64) as usize];
    let x = target::format_at(name(1), &inp.a, kind);
    let y = target::format_at(name(2), &inp.b, kind);
    let z = target::format_at(name(3), &inp.a, kind);
    v.features.push(mix(h ^ 1) % NAMES.len() as u64 * 100 + mix(h ^ 3) % NAMES.len() as u64);
    match (&x, &y, &z) {
        (Out::Panic(p), _, _) | (_, Out::Panic(p), _) | (_, _, Out::Panic(p)) => {
            v.bad = Some(format!("no result: {p}"));
        }
        (Out::Text(a), Out::Text(b), Out::Text(c)) => {
            v.stats.push(("both_formatted", 1));
            if a != c {
                v.bad = Some(format!("second formatting of the same text, as {:?} after {:?}, differs: {}", name(3), name(1), first_diff(a, c)));
            } else if a != b {
                v.bad = Some(format!("texts that differ only in spacing are formatted differently ({:?}, {:?}): {}", name(1), name(2), first_diff(a, b)));
            }
        }
        (Out::Errors(a), Out::Errors(_), Out::Errors(c)) => {
            v.stats.push(("both_rejected", 1));
            let f = |e: &[String], n: &str| e.iter().map(|m| m.strip_prefix(n).unwrap_or(m).to_string()).collect::<Vec<_>>();
            if f(a, name(1)) != f(c, name(3)) {
                v.bad = Some(format!("the same text gets different diagnostics: {:?} / {:?}", a.first(), c.first()));
            }
        }
        _ => v.bad = Some(format!("{} ({:?}) / {} ({:?}) / {} ({:?})", x.describe(), name(1), y.describe(), name(2), z.describe(), name(3))),
    }
    if v.bad.is_none() && h % 64 == 0 {
        // several threads at once, each going back and forth between the texts
        v.stats.push(("concurrent_runs", 24));
        let odd = std::thread::scope(|s| {
            let ts: Vec<_> = (0..4u64)
                .map(|t| {
                    let (x, y) = (&x, &y);
                    s.spawn(move || {
                        (0..6u64).find_map(|k| {
                            let first = (t + k) % 2 == 0;
                            let (nm, src, want) = if first { (name(1), &inp.a, x) } else { (name(2), &inp.b, y) };
                            let got = target::format_at(nm, src, kind);
                            (got != *want).then(|| format!("{} / {}", want.describe(), got.describe()))
                        })
                    })
                })
                .collect();
            ts.into_iter().filter_map(|t| t.join().ok().flatten()).next()
        });
        if let Some(d) = odd {
            v.bad = Some(format!("a call among concurrent calls gives another result: {d}"));
        }
    }
    v
}

fn judge_compose(inp: &Input) -> Verdict {
    let mut it = inp.b.splitn(2, '|');
    let nest: usize = it.next().unwrap_or("0").parse().unwrap_or(0);
    let mut rest = it.next().unwrap_or("");
    let mut f = Vec::new();
    while let Some(k) = rest.find(':') {
        let n: usize = match rest[..k].parse() {
            Ok(n) => n,
            Err(_) => break,
        };
        f.push(rest[k + 1..k + 1 + n].to_string());
        rest = &rest[k + 1 + n..];
    }
    if f.len() < 5 {
        return Verdict::skip("malformed");
    }
    let (pre, post, fpre, fpost) = (f[0].clone(), f[1].clone(), f[2].clone(), f[3].clone());
    let mut v = Verdict { nontrivial: true, ..Default::default() };
    v.stats.push(("parts", (f.len() as u64 - 3) / 2));
    v.features.push(hash_bytes(inp.mode.as_bytes()));
    let mut body = String::new();
    for (i, p) in f[4..].iter().enumerate() {
        if i % 2 == 1 {
            body.push_str(p);
            continue;
        }
        let alone = match target::format(&format!("{pre}{p}{post}")) {
            Out::Text(t) => t,
            Out::Errors(_) => {
                v.skip = Some("rejected");
                return v;
            }
            Out::Panic(e) => {
                v.bad = Some(format!("no result for a part: {e}"));
                return v;
            }
        };
        let inner = match alone.strip_prefix(&fpre).and_then(|t| t.strip_suffix(&fpost)) {
            Some(t) => t,
            None => {
                v.bad = Some(format!("the frame of a single item is not written as usual: {:?} ... {:?}", head(&alone), tail(&alone)));
                return v;
            }
        };
        body.push_str(inner);
    }
    let mut want = format!("{fpre}{body}{fpost}");
    for k in (0..nest).rev() {
        want = format!("package P{k}\n\n{}\n\nend P{k};", shift(&want, 1));
    }
    match target::format(&inp.a) {
        Out::Text(t) => {
            if t != want {
                v.bad = Some(format!("together formatted differently than one by one: {}", first_diff(&want, &t)));
            }
        }
        o => v.bad = Some(format!("parts are accepted, together: {}", o.describe())),
    }
    v
}

fn head(s: &str) -> String {
    s.chars().take(60).collect()
}
fn tail(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    c[c.len().saturating_sub(40)..].iter().collect()
}
