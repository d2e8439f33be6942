//! Oracles over one observed formatting: each difference between what was
//! written and what the reference expects is attributed to a property.
use crate::gram::*;
use crate::layout::{self, Blank, Gap, Item, Want};
use crate::lex::*;
use crate::target::Dump;

/// Reference view of a valid source.
pub struct Ref {
    pub lx: Lexed,
    pub tree: Tree,
    pub want: Vec<Want>,
    pub items: Vec<Item>,
    pub dropped: usize,
    pub wraps: usize,
    pub flat: usize,
    pub broken: usize,
    pub max_lvl: u32,
}

impl Ref {
    pub fn tokens(&self) -> usize {
        self.want.len()
    }
}

pub enum Valid {
    Yes(Box<Ref>),
    LexError,
    /// index of the first token that fits no valid text
    SyntaxError(usize),
}

pub fn reference(g: &Grammar, src: &str, rule: &str) -> Valid {
    let lx = lex(src);
    if !lx.errors.is_empty() {
        return Valid::LexError;
    }
    let sy = symbols(&lx.all);
    let o = recognise(g, &sy, g.rule(rule));
    match o.tree {
        None => Valid::SyntaxError(o.furthest),
        Some(tree) => {
            let (want, wraps, flat, broken, max_lvl) = {
                let m = layout::Model::new(g, &tree, &lx.all);
                (m.want, m.wraps_taken, m.lists_flat, m.lists_broken, m.max_lvl)
            };
            let (items, dropped) = layout::expected(&lx.all, &want);
            Valid::Yes(Box::new(Ref { lx, tree, want, items, dropped, wraps, flat, broken, max_lvl }))
        }
    }
}

/// The reference tree in the form of the tool's tree.
pub fn dump_of(g: &Grammar, t: &Tree, all: &[Lexeme]) -> Dump {
    let idx: Vec<usize> = (0..all.len()).filter(|i| !all[*i].is_comment()).collect();
    // children have smaller ids than their parents
    let mut d: Vec<Option<Dump>> = Vec::with_capacity(t.nodes.len());
    for n in &t.nodes {
        let kids = n
            .ch
            .iter()
            .map(|c| match c {
                Ch::Tok(i) => Dump::Tok(idx[*i as usize], String::new()),
                Ch::Node(k) => d[*k as usize].take().expect("one parent"),
            })
            .collect();
        d.push(Some(Dump::Node(crate::target::camel(g.name(n.rule)), kids)));
    }
    d[t.root as usize].take().unwrap()
}

/// First difference of two trees as a path.
pub fn diff_trees(want: &Dump, got: &Dump) -> Option<String> {
    let mut st = vec![(want, got, String::new())];
    while let Some((w, g, path)) = st.pop() {
        match (w, g) {
            (Dump::Tok(a, _), Dump::Tok(b, t)) => {
                if a != b {
                    return Some(format!("{path}: token #{b} {t:?} where #{a} belongs"));
                }
            }
            (Dump::Node(a, x), Dump::Node(b, y)) => {
                if a != b {
                    return Some(format!("{path}: construct {b} where {a} belongs"));
                }
                if x.len() != y.len() {
                    let f = |v: &Vec<Dump>| {
                        v.iter()
                            .map(|c| match c {
                                Dump::Tok(i, _) => format!("#{i}"),
                                Dump::Node(k, _) => k.clone(),
                            })
                            .collect::<Vec<_>>()
                            .join(" ")
                    };
                    return Some(format!("{path}/{a}: parts [{}] where [{}] belong", f(y), f(x)));
                }
                for (i, (p, q)) in x.iter().zip(y).enumerate().rev() {
                    st.push((p, q, if path.len() > 300 { path.clone() } else { format!("{path}/{a}[{i}]") }));
                }
            }
            (Dump::Tok(a, _), Dump::Node(b, _)) => return Some(format!("{path}: construct {b} where token #{a} belongs")),
            (Dump::Node(a, _), Dump::Tok(b, t)) => return Some(format!("{path}: token #{b} {t:?} where {a} belongs")),
        }
    }
    None
}

pub type Findings = Vec<(&'static str, String)>;

fn clip(s: &str) -> String {
    let c: String = s.chars().take(60).collect();
    format!("{c:?}")
}

pub fn tokens_differ(src: &str, a: &[Lexeme], out: &str, b: &[Lexeme]) -> Option<String> {
    let ta: Vec<&str> = a.iter().filter(|l| !l.is_comment()).map(|l| l.text(src)).collect();
    let tb: Vec<&str> = b.iter().filter(|l| !l.is_comment()).map(|l| l.text(out)).collect();
    for i in 0..ta.len().max(tb.len()) {
        match (ta.get(i), tb.get(i)) {
            (Some(x), Some(y)) if x == y => (),
            (x, y) => {
                return Some(format!(
                    "token {i}: source has {}, output has {}",
                    x.map_or("nothing".into(), |t| clip(t)),
                    y.map_or("nothing".into(), |t| clip(t))
                ))
            }
        }
    }
    None
}

/// Where the first difference of the tokens is that two of them have been run
/// together, or that one went into a comment, what is missing between them.
fn lost_space(f: &mut Findings, src: &str, r: &Ref, out: &str, lo: &[Lexeme]) {
    let ta: Vec<&str> = r.lx.all.iter().filter(|l| !l.is_comment()).map(|l| l.text(src)).collect();
    let tb: Vec<&Lexeme> = lo.iter().filter(|l| !l.is_comment()).collect();
    let Some(i) = (0..ta.len()).find(|i| tb.get(*i).map(|t| t.text(out)) != Some(ta[*i])) else {
        return;
    };
    let joined = |t: &str| t.len() > ta[i].len() && t.starts_with(ta[i]) && ta.get(i + 1).is_some_and(|n| t[ta[i].len()..].starts_with(&n[..n.chars().next().map_or(0, |c| c.len_utf8())]));
    let from = if i == 0 { 0 } else { tb[i - 1].end.byte };
    let swallowed = lo.iter().any(|l| l.is_comment() && l.start.byte >= from && l.text(out).starts_with("//") && l.text(out).ends_with(ta[i]));
    let (g, what) = match tb.get(i) {
        Some(t) if joined(t.text(out)) => (i + 1, format!("{} and {} are run together", clip(ta[i]), clip(ta[i + 1]))),
        _ if swallowed => (i, format!("{} has gone into a comment", clip(ta[i]))),
        _ => return,
    };
    match r.items.iter().filter(|x| !x.comment).nth(g).map(|x| &x.kind) {
        Some(Gap::Glue | Gap::Space) => f.push(("C10", what)),
        Some(Gap::Line { wrap, .. }) => f.push((if *wrap { "C12" } else { "C11" }, what)),
        _ => (),
    }
}

/// lexemes of each gap: comments before token i (and after the last one)
fn gaps(all: &[Lexeme]) -> Vec<Vec<usize>> {
    let mut v = vec![Vec::new()];
    for (i, l) in all.iter().enumerate() {
        if l.is_comment() {
            v.last_mut().unwrap().push(i);
        } else {
            v.push(Vec::new());
        }
    }
    v
}

/// Everything that is wrong with `out` as the formatting of `src`.
pub fn judge(src: &str, r: &Ref, out: &str) -> Findings {
    let mut f: Findings = Vec::new();
    let lo = lex(out);
    if let Some(e) = lo.errors.first() {
        f.push(("C01", format!("output does not scan: {:?} at {}:{}", e.0, e.1.line, e.1.col)));
    }
    let sa = &r.lx.all;
    let differ = tokens_differ(src, sa, out, &lo.all);
    if let Some(d) = differ {
        f.push(("C01", d));
        lost_space(&mut f, src, r, out, &lo.all);
        // comments that come from nowhere (code swallowed, text altered)
        let mut pool: Vec<&str> = sa.iter().filter(|l| l.is_comment()).map(|l| l.text(src)).collect();
        for l in lo.all.iter().filter(|l| l.is_comment()) {
            let t = l.text(out);
            match pool.iter().position(|p| *p == t) {
                Some(k) => {
                    pool.remove(k);
                }
                None => {
                    f.push(("C02", format!("comment {} is not in the source", clip(t))));
                    f.push(("C15", format!("comment {} is not in the source", clip(t))));
                    break;
                }
            }
        }
        return f;
    }
    // ---- white space in general
    {
        let mut prev = 0;
        let ends = lo.all.iter().map(|l| (l.start.byte, l.end.byte)).chain(std::iter::once((out.len(), out.len())));
        for (k, (s, e)) in ends.enumerate() {
            let ws = &out[prev..s];
            let at = || out[..s].matches('\n').count() + 1;
            if k == 0 && !ws.is_empty() {
                f.push(("C11", format!("output starts with white space {ws:?}")));
            }
            if s == out.len() && e == s && !ws.is_empty() {
                f.push(("C11", format!("output ends with white space {ws:?}")));
            }
            if ws.chars().any(|c| c != ' ' && c != '\n') {
                f.push(("C11", format!("unexpected white space {ws:?} at line {}", at())));
                f.push(("C10", format!("unexpected white space {ws:?} at line {}", at())));
            }
            if let Some(p) = ws.rfind('\n') {
                if ws[..p].contains(' ') {
                    f.push(("C11", format!("white space at a line end or on an empty line before line {}", at())));
                }
                if ws.matches('\n').count() > 2 {
                    f.push(("C11", format!("two blank lines in a row before line {}", at())));
                }
            }
            prev = e;
        }
    }
    let ga = gaps(sa);
    let gb = gaps(&lo.all);
    // expected items per gap
    let mut ge: Vec<Vec<&Item>> = vec![Vec::new()];
    for it in &r.items {
        ge.last_mut().unwrap().push(it);
        if !it.comment {
            ge.push(Vec::new());
        }
    }
    let n = r.tokens();
    let tok_out: Vec<usize> = (0..lo.all.len()).filter(|i| !lo.all[*i].is_comment()).collect();
    let tok_src: Vec<usize> = (0..sa.len()).filter(|i| !sa[*i].is_comment()).collect();
    for g in 0..=n {
        let ca: Vec<&str> = ga[g].iter().map(|i| sa[*i].text(src)).collect();
        let cb: Vec<&str> = gb[g].iter().map(|i| lo.all[*i].text(out)).collect();
        // ---- C02: by the line structure of the output itself
        let from = if g == 0 { 0 } else { lo.all[tok_out[g - 1]].end.byte };
        let to = if g == n { out.len() } else { lo.all[tok_out[g]].start.byte };
        let starts_line = g == 0 || g == n || {
            let mut prev = from;
            let mut nl = false;
            for i in gb[g].iter().map(|i| &lo.all[*i]) {
                nl |= out[prev..i.start.byte].contains('\n');
                prev = i.end.byte;
            }
            nl || out[prev..to].contains('\n')
        };
        let here = || {
            if g < n {
                let t = &sa[tok_src[g]];
                format!("before token {g} {} (source line {})", clip(t.text(src)), t.start.line)
            } else {
                "at the end of the file".into()
            }
        };
        if starts_line {
            if ca != cb {
                f.push(("C02", format!("comments {}: source {:?}, output {:?}", here(), ca, cb)));
            }
        } else if !cb.is_empty() {
            f.push(("C02", format!("comments inside a line {}: {:?}", here(), cb)));
        }
        // ---- exact layout
        let want = &ge[g];
        let wc: Vec<&str> = want.iter().filter(|i| i.comment).map(|i| sa[i.lexeme].text(src)).collect();
        let gap_text = &out[from..to];
        if wc != cb {
            // only the presence of the break can be compared
            if let Some(Item { kind: Gap::Line { wrap, .. }, .. }) = want.last() {
                if !gap_text.contains('\n') {
                    f.push((if *wrap { "C12" } else { "C11" }, format!("no line break {}", here())));
                }
                if cb.len() < wc.len() {
                    f.push(("C15", format!("comment {:?} {} is not on its line in the output", wc, here())));
                }
            } else if cb.is_empty() && gap_text.contains('\n') {
                f.push(("C11", format!("line break {}", here())));
                f.push(("C12", format!("line break {}", here())));
            }
            continue;
        }
        let mut prev = from;
        let mut outs: Vec<(usize, usize)> = gb[g].iter().map(|i| (lo.all[*i].start.byte, lo.all[*i].end.byte)).collect();
        if g < n {
            outs.push((to, to));
        }
        for (k, it) in want.iter().enumerate() {
            let (s, e) = outs[k];
            let got = &out[prev..s];
            prev = e;
            if got == it.ws {
                continue;
            }
            let what = format!("{} {}: {:?} instead of {:?}", if it.comment { "comment" } else { "gap" }, here(), got, it.ws);
            let mut add = |p: &'static str| f.push((p, what.clone()));
            let gn = got.matches('\n').count();
            let wn = it.ws.matches('\n').count();
            let ind = |s: &str| s.len() - s.trim_end_matches(' ').len();
            match it.kind {
                Gap::Start => {
                    add("C11");
                    if it.comment {
                        add("C15");
                    }
                }
                Gap::Glue | Gap::Space => {
                    if gn > 0 {
                        add("C11");
                        add("C12");
                    } else {
                        add("C10");
                    }
                }
                Gap::Inline => add("C15"),
                Gap::Own { blank, first, wrap } => {
                    if gn == 0 {
                        add("C15");
                        add(if wrap { "C12" } else { "C11" });
                    } else {
                        if gn != wn {
                            if blank == Blank::Required && first {
                                add("C11");
                            } else {
                                add("C14");
                            }
                        }
                        if ind(got) != ind(&it.ws) {
                            add("C13");
                            add("C15");
                        }
                    }
                }
                Gap::Line { blank, wrap, with_comments } => {
                    if gn == 0 {
                        if wrap {
                            add("C12");
                        }
                        let after_comma = g > 0 && sa[tok_src[g - 1]].text(src) == ",";
                        if got.len() > 1 || after_comma && got.is_empty() {
                            add("C10");
                        }
                        // a break the source did not have is not manual
                        let src_nl = g > 0 && g < n && sa[tok_src[g]].start.line > sa[tok_src[g - 1]].end.line;
                        if !wrap || !src_nl {
                            add("C11");
                        }
                        if with_comments {
                            add("C15");
                        }
                    } else {
                        if gn != wn {
                            match blank {
                                Blank::Required => {
                                    add("C11");
                                    if with_comments {
                                        add("C14");
                                    }
                                }
                                Blank::Illegal => {
                                    add("C11");
                                    add("C14");
                                }
                                Blank::Legal => add("C14"),
                            }
                        }
                        if ind(got) != ind(&it.ws) {
                            add("C13");
                        }
                    }
                }
            }
        }
    }
    f
}
