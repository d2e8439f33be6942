//! The code under test, called only through its public interface, with
//! panics caught and everything it returns recorded.
use crate::lex::{self, Lexeme, Sym};
use mofmt::SyntaxKind;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! kinds {
    ($($k:ident)*) => { pub const KINDS: &[(&str, SyntaxKind)] = &[$((stringify!($k), SyntaxKind::$k)),*]; };
}
kinds! {
    StoredDefinition ClassDefinition ClassPrefixes ClassSpecifier LongClassSpecifier ShortClassSpecifier
    DerClassSpecifier BasePrefix EnumList EnumerationLiteral Composition LanguageSpecification
    ExternalFunctionCall ElementList Element ImportClause ImportList ExtendsClause ConstrainingClause
    ClassOrInheritanceModification ArgumentOrInheritanceModificationList InheritanceModification
    ComponentClause TypePrefix ComponentList ComponentDeclaration ConditionAttribute Declaration Modification
    ModificationExpression ClassModification ArgumentList Argument ElementModificationOrReplaceable
    ElementModification ElementRedeclaration ElementReplaceable ComponentClause1 ComponentDeclaration1
    ShortClassDefinition EquationSection AlgorithmSection Equation Statement IfEquation IfStatement
    ForEquation ForStatement ForIndices ForIndex WhileStatement WhenEquation WhenStatement ConnectEquation
    Expression SimpleExpression LogicalExpression LogicalTerm LogicalFactor Relation RelationalOperator
    ArithmeticExpression AddOperator Term MulOperator Factor Primary TypeSpecifier Name ComponentReference
    ResultReference FunctionCallArgs FunctionArguments FunctionArgumentsNonFirst ArrayArguments
    ArrayArgumentsNonFirst NamedArguments NamedArgument FunctionArgument FunctionPartialApplication
    OutputExpressionList ExpressionList ArraySubscripts Subscript Description DescriptionString AnnotationClause
}

/// `long_class_specifier` -> `LongClassSpecifier`
pub fn camel(rule: &str) -> String {
    rule.split('_')
        .map(|w| {
            let mut c = w.chars();
            c.next().map(|f| f.to_ascii_uppercase().to_string() + c.as_str()).unwrap_or_default()
        })
        .collect()
}

pub fn kind_of(rule: &str) -> SyntaxKind {
    let c = camel(rule);
    KINDS.iter().find(|k| k.0 == c).unwrap_or_else(|| panic!("no entry point {c}")).1
}

thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        if !GUARDED.with(|g| g.get()) {
            eprintln!("monitor failed: {s}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub idx: usize,
    pub text: String,
    pub kind: String,
    pub start: (usize, usize, usize),
    pub end: (usize, usize, usize),
}

/// Outcome of one processing.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Text(String),
    Errors(Vec<String>),
    Panic(String),
}

impl Out {
    pub fn describe(&self) -> String {
        match self {
            Out::Text(t) => format!("text of {} bytes", t.len()),
            Out::Errors(e) => format!("diagnostics {:?}", &e[..e.len().min(3)]),
            Out::Panic(p) => format!("panic: {p}"),
        }
    }
}

pub fn format_at(name: &str, src: &str, kind: SyntaxKind) -> Out {
    match guarded(|| {
        let p = mofmt::parse(name, src, kind);
        if p.errors.is_empty() {
            Ok(mofmt::pretty_print(p.tokens, p.comments, p.events))
        } else {
            Err(p.errors)
        }
    }) {
        Ok(Ok(t)) => Out::Text(t),
        Ok(Err(e)) => Out::Errors(e),
        Err(p) => Out::Panic(p),
    }
}

pub fn format(src: &str) -> Out {
    format_at("file.mo", src, SyntaxKind::StoredDefinition)
}

/// Tokens, comments and diagnostics of a text.
pub fn scan(name: &str, src: &str, kind: SyntaxKind) -> Result<(Vec<Tok>, Vec<Tok>, Vec<String>), String> {
    guarded(|| {
        let p = mofmt::parse(name, src, kind);
        macro_rules! conv {
            ($v:expr) => {
                $v.iter()
                    .map(|t| Tok {
                        idx: t.idx as usize,
                        text: t.text.clone(),
                        kind: format!("{:?}", t.kind),
                        start: (t.start.pos as usize, t.start.line as usize, t.start.col as usize),
                        end: (t.end.pos as usize, t.end.line as usize, t.end.col as usize),
                    })
                    .collect::<Vec<_>>()
            };
        }
        (conv!(p.tokens), conv!(p.comments), p.errors)
    })
}

// ---- parse tree, read from its debug rendering --------------------------------

#[derive(Debug, Clone, PartialEq)]
pub enum Dump {
    Node(String, Vec<Dump>),
    /// running index and text of a token
    Tok(usize, String),
}

pub fn tree(src: &str, kind: SyntaxKind) -> Result<Result<Dump, Vec<String>>, String> {
    guarded(|| {
        let p = mofmt::parse("file.mo", src, kind);
        if !p.errors.is_empty() {
            return Err(p.errors);
        }
        Ok(format!("{:?}", mofmt::build_tree(p.tokens, p.events)))
    })
    .map(|r| r.map(|s| Reader { s: s.as_bytes(), i: 0 }.run()))
}

struct Reader<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Reader<'a> {
    fn lit(&mut self, t: &str) {
        assert!(self.s[self.i..].starts_with(t.as_bytes()), "debug form: expected {t:?} at {}", self.i);
        self.i += t.len();
    }
    fn has(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t.as_bytes())
    }
    fn until(&mut self, t: &str) -> String {
        let st = self.i;
        while !self.has(t) {
            self.i += 1;
            assert!(self.i < self.s.len(), "debug form: no {t:?}");
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn run(mut self) -> Dump {
        // explicit stack: trees can be deep
        let mut st: Vec<(String, Vec<Dump>)> = Vec::new();
        loop {
            // at the start of a child or of the root
            if self.has("Tree { ") || self.has("Tree(Tree { ") {
                let inner = self.has("Tree(");
                self.lit(if inner { "Tree(Tree { kind: " } else { "Tree { kind: " });
                let k = self.until(",");
                self.lit(", children: [");
                st.push((k, Vec::new()));
            } else if self.has("Token(Token { ") {
                self.lit("Token(Token { idx: ");
                let idx: usize = self.until(",").parse().unwrap();
                self.lit(", text: \"");
                let a = self.i;
                while self.s[self.i] != b'"' {
                    self.i += if self.s[self.i] == b'\\' { 2 } else { 1 };
                }
                let text = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
                self.until(", end: Position { ");
                self.until(" } })");
                self.lit(" } })");
                st.last_mut().unwrap().1.push(Dump::Tok(idx, text));
                if self.has(", ") {
                    self.lit(", ");
                }
            } else if self.has("] }") {
                self.lit("] }");
                let (k, v) = st.pop().unwrap();
                let d = Dump::Node(k, v);
                match st.last_mut() {
                    None => return d,
                    Some(p) => p.1.push(d),
                }
                self.lit(")");
                if self.has(", ") {
                    self.lit(", ");
                }
            } else {
                panic!("debug form: unexpected text at {}", self.i);
            }
        }
    }
}

/// The tool's name of each token class, learned from scanning one example of
/// each class on its own; two classes sharing a name, or an example that is
/// not scanned as one token, are reported.
pub fn learn_kinds() -> (HashMap<Sym, String>, Vec<String>) {
    let mut m: HashMap<Sym, String> = HashMap::new();
    let mut bad = Vec::new();
    let mut ex: Vec<(Sym, String)> = lex::FIXED.iter().enumerate().map(|(i, t)| (i as Sym, t.to_string())).collect();
    for (s, t) in [
        (lex::IDENT, "abc"),
        (lex::UINT, "12"),
        (lex::UREAL, "1.5"),
        (lex::STRING, "\"s\""),
        (lex::BOOL, "true"),
        (lex::LCOMMENT, "// c"),
        (lex::BCOMMENT, "/* c */"),
    ] {
        ex.push((s, t.to_string()));
    }
    for (s, t) in ex {
        match scan("k", &t, SyntaxKind::StoredDefinition) {
            Ok((a, b, _)) if a.len() + b.len() == 1 => {
                let k = a.iter().chain(b.iter()).next().unwrap().kind.clone();
                let com = s == lex::LCOMMENT || s == lex::BCOMMENT;
                if com != (b.len() == 1) {
                    bad.push(format!("{t:?} is in the wrong list"));
                }
                if let Some(o) = m.iter().find(|x| *x.1 == k) {
                    bad.push(format!("{t:?} has the class of {:?}: {k}", lex::sym_name(*o.0)));
                }
                if (s as usize) < lex::FIXED.len() && k.chars().any(|c| c == '\'') && k.trim_matches('\'') != t {
                    bad.push(format!("{t:?} is taken for {k}"));
                }
                m.insert(s, k);
            }
            Ok((a, b, _)) => bad.push(format!("{t:?} scans as {} tokens and {} comments", a.len(), b.len())),
            Err(p) => bad.push(format!("{t:?}: panic {p}")),
        }
    }
    (m, bad)
}

/// Compare scanned lexemes with the reference; first difference.
pub fn compare_lexemes(src: &str, all: &[Lexeme], toks: &[Tok], coms: &[Tok], kinds: &HashMap<Sym, String>) -> Option<String> {
    let mut got: Vec<(&Tok, bool)> = toks.iter().map(|t| (t, false)).chain(coms.iter().map(|t| (t, true))).collect();
    // each list is in order by itself
    for l in [toks, coms] {
        for w in l.windows(2) {
            if w[0].idx >= w[1].idx || w[0].end.0 > w[1].start.0 {
                return Some(format!("out of order: {:?} then {:?}", w[0], w[1]));
            }
        }
    }
    got.sort_by_key(|g| g.0.idx);
    for (k, g) in got.iter().enumerate() {
        let t = g.0;
        if t.idx != k {
            return Some(format!("running index {} at position {k}: {:?}", t.idx, t));
        }
        if t.end.0 > src.len() || t.start.0 > t.end.0 || src.get(t.start.0..t.end.0) != Some(t.text.as_str()) {
            return Some(format!("text is not the slice at its position: {:?}", t));
        }
    }
    for k in 0..got.len().max(all.len()) {
        match (got.get(k), all.get(k)) {
            (Some((t, com)), Some(l)) => {
                let p = |p: &lex::Pos| (p.byte, p.line, p.col);
                let want = (l.text(src), p(&l.start), p(&l.end));
                if (t.text.as_str(), t.start, t.end) != want {
                    return Some(format!("lexeme {k}: scanned {:?} {:?}-{:?}, expected {:?}", t.text, t.start, t.end, want));
                }
                if *com != l.is_comment() {
                    return Some(format!("lexeme {k} {:?}: comment and token lists confused", t.text));
                }
                if kinds.get(&l.sym) != Some(&t.kind) {
                    return Some(format!("lexeme {k} {:?}: kind {} instead of {:?}", t.text, t.kind, kinds.get(&l.sym)));
                }
            }
            (Some((t, _)), None) => return Some(format!("surplus lexeme {:?} at {:?}", t.text, t.start)),
            (None, Some(l)) => return Some(format!("missing lexeme {:?} at {:?}", l.text(src), l.start)),
            _ => (),
        }
    }
    None
}
