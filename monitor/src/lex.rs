//! Reference lexer: an independent maximal-munch scanner for the Modelica
//! lexical rules, with byte offsets, lines and character columns.

/// Symbol ids. Fixed lexemes are indices into FIXED; the classes follow.
pub type Sym = u8;

pub const FIXED: [&str; 85] = [
    // keywords (true/false are one class: BOOL)
    "not", "and", "or", "in", "for", "if", "else", "elseif", "then", "when", "elsewhen", "while",
    "loop", "break", "return", "partial", "class", "operator", "expandable", "model", "function",
    "record", "type", "block", "connector", "package", "pure", "impure", "end", "der", "connect",
    "initial", "equation", "algorithm", "extends", "import", "public", "protected", "within",
    "final", "encapsulated", "enumeration", "input", "output", "redeclare", "inner", "outer",
    "replaceable", "constrainedby", "flow", "stream", "discrete", "parameter", "constant", "each",
    "annotation", "external",
    // operators and punctuation
    ";", ",", "+", "-", "*", "^", "(", "{", "[", ")", "}", "]", ":", ":=", "=", "==", "<", "<>",
    "<=", ">", ">=", ".", ".+", ".-", ".*", "./", ".^", "/",
];
pub const NKW: usize = 57;
pub const IDENT: Sym = 100;
pub const UINT: Sym = 101;
pub const UREAL: Sym = 102;
pub const STRING: Sym = 103;
pub const BOOL: Sym = 104;
pub const LCOMMENT: Sym = 105;
pub const BCOMMENT: Sym = 106;

pub fn sym(text: &str) -> Sym {
    match text {
        "IDENT" => IDENT,
        "UINT" => UINT,
        "UREAL" => UREAL,
        "STRING" => STRING,
        "BOOL" => BOOL,
        _ => FIXED
            .iter()
            .position(|f| *f == text)
            .unwrap_or_else(|| panic!("unknown terminal {text}")) as Sym,
    }
}

pub fn sym_name(s: Sym) -> &'static str {
    match s {
        IDENT => "IDENT",
        UINT => "UINT",
        UREAL => "UREAL",
        STRING => "STRING",
        BOOL => "BOOL",
        LCOMMENT => "LINE-COMMENT",
        BCOMMENT => "BLOCK-COMMENT",
        _ => FIXED[s as usize],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pos {
    pub byte: usize,
    pub line: usize,
    pub col: usize,
}

#[derive(Clone, Debug)]
pub struct Lexeme {
    pub sym: Sym,
    pub start: Pos,
    pub end: Pos,
}

impl Lexeme {
    pub fn is_comment(&self) -> bool {
        self.sym == LCOMMENT || self.sym == BCOMMENT
    }
    pub fn text<'a>(&self, src: &'a str) -> &'a str {
        &src[self.start.byte..self.end.byte]
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LexErr {
    Unexpected,
    UnclosedString,
    UnclosedQuoted,
    BadQuoted,
    UnclosedComment,
}

pub struct Lexed {
    /// tokens and comments in order of appearance
    pub all: Vec<Lexeme>,
    pub errors: Vec<(LexErr, Pos)>,
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0C')
}
fn is_word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
fn quoted_ok(c: char) -> bool {
    is_word(c) || "!#$%&()*+,-./:;<>=?@[]^{}|~ \"".contains(c)
}

pub fn lex(src: &str) -> Lexed {
    let cs: Vec<char> = src.chars().collect();
    let n = cs.len();
    let at = |i: usize| -> char {
        if i < n {
            cs[i]
        } else {
            '\0'
        }
    };
    let mut out = Lexed { all: Vec::new(), errors: Vec::new() };
    let mut i = 0;
    let mut pos = Pos { byte: 0, line: 1, col: 1 };
    let step = |p: &mut Pos, c: char| {
        p.byte += c.len_utf8();
        if c == '\n' {
            p.line += 1;
            p.col = 1;
        } else {
            p.col += 1;
        }
    };
    while i < n {
        let c = cs[i];
        if is_ws(c) {
            step(&mut pos, c);
            i += 1;
            continue;
        }
        // decide the lexeme's length in characters
        let mut err = None;
        let (len, symb): (usize, Sym) = if is_word(c) && !c.is_ascii_digit() {
            let mut j = i;
            while j < n && is_word(cs[j]) {
                j += 1;
            }
            let w: String = cs[i..j].iter().collect();
            let s = if w == "true" || w == "false" {
                BOOL
            } else {
                match FIXED[..NKW].iter().position(|k| *k == w) {
                    Some(k) => k as Sym,
                    None => IDENT,
                }
            };
            (j - i, s)
        } else if c.is_ascii_digit() {
            let mut j = i;
            let mut real = false;
            while at(j).is_ascii_digit() {
                j += 1;
            }
            if at(j) == '.' {
                real = true;
                j += 1;
                while at(j).is_ascii_digit() {
                    j += 1;
                }
            }
            // an exponent has digits; otherwise the letter starts a name
            let sign = matches!(at(j + 1), '+' | '-') as usize;
            if (at(j) == 'e' || at(j) == 'E') && at(j + 1 + sign).is_ascii_digit() {
                real = true;
                j += 1 + sign;
                while at(j).is_ascii_digit() {
                    j += 1;
                }
            }
            (j - i, if real { UREAL } else { UINT })
        } else if c == '"' {
            let mut j = i + 1;
            loop {
                if j >= n {
                    err = Some(LexErr::UnclosedString);
                    break (n - i, 0);
                }
                match cs[j] {
                    '\\' => j += 2,
                    '"' => break (j + 1 - i, STRING),
                    _ => j += 1,
                }
            }
        } else if c == '\'' {
            let mut j = i + 1;
            loop {
                if j >= n {
                    err = Some(LexErr::UnclosedQuoted);
                    break (n - i, 0);
                }
                match cs[j] {
                    '\\' => j += 2,
                    '\'' => break (j + 1 - i, IDENT),
                    q if quoted_ok(q) => j += 1,
                    _ => {
                        err = Some(LexErr::BadQuoted);
                        break (j + 1 - i, 0);
                    }
                }
            }
        } else if c == '/' && at(i + 1) == '/' {
            let mut j = i + 2;
            while j < n && cs[j] != '\n' && cs[j] != '\r' {
                j += 1;
            }
            (j - i, LCOMMENT)
        } else if c == '/' && at(i + 1) == '*' {
            let mut j = i + 2;
            loop {
                if j + 1 >= n {
                    err = Some(LexErr::UnclosedComment);
                    break (n - i, 0);
                }
                if cs[j] == '*' && cs[j + 1] == '/' {
                    break (j + 2 - i, BCOMMENT);
                }
                j += 1;
            }
        } else {
            let two: String = [c, at(i + 1)].iter().collect();
            if let Some(k) = FIXED[NKW..].iter().position(|o| *o == two) {
                (2, (NKW + k) as Sym)
            } else if let Some(k) = FIXED[NKW..].iter().position(|o| o.len() == 1 && o.starts_with(c)) {
                (1, (NKW + k) as Sym)
            } else {
                err = Some(LexErr::Unexpected);
                (1, 0)
            }
        };
        let start = pos;
        let len = len.min(n - i);
        for k in i..i + len {
            step(&mut pos, cs[k]);
        }
        i += len;
        match err {
            Some(e) => out.errors.push((e, start)),
            None => out.all.push(Lexeme { sym: symb, start, end: pos }),
        }
    }
    out
}

/// Does writing `a` directly followed by `b` still scan as the two lexemes?
pub fn joinable(a: &str, b: &str) -> bool {
    let t = format!("{a}{b}");
    let l = lex(&t);
    l.errors.is_empty() && l.all.len() == 2 && l.all[0].end.byte == a.len()
}
