//! The Modelica concrete syntax (specification 3.6, appendix A.2) as data, and
//! a memoising recogniser that yields derivation trees and the furthest token
//! that cannot continue a valid text.
use crate::lex::{sym, Lexeme, Sym};
use std::collections::HashMap;

/// Ordered-choice notation. `!x`/`&x` are lookahead. Rule names are the
/// specification's, with `_` for `-`. Leniencies of the tool that this
/// reference follows are marked LENIENT.
pub const GRAMMAR: &str = r#"
stored_definition = ('within' name? ';')? ('final'? class_definition ';')*
class_definition = 'encapsulated'? class_prefixes class_specifier
class_prefixes = 'partial'? ('class' | 'model' | 'block' | 'type' | 'package' | 'record' | 'connector' | 'function' | 'expandable' 'connector' | 'operator' ('record' | 'function')? | ('pure' | 'impure') 'operator'? 'function')
class_specifier = der_class_specifier | short_class_specifier | long_class_specifier
long_class_specifier = 'extends' IDENT class_modification? description_string composition 'end' IDENT | IDENT description_string composition 'end' IDENT
short_class_specifier = IDENT '=' ('enumeration' '(' (':' | enum_list?) ')' | base_prefix type_specifier array_subscripts? class_modification?) description
der_class_specifier = IDENT '=' 'der' '(' type_specifier ',' IDENT (',' IDENT)* ')' description
base_prefix = ('input' | 'output')?
enum_list = enumeration_literal (',' enumeration_literal)*
enumeration_literal = IDENT description
composition = element_list (('public' | 'protected') element_list | equation_section | algorithm_section)* ('external' language_specification? external_function_call? annotation_clause? ';')? (annotation_clause ';')?
language_specification = STRING
external_function_call = (component_reference '=')? IDENT '(' expression_list? ')'
element_list = (element ';')*
element = import_clause | extends_clause | 'redeclare'? 'final'? 'inner'? 'outer'? ('replaceable' (class_definition | component_clause) (constraining_clause description)? | class_definition | component_clause)
import_clause = 'import' (IDENT '=' name | name ('.*' | '.' '{' import_list '}')?) description
import_list = IDENT (',' IDENT)*
extends_clause = 'extends' type_specifier class_or_inheritance_modification? annotation_clause?
constraining_clause = 'constrainedby' type_specifier class_modification?
class_or_inheritance_modification = '(' argument_or_inheritance_modification_list? ')'
argument_or_inheritance_modification_list = (inheritance_modification | argument) (',' (inheritance_modification | argument))*
inheritance_modification = 'break' (connect_equation | IDENT)
component_clause = type_prefix type_specifier array_subscripts? component_list
type_prefix = ('flow' | 'stream')? ('discrete' | 'parameter' | 'constant')? ('input' | 'output')?
component_list = component_declaration (',' component_declaration)*
component_declaration = declaration condition_attribute? description
condition_attribute = 'if' expression
declaration = IDENT array_subscripts? modification?
modification = class_modification ('=' modification_expression)? | '=' modification_expression | ':=' modification_expression
modification_expression = 'break' | expression
class_modification = '(' argument_list? ')'
argument_list = argument (',' argument)*
argument = element_redeclaration | element_modification_or_replaceable
element_modification_or_replaceable = 'each'? 'final'? (element_replaceable | element_modification)
element_modification = name modification? description_string
element_redeclaration = 'redeclare' 'each'? 'final'? (short_class_definition | element_replaceable | component_clause1)
element_replaceable = 'replaceable' (short_class_definition | component_clause1) constraining_clause?
component_clause1 = type_prefix type_specifier component_declaration1
component_declaration1 = declaration description
short_class_definition = class_prefixes short_class_specifier
equation_section = 'initial'? 'equation' (!'end' equation ';')*
algorithm_section = 'initial'? 'algorithm' (statement ';')*
equation = (if_equation | for_equation | when_equation | connect_equation | simple_expression ('=' expression)?) description
statement = ('(' output_expression_list ')' ':=' component_reference function_call_args | if_statement | for_statement | while_statement | when_statement | 'break' | 'return' | component_reference (':=' expression | function_call_args)) description
if_equation = 'if' expression 'then' (!'end' equation ';')* ('elseif' expression 'then' (!'end' equation ';')*)* ('else' (!'end' equation ';')*)? 'end' 'if'
if_statement = 'if' expression 'then' (statement ';')* ('elseif' expression 'then' (statement ';')*)* ('else' (statement ';')*)? 'end' 'if'
for_equation = 'for' for_indices 'loop' (!'end' equation ';')* 'end' 'for'
for_statement = 'for' for_indices 'loop' (statement ';')* 'end' 'for'
for_indices = for_index (',' for_index)*
for_index = IDENT ('in' expression)?
while_statement = 'while' expression 'loop' (statement ';')* 'end' 'while'
when_equation = 'when' expression 'then' (!'end' equation ';')* ('elsewhen' expression 'then' (!'end' equation ';')*)* 'end' 'when'
when_statement = 'when' expression 'then' (statement ';')* ('elsewhen' expression 'then' (statement ';')*)* 'end' 'when'
connect_equation = 'connect' '(' component_reference ',' component_reference ')'
expression = 'if' expression 'then' expression ('elseif' expression 'then' expression)* 'else' expression | simple_expression
simple_expression = logical_expression (':' logical_expression (':' logical_expression)?)?
logical_expression = logical_term ('or' logical_term)*
logical_term = logical_factor ('and' logical_factor)*
logical_factor = 'not'? relation
relation = arithmetic_expression (relational_operator arithmetic_expression)?
relational_operator = '<' | '<=' | '>' | '>=' | '==' | '<>'
arithmetic_expression = add_operator? term (add_operator term)*
add_operator = '+' | '.+' | '-' | '.-'
term = factor (mul_operator factor)*
mul_operator = '*' | '.*' | '/' | './'
factor = primary (('^' | '.^') primary)?
primary = UREAL | UINT | STRING | BOOL | 'end' | '(' output_expression_list ')' array_subscripts? | '[' expression_list (';' expression_list)* ']' | '{' array_arguments '}' | ('der' | 'initial' | 'pure') function_call_args | component_reference function_call_args?
type_specifier = '.'? name
name = IDENT ('.' IDENT)*
component_reference = '.'? IDENT array_subscripts? ('.' IDENT array_subscripts?)*
result_reference = 'der' '(' component_reference (',' UINT)? ')' | component_reference
function_call_args = '(' function_arguments? ')'
function_arguments = &(IDENT '=') named_arguments | function_partial_application (',' function_arguments_non_first)? | expression (',' function_arguments_non_first | 'for' for_indices)?
function_arguments_non_first = &(IDENT '=') named_arguments | function_argument (',' function_arguments_non_first)?
array_arguments = expression (',' array_arguments_non_first | 'for' for_indices)?
array_arguments_non_first = expression (',' array_arguments_non_first)?
named_arguments = named_argument (',' named_arguments)?
named_argument = IDENT '=' function_argument
function_argument = function_partial_application | expression
function_partial_application = 'function' type_specifier '(' named_arguments? ')'
output_expression_list = expression? (',' expression?)*
expression_list = expression (',' expression)*
array_subscripts = '[' subscript (',' subscript)* ']'
subscript = ':' | expression
description = description_string annotation_clause?
description_string = (STRING ('+' STRING)*)?
annotation_clause = 'annotation' class_modification
"#;

pub type RuleId = u16;

#[derive(Debug, Clone)]
pub enum Ex {
    Tok(Sym),
    Rule(RuleId),
    Seq(Vec<Ex>),
    Alt(Vec<Ex>),
    Opt(Box<Ex>),
    Star(Box<Ex>),
    Not(Box<Ex>),
    And(Box<Ex>),
}

pub struct Grammar {
    pub names: Vec<String>,
    pub rules: Vec<Ex>,
    pub index: HashMap<String, RuleId>,
    /// smallest number of tokens and derivation height per rule
    pub min_len: Vec<usize>,
    pub min_h: Vec<usize>,
    /// first tokens with which a rule can start; whether it can be empty
    pub first: Vec<Vec<bool>>,
    pub nullable: Vec<bool>,
}

struct P<'a> {
    t: Vec<&'a str>,
    i: usize,
    idx: &'a HashMap<String, RuleId>,
}

impl<'a> P<'a> {
    fn peek(&self) -> &'a str {
        self.t.get(self.i).copied().unwrap_or("")
    }
    fn alt(&mut self) -> Ex {
        let mut v = vec![self.seq()];
        while self.peek() == "|" {
            self.i += 1;
            v.push(self.seq());
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Ex::Alt(v)
        }
    }
    fn seq(&mut self) -> Ex {
        let mut v = Vec::new();
        while !matches!(self.peek(), "" | "|" | ")") {
            v.push(self.unary());
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Ex::Seq(v)
        }
    }
    fn unary(&mut self) -> Ex {
        match self.peek() {
            "!" => {
                self.i += 1;
                return Ex::Not(Box::new(self.unary()));
            }
            "&" => {
                self.i += 1;
                return Ex::And(Box::new(self.unary()));
            }
            _ => (),
        }
        let t = self.peek();
        self.i += 1;
        let mut e = if t == "(" {
            let e = self.alt();
            assert_eq!(self.peek(), ")");
            self.i += 1;
            e
        } else if let Some(q) = t.strip_prefix('\'') {
            Ex::Tok(sym(&q[..q.len() - 1]))
        } else if t.chars().all(|c| c.is_ascii_uppercase()) {
            Ex::Tok(sym(t))
        } else {
            Ex::Rule(*self.idx.get(t).unwrap_or_else(|| panic!("no rule {t}")))
        };
        loop {
            match self.peek() {
                "?" => e = Ex::Opt(Box::new(e)),
                "*" => e = Ex::Star(Box::new(e)),
                _ => return e,
            }
            self.i += 1;
        }
    }
}

impl Grammar {
    pub fn new() -> Grammar {
        Grammar::from_text(GRAMMAR)
    }
    pub fn from_text(text: &str) -> Grammar {
        let mut names = Vec::new();
        let mut index = HashMap::new();
        let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
        for l in &lines {
            let n = l.split(" = ").next().unwrap().trim().to_string();
            index.insert(n.clone(), names.len() as RuleId);
            names.push(n);
        }
        let mut rules = Vec::new();
        for l in &lines {
            let body = l.split_once(" = ").unwrap().1;
            // tokenise the notation
            let mut t: Vec<&str> = Vec::new();
            let b = body.as_bytes();
            let mut i = 0;
            while i < b.len() {
                let s = i;
                match b[i] {
                    b' ' => {
                        i += 1;
                        continue;
                    }
                    b'\'' => {
                        i += 1;
                        while b[i] != b'\'' {
                            i += 1;
                        }
                        i += 1;
                    }
                    c if c.is_ascii_alphanumeric() || c == b'_' => {
                        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                            i += 1;
                        }
                    }
                    _ => i += 1,
                }
                t.push(&body[s..i]);
            }
            let mut p = P { t, i: 0, idx: &index };
            let e = p.alt();
            assert_eq!(p.i, p.t.len(), "trailing notation in {l}");
            rules.push(e);
        }
        let n = rules.len();
        let mut g = Grammar {
            names,
            rules,
            index,
            min_len: vec![usize::MAX; n],
            min_h: vec![usize::MAX; n],
            first: vec![vec![false; 256]; n],
            nullable: vec![false; n],
        };
        loop {
            let mut changed = false;
            for r in 0..n {
                let (l, h) = g.min_of(&g.rules[r]);
                let h = h.saturating_add(1);
                if l < g.min_len[r] || h < g.min_h[r] {
                    g.min_len[r] = l.min(g.min_len[r]);
                    g.min_h[r] = h.min(g.min_h[r]);
                    changed = true;
                }
                let mut f = vec![false; 256];
                let nul = g.first_of(&g.rules[r], &mut f);
                for k in 0..256 {
                    if f[k] && !g.first[r][k] {
                        g.first[r][k] = true;
                        changed = true;
                    }
                }
                if nul && !g.nullable[r] {
                    g.nullable[r] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        g
    }
    pub fn min_of(&self, e: &Ex) -> (usize, usize) {
        match e {
            Ex::Tok(_) => (1, 0),
            Ex::Rule(r) => (self.min_len[*r as usize], self.min_h[*r as usize]),
            Ex::Seq(v) => v.iter().map(|x| self.min_of(x)).fold((0, 0), |a, b| {
                (a.0.saturating_add(b.0), a.1.max(b.1))
            }),
            Ex::Alt(v) => v.iter().map(|x| self.min_of(x)).fold((usize::MAX, usize::MAX), |a, b| {
                (a.0.min(b.0), a.1.min(b.1))
            }),
            _ => (0, 0),
        }
    }
    fn first_of(&self, e: &Ex, f: &mut Vec<bool>) -> bool {
        match e {
            Ex::Tok(s) => {
                f[*s as usize] = true;
                false
            }
            Ex::Rule(r) => {
                for k in 0..256 {
                    if self.first[*r as usize][k] {
                        f[k] = true;
                    }
                }
                self.nullable[*r as usize]
            }
            Ex::Seq(v) => {
                for x in v {
                    if !self.first_of(x, f) {
                        return false;
                    }
                }
                true
            }
            Ex::Alt(v) => {
                let mut n = false;
                for x in v {
                    n |= self.first_of(x, f);
                }
                n
            }
            Ex::Opt(x) | Ex::Star(x) => {
                self.first_of(x, f);
                true
            }
            Ex::Not(_) | Ex::And(_) => true,
        }
    }
    pub fn rule(&self, n: &str) -> RuleId {
        self.index[n]
    }
    pub fn name(&self, r: RuleId) -> &str {
        &self.names[r as usize]
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ch {
    /// index into the token list
    Tok(u32),
    Node(u32),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub rule: RuleId,
    pub ch: Vec<Ch>,
    /// first and last token covered (empty nodes are not kept in trees)
    pub a: u32,
    pub b: u32,
}

pub struct Tree {
    pub nodes: Vec<Node>,
    pub root: u32,
}

pub struct Outcome {
    pub tree: Option<Tree>,
    /// index of the furthest token that failed to match (== tokens.len() at end)
    pub furthest: usize,
    pub expected: Vec<Sym>,
}

struct Rec<'a> {
    g: &'a Grammar,
    t: &'a [Sym],
    memo: HashMap<u64, Option<(u32, u32)>>,
    nodes: Vec<Node>,
    far: usize,
    expected: Vec<Sym>,
    quiet: u32,
}

impl<'a> Rec<'a> {
    fn fail(&mut self, pos: usize, s: Sym) {
        if self.quiet > 0 {
            return;
        }
        if pos > self.far {
            self.far = pos;
            self.expected.clear();
        }
        if pos == self.far && !self.expected.contains(&s) {
            self.expected.push(s);
        }
    }
    fn run(&mut self, e: &Ex, mut pos: usize, out: &mut Vec<Ch>) -> Option<usize> {
        match e {
            Ex::Tok(s) => {
                if self.t.get(pos) == Some(s) {
                    out.push(Ch::Tok(pos as u32));
                    Some(pos + 1)
                } else {
                    self.fail(pos, *s);
                    None
                }
            }
            Ex::Rule(r) => {
                // cheap rejection by first sets keeps the recogniser linear
                let ri = *r as usize;
                if !self.g.nullable[ri] {
                    let ok = self.t.get(pos).map_or(false, |s| self.g.first[ri][*s as usize]);
                    if !ok {
                        self.fail(pos, 255);
                        return None;
                    }
                }
                let key = ((*r as u64) << 40) | pos as u64;
                if self.quiet == 0 {
                    if let Some(m) = self.memo.get(&key) {
                        return match *m {
                            None => None,
                            Some((n, end)) => {
                                if n != u32::MAX {
                                    out.push(Ch::Node(n));
                                }
                                Some(end as usize)
                            }
                        };
                    }
                }
                let mut ch = Vec::new();
                let g = self.g;
                let res = self.run(&g.rules[ri], pos, &mut ch);
                let m = match res {
                    None => None,
                    Some(end) => {
                        if ch.is_empty() {
                            Some((u32::MAX, end as u32))
                        } else {
                            let id = self.nodes.len() as u32;
                            self.nodes.push(Node { rule: *r, ch, a: pos as u32, b: end as u32 - 1 });
                            out.push(Ch::Node(id));
                            Some((id, end as u32))
                        }
                    }
                };
                if self.quiet == 0 {
                    self.memo.insert(key, m);
                }
                res
            }
            Ex::Seq(v) => {
                let keep = out.len();
                for x in v {
                    match self.run(x, pos, out) {
                        Some(p) => pos = p,
                        None => {
                            out.truncate(keep);
                            return None;
                        }
                    }
                }
                Some(pos)
            }
            Ex::Alt(v) => {
                for x in v {
                    let keep = out.len();
                    if let Some(p) = self.run(x, pos, out) {
                        return Some(p);
                    }
                    out.truncate(keep);
                }
                None
            }
            Ex::Opt(x) => {
                let keep = out.len();
                match self.run(x, pos, out) {
                    Some(p) => Some(p),
                    None => {
                        out.truncate(keep);
                        Some(pos)
                    }
                }
            }
            Ex::Star(x) => {
                loop {
                    let keep = out.len();
                    match self.run(x, pos, out) {
                        Some(p) if p > pos => pos = p,
                        Some(_) => break,
                        None => {
                            out.truncate(keep);
                            break;
                        }
                    }
                }
                Some(pos)
            }
            Ex::Not(x) | Ex::And(x) => {
                self.quiet += 1;
                let mut scratch = Vec::new();
                let r = self.run(x, pos, &mut scratch).is_some();
                self.quiet -= 1;
                let want = matches!(e, Ex::And(_));
                if r == want {
                    Some(pos)
                } else {
                    // the lookahead itself rejects this token
                    if !want {
                        self.fail(pos, 255);
                    }
                    None
                }
            }
        }
    }
}

/// Recognise `toks` as a complete derivation of `rule`.
pub fn recognise(g: &Grammar, toks: &[Sym], rule: RuleId) -> Outcome {
    let mut r = Rec {
        g,
        t: toks,
        memo: HashMap::new(),
        nodes: Vec::new(),
        far: 0,
        expected: Vec::new(),
        quiet: 0,
    };
    let mut out = Vec::new();
    let res = r.run(&Ex::Rule(rule), 0, &mut out);
    let complete = res == Some(toks.len());
    let mut far = r.far;
    if !complete {
        if let Some(end) = res {
            far = far.max(end);
        }
    }
    let tree = if complete {
        let root = match out.first() {
            Some(Ch::Node(n)) => *n,
            _ => {
                r.nodes.push(Node { rule, ch: Vec::new(), a: 0, b: 0 });
                r.nodes.len() as u32 - 1
            }
        };
        Some(compact(r.nodes, root))
    } else {
        None
    };
    Outcome { tree, furthest: far.min(toks.len()), expected: r.expected }
}

/// Keep only the nodes of the final derivation (backtracking leaves others).
fn compact(mut nodes: Vec<Node>, root: u32) -> Tree {
    let mut keep = vec![false; nodes.len()];
    keep[root as usize] = true;
    for i in (0..nodes.len()).rev() {
        if keep[i] {
            for c in &nodes[i].ch {
                if let Ch::Node(k) = c {
                    keep[*k as usize] = true;
                }
            }
        }
    }
    let mut map = vec![0u32; nodes.len()];
    let mut out: Vec<Node> = Vec::new();
    for i in 0..nodes.len() {
        if keep[i] {
            map[i] = out.len() as u32;
            let mut n = std::mem::replace(&mut nodes[i], Node { rule: 0, ch: Vec::new(), a: 0, b: 0 });
            for c in n.ch.iter_mut() {
                if let Ch::Node(k) = c {
                    *k = map[*k as usize];
                }
            }
            out.push(n);
        }
    }
    Tree { nodes: out, root: map[root as usize] }
}

pub fn symbols(all: &[Lexeme]) -> Vec<Sym> {
    all.iter().filter(|l| !l.is_comment()).map(|l| l.sym).collect()
}
