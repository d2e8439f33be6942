//! Reference layout model: for every gap between two tokens, what the style
//! guide (code-style.md) asks for, derived from the derivation tree and from
//! the line structure of the source. Nesting levels are passed down, never
//! counted up and down, so a model level cannot leak.
use crate::gram::{Ch, Grammar, Tree};
use crate::lex::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Blank {
    /// exactly one blank line
    Required,
    /// one blank line iff the source has at least one
    Legal,
    /// none
    Illegal,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Want {
    Glue,
    Space,
    /// a line break; `wrap` tells manual wrapping from mandatory structure
    Break { blank: Blank, lvl: u32, wrap: bool },
}

struct St {
    base: u32,
    wrapped: bool,
}
impl St {
    fn lvl(&self) -> u32 {
        self.base + self.wrapped as u32
    }
}

pub struct Model<'a> {
    g: &'a Grammar,
    t: &'a Tree,
    toks: Vec<&'a Lexeme>,
    forced: Vec<bool>,
    pub want: Vec<Want>,
    /// which optional decisions were seen (evidence)
    pub wraps_taken: usize,
    pub lists_flat: usize,
    pub lists_broken: usize,
    pub max_lvl: u32,
}

struct Syms {
    comma: Sym,
    lp: Sym,
    rp: Sym,
    lb: Sym,
    rb: Sym,
    lc: Sym,
    rc: Sym,
    dot: Sym,
    semi: Sym,
    within: Sym,
    star: Sym,
    glue_lp: Vec<Sym>,
}

impl<'a> Model<'a> {
    pub fn new(g: &'a Grammar, t: &'a Tree, all: &'a [Lexeme]) -> Model<'a> {
        let toks: Vec<&Lexeme> = all.iter().filter(|l| !l.is_comment()).collect();
        // forced[n]: some strict descendant starts a line of its own although
        // it stands inside a list (description or constraining clause)
        let forcing: Vec<bool> = g
            .names
            .iter()
            .map(|n| matches!(n.as_str(), "description" | "description_string" | "constraining_clause"))
            .collect();
        let mut forced = vec![false; t.nodes.len()];
        for i in 0..t.nodes.len() {
            forced[i] = t.nodes[i].ch.iter().any(|c| match c {
                Ch::Node(n) => {
                    debug_assert!((*n as usize) < i);
                    forcing[t.nodes[*n as usize].rule as usize] || forced[*n as usize]
                }
                _ => false,
            });
        }
        let mut m = Model {
            g,
            t,
            want: vec![Want::Space; toks.len()],
            toks,
            forced,
            wraps_taken: 0,
            lists_flat: 0,
            lists_broken: 0,
            max_lvl: 0,
        };
        m.spacing();
        if !t.nodes[t.root as usize].ch.is_empty() {
            m.walk(t.root, 0);
        }
        if !m.want.is_empty() {
            m.want[0] = Want::Glue;
        }
        m
    }

    // ---- helpers -----------------------------------------------------------
    fn name(&self, n: u32) -> &'a str {
        self.g.name(self.t.nodes[n as usize].rule)
    }
    fn kids(&self, n: u32) -> &'a [Ch] {
        &self.t.nodes[n as usize].ch
    }
    fn first(&self, c: Ch) -> usize {
        match c {
            Ch::Tok(i) => i as usize,
            Ch::Node(n) => self.t.nodes[n as usize].a as usize,
        }
    }
    fn sy(&self, c: Ch) -> Option<Sym> {
        match c {
            Ch::Tok(i) => Some(self.toks[i as usize].sym),
            _ => None,
        }
    }
    fn is(&self, c: Ch, s: &str) -> bool {
        self.sy(c).map_or(false, |x| sym_name(x) == s)
    }
    fn node_is(&self, c: Ch, s: &str) -> bool {
        match c {
            Ch::Node(n) => self.name(n) == s,
            _ => false,
        }
    }
    /// Does the construct reach over more than one source line?
    fn multi(&self, n: u32) -> bool {
        let nd = &self.t.nodes[n as usize];
        self.toks[nd.a as usize].start.line < self.toks[nd.b as usize].end.line
    }
    /// Do the brackets of the construct stand on different source lines?
    fn brackets_multi(&self, n: u32, open: &str, close: &str) -> bool {
        let mut o = None;
        let mut r = false;
        for c in self.kids(n) {
            if self.is(*c, open) && o.is_none() {
                o = Some(self.first(*c));
            } else if self.is(*c, close) {
                if let Some(i) = o {
                    r = self.toks[self.first(*c)].start.line > self.toks[i].start.line;
                }
            }
        }
        r
    }
    fn starts_if(&self, n: u32) -> bool {
        sym_name(self.toks[self.t.nodes[n as usize].a as usize].sym) == "if"
    }
    fn brk(&mut self, tok: usize, blank: Blank, lvl: u32, wrap: bool) {
        self.want[tok] = Want::Break { blank, lvl, wrap };
        self.max_lvl = self.max_lvl.max(lvl);
        if wrap {
            self.wraps_taken += 1;
        }
    }
    fn list(&mut self, broken: bool) {
        if broken {
            self.lists_broken += 1
        } else {
            self.lists_flat += 1
        }
    }

    // ---- horizontal spacing --------------------------------------------------
    fn spacing(&mut self) {
        let y = Syms {
            comma: sym(","),
            lp: sym("("),
            rp: sym(")"),
            lb: sym("["),
            rb: sym("]"),
            lc: sym("{"),
            rc: sym("}"),
            dot: sym("."),
            semi: sym(";"),
            within: sym("within"),
            star: sym(".*"),
            glue_lp: vec![IDENT, sym("]"), sym("der"), sym("initial"), sym("pure"), sym("connect"), sym("enumeration")],
        };
        let mut unary = vec![false; self.toks.len()];
        let mut import_star = vec![false; self.toks.len()];
        for n in 0..self.t.nodes.len() as u32 {
            match self.name(n) {
                "arithmetic_expression" => {
                    let k = self.kids(n)[0];
                    if self.node_is(k, "add_operator") {
                        unary[self.first(k)] = true;
                    }
                }
                "import_clause" => {
                    for c in self.kids(n) {
                        if self.sy(*c) == Some(y.star) {
                            import_star[self.first(*c)] = true;
                        }
                    }
                }
                _ => (),
            }
        }
        for i in 1..self.toks.len() {
            let (p, c) = (self.toks[i - 1].sym, self.toks[i].sym);
            let space = if p == y.comma {
                true
            } else if c == y.comma {
                p == y.lp // a discarded first output
            } else if c == y.semi {
                p == y.within
            } else if c == y.rp || c == y.rb || c == y.rc {
                false
            } else if p == y.lp || p == y.lb || p == y.lc || p == y.dot {
                false
            } else if c == y.dot && (p == IDENT || p == y.rb) {
                false
            } else if unary[i - 1] || import_star[i] {
                false
            } else if c == y.lp {
                !y.glue_lp.contains(&p)
            } else if c == y.lb {
                !(p == IDENT || p == y.rp)
            } else {
                true
            };
            self.want[i] = if space { Want::Space } else { Want::Glue };
        }
    }

    // ---- vertical structure --------------------------------------------------
    /// description, annotation and constraining clause of an element: own
    /// line, one level deeper
    fn sub(&mut self, n: u32, lvl: u32) {
        self.brk(self.first(Ch::Node(n)), Blank::Illegal, lvl + 1, false);
        self.walk(n, lvl + 1);
    }
    fn each(&mut self, n: u32, lvl: u32) {
        for c in self.kids(n) {
            if let Ch::Node(k) = *c {
                self.walk(k, lvl);
            }
        }
    }
    /// items of a broken list, at `lvl`
    fn items(&mut self, n: u32, broken: bool, lvl: u32) {
        for c in self.kids(n) {
            if let Ch::Node(k) = *c {
                if broken {
                    self.brk(self.first(*c), Blank::Illegal, lvl, true);
                }
                self.walk(k, lvl);
            }
        }
    }

    fn walk(&mut self, n: u32, lvl: u32) {
        use Blank::*;
        let kids = self.kids(n);
        match self.name(n) {
            "stored_definition" => {
                let mut prev = "";
                for c in kids {
                    match *c {
                        Ch::Node(k) => {
                            if self.name(k) == "class_definition" && prev != "final" {
                                self.brk(self.first(*c), Legal, 0, false);
                            }
                            self.walk(k, 0);
                            prev = "";
                        }
                        Ch::Tok(i) => {
                            prev = sym_name(self.toks[i as usize].sym);
                            if prev == "final" {
                                self.brk(i as usize, Legal, 0, false);
                            } else if prev == "within" {
                                self.brk(i as usize, Illegal, 0, false);
                            }
                        }
                    }
                }
            }
            "long_class_specifier" => {
                for c in kids {
                    match *c {
                        Ch::Node(k) if self.name(k) == "description_string" => self.sub(k, lvl),
                        Ch::Node(k) => self.walk(k, lvl),
                        Ch::Tok(i) => {
                            if self.is(*c, "end") {
                                self.brk(i as usize, Required, lvl, false);
                            }
                        }
                    }
                }
            }
            "short_class_specifier" => {
                for c in kids {
                    if let Ch::Node(k) = *c {
                        match self.name(k) {
                            "enum_list" => {
                                let broken = self.brackets_multi(n, "(", ")") || self.forced[k as usize];
                                self.list(broken);
                                self.items(k, broken, lvl + broken as u32);
                            }
                            "description" => self.sub(k, lvl),
                            _ => self.walk(k, lvl),
                        }
                    }
                }
            }
            "enum_list" => {
                // entry point of its own: no brackets, so no level
                let broken = self.multi(n) || self.forced[n as usize];
                for (k, c) in kids.iter().enumerate() {
                    if let Ch::Node(m) = *c {
                        if k > 0 && broken {
                            self.brk(self.first(*c), Illegal, lvl, true);
                        }
                        self.walk(m, lvl);
                    }
                }
            }
            "der_class_specifier" => {
                let broken = self.brackets_multi(n, "(", ")");
                self.list(broken);
                for (k, c) in kids.iter().enumerate() {
                    match *c {
                        Ch::Node(m) if self.name(m) == "description" => self.sub(m, lvl),
                        Ch::Node(m) => {
                            if broken {
                                self.brk(self.first(*c), Illegal, lvl + 1, true);
                            }
                            self.walk(m, lvl + 1);
                        }
                        Ch::Tok(i) => {
                            if broken && k > 0 && self.is(kids[k - 1], ",") {
                                self.brk(i as usize, Illegal, lvl + 1, true);
                            }
                        }
                    }
                }
            }
            "enumeration_literal" | "element_modification" | "element_replaceable" | "component_declaration"
            | "component_declaration1" | "import_clause" | "element" | "extends_clause" => {
                for c in kids {
                    if let Ch::Node(k) = *c {
                        match self.name(k) {
                            "description" | "description_string" | "annotation_clause" | "constraining_clause" => {
                                self.sub(k, lvl)
                            }
                            "import_list" => {
                                let broken = self.brackets_multi(n, "{", "}");
                                self.list(broken);
                                if broken {
                                    for d in self.kids(k) {
                                        if !self.is(*d, ",") {
                                            self.brk(self.first(*d), Illegal, lvl + 1, true);
                                        }
                                    }
                                }
                            }
                            _ => self.walk(k, lvl),
                        }
                    }
                }
            }
            "import_list" => {
                if self.multi(n) {
                    for (k, d) in kids.iter().enumerate() {
                        if k > 0 && !self.is(*d, ",") {
                            self.brk(self.first(*d), Illegal, lvl, true);
                        }
                    }
                }
            }
            "composition" => self.composition(n, lvl),
            "element_list" => {
                for (k, c) in kids.iter().enumerate() {
                    if let Ch::Node(m) = *c {
                        if k > 0 {
                            self.brk(self.first(*c), Legal, lvl, false);
                        }
                        self.walk(m, lvl);
                    }
                }
            }
            "equation_section" | "algorithm_section" => {
                let mut firstone = true;
                for c in kids {
                    if let Ch::Node(m) = *c {
                        let b = if firstone { Required } else { Legal };
                        self.brk(self.first(*c), b, lvl + 1, false);
                        firstone = false;
                        self.walk(m, lvl + 1);
                    }
                }
            }
            "external_function_call" => {
                let broken = self.brackets_multi(n, "(", ")");
                for c in kids {
                    if let Ch::Node(k) = *c {
                        if self.name(k) == "expression_list" {
                            self.list(broken);
                            self.items(k, broken, lvl + 1);
                        } else {
                            self.walk(k, lvl + 1);
                        }
                    }
                }
            }
            "class_modification" | "class_or_inheritance_modification" => {
                for c in kids {
                    if let Ch::Node(k) = *c {
                        let broken = self.multi(n) || self.forced[n as usize];
                        self.list(broken);
                        self.items(k, broken, lvl + 1);
                    }
                }
            }
            "component_list" => {
                let many = kids.len() > 1;
                let broken = many && (self.multi(n) || self.forced[n as usize]);
                if many {
                    self.list(broken);
                }
                self.items(n, broken, lvl + broken as u32);
            }
            "modification" | "named_argument" => {
                // the right-hand side of `=`
                for c in kids {
                    if let Ch::Node(k) = *c {
                        match self.name(k) {
                            "class_modification" => self.walk(k, lvl),
                            _ => self.rhs(k, lvl),
                        }
                    }
                }
            }
            "equation" | "statement" => {
                for c in kids {
                    if let Ch::Node(k) = *c {
                        match self.name(k) {
                            "description" => self.sub(k, lvl),
                            "simple_expression" => self.expr(k, lvl),
                            "expression" => self.rhs(k, lvl),
                            "output_expression_list" => self.outputs(k, &mut St { base: lvl, wrapped: false }),
                            _ => self.walk(k, lvl),
                        }
                    }
                }
            }
            "if_equation" | "if_statement" | "for_equation" | "for_statement" | "while_statement"
            | "when_equation" | "when_statement" => {
                for c in kids {
                    match *c {
                        Ch::Node(k) => match self.name(k) {
                            "equation" | "statement" => {
                                self.brk(self.first(*c), Legal, lvl + 1, false);
                                self.walk(k, lvl + 1);
                            }
                            _ => self.walk(k, lvl),
                        },
                        Ch::Tok(i) => {
                            if ["elseif", "else", "elsewhen", "end"].iter().any(|s| self.is(*c, s)) {
                                self.brk(i as usize, Legal, lvl, false);
                            }
                        }
                    }
                }
            }
            "connect_equation" => {
                let broken = self.multi(n);
                self.list(broken);
                self.items(n, broken, lvl + 1);
            }
            "array_subscripts" => {
                let broken = self.multi(n);
                self.list(broken);
                self.items(n, broken, lvl + 1);
            }
            "description" => {
                for (k, c) in kids.iter().enumerate() {
                    if let Ch::Node(m) = *c {
                        if k > 0 {
                            self.brk(self.first(*c), Illegal, lvl, false);
                        }
                        self.walk(m, lvl);
                    }
                }
            }
            "description_string" => {
                if self.multi(n) {
                    for c in kids {
                        if self.is(*c, "+") {
                            self.brk(self.first(*c), Illegal, lvl + 1, true);
                        }
                    }
                }
            }
            "function_call_args" => {
                let broken = self.multi(n);
                for c in kids {
                    if let Ch::Node(k) = *c {
                        self.list(broken);
                        if broken {
                            self.brk(self.first(*c), Illegal, lvl + 1, true);
                        }
                        self.args(k, broken, lvl + 1);
                    }
                }
            }
            "function_partial_application" => {
                let broken = self.brackets_multi(n, "(", ")");
                for c in kids {
                    if let Ch::Node(k) = *c {
                        if self.name(k) == "named_arguments" {
                            self.list(broken);
                            if broken {
                                self.brk(self.first(*c), Illegal, lvl + 1, true);
                            }
                            self.args(k, broken, lvl + 1);
                        } else {
                            self.walk(k, lvl);
                        }
                    }
                }
            }
            "function_arguments" | "function_arguments_non_first" | "array_arguments"
            | "array_arguments_non_first" | "named_arguments" => self.args(n, false, lvl),
            "expression_list" => {
                let broken = self.multi(n);
                for (k, c) in kids.iter().enumerate() {
                    if let Ch::Node(m) = *c {
                        if k > 0 && broken {
                            self.brk(self.first(*c), Illegal, lvl, true);
                        }
                        self.walk(m, lvl);
                    }
                }
            }
            "output_expression_list" => self.outputs(n, &mut St { base: lvl, wrapped: false }),
            "argument_list" | "argument_or_inheritance_modification_list" => {
                // entry point of its own
                let broken = self.multi(n) || self.forced[n as usize];
                for (k, c) in kids.iter().enumerate() {
                    if let Ch::Node(m) = *c {
                        if k > 0 && broken {
                            self.brk(self.first(*c), Illegal, lvl, true);
                        }
                        self.walk(m, lvl);
                    }
                }
            }
            "expression" | "simple_expression" | "logical_expression" | "logical_term" | "logical_factor"
            | "relation" | "arithmetic_expression" | "term" | "factor" | "primary" => self.expr(n, lvl),
            _ => self.each(n, lvl),
        }
    }

    /// Arguments chained by commas through right-recursive rules.
    fn args(&mut self, n: u32, broken: bool, lvl: u32) {
        let mut stack = vec![n];
        while let Some(n) = stack.pop() {
            for c in self.kids(n) {
                match *c {
                    Ch::Node(k) => match self.name(k) {
                        "function_arguments_non_first" | "array_arguments_non_first" => {
                            if broken {
                                self.brk(self.first(*c), Blank::Illegal, lvl, true);
                            }
                            stack.push(k);
                        }
                        "named_arguments" => {
                            if broken {
                                self.brk(self.first(*c), Blank::Illegal, lvl, true);
                            }
                            stack.push(k);
                        }
                        _ => self.walk(k, lvl),
                    },
                    Ch::Tok(i) => {
                        if broken && self.is(*c, "for") {
                            self.brk(i as usize, Blank::Illegal, lvl, true);
                        }
                    }
                }
            }
        }
    }

    /// Right-hand side: a multi-line if-expression starts on a new line.
    fn rhs(&mut self, k: u32, lvl: u32) {
        if self.multi(k) && self.starts_if(k) {
            self.brk(self.first(Ch::Node(k)), Blank::Illegal, lvl + 1, true);
            self.walk(k, lvl + 1);
        } else {
            self.walk(k, lvl);
        }
    }

    fn composition(&mut self, n: u32, lvl: u32) {
        use Blank::*;
        let mut in_external = false;
        for c in self.kids(n) {
            match *c {
                Ch::Tok(i) => {
                    if self.is(*c, ";") {
                        in_external = false;
                    } else {
                        in_external = self.is(*c, "external");
                        self.brk(i as usize, Required, lvl, false);
                    }
                }
                Ch::Node(k) => match self.name(k) {
                    "element_list" => {
                        self.brk(self.first(*c), Required, lvl + 1, false);
                        self.walk(k, lvl + 1);
                    }
                    "external_function_call" => {
                        self.brk(self.first(*c), Required, lvl + 1, false);
                        self.walk(k, lvl + 1);
                    }
                    "annotation_clause" => {
                        let (b, l) = if in_external { (Illegal, lvl + 2) } else { (Required, lvl + 1) };
                        self.brk(self.first(*c), b, l, false);
                        self.walk(k, l);
                    }
                    "language_specification" => (),
                    _ => {
                        self.brk(self.first(*c), Required, lvl, false);
                        self.walk(k, lvl);
                    }
                },
            }
        }
    }

    // ---- expressions ---------------------------------------------------------
    fn expr(&mut self, n: u32, lvl: u32) {
        let mut st = St { base: lvl, wrapped: false };
        self.ops(n, &mut st);
    }

    fn outputs(&mut self, n: u32, st: &mut St) {
        for c in self.kids(n) {
            if let Ch::Node(k) = *c {
                self.ops(k, st);
            }
        }
    }

    fn wrap_at(&mut self, op: Ch, operand: Option<&Ch>, st: &mut St) {
        let i = self.first(op);
        if let (Some(o), true) = (operand, i > 0) {
            let before = self.toks[i - 1].end.line;
            if self.toks[self.first(*o)].start.line > before {
                st.wrapped = true;
                self.brk(i, Blank::Illegal, st.lvl(), true);
            }
        }
    }

    fn ops(&mut self, n: u32, st: &mut St) {
        let kids = self.kids(n);
        let name = self.name(n);
        match name {
            "expression" if self.is(kids[0], "if") => {
                let multi = self.multi(n);
                let lvl = st.lvl();
                self.list(multi);
                let mut branch = false;
                let mut after_branch = false;
                for c in kids {
                    match *c {
                        Ch::Tok(i) => {
                            if after_branch && multi {
                                self.brk(i as usize, Blank::Illegal, lvl, true);
                            }
                            after_branch = false;
                            branch = self.is(*c, "then") || self.is(*c, "else");
                        }
                        Ch::Node(k) => {
                            if branch {
                                if multi {
                                    self.brk(self.first(*c), Blank::Illegal, lvl + 1, true);
                                }
                                self.walk(k, lvl + 1);
                                after_branch = true;
                            } else {
                                self.walk(k, lvl);
                            }
                        }
                    }
                }
            }
            "logical_expression" | "logical_term" | "factor" => {
                for (k, c) in kids.iter().enumerate() {
                    match *c {
                        Ch::Node(m) => self.ops(m, st),
                        Ch::Tok(_) => self.wrap_at(*c, kids.get(k + 1), st),
                    }
                }
            }
            "relation" | "arithmetic_expression" | "term" => {
                for (k, c) in kids.iter().enumerate() {
                    if let Ch::Node(m) = *c {
                        if self.name(m).ends_with("_operator") {
                            if k > 0 {
                                self.wrap_at(*c, kids.get(k + 1), st);
                            }
                        } else {
                            self.ops(m, st);
                        }
                    }
                }
            }
            "primary" => self.primary(n, st),
            _ => {
                // expression, simple_expression, logical_factor
                for c in kids {
                    if let Ch::Node(m) = *c {
                        self.ops(m, st);
                    }
                }
            }
        }
    }

    fn primary(&mut self, n: u32, st: &mut St) {
        let kids = self.kids(n);
        let multi = self.multi(n);
        if self.is(kids[0], "{") || self.is(kids[0], "[") {
            let lvl = st.lvl() + 1;
            self.list(multi);
            let rows = kids.iter().filter(|c| matches!(c, Ch::Node(_))).count();
            for c in kids {
                if let Ch::Node(k) = *c {
                    if multi {
                        // first item, or first item of a matrix row
                        self.brk(self.first(*c), Blank::Illegal, lvl, true);
                    }
                    if self.name(k) == "expression_list" {
                        let broken = (multi && rows == 1) || self.multi(k);
                        for (j, d) in self.kids(k).iter().enumerate() {
                            if let Ch::Node(e) = *d {
                                if j > 0 && broken {
                                    self.brk(self.first(*d), Blank::Illegal, lvl, true);
                                }
                                self.walk(e, lvl);
                            }
                        }
                    } else {
                        self.args(k, multi, lvl);
                    }
                }
            }
        } else {
            for c in kids {
                if let Ch::Node(k) = *c {
                    if self.name(k) == "output_expression_list" {
                        self.outputs(k, st);
                    } else {
                        self.walk(k, st.lvl());
                    }
                }
            }
        }
    }
}

/// One element (token or comment) of the expected output.
#[derive(Clone, Debug)]
pub struct Item {
    /// index into the source's lexeme list
    pub lexeme: usize,
    pub comment: bool,
    pub ws: String,
    pub kind: Gap,
}

/// Why the white space before an item is what it is.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gap {
    Start,
    Glue,
    Space,
    /// break before a token
    Line { blank: Blank, wrap: bool, with_comments: bool },
    /// comment at the end of the previous token's line
    Inline,
    /// comment on its own line
    Own { blank: Blank, first: bool, wrap: bool },
}

fn nl(blank: bool, lvl: u32) -> String {
    let mut s = String::from(if blank { "\n\n" } else { "\n" });
    for _ in 0..lvl {
        s.push_str("  ");
    }
    s
}

/// The complete expected output as items; `dropped` counts comments that the
/// tool drops by design.
pub fn expected(all: &[Lexeme], want: &[Want]) -> (Vec<Item>, usize) {
    let mut out: Vec<Item> = Vec::new();
    let mut dropped = 0;
    let mut pending: Vec<usize> = Vec::new();
    let mut ti = 0;
    // no token yet: comments at the top never share a line with one
    let mut prev_line = 0;
    for li in 0..=all.len() {
        if li < all.len() && all[li].is_comment() {
            pending.push(li);
            continue;
        }
        let end = li == all.len();
        let w = if end || ti == 0 {
            // before the first token and after the last one: like items at top level
            let b = if !end && sym_name(all[li].sym) == "within" { Blank::Illegal } else { Blank::Legal };
            Want::Break { blank: b, lvl: 0, wrap: false }
        } else {
            want[ti]
        };
        match w {
            Want::Glue | Want::Space => {
                dropped += pending.len();
                out.push(Item {
                    lexeme: li,
                    comment: false,
                    ws: if w == Want::Space { " ".into() } else { String::new() },
                    kind: if w == Want::Space { Gap::Space } else { Gap::Glue },
                });
            }
            Want::Break { blank, lvl, wrap } => {
                let mut line = prev_line;
                let mut own = false;
                for c in pending.iter() {
                    let l = &all[*c];
                    let first_out = out.is_empty();
                    if !own && l.start.line == prev_line {
                        out.push(Item {
                            lexeme: *c,
                            comment: true,
                            ws: if first_out { String::new() } else { " ".into() },
                            kind: if first_out { Gap::Start } else { Gap::Inline },
                        });
                    } else {
                        let b = if blank == Blank::Required && !own { true } else { l.start.line - line > 1 };
                        out.push(Item {
                            lexeme: *c,
                            comment: true,
                            ws: if first_out { String::new() } else { nl(b, lvl) },
                            kind: if first_out { Gap::Start } else { Gap::Own { blank, first: !own, wrap } },
                        });
                        own = true;
                    }
                    line = l.end.line;
                }
                if !end {
                    let first_out = out.is_empty();
                    let far = all[li].start.line - line > 1;
                    let b = match blank {
                        Blank::Legal => far,
                        Blank::Illegal => false,
                        Blank::Required => !own || far,
                    };
                    out.push(Item {
                        lexeme: li,
                        comment: false,
                        ws: if first_out { String::new() } else { nl(b, lvl) },
                        kind: if first_out { Gap::Start } else { Gap::Line { blank, wrap, with_comments: !pending.is_empty() } },
                    });
                }
            }
        }
        pending.clear();
        if !end {
            prev_line = all[li].end.line;
            ti += 1;
        }
    }
    (out, dropped)
}

pub fn render(src: &str, all: &[Lexeme], items: &[Item]) -> String {
    let mut s = String::new();
    for i in items {
        s.push_str(&i.ws);
        s.push_str(all[i.lexeme].text(src));
    }
    s
}
