//! The generator core: emits source text left to right while the caller builds the expected tree.
#![allow(dead_code)]
use crate::chooser::Chooser;
use crate::n::*;
use lib_ruby_parser::source::CommentType;

pub struct Scope {
    pub inherit: bool,
    pub vars: Vec<String>,
}

/// Layout freedom given to the separators between tokens.
#[derive(Clone, Copy, PartialEq)]
pub enum Triv {
    Off,
    On,
    /// only variants that contain comments
    Comments,
}

pub struct G<'a> {
    pub c: &'a mut Chooser,
    pub s: Vec<u8>,
    pub toks: Vec<(usize, usize)>,
    pub comments: Vec<(Loc, CommentType)>,
    pub triv: Triv,
    pub depth: i32,
    pub scopes: Vec<Scope>,
    pub ctr: usize,
    /// > 0: the value of what is generated is used, so jumps are not allowed
    pub value: u32,
    pub in_def: bool,
    pub in_class: bool,
    pub in_block: bool,
    pub in_loop: bool,
    /// how rich nested expressions may be: 0 = plain leaf, 1 = leaf variants, 2 = everything
    pub rich: u32,
    pub hd: Vec<Hd>,
    pub hd_count: usize,
    pub hd_done: Vec<(usize, Loc, Loc, Vec<Node>)>,
    pub noctx: bool,
    /// do-binding state: condition of a loop / arguments of a command, per bracket level
    pub cond: Vec<bool>,
    pub cmdarg: Vec<bool>,
}

/// a pending heredoc: filled in by the p08 module
pub struct Hd {
    pub id: usize,
    pub body: Vec<u8>,
    pub term: Vec<u8>,
}

impl<'a> G<'a> {
    pub fn new(c: &'a mut Chooser) -> Self {
        G {
            c, s: vec![], toks: vec![], comments: vec![], triv: Triv::Off, depth: 0,
            scopes: vec![Scope { inherit: false, vars: vec![] }], ctr: 0, value: 0, in_def: false, in_class: false, in_block: false, in_loop: false,
            rich: 0, hd: vec![], hd_count: 0, hd_done: vec![], noctx: false, cond: vec![false], cmdarg: vec![false],
        }
    }
    pub fn pos(&self) -> usize {
        self.s.len()
    }
    /// emit one token
    pub fn t(&mut self, s: &str) -> Loc {
        match s {
            "(" | "[" | "{" | "#{" => {
                self.cond.push(false);
                self.cmdarg.push(false);
            }
            ")" | "]" | "}" => {
                self.cond.pop();
                self.cmdarg.pop();
            }
            _ => {}
        }
        let a = self.s.len();
        self.s.extend_from_slice(s.as_bytes());
        self.toks.push((a, self.s.len()));
        l(a, self.s.len())
    }
    /// emit text that is not a token by itself
    pub fn raw(&mut self, s: &str) -> Loc {
        let a = self.s.len();
        self.s.extend_from_slice(s.as_bytes());
        l(a, self.s.len())
    }
    pub fn rawb(&mut self, s: &[u8]) -> Loc {
        let a = self.s.len();
        self.s.extend_from_slice(s);
        l(a, self.s.len())
    }
    /// a line comment with its line terminator, which belongs to its range
    pub fn comment(&mut self, s: &str, nl: &str) {
        let a = self.raw(s);
        let z = self.raw(nl);
        self.comments.push((j(a, z), CommentType::Inline));
    }
    fn doc(&mut self) {
        let a = self.pos();
        self.raw("=begin x\n y # z\n=end\n");
        let e = self.pos();
        self.comments.push((l(a, e), CommentType::Document));
    }
    pub fn dev(&mut self, n: usize) -> usize {
        self.c.dev(n)
    }
    pub fn flag(&mut self) -> bool {
        self.c.dev(2) == 1
    }
    pub fn choose(&mut self, n: usize) -> usize {
        self.c.choose(n)
    }

    // ---- layout ----
    /// mandatory white space on the same logical line
    pub fn sp(&mut self) {
        self.ws(true)
    }
    /// optional white space on the same logical line; nothing by default
    pub fn osp(&mut self) {
        self.ws(false)
    }
    fn ws(&mut self, must: bool) {
        match self.triv {
            Triv::On => {
                let k = self.dev(6);
                let d = if must { " " } else { "" };
                self.raw([d, "  ", "\t", " \\\n", "\x0c", "\x0b "][k]);
            }
            _ => {
                if must {
                    self.raw(" ");
                }
            }
        }
    }
    /// a place where a newline is insignificant (after an operator, comma, opening bracket)
    pub fn onl(&mut self, default: &str) {
        match self.triv {
            Triv::Off => {
                self.raw(default);
            }
            Triv::On | Triv::Comments => {
                let k = self.dev(if self.triv == Triv::On { 9 } else { 6 });
                match k {
                    0 => {
                        self.raw(default);
                    }
                    1 => {
                        self.raw(" ");
                        self.comment("# c", "\n");
                    }
                    2 => {
                        self.nl_raw("\n");
                        self.doc();
                    }
                    3 => {
                        self.nl_raw("\n");
                        self.comment("# frob", "\n");
                        self.raw("  ");
                        self.comment("#d", "\n");
                    }
                    4 => {
                        self.raw(" ");
                        self.comment("#", "\n");
                        self.raw("\n");
                    }
                    5 => {
                        self.raw(" ");
                        self.comment("# c é", "\r\n");
                    }
                    6 => self.nl_raw("\n"),
                    7 => self.nl_raw("\n\n  "),
                    _ => self.nl_raw(" \r\n\t"),
                }
            }
        }
    }
    /// emit white space that contains a line feed, releasing pending heredoc bodies after the first
    pub fn nl_raw(&mut self, s: &str) {
        self.raw(s);
    }
    /// statement separator; returns the location of the separator token
    pub fn term(&mut self) -> Loc {
        self.term_(false)
    }
    /// exactly one separator token
    pub fn term1(&mut self) -> Loc {
        self.term_(true)
    }
    fn term_(&mut self, single: bool) -> Loc {
        if self.triv == Triv::Off {
            let a = self.pos();
            self.raw("\n");
            return l(a, a + 1);
        }
        let n = match (self.triv == Triv::On, single) {
            (true, false) => 14,
            (true, true) => 12,
            _ => 7,
        };
        let k = self.dev(n);
        let a = self.pos();
        // a newline token is one byte long and starts where the line terminator starts; comment
        // lines directly after it move it to the end of the last of them
        match k {
            0 => {
                self.raw("\n");
                l(a, a + 1)
            }
            1 => {
                self.raw(" ");
                self.comment("# c", "\n");
                l(self.pos() - 1, self.pos())
            }
            2 => {
                self.raw("\n");
                self.doc();
                l(a, a + 1)
            }
            3 => {
                self.raw("\n");
                self.comment("# one", "\n");
                self.raw("  ");
                self.comment("# two", "\n");
                l(self.pos() - 1, self.pos())
            }
            4 => {
                self.raw(";");
                self.comment("#x", "\n");
                l(a, a + 1)
            }
            5 => {
                self.raw("\n\n");
                self.comment("# c é", "\n");
                self.raw("\n");
                l(a, a + 1)
            }
            6 => {
                self.raw("\n");
                self.comment("# crlf", "\r\n");
                l(self.pos() - 2, self.pos() - 1)
            }
            7 => {
                self.raw(";");
                l(a, a + 1)
            }
            8 => {
                self.raw(" ; ");
                l(a + 1, a + 2)
            }
            9 => {
                self.raw("\n\n\n");
                l(a, a + 1)
            }
            10 => {
                self.raw("\r\n");
                l(a, a + 1)
            }
            11 => {
                self.raw(" \n\t");
                l(a + 1, a + 2)
            }
            12 => {
                self.raw(";\n ;");
                l(a, a + 1)
            }
            _ => {
                self.raw("\n ; \n");
                l(a, a + 1)
            }
        }
    }

    // ---- scopes ----
    pub fn declare(&mut self, v: &str) {
        let s = self.scopes.last_mut().unwrap();
        if !s.vars.iter().any(|x| x == v) {
            s.vars.push(v.to_string());
        }
    }
    pub fn declared(&self, v: &str) -> bool {
        for s in self.scopes.iter().rev() {
            if s.vars.iter().any(|x| x == v) {
                return true;
            }
            if !s.inherit {
                return false;
            }
        }
        false
    }
    pub fn open(&mut self, inherit: bool) {
        self.scopes.push(Scope { inherit, vars: vec![] });
    }
    pub fn close(&mut self) {
        self.scopes.pop();
    }
    pub fn visible(&self) -> Option<String> {
        for s in self.scopes.iter().rev() {
            if let Some(v) = s.vars.last() {
                return Some(v.clone());
            }
            if !s.inherit {
                return None;
            }
        }
        None
    }
    /// identifier reference: variable or call, by Ruby's rules
    pub fn ident(&mut self, name: &str) -> Node {
        let loc = self.t(name);
        if self.declared(name) {
            lvar(name, loc)
        } else {
            ident_send(name, loc)
        }
    }
    /// a fresh identifier never used as a variable
    pub fn fresh(&mut self) -> String {
        const P: [&str; 12] = ["a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "n", "q"];
        let s = if self.ctr < P.len() { P[self.ctr].to_string() } else { format!("z{}", self.ctr) };
        self.ctr += 1;
        s
    }
    /// a fresh name meant to be declared
    pub fn fresh_var(&mut self) -> String {
        self.ctr += 1;
        format!("v{}", self.ctr)
    }
    pub fn leaf(&mut self) -> Node {
        let n = self.fresh();
        let loc = self.t(&n);
        ident_send(&n, loc)
    }
    pub fn in_cond<R>(&mut self, v: bool, f: impl FnOnce(&mut Self) -> R) -> R {
        self.cond.push(v);
        let r = f(self);
        self.cond.pop();
        r
    }
    pub fn in_cmdarg<R>(&mut self, v: bool, f: impl FnOnce(&mut Self) -> R) -> R {
        self.cmdarg.push(v);
        let r = f(self);
        self.cmdarg.pop();
        r
    }
    pub fn do_ok(&self) -> bool {
        !*self.cond.last().unwrap() && !*self.cmdarg.last().unwrap()
    }
    /// does the text from `p` on start with a word that would be read as a modifier
    pub fn starts_kw(&self, p: usize) -> bool {
        ["if ", "unless ", "while ", "until ", "if\t", "while\t", "unless\t", "until\t", "if\x0c", "while\x0c", "unless\x0c", "until\x0c", "if\x0b", "while\x0b", "unless\x0b", "until\x0b"].iter().any(|k| self.s[p.min(self.s.len())..].starts_with(k.as_bytes()))
    }
    /// run `f` with jumps forbidden
    pub fn valued<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        self.value += 1;
        let r = f(self);
        self.value -= 1;
        r
    }
    /// run `f` with nesting depth reduced
    pub fn deeper<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        self.depth -= 1;
        let r = f(self);
        self.depth += 1;
        r
    }
}
