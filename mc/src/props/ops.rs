//! P05: operator precedence and associativity, decided by a precedence-climbing reader of the
//! published table.
use super::*;
use crate::n::*;
use crate::oracle::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Bin(&'static str),
    Pre(&'static str),
    Ident(usize),
    Num(usize),
}
struct Tok {
    t: T,
    l: Loc,
}
type Res = Result<Node, ()>;
#[derive(Clone, Copy, PartialEq)]
enum As {
    L,
    R,
    N,
}
// the table, lowest first
const DEFINED: u32 = 1;
const ASGN: u32 = 2;
const TERN: u32 = 4;
const RANGE: u32 = 5;
const OROP: u32 = 6;
const ANDOP: u32 = 7;
const EQ: u32 = 8;
const REL: u32 = 9;
const BOR: u32 = 10;
const BAND: u32 = 11;
const SHIFT: u32 = 12;
const ADD: u32 = 13;
const MUL: u32 = 14;
const UMINUS: u32 = 15;
const POW: u32 = 16;
const BANG: u32 = 17;
fn prec(o: &str) -> Option<(u32, As)> {
    Some(match o {
        "?" => (TERN, As::R),
        ".." | "..." => (RANGE, As::N),
        "||" => (OROP, As::L),
        "&&" => (ANDOP, As::L),
        "<=>" | "==" | "===" | "!=" | "=~" | "!~" => (EQ, As::N),
        "<" | "<=" | ">" | ">=" => (REL, As::L),
        "|" | "^" => (BOR, As::L),
        "&" => (BAND, As::L),
        "<<" | ">>" => (SHIFT, As::L),
        "+" | "-" => (ADD, As::L),
        "*" | "/" | "%" => (MUL, As::L),
        "**" => (POW, As::R),
        _ => return None,
    })
}
const NAMES: [&str; 12] = ["a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "n", "q"];
struct P<'a> {
    t: &'a [Tok],
    p: usize,
}
impl<'a> P<'a> {
    fn bin(&self) -> &'static str {
        match self.t.get(self.p) {
            Some(Tok { t: T::Bin(o), .. }) => o,
            _ => "",
        }
    }
    fn next(&mut self) -> Option<(T, Loc)> {
        let r = self.t.get(self.p).map(|t| (t.t, t.l));
        self.p += 1;
        r
    }
    fn program(&mut self) -> Res {
        let n = self.stmt()?;
        if self.p < self.t.len() {
            return Err(());
        }
        Ok(n)
    }
    fn stmt(&mut self) -> Res {
        let mut n = self.expr()?;
        loop {
            let o = self.bin();
            match o {
                "if" | "unless" | "while" | "until" => {
                    let kw = self.next().unwrap().1;
                    let c = self.expr()?;
                    let el = je(&n, &c);
                    let (c, body) = (b(cond(c)), Some(b(n)));
                    n = match o {
                        "if" => Node::IfMod(IfMod { cond: c, if_true: body, if_false: None, keyword_l: kw, expression_l: el }),
                        "unless" => Node::IfMod(IfMod { cond: c, if_true: None, if_false: body, keyword_l: kw, expression_l: el }),
                        "while" => Node::While(While { cond: c, body, keyword_l: kw, begin_l: None, end_l: None, expression_l: el }),
                        _ => Node::Until(Until { cond: c, body, keyword_l: kw, begin_l: None, end_l: None, expression_l: el }),
                    };
                }
                "rescue" => {
                    let kw = self.next().unwrap().1;
                    let v = self.expr()?;
                    n = rescue_mod(n, kw, v);
                }
                _ => return Ok(n),
            }
        }
    }
    fn expr(&mut self) -> Res {
        let mut n = self.not_expr()?;
        while matches!(self.bin(), "and" | "or") {
            let o = self.bin();
            let ol = self.next().unwrap().1;
            let r = self.not_expr()?;
            n = binop(n, o, ol, r);
        }
        Ok(n)
    }
    fn not_expr(&mut self) -> Res {
        if let Some(Tok { t: T::Pre("not"), l }) = self.t.get(self.p) {
            let o = *l;
            self.p += 1;
            let v = self.not_expr()?;
            let el = j(o, e(&v));
            return Ok(bang(o, v, el));
        }
        self.arg(0)
    }
    fn arg(&mut self, min: u32) -> Res {
        let mut n = self.operand()?;
        loop {
            let o = self.bin();
            let Some((p, a)) = prec(o) else { return Ok(n) };
            if p < min {
                return Ok(n);
            }
            let ol = self.next().unwrap().1;
            if o == "?" {
                let x = self.arg(0)?;
                let Some((T::Bin(":"), cl)) = self.next() else { return Err(()) };
                let y = self.arg(TERN)?;
                let el = je(&n, &y);
                n = Node::IfTernary(IfTernary { cond: b(cond(n)), if_true: b(x), if_false: b(y), question_l: ol, colon_l: cl, expression_l: el });
                continue;
            }
            let r = self.arg(if a == As::R { p } else { p + 1 })?;
            n = binop(n, o, ol, r);
            if a == As::N && prec(self.bin()).map(|x| x.0) == Some(p) {
                return Err(());
            }
        }
    }
    fn operand(&mut self) -> Res {
        let Some((t, x)) = self.next() else { return Err(()) };
        match t {
            T::Pre("not") | T::Bin(_) => Err(()),
            T::Pre("!") => {
                let v = self.arg(BANG)?;
                let el = j(x, e(&v));
                Ok(bang(x, v, el))
            }
            T::Pre("~") => Ok(unop("~", x, self.arg(BANG)?)),
            T::Pre("+") => {
                if let Some(Tok { t: T::Num(k), l }) = self.t.get(self.p) {
                    self.p += 1;
                    return Ok(num_node("+", *k, None, j(x, *l)));
                }
                Ok(unop("+@", x, self.arg(BANG)?))
            }
            T::Pre("-") => {
                if let Some(Tok { t: T::Num(k), l }) = self.t.get(self.p) {
                    self.p += 1;
                    if self.bin() == "**" {
                        let ol = self.next().unwrap().1;
                        let r = self.arg(POW)?;
                        return Ok(unop("-@", x, binop(num_node("", *k, None, *l), "**", ol, r)));
                    }
                    return Ok(num_node("-", *k, Some(x), j(x, *l)));
                }
                Ok(unop("-@", x, self.arg(UMINUS)?))
            }
            T::Pre("defined?") => {
                let v = self.arg(DEFINED)?;
                let el = j(x, e(&v));
                Ok(Node::Defined(Defined { value: b(v), keyword_l: x, begin_l: None, end_l: None, expression_l: el }))
            }
            T::Pre(d) => {
                // beginless range
                let v = self.arg(RANGE + 1)?;
                if prec(self.bin()).map(|x| x.0) == Some(RANGE) {
                    return Err(());
                }
                let el = j(x, e(&v));
                Ok(if d == ".." { Node::Irange(Irange { left: None, right: Some(b(v)), operator_l: x, expression_l: el }) } else { Node::Erange(Erange { left: None, right: Some(b(v)), operator_l: x, expression_l: el }) })
            }
            T::Num(k) => Ok(num_node("", k, None, x)),
            T::Ident(k) => {
                let o = self.bin();
                if matches!(o, "=" | "+=" | "||=" | "&&=" | "**=") {
                    let ol = self.next().unwrap().1;
                    let mut v = self.arg(ASGN)?;
                    if self.bin() == "rescue" {
                        let kw = self.next().unwrap().1;
                        let r = self.arg(TERN)?;
                        v = rescue_mod(v, kw, r);
                    }
                    let t = lvasgn(NAMES[k], x);
                    return Ok(if o == "=" { asgn(t, ol, v) } else { op_asgn(t, &o[..o.len() - 1], ol, v) });
                }
                Ok(ident_send(NAMES[k], x))
            }
        }
    }
}
/// numeric operands; the first is the usual one
const NUMS: &[&str] = &["2", "0", "0x2", "0.5", "2r", "0i", "1e3", "0b1", "07", "1_0", "3.0ri", "0d9"];
fn num_node(sign: &str, k: usize, op: Option<Loc>, el: Loc) -> Node {
    let value = format!("{sign}{}", NUMS[k]);
    match NUMS[k] {
        x if x.ends_with('i') => Node::Complex(Complex { value, operator_l: op, expression_l: el }),
        x if x.ends_with('r') => Node::Rational(Rational { value, operator_l: op, expression_l: el }),
        x if x.contains('.') || x == "1e3" => Node::Float(Float { value, operator_l: op, expression_l: el }),
        _ => Node::Int(Int { value, operator_l: op, expression_l: el }),
    }
}
fn bang(o: Loc, v: Node, el: Loc) -> Node {
    Node::Send(Send { recv: Some(b(cond(v))), method_name: "!".into(), args: vec![], dot_l: None, selector_l: Some(o), begin_l: None, end_l: None, operator_l: None, expression_l: el })
}

const BIN: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "==", "!=", "===", "=~", "!~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "^", "&&", "||", "..", "...", "?", ":", "=", "+=", "||=", "&&=", "**=", "and", "or", "if", "unless", "while", "until", "rescue",
];
/// one operator per row of the table
const REP: &[&str] = &["+", "*", "**", "==", "<", "<<", "&", "|", "&&", "||", "..", "?", ":", "=", "+=", "and", "or", "if", "while", "rescue"];
const PRE: &[&str] = &["", "!", "-", "+", "~", "defined?", "not", "..", "..."];

/// Build text and tokens for operands joined by `ops`, with prefixes `pre[i]` before operand i.
fn build(ops: &[&'static str], pre: &[Vec<&'static str>], num: &[usize], layout: usize) -> Option<(Vec<u8>, Vec<Tok>)> {
    let mut s: Vec<u8> = vec![];
    let mut t = vec![];
    for i in 0..=ops.len() {
        for (k, p) in pre[i].iter().enumerate() {
            // after a word, `..` would continue the expression instead of starting one
            if p.starts_with("..") && k > 0 && matches!(pre[i][k - 1], "not" | "defined?") {
                return None;
            }
            // a sign in front of a sign reads as such; `..` in front of `.` does not
            if k > 0 && (p.starts_with("..") && pre[i][k - 1].starts_with("..") || *p == "~" && pre[i][k - 1] == "!") {
                s.push(b' ');
            }
            let a = s.len();
            s.extend_from_slice(p.as_bytes());
            t.push(Tok { t: T::Pre(p), l: l(a, s.len()) });
            if p.as_bytes()[0].is_ascii_alphabetic() {
                s.push(b' ');
            }
        }
        let a = s.len();
        if num[i] > 0 {
            s.extend_from_slice(NUMS[num[i] - 1].as_bytes());
            t.push(Tok { t: T::Num(num[i] - 1), l: l(a, s.len()) });
        } else {
            s.extend_from_slice(NAMES[i].as_bytes());
            t.push(Tok { t: T::Ident(i), l: l(a, s.len()) });
        }
        if i < ops.len() {
            s.push(b' ');
            let a = s.len();
            s.extend_from_slice(ops[i].as_bytes());
            t.push(Tok { t: T::Bin(ops[i]), l: l(a, s.len()) });
            s.push(if layout == 1 && !ops[i].starts_with("..") { b'\n' } else { b' ' });
        }
    }
    Some((s, t))
}
fn judge(ctx: &mut Ctx, ops: &[&'static str], pre: &[Vec<&'static str>], num: &[usize], layout: usize) {
    let Some((s, t)) = build(ops, pre, num, layout) else {
        ctx.outcome("out of model");
        return;
    };
    let mut p = P { t: &t, p: 0 };
    match p.program() {
        Err(()) => expect_error(ctx, &s),
        Ok(n) => {
            if !ctx.begin(&s) {
                return;
            }
            let r = parse(&s);
            ctx.end();
            if let Some(d) = diff_opt(Some(&n), r.ast.as_deref()) {
                ctx.fail(format!("tree differs: {d} (diagnostics: {})", diag_str(&r.diagnostics)));
            } else if errors(&r) > 0 {
                ctx.fail(format!("well-formed expression rejected: {}", diag_str(&r.diagnostics)));
            }
            ctx.nontrivial();
            ctx.outcome("accepted as expected");
        }
    }
}
fn chain(list: &'static [&'static str], n: usize, k: u32, npre: usize, layout: usize) -> Family {
    chain_n(list, n, k, npre, layout, 1)
}
fn chain_n(list: &'static [&'static str], n: usize, k: u32, npre: usize, layout: usize, nums: usize) -> Family {
    let what = if nums > 1 { format!("one of {nums} numbers") } else { "numeric".to_string() };
    let lay = if layout == 1 { ", a newline after each operator" } else { "" };
    fam(format!("operators: all chains of {n} of {} operators{lay}, at most {k} of the operands {what} or prefixed ({npre} prefixes each)", list.len()), k, move |c, ctx| {
        let ops: Vec<&'static str> = (0..n).map(|_| list[c.choose(list.len())]).collect();
        let mut pre = vec![];
        let mut num = vec![];
        for _ in 0..=n {
            let mut v = vec![];
            for _ in 0..npre {
                let p = PRE[c.dev(PRE.len())];
                if p.is_empty() {
                    break;
                }
                v.push(p);
            }
            pre.push(v);
            num.push(c.dev(nums + 1));
        }
        judge(ctx, &ops, &pre, &num, layout);
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P05",
        rule: "Every chain of operators within the stated length, with every placement of prefix operators and numeric operands within the deviation bound, is parsed; a precedence climber over the published operator table says which tree (with all locations) it has or that it is an error.",
        assumptions: &["operands are fresh identifiers or numeric literals, so that no operand changes the meaning of another", "a beginless range directly after `not` or `defined?` is out of model"],
        families: |th| {
            let mut v = vec![chain(BIN, 1, 4, 2, 0), chain(BIN, 2, 3, 1, 0), chain(REP, 2, 4, 2, 0), chain(BIN, 3, 1, 1, 0), chain(REP, 3, 2, 1, 0), chain(REP, 4, 1, 1, 0), chain(BIN, 2, 1, 1, 1), chain(REP, 3, 0, 0, 1), chain_n(BIN, 1, 4, 2, 0, NUMS.len()), chain_n(BIN, 2, 2, 1, 0, NUMS.len()), chain_n(REP, 2, 3, 1, 0, NUMS.len())];
            if th {
                v.push(chain(BIN, 3, 2, 1, 0));
                v.push(chain(REP, 4, 2, 1, 0));
                v.push(chain(BIN, 4, 0, 0, 0));
                v.push(chain(REP, 5, 0, 0, 0));
                v.push(chain(BIN, 4, 1, 1, 0));
            }
            v
        },
    }]
}
