//! P17: which call a block belongs to, and the state left behind by a parse.
use super::*;
use crate::g::*;
use crate::n::*;
use crate::oracle::*;
use lib_ruby_parser::Parser;

struct B<'a, 'b> {
    g: &'a mut G<'b>,
    /// the next expression is the first argument of a command or starts a statement
    first: bool,
    start: bool,
}
impl B<'_, '_> {
    fn sp(&mut self) {
        self.g.raw(" ");
    }
    fn body(&mut self, d: u32, lv: u8) -> Node {
        self.start = true;
        self.first = false;
        self.stmt(d, lv)
    }
    fn brace(&mut self, d: u32, call: Node) -> Node {
        self.sp();
        let o = self.g.t("{");
        self.sp();
        let bd = self.body(d, 2);
        self.sp();
        let c = self.g.t("}");
        block(call, None, Some(bd), o, c)
    }
    fn do_(&mut self, d: u32, call: Node) -> Node {
        self.sp();
        let o = self.g.t("do");
        let pipe = self.g.flag();
        let args = if pipe {
            self.sp();
            let p = self.g.t("|");
            let v = self.g.fresh_var();
            let x = self.g.t(&v);
            let q = self.g.t("|");
            let a = Node::Procarg0(Procarg0 { args: vec![Node::Arg(Arg { name: v, expression_l: x })], begin_l: None, end_l: None, expression_l: x });
            Some(Node::Args(Args { args: vec![a], begin_l: Some(p), end_l: Some(q), expression_l: j(p, q) }))
        } else {
            None
        };
        self.sp();
        self.g.cmdarg.push(false);
        let bd = self.body(d, 2);
        self.g.cmdarg.pop();
        self.sp();
        let c = self.g.t("end");
        block(call, args, Some(bd), o, c)
    }
    fn ident(&mut self) -> Node {
        self.g.leaf()
    }
    /// the part of a call before its block, with receiver or parentheses
    fn head(&mut self, d: u32, k: usize) -> Node {
        match k {
            0 => self.ident(),
            1 => {
                let n = self.g.fresh();
                let x = self.g.t(&n);
                let p = self.g.t("(");
                let a = self.arg(d);
                let q = self.g.t(")");
                fcall(&n, x, Some(p), vec![a], Some(q))
            }
            2 | 3 => {
                let r = self.prim(d, true);
                let o = self.g.t(["&.", "."][k - 2]);
                let n = self.g.fresh();
                let x = self.g.t(&n);
                mcall(r, o, k == 2, &n, Some(x), None, vec![], None)
            }
            4 => {
                let r = self.prim(d, true);
                let o = self.g.t("::");
                let n = self.g.fresh();
                let x = self.g.t(&n);
                let p = self.g.t("(");
                let a = self.arg(d);
                let q = self.g.t(")");
                mcall(r, o, false, &n, Some(x), Some(p), vec![a], Some(q))
            }
            5 => {
                let k = self.g.t("super");
                Node::ZSuper(ZSuper { expression_l: k })
            }
            6 => {
                let k = self.g.t("super");
                let p = self.g.t("(");
                let a = self.arg(d);
                let q = self.g.t(")");
                Node::Super(Super { args: vec![a], keyword_l: k, begin_l: Some(p), end_l: Some(q), expression_l: j(k, q) })
            }
            _ => {
                // a variable followed by a block is a call
                let x = self.g.t("lv");
                ident_send("lv", x)
            }
        }
    }
    fn prim(&mut self, d: u32, recv: bool) -> Node {
        let (first, start) = (self.first, self.start);
        let k = self.g.dev(21);
        if d == 0 && k > 2 {
            self.g.abandon();
        }
        let d1 = d.saturating_sub(1);
        if recv {
            self.first = first;
        }
        match k {
            0 => self.ident(),
            1 => {
                let x = self.g.t("lv");
                lvar("lv", x)
            }
            2 => {
                let x = self.g.t("1");
                int("1", x)
            }
            3 => {
                let h = 1 + self.g.dev(6);
                self.head(d1, h)
            }
            4 => {
                let h = self.g.dev(8);
                let c = self.head(d1, h);
                self.brace(d1, c)
            }
            5 => {
                if !self.g.do_ok() {
                    self.g.abandon();
                }
                let h = self.g.dev(8);
                let c = self.head(d1, h);
                self.do_(d1, c)
            }
            6 => {
                let p = self.g.t("[");
                self.first = false;
                self.start = false;
                let a = self.arg(d1);
                let q = self.g.t("]");
                array(vec![a], Some(p), Some(q))
            }
            7 => {
                let p = self.g.t("(");
                let s = self.body(d1, 1);
                let q = self.g.t(")");
                parens(p, Some(s), q)
            }
            8 => {
                let a = self.g.t("->");
                let r = self.brace(d1, Node::Lambda(Lambda { expression_l: a }));
                r
            }
            9 => {
                let a = self.g.t("->");
                self.sp();
                let o = self.g.t("do");
                self.sp();
                self.g.cmdarg.push(false);
                let bd = self.body(d1, 2);
                self.g.cmdarg.pop();
                self.sp();
                let c = self.g.t("end");
                block(Node::Lambda(Lambda { expression_l: a }), None, Some(bd), o, c)
            }
            10 => {
                // parameters with a default value
                let a = self.g.t("->");
                let paren = self.g.flag();
                let p = if paren { Some(self.g.t("(")) } else { None };
                if !paren {
                    self.sp();
                }
                let v = self.g.fresh_var();
                let x = self.g.t(&v);
                self.sp();
                let eq = self.g.t("=");
                self.sp();
                self.first = false;
                self.start = false;
                let dv = if paren { self.prim(d1, false) } else { let x = self.g.t("1"); int("1", x) };
                let q = if paren { Some(self.g.t(")")) } else { None };
                let el = j(x, e(&dv));
                let oa = Node::Optarg(Optarg { name: v, default: b(dv), name_l: x, operator_l: eq, expression_l: el });
                let el = j(p.unwrap_or(x), q.unwrap_or(e(&oa)));
                let args = Node::Args(Args { args: vec![oa], begin_l: p, end_l: q, expression_l: el });
                let dob = self.g.flag();
                self.sp();
                let (o, bd, c) = if dob {
                    let o = self.g.t("do");
                    self.sp();
                    self.g.cmdarg.push(false);
                    let bd = self.body(d1, 2);
                    self.g.cmdarg.pop();
                    self.sp();
                    (o, bd, self.g.t("end"))
                } else {
                    let o = self.g.t("{");
                    self.sp();
                    let bd = self.body(d1, 2);
                    self.sp();
                    (o, bd, self.g.t("}"))
                };
                block(Node::Lambda(Lambda { expression_l: a }), Some(args), Some(bd), o, c)
            }
            11 => {
                if first {
                    self.g.abandon(); // would be a modifier
                }
                let until = self.g.flag();
                let kw = self.g.t(["while", "until"][until as usize]);
                self.sp();
                self.g.cond.push(true);
                let c = self.body(d1, 0);
                self.g.cond.pop();
                self.sp();
                let dl = self.g.t("do");
                self.sp();
                let bd = self.body(d1, 2);
                self.sp();
                let z = self.g.t("end");
                if until {
                    Node::Until(Until { cond: b(c), body: Some(b(bd)), keyword_l: kw, begin_l: Some(dl), end_l: Some(z), expression_l: j(kw, z) })
                } else {
                    Node::While(While { cond: b(c), body: Some(b(bd)), keyword_l: kw, begin_l: Some(dl), end_l: Some(z), expression_l: j(kw, z) })
                }
            }
            12 => {
                let kw = self.g.t("for");
                self.sp();
                let v = self.g.fresh_var();
                let x = self.g.t(&v);
                self.g.declare(&v);
                self.sp();
                let o = self.g.t("in");
                self.sp();
                self.g.cond.push(true);
                let c = self.body(d1, 0);
                self.g.cond.pop();
                self.sp();
                let dl = self.g.t("do");
                self.sp();
                let bd = self.body(d1, 2);
                self.sp();
                let z = self.g.t("end");
                Node::For(For { iterator: b(lvasgn(&v, x)), iteratee: b(c), body: Some(b(bd)), keyword_l: kw, operator_l: o, begin_l: dl, end_l: z, expression_l: j(kw, z) })
            }
            13 => {
                if first || start || recv {
                    self.g.abandon(); // would be a block
                }
                let p = self.g.t("{");
                let n = self.g.fresh();
                let x = self.g.raw(&n);
                let y = self.g.raw(":");
                self.sp();
                self.first = false;
                self.start = false;
                let a = self.arg(d1);
                let q = self.g.t("}");
                hash(vec![label_pair(&n, x, y, a)], Some(p), Some(q))
            }
            14 => {
                let p = self.g.t("\"");
                let o = self.g.t("#{");
                let s = self.body(d1, 1);
                let c = self.g.t("}");
                let q = self.g.t("\"");
                Node::Dstr(Dstr { parts: vec![begin(vec![s], o, c)], begin_l: Some(p), end_l: Some(q), expression_l: j(p, q) })
            }
            15 => {
                let r = self.ident();
                let p = self.g.t("[");
                self.first = false;
                self.start = false;
                let a = self.arg(d1);
                let q = self.g.t("]");
                let el = j(e(&r), q);
                Node::Index(Index { recv: b(r), indexes: vec![a], begin_l: p, end_l: q, expression_l: el })
            }
            16 => {
                let p = self.g.t("begin");
                self.sp();
                self.g.cmdarg.push(false);
                let s = self.body(d1, 1);
                self.g.cmdarg.pop();
                self.sp();
                let q = self.g.t("end");
                kwbegin(p, Some(s), q)
            }
            17 => {
                if first {
                    self.g.abandon();
                }
                let kw = self.g.t("if");
                self.sp();
                let c = self.body(d1, 0);
                self.sp();
                let t = self.g.t("then");
                self.sp();
                let s = self.body(d1, 1);
                self.sp();
                let z = self.g.t("end");
                Node::If(If { cond: b(c), if_true: Some(b(s)), if_false: None, keyword_l: kw, begin_l: t, else_l: None, end_l: Some(z), expression_l: j(kw, z) })
            }
            18 => {
                let kw = self.g.t("def");
                self.sp();
                let n = self.g.fresh();
                let x = self.g.t(&n);
                self.g.raw(";");
                self.sp();
                self.g.cond.push(false);
                self.g.cmdarg.push(false);
                self.g.open(false);
                // inside, lv is not a variable: it is not read there
                let s = self.ident();
                let k = self.g.dev(3);
                let s = match k {
                    0 => s,
                    1 => self.do_plain(s),
                    _ => {
                        let Node::Send(Send { method_name, expression_l, .. }) = s else { unreachable!() };
                        self.sp();
                        let a = self.ident();
                        let c = fcall(&method_name, expression_l, None, vec![a], None);
                        self.do_plain(c)
                    }
                };
                self.g.close();
                self.g.cond.pop();
                self.g.cmdarg.pop();
                self.sp();
                let z = self.g.t("end");
                Node::Def(Def { name: n, args: None, body: Some(b(s)), keyword_l: kw, name_l: x, end_l: Some(z), assignment_l: None, expression_l: j(kw, z) })
            }
            19 => {
                if first {
                    self.g.abandon();
                }
                let kw = self.g.t("case");
                self.sp();
                let c = self.body(d1, 0);
                self.g.raw("\n");
                let w = self.g.t("when");
                self.sp();
                self.first = false;
                self.start = false;
                let p = self.arg(d1);
                self.sp();
                let t = self.g.t("then");
                self.sp();
                let s = self.body(d1, 1);
                self.sp();
                let z = self.g.t("end");
                let el = j(w, e(&s));
                let wn = Node::When(When { patterns: vec![p], body: Some(b(s)), keyword_l: w, begin_l: t, expression_l: el });
                Node::Case(Case { expr: Some(b(c)), when_bodies: vec![wn], else_body: None, keyword_l: kw, else_l: None, end_l: z, expression_l: j(kw, z) })
            }
            _ => {
                let kw = self.g.t("defined?");
                let p = self.g.t("(");
                let s = self.body(d1, 0);
                let q = self.g.t(")");
                if recv {
                    self.g.abandon();
                }
                Node::Defined(Defined { value: b(s), keyword_l: kw, begin_l: Some(p), end_l: Some(q), expression_l: j(kw, q) })
            }
        }
    }
    fn do_plain(&mut self, call: Node) -> Node {
        self.sp();
        let o = self.g.t("do");
        self.sp();
        let x = self.ident();
        self.sp();
        let c = self.g.t("end");
        block(call, None, Some(x), o, c)
    }
    fn arg(&mut self, d: u32) -> Node {
        match self.g.dev(5) {
            0 => self.prim(d, false),
            1 => {
                let a = self.prim(d, false);
                self.sp();
                let o = self.g.t("+");
                self.sp();
                self.first = false;
                self.start = false;
                let c = self.prim(d, false);
                binop(a, "+", o, c)
            }
            2 => {
                let a = self.prim(d, false);
                self.sp();
                let q = self.g.t("?");
                self.sp();
                self.first = false;
                self.start = false;
                let t = self.prim(d, false);
                self.sp();
                let c = self.g.t(":");
                self.sp();
                let f = self.prim(d, false);
                let el = je(&a, &f);
                Node::IfTernary(IfTernary { cond: b(a), if_true: b(t), if_false: b(f), question_l: q, colon_l: c, expression_l: el })
            }
            3 => {
                let o = self.g.t("!");
                self.first = false;
                self.start = false;
                let v = self.prim(d, false);
                unop("!", o, v)
            }
            _ => {
                let n = self.g.fresh_var();
                let x = self.g.t(&n);
                self.sp();
                let o = self.g.t("=");
                self.sp();
                self.g.declare(&n);
                self.first = false;
                self.start = false;
                let v = self.prim(d, false);
                asgn(lvasgn(&n, x), o, v)
            }
        }
    }
    /// arguments of a command
    fn args(&mut self, d: u32) -> Vec<Node> {
        self.g.cmdarg.push(true);
        self.first = true;
        self.start = false;
        let v = match self.g.dev(6) {
            0 => vec![self.arg(d)],
            1 => {
                let a = self.arg(d);
                self.g.t(",");
                self.sp();
                self.first = false;
                let c = self.arg(d);
                vec![a, c]
            }
            2 => {
                let n = self.g.fresh();
                let x = self.g.raw(&n);
                let y = self.g.raw(":");
                self.sp();
                self.first = false;
                let a = self.arg(d);
                vec![kwargs(vec![label_pair(&n, x, y, a)])]
            }
            3 => {
                let k = self.prim(d, false);
                self.sp();
                let o = self.g.t("=>");
                self.sp();
                self.first = false;
                let v = self.arg(d);
                vec![kwargs(vec![pair(k, o, v)])]
            }
            4 => {
                let a = self.arg(d);
                self.g.t(",");
                self.sp();
                let o = self.g.t("*");
                self.first = false;
                let c = self.prim(d, false);
                vec![a, splat(o, Some(c))]
            }
            // a command as the only argument
            _ => {
                if d == 0 {
                    self.g.abandon();
                }
                vec![self.command(d.saturating_sub(1))]
            }
        };
        self.g.cmdarg.pop();
        self.first = false;
        v
    }
    fn command(&mut self, d: u32) -> Node {
        match self.g.dev(4) {
            0 => {
                let n = self.g.fresh();
                let x = self.g.t(&n);
                self.sp();
                let a = self.args(d);
                fcall(&n, x, None, a, None)
            }
            1 => {
                let r = self.prim(d, true);
                let o = self.g.t(".");
                let n = self.g.fresh();
                let x = self.g.t(&n);
                self.sp();
                let a = self.args(d);
                mcall(r, o, false, &n, Some(x), None, a, None)
            }
            2 => {
                let r = self.ident();
                let o = self.g.t("&.");
                let n = self.g.fresh();
                let x = self.g.t(&n);
                self.sp();
                let a = self.args(d);
                mcall(r, o, true, &n, Some(x), None, a, None)
            }
            _ => {
                let k = self.g.t("super");
                self.sp();
                let a = self.args(d);
                let el = j(k, e(a.last().unwrap()));
                Node::Super(Super { args: a, keyword_l: k, begin_l: None, end_l: None, expression_l: el })
            }
        }
    }
    fn command_do(&mut self, d: u32) -> Node {
        if *self.g.cond.last().unwrap() {
            self.g.abandon();
        }
        let c = self.command(d);
        self.do_(d, c)
    }
    fn stmt(&mut self, d: u32, lv: u8) -> Node {
        let k = self.g.dev(13);
        // an assignment of a command, a modifier or a jump is a statement, not an expression
        if d == 0 && k > 0 || lv == 0 && matches!(k, 3 | 9 | 12) || lv < 2 && k == 10 {
            self.g.abandon();
        }
        let d1 = d.saturating_sub(1);
        match k {
            0 => self.arg(d),
            1 => self.command(d1),
            2 => self.command_do(d1),
            3 => {
                let n = self.g.fresh_var();
                let x = self.g.t(&n);
                self.sp();
                let o = self.g.t("=");
                self.sp();
                self.start = false;
                self.g.declare(&n);
                let v = if self.g.flag() { self.command(d1) } else { self.command_do(d1) };
                asgn(lvasgn(&n, x), o, v)
            }
            4 => {
                let o = self.g.t("!");
                self.start = false;
                let v = if self.g.flag() { self.command(d1) } else { self.command_do(d1) };
                unop("!", o, v)
            }
            5 => {
                let a = self.arg(d1);
                self.sp();
                let w = self.g.dev(2);
                let o = self.g.t(["and", "or"][w]);
                self.sp();
                self.start = true;
                let v = match self.g.dev(3) {
                    0 => self.command_do(d1),
                    1 => self.command(d1),
                    _ => self.arg(d1),
                };
                binop(a, ["and", "or"][w], o, v)
            }
            6 | 7 => {
                // a chain of calls after a do-block
                let bl = self.command_do(d1);
                let o = self.g.t(".");
                let n = self.g.fresh();
                let x = self.g.t(&n);
                if k == 6 {
                    let c = mcall(bl, o, false, &n, Some(x), None, vec![], None);
                    match self.g.dev(3) {
                        0 => c,
                        1 => self.brace(d1, c),
                        _ => {
                            if !self.g.do_ok() {
                                self.g.abandon();
                            }
                            self.do_(d1, c)
                        }
                    }
                } else {
                    self.sp();
                    let a = self.args(d1);
                    let c = mcall(bl, o, false, &n, Some(x), None, a, None);
                    if self.g.flag() {
                        self.do_(d1, c)
                    } else {
                        c
                    }
                }
            }
            8 => {
                // a parenthesised first argument after a space, then braces: the block of the command
                let n = self.g.fresh();
                let x = self.g.t(&n);
                self.sp();
                self.g.cmdarg.push(true);
                let p = self.g.t("(");
                let s = self.body(d1, 1);
                let q = self.g.t(")");
                self.g.cmdarg.pop();
                let c = fcall(&n, x, None, vec![parens(p, Some(s), q)], None);
                self.brace(d1, c)
            }
            9 => {
                let a = self.arg(d1);
                self.sp();
                let kw = self.g.t("if");
                self.sp();
                self.start = true;
                let c = match self.g.dev(3) {
                    0 => self.command_do(d1),
                    1 => self.command(d1),
                    _ => self.arg(d1),
                };
                let el = je(&a, &c);
                Node::IfMod(IfMod { cond: b(c), if_true: Some(b(a)), if_false: None, keyword_l: kw, expression_l: el })
            }
            10 => {
                if *self.g.cond.last().unwrap() {
                    self.g.abandon();
                }
                // the block goes to the call, not to the jump
                let w = self.g.dev(3);
                let kw = self.g.t(["return", "next", "break"][w]);
                self.sp();
                self.g.cmdarg.push(true);
                self.first = true;
                self.start = false;
                let k = self.g.dev(4);
                let a = if k == 0 { self.ident() } else if k == 3 { self.head(d1, 3) } else { self.command(d1) };
                self.g.cmdarg.pop();
                self.first = false;
                let a = if k == 2 { a } else { self.do_(d1, a) };
                let el = j(kw, e(&a));
                match w {
                    0 => Node::Return(Return { args: vec![a], keyword_l: kw, expression_l: el }),
                    1 => Node::Next(Next { args: vec![a], keyword_l: kw, expression_l: el }),
                    _ => Node::Break(Break { args: vec![a], keyword_l: kw, expression_l: el }),
                }
            }
            11 => {
                let o = self.g.t("not");
                self.sp();
                let p = self.g.pos();
                self.start = false;
                self.first = true;
                let v = match self.g.dev(2) {
                    0 => self.command_do(d1),
                    _ => self.command(d1),
                };
                if self.g.s.get(p) == Some(&b'(') {
                    self.g.abandon();
                }
                unop("!", o, v)
            }
            _ => {
                let m = self.g.t("lv");
                self.sp();
                let o = self.g.t("+=");
                self.sp();
                self.start = false;
                let v = if self.g.flag() { self.command(d1) } else { self.command_do(d1) };
                op_asgn(lvasgn("lv", m), "+", l(o.begin, o.end), v)
            }
        }
    }
}
fn run(depth: u32, budget: u32, two: bool) -> Family {
    fam(format!("statements of calls, commands, brackets, blocks, lambdas and loops with up to {budget} deviations, nested to depth {depth}{}", if two { ", two statements" } else { "" }), budget, move |c, ctx| {
        let mut g = G::new(c);
        let x = g.t("lv");
        g.raw(" ");
        let o = g.t("=");
        g.raw(" ");
        let v = g.t("1");
        g.declare("lv");
        let mut st = vec![asgn(lvasgn("lv", x), o, int("1", v))];
        for _ in 0..=(two as usize) {
            g.raw("\n");
            let mut p = B { g: &mut g, first: false, start: true };
            let s = p.stmt(depth, 2);
            st.push(s);
        }
        if g.abandoned() {
            return ctx.outcome("out of model");
        }
        check(ctx, &g.s, compstmt(st));
    })
}
fn check(ctx: &mut Ctx, src: &[u8], exp: Option<Node>) {
    if !ctx.begin(src) {
        return;
    }
    // panics when any nesting state is not back to its initial value
    let r = Parser::new(src.to_vec(), opts(false)).do_parse_with_state_validation();
    ctx.end();
    if let Some(d) = diff_opt(exp.as_ref(), r.ast.as_deref()) {
        return ctx.fail(format!("tree differs: {d} (diagnostics: {})", diag_str(&r.diagnostics)));
    }
    if errors(&r) > 0 {
        return ctx.fail(format!("unexpected diagnostics: {}", diag_str(&r.diagnostics)));
    }
    ctx.nontrivial();
    ctx.outcome("accepted as expected");
}
/// whatever parses without errors leaves no state behind
fn state(n: usize, alpha: &'static [&'static str]) -> Family {
    fam_nd(format!("every sequence of {n} of {} lexemes: what is accepted leaves the nesting state initial", alpha.len()), 0, move |c, ctx| {
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(alpha[c.choose(alpha.len())]);
            s.push(' ');
        }
        let src = s.as_bytes();
        if !ctx.begin(src) {
            return;
        }
        let r = parse(src);
        let ok = errors(&r) == 0;
        if ok {
            Parser::new(src.to_vec(), opts(false)).do_parse_with_state_validation();
            ctx.nontrivial();
        }
        ctx.end();
        ctx.outcome(if ok { "state initial" } else { "rejected" });
    })
}
/// a `do` after many levels of brackets, and one inside them
fn deep(max: usize) -> Family {
    fn t(s: &mut String, x: &str) -> Loc {
        let a = s.len();
        s.push_str(x);
        l(a, a + x.len())
    }
    fn id(s: &mut String, x: &str) -> Node {
        let a = t(s, x);
        ident_send(x, a)
    }
    fn nest(s: &mut String, k: [usize; 2], n: usize, inner: usize) -> Node {
        if n == 0 {
            let m = id(s, "x");
            if inner == 0 {
                return m;
            }
            t(s, " ");
            let o = t(s, "do");
            t(s, " ");
            let y = id(s, "y");
            t(s, " ");
            let c = t(s, "end");
            return block(m, None, Some(y), o, c);
        }
        let next = [k[1], k[0]];
        match k[0] {
            0 => {
                let o = t(s, "(");
                let v = nest(s, next, n - 1, inner);
                let c = t(s, ")");
                begin(vec![v], o, c)
            }
            1 => {
                let o = t(s, "[");
                let v = nest(s, next, n - 1, inner);
                let c = t(s, "]");
                array(vec![v], Some(o), Some(c))
            }
            2 => {
                let m = t(s, "m");
                let o = t(s, "(");
                let v = nest(s, next, n - 1, inner);
                let c = t(s, ")");
                fcall("m", m, Some(o), vec![v], Some(c))
            }
            3 => {
                let m = id(s, "m");
                t(s, " ");
                let o = t(s, "{");
                t(s, " ");
                let v = nest(s, next, n - 1, inner);
                t(s, " ");
                let c = t(s, "}");
                block(m, None, Some(v), o, c)
            }
            4 => {
                let m = t(s, "->");
                t(s, " ");
                let o = t(s, "{");
                t(s, " ");
                let v = nest(s, next, n - 1, inner);
                t(s, " ");
                let c = t(s, "}");
                block(Node::Lambda(Lambda { expression_l: m }), None, Some(v), o, c)
            }
            5 => {
                let q = t(s, "\"");
                let o = t(s, "#{");
                let v = nest(s, next, n - 1, inner);
                let c = t(s, "}");
                let z = t(s, "\"");
                Node::Dstr(Dstr { parts: vec![begin(vec![v], o, c)], begin_l: Some(q), end_l: Some(z), expression_l: j(q, z) })
            }
            _ => {
                let m = id(s, "m");
                let o = t(s, "[");
                let v = nest(s, next, n - 1, inner);
                let c = t(s, "]");
                let el = j(e(&m), c);
                Node::Index(Index { recv: b(m), indexes: vec![v], begin_l: o, end_l: c, expression_l: el })
            }
        }
    }
    fam(format!("do after and inside 1..={max} levels (a third with lambdas) of every two kinds of brackets, in 6 contexts"), 0, move |c, ctx| {
        let mut s = String::new();
        let at = c.choose(6);
        let k = [c.choose(7), c.choose(7)];
        // a lambda takes more than one of the 64 bits Ruby keeps
        let n = c.choose(if k.contains(&4) { max / 3 } else { max }) + 1;
        let inner = c.choose(2);
        let body = |s: &mut String| {
            t(s, " ");
            let o = t(s, "do");
            t(s, " ");
            let y = id(s, "z");
            t(s, " ");
            let c = t(s, "end");
            (o, y, c)
        };
        let exp = match at {
            0 | 1 | 5 => {
                let kw = t(&mut s, ["while", "until"][at % 2]);
                t(&mut s, " ");
                let cond = if at == 5 {
                    let f = t(&mut s, "foo");
                    t(&mut s, " ");
                    let v = nest(&mut s, k, n, inner);
                    fcall("foo", f, None, vec![v], None)
                } else {
                    nest(&mut s, k, n, inner)
                };
                let (o, y, z) = body(&mut s);
                let cond = b(crate::n::cond(cond));
                if at == 0 {
                    Node::While(While { cond, body: Some(b(y)), keyword_l: kw, begin_l: Some(o), end_l: Some(z), expression_l: j(kw, z) })
                } else {
                    Node::Until(Until { cond, body: Some(b(y)), keyword_l: kw, begin_l: Some(o), end_l: Some(z), expression_l: j(kw, z) })
                }
            }
            2 => {
                let kw = t(&mut s, "for");
                t(&mut s, " ");
                let i = t(&mut s, "i");
                t(&mut s, " ");
                let op = t(&mut s, "in");
                t(&mut s, " ");
                let v = nest(&mut s, k, n, inner);
                let (o, y, z) = body(&mut s);
                Node::For(For { iterator: b(lvasgn("i", i)), iteratee: b(v), body: Some(b(y)), keyword_l: kw, operator_l: op, begin_l: o, end_l: z, expression_l: j(kw, z) })
            }
            _ => {
                let f = t(&mut s, "foo");
                t(&mut s, " ");
                let mut a = vec![];
                if at == 4 {
                    let i = t(&mut s, "1");
                    a.push(int("1", i));
                    t(&mut s, ", ");
                }
                a.push(nest(&mut s, k, n, inner));
                let (o, y, z) = body(&mut s);
                block(fcall("foo", f, None, a, None), None, Some(y), o, z)
            }
        };
        check(ctx, s.as_bytes(), Some(exp));
    })
}
const A1: [&str; 26] = ["a", "(", ")", "[", "]", "{", "}", "do", "end", "->", "while", "\n", "def m", "class K", "|x|", "begin", "if", "case", "in", "=>", "b:", "\"#{", "\"", "for i in", ",", "rescue"];
const A2: [&str; 17] = ["a", "a(", ")", "->", "{", "}", "do", "end", "while", "def m(x = ", "_1", "case", "\nin", "b:", "then", "[", "]"];
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P17",
        rule: "Each execution is a statement drawn from a reference grammar of calls, commands, brackets, braces, lambdas, loop conditions and blocks, which tracks per bracket level whether a do belongs to a loop, to the command or to the nearest call; all derivations within the stated deviations are generated with the tree they stand for. The parser's tree must be that tree and every nesting state must be back to its initial value. All short lexeme sequences are run as well: whatever is accepted must leave the state initial.",
        assumptions: &["do directly inside compound statements used as command arguments, which Ruby itself rejects, is left out"],
        families: |th| {
            let mut v = vec![run(3, if th { 5 } else { 4 }, false), run(2, if th { 5 } else { 4 }, false), run(2, 3, true), deep(58)];
            for n in 1..=(if th { 5 } else { 4 }) {
                v.push(state(n, &A1));
            }
            for n in 4..=(if th { 6 } else { 5 }) {
                v.push(state(n, &A2));
            }
            v.extend(super::slots::families("P17", th));
            v
        },
    }]
}
