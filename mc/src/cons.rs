//! Generators for Ruby constructs; each emits source and returns the expected tree.
#![allow(dead_code)]
use crate::g::*;
use crate::n::*;

pub const BINOPS: [&str; 22] = [
    "+", "-", "*", "/", "%", "**", "==", "!=", "===", "=~", "!~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "^", "&&",
];
pub const METHOD_NAMES: [&str; 16] = ["foo", "Foo", "foo?", "foo!", "if", "end", "class", "self", "nil", "+", "[]", "!", "`", "-@", "é", "_1x"];

impl<'a> G<'a> {
    // ------------------------------------------------------------------ expressions
    /// an expression usable as call receiver and as argument
    pub fn prim(&mut self) -> Node {
        self.valued(|g| g.prim_())
    }
    fn prim_(&mut self) -> Node {
        if self.rich == 0 {
            return self.leaf();
        }
        let nl = LEAVES;
        let nc = if self.depth > 0 && self.rich >= 2 { PRIMS } else { 0 };
        let k = self.dev(1 + nl + nc);
        if k == 0 {
            self.leaf()
        } else if k <= nl {
            self.leaf_n(k - 1)
        } else {
            self.deeper(|g| g.prim_n(k - 1 - nl))
        }
    }
    /// argument position (arg_value)
    pub fn arg(&mut self) -> Node {
        self.prim()
    }
    /// condition position; the caller applies the conditional rewrite
    pub fn cond_expr(&mut self) -> Node {
        if self.rich < 2 || self.depth <= 0 {
            return self.prim();
        }
        self.valued(|g| {
            let k = g.dev(1 + LEAVES + PRIMS + 4);
            if k == 0 {
                g.leaf()
            } else if k <= LEAVES {
                g.leaf_n(k - 1)
            } else if k <= LEAVES + PRIMS {
                g.deeper(|g| g.prim_n(k - 1 - LEAVES))
            } else {
                match k - 1 - LEAVES - PRIMS {
                    0 => {
                        let a = g.leaf();
                        g.sp();
                        let o = g.t("and");
                        g.sp();
                        let c = g.leaf();
                        binop(a, "and", o, c)
                    }
                    1 => {
                        let o = g.t("not");
                        g.sp();
                        let v = g.leaf();
                        unop("!", o, v)
                    }
                    2 => {
                        let a = g.leaf();
                        g.sp();
                        let o = g.t("..");
                        g.sp();
                        let c = g.leaf();
                        binop(a, "..", o, c)
                    }
                    _ => {
                        let v = g.fresh_var();
                        let nl = g.t(&v);
                        g.declare(&v);
                        g.sp();
                        let o = g.t("=");
                        g.sp();
                        let c = g.leaf();
                        asgn(lvasgn(&v, nl), o, c)
                    }
                }
            }
        })
    }

    pub fn leaf_n(&mut self, k: usize) -> Node {
        match k {
            0 => {
                let x = self.t("1");
                int("1", x)
            }
            1 => {
                let x = self.t("nil");
                Node::Nil(Nil { expression_l: x })
            }
            2 => {
                let x = self.t("self");
                Node::Self_(Self_ { expression_l: x })
            }
            3 => {
                let x = self.t("@i");
                Node::Ivar(Ivar { name: "@i".into(), expression_l: x })
            }
            4 => {
                let x = self.t("$g");
                Node::Gvar(Gvar { name: "$g".into(), expression_l: x })
            }
            5 => {
                let x = self.t("K");
                konst("K", x)
            }
            6 => {
                let o = self.t(":");
                let x = self.t("s");
                sym(b"s", Some(o), j(o, x))
            }
            7 => {
                let o = self.t("\"");
                self.t("u");
                let c = self.t("\"");
                str_(b"u", Some(o), Some(c), j(o, c))
            }
            8 => match self.visible() {
                Some(v) => {
                    let x = self.t(&v);
                    lvar(&v, x)
                }
                None => {
                    let x = self.t("w?");
                    ident_send("w?", x)
                }
            },
            9 => {
                let o = self.t("[");
                let c = self.t("]");
                array(vec![], Some(o), Some(c))
            }
            10 => {
                let x = self.t("1.5");
                Node::Float(Float { value: "1.5".into(), operator_l: None, expression_l: x })
            }
            11 => {
                let x = self.t("@@c");
                Node::Cvar(Cvar { name: "@@c".into(), expression_l: x })
            }
            12 => {
                let x = self.t("true");
                Node::True(True { expression_l: x })
            }
            13 => {
                let x = self.t("__FILE__");
                Node::File(File { expression_l: x })
            }
            14 => {
                let x = self.t("$1");
                Node::NthRef(NthRef { name: "1".into(), expression_l: x })
            }
            15 => {
                let x = self.t("$&");
                Node::BackRef(BackRef { name: "$&".into(), expression_l: x })
            }
            16 => {
                let x = self.t("false");
                Node::False(False { expression_l: x })
            }
            17 => {
                let x = self.t("__LINE__");
                Node::Line(Line { expression_l: x })
            }
            18 => {
                let x = self.t("__ENCODING__");
                Node::Encoding(Encoding { expression_l: x })
            }
            19 => {
                let x = self.t("?c");
                let bl = l(x.begin, x.begin + 1);
                str_(b"c", Some(bl), None, x)
            }
            20 => {
                let x = self.t("3r");
                Node::Rational(Rational { value: "3r".into(), operator_l: None, expression_l: x })
            }
            _ => {
                let x = self.t("2i");
                Node::Complex(Complex { value: "2i".into(), operator_l: None, expression_l: x })
            }
        }
    }

    /// closed compound expressions
    pub fn prim_n(&mut self, k: usize) -> Node {
        match k {
            0 => self.c_paren(),
            1 => self.c_fcall(),
            2 => self.c_mcall(),
            3 => self.c_index(),
            4 => self.c_array(),
            5 => self.c_hash(),
            6 => self.c_if(),
            7 => self.c_while(),
            8 => self.c_case(),
            9 => self.c_begin(),
            10 => self.c_block(),
            11 => self.c_lambda(),
            12 => self.c_def(),
            13 => self.c_const_path(),
            14 => self.c_dstr(),
            15 => self.c_defined(),
            16 => self.c_for(),
            17 => self.c_class(),
            18 => self.c_module(),
            19 => self.c_sclass(),
            20 => self.c_case_in(),
            21 => self.c_words(),
            22 => self.c_regexp(),
            23 => self.c_not_paren(),
            24 => self.c_yield_super(),
            25 => self.c_xstr_sym(),
            _ => self.c_unless(),
        }
    }

    // ------------------------------------------------------------------ statements
    pub fn stmt(&mut self) -> Node {
        if self.rich == 0 {
            return self.leaf();
        }
        let nc = if self.depth > 0 && self.rich >= 2 { PRIMS + STMTS } else { 0 };
        let jumps = if self.value == 0 { JUMPS } else { 0 };
        let k = self.dev(1 + LEAVES + nc + jumps);
        if k == 0 {
            self.leaf()
        } else if k <= LEAVES {
            self.leaf_n(k - 1)
        } else if k <= LEAVES + nc {
            let k = k - 1 - LEAVES;
            self.deeper(|g| if k < PRIMS { g.prim_n(k) } else { g.stmt_n(k - PRIMS) })
        } else {
            self.jump(k - 1 - LEAVES - nc)
        }
    }
    pub fn jump(&mut self, k: usize) -> Node {
        if k >= 3 {
            return if k == 3 {
                let x = self.t("redo");
                Node::Redo(Redo { expression_l: x })
            } else {
                let x = self.t("retry");
                Node::Retry(Retry { expression_l: x })
            };
        }
        // `return` is rejected directly inside class bodies
        let k = if k == 0 && self.in_class && !self.in_def && !self.in_block { 1 } else { k };
        let kw = self.t(["return", "break", "next"][k]);
        let n = self.dev(4);
        let mut args = vec![];
        match n {
            1 => {
                self.sp();
                args.push(self.leaf());
            }
            2 => {
                self.sp();
                args.push(self.leaf());
                self.t(",");
                self.onl(" ");
                let o = self.t("*");
                let v = self.leaf();
                args.push(splat(o, Some(v)));
            }
            3 => {
                self.sp();
                let o = self.t("(");
                let v = self.leaf();
                let c = self.t(")");
                args.push(begin(vec![v], o, c));
            }
            _ => {}
        }
        let expression_l = args.last().map(|x| j(kw, e(x))).unwrap_or(kw);
        match k {
            0 => Node::Return(Return { args, keyword_l: kw, expression_l }),
            1 => Node::Break(Break { args, keyword_l: kw, expression_l }),
            _ => Node::Next(Next { args, keyword_l: kw, expression_l }),
        }
    }
    pub fn stmt_n(&mut self, k: usize) -> Node {
        match k {
            0 => self.c_mod(),
            1 => self.c_asgn(),
            2 => self.c_op_asgn(),
            3 => self.c_masgn(),
            4 => self.c_command(),
            5 => self.c_alias(),
            6 => self.c_undef(),
            7 => self.c_binop(),
            8 => self.c_ternary(),
            9 => self.c_logic(),
            10 => self.c_match_pattern(),
            11 => self.c_endless_def(),
            12 => self.c_unary(),
            13 => self.c_rescue_mod(),
            14 => self.c_cmd_block(),
            15 => self.c_not(),
            16 => self.c_range(),
            _ => self.c_postexe(),
        }
    }
    /// statements of a body, each followed by a separator
    pub fn body(&mut self) -> Option<Node> {
        let n = match self.dev(3) {
            0 => 1,
            1 => 0,
            _ => 2,
        };
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.stmt());
            self.term();
        }
        compstmt(v)
    }
    /// statements of a body, at least one, without a final separator
    pub fn body1(&mut self) -> Option<Node> {
        let n = 1 + self.dev(2);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.term();
            }
            v.push(self.stmt());
        }
        compstmt(v)
    }
    /// body inside braces / parens: may be empty
    pub fn inner(&mut self) -> Option<Node> {
        let n = match self.dev(3) {
            0 => 1,
            1 => 0,
            _ => 2,
        };
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.term();
            }
            v.push(self.stmt());
        }
        compstmt(v)
    }
    pub fn then_(&mut self) -> Loc {
        match self.dev(3) {
            0 => self.term(),
            1 => {
                self.sp();
                let x = self.t("then");
                self.onl(" ");
                x
            }
            _ => {
                self.term1();
                let x = self.t("then");
                self.onl(" ");
                x
            }
        }
    }
    pub fn do_(&mut self) -> Loc {
        match self.dev(2) {
            0 => self.term(),
            _ => {
                self.sp();
                let x = self.t("do");
                self.onl(" ");
                x
            }
        }
    }

    // ------------------------------------------------------------------ control flow
    pub fn c_if(&mut self) -> Node {
        let kw = self.t("if");
        self.sp();
        let c = cond(self.cond_expr());
        let th = self.then_();
        let body = self.body();
        let (el, f) = self.if_tail();
        let end = self.t("end");
        Node::If(If { cond: b(c), if_true: ob(body), if_false: ob(f), keyword_l: kw, begin_l: th, else_l: el, end_l: Some(end), expression_l: j(kw, end) })
    }
    fn if_tail(&mut self) -> (Option<Loc>, Option<Node>) {
        match self.dev(3) {
            0 => (None, None),
            1 => {
                let el = self.t("else");
                self.onl("\n");
                self.raw(" ");
                let body = self.body();
                (Some(el), body)
            }
            _ => {
                let kw = self.t("elsif");
                self.sp();
                let c = cond(self.cond_expr());
                let th = self.then_();
                let body = self.body();
                let (el, f) = self.if_tail();
                let end = f.as_ref().map(e).or(el).or(body.as_ref().map(e)).unwrap_or(th);
                let n = Node::If(If { cond: b(c), if_true: ob(body), if_false: ob(f), keyword_l: kw, begin_l: th, else_l: el, end_l: None, expression_l: j(kw, end) });
                (Some(kw), Some(n))
            }
        }
    }
    pub fn opt_else(&mut self) -> (Option<Loc>, Option<Node>) {
        match self.dev(2) {
            0 => (None, None),
            _ => {
                let el = self.t("else");
                self.onl("\n");
                self.raw(" ");
                let body = self.body();
                (Some(el), body)
            }
        }
    }
    pub fn c_unless(&mut self) -> Node {
        let kw = self.t("unless");
        self.sp();
        let c = cond(self.cond_expr());
        let th = self.then_();
        let body = self.body();
        let (el, f) = self.opt_else();
        let end = self.t("end");
        Node::If(If { cond: b(c), if_true: ob(f), if_false: ob(body), keyword_l: kw, begin_l: th, else_l: el, end_l: Some(end), expression_l: j(kw, end) })
    }
    pub fn c_ternary(&mut self) -> Node {
        let c = self.prim();
        self.sp();
        let q = self.t("?");
        self.onl(" ");
        let a = self.arg();
        self.sp();
        let co = self.t(":");
        self.onl(" ");
        let d = self.arg();
        let el = je(&c, &d);
        Node::IfTernary(IfTernary { cond: b(cond(c)), if_true: b(a), if_false: b(d), question_l: q, colon_l: co, expression_l: el })
    }
    pub fn c_while(&mut self) -> Node {
        let until = self.flag();
        let kw = self.t(if until { "until" } else { "while" });
        self.sp();
        let c = cond(self.in_cond(true, |g| g.cond_expr()));
        let d = self.do_();
        let body = self.loop_body();
        let end = self.t("end");
        if until {
            Node::Until(Until { cond: b(c), body: ob(body), keyword_l: kw, begin_l: Some(d), end_l: Some(end), expression_l: j(kw, end) })
        } else {
            Node::While(While { cond: b(c), body: ob(body), keyword_l: kw, begin_l: Some(d), end_l: Some(end), expression_l: j(kw, end) })
        }
    }
    /// loop bodies are not part of the value of the loop
    fn loop_body(&mut self) -> Option<Node> {
        let v = std::mem::replace(&mut self.value, 0);
        let r = self.body();
        self.value = v;
        r
    }
    pub fn c_for(&mut self) -> Node {
        let kw = self.t("for");
        self.sp();
        let it = self.for_var();
        self.sp();
        let inl = self.t("in");
        self.sp();
        let x = self.in_cond(true, |g| g.cond_expr());
        let d = self.do_();
        let body = self.loop_body();
        let end = self.t("end");
        Node::For(For { iterator: b(it), iteratee: b(x), body: ob(body), keyword_l: kw, operator_l: inl, begin_l: d, end_l: end, expression_l: j(kw, end) })
    }
    fn for_var(&mut self) -> Node {
        match self.dev(6) {
            0 => {
                let v = self.fresh_var();
                let nl = self.t(&v);
                self.declare(&v);
                lvasgn(&v, nl)
            }
            1 => {
                let v = self.fresh_var();
                let nl = self.t(&v);
                self.declare(&v);
                let t1 = lvasgn(&v, nl);
                self.t(",");
                self.onl(" ");
                let v = self.fresh_var();
                let nl = self.t(&v);
                self.declare(&v);
                let t2 = lvasgn(&v, nl);
                let el = je(&t1, &t2);
                Node::Mlhs(Mlhs { items: vec![t1, t2], begin_l: None, end_l: None, expression_l: el })
            }
            2 => {
                let nl = self.t("@z");
                Node::Ivasgn(Ivasgn { name: "@z".into(), value: None, name_l: nl, operator_l: None, expression_l: nl })
            }
            3 => self.attr_target(),
            4 => self.index_target(),
            _ => {
                let v = self.fresh_var();
                let nl = self.t(&v);
                self.declare(&v);
                let t1 = lvasgn(&v, nl);
                let c = self.t(",");
                let el = e(&t1);
                let _ = c;
                Node::Mlhs(Mlhs { items: vec![t1], begin_l: None, end_l: None, expression_l: el })
            }
        }
    }
    pub fn c_case(&mut self) -> Node {
        let kw = self.t("case");
        let expr = match self.dev(2) {
            0 => {
                self.sp();
                Some(self.cond_expr())
            }
            _ => None,
        };
        self.term();
        let n = 1 + self.dev(2);
        let mut whens = vec![];
        for _ in 0..n {
            let w = self.t("when");
            self.sp();
            let m = 1 + self.dev(2);
            let mut pats = vec![];
            for i in 0..m {
                if i > 0 {
                    self.t(",");
                    self.onl(" ");
                }
                if self.flag() {
                    let o = self.t("*");
                    let v = self.arg();
                    pats.push(splat(o, Some(v)));
                } else {
                    pats.push(self.arg());
                }
            }
            let th = self.then_();
            let body = self.body();
            let end = body.as_ref().map(e).unwrap_or_else(|| e(pats.last().unwrap()));
            whens.push(Node::When(When { patterns: pats, body: ob(body), keyword_l: w, begin_l: th, expression_l: j(w, end) }));
        }
        let (el, eb) = self.opt_else();
        let end = self.t("end");
        Node::Case(Case { expr: ob(expr), when_bodies: whens, else_body: ob(eb), keyword_l: kw, else_l: el, end_l: end, expression_l: j(kw, end) })
    }
    pub fn c_begin(&mut self) -> Node {
        let kw = self.t("begin");
        self.onl("\n");
        self.raw(" ");
        let body = self.in_cmdarg(false, |g| g.bodystmt());
        let end = self.t("end");
        kwbegin(kw, body, end)
    }
    /// compstmt opt_rescue opt_else opt_ensure
    pub fn bodystmt(&mut self) -> Option<Node> {
        let body = self.body();
        let nres = self.dev(3);
        let mut rs = vec![];
        for _ in 0..nres {
            let kw = self.t("rescue");
            let mut list = vec![];
            let lp = self.pos() + 1;
            match self.dev(4) {
                0 => {}
                1 => {
                    self.sp();
                    list.push(self.arg());
                }
                2 => {
                    self.sp();
                    list.push(self.arg());
                    self.t(",");
                    self.onl(" ");
                    list.push(self.arg());
                }
                _ => {
                    self.sp();
                    let o = self.t("*");
                    let v = self.arg();
                    list.push(splat(o, Some(v)));
                }
            }
            if self.starts_kw(lp) {
                self.abandon(); // `rescue if` starts a modifier
            }
            let (al, var) = match self.dev(4) {
                0 => (None, None),
                1 => {
                    self.sp();
                    let a = self.t("=>");
                    self.onl(" ");
                    let v = self.fresh_var();
                    let nl = self.t(&v);
                    self.declare(&v);
                    (Some(a), Some(lvasgn(&v, nl)))
                }
                2 => {
                    self.sp();
                    let a = self.t("=>");
                    self.onl(" ");
                    (Some(a), Some(self.attr_target()))
                }
                _ => {
                    self.sp();
                    let a = self.t("=>");
                    self.onl(" ");
                    (Some(a), Some(self.index_target()))
                }
            };
            let th = self.then_();
            let bd = self.body();
            let end = bd.as_ref().map(e).unwrap_or(th);
            let exc_list = if list.is_empty() { None } else { Some(array(list, None, None)) };
            rs.push(Node::RescueBody(RescueBody { exc_list: ob(exc_list), exc_var: ob(var), body: ob(bd), keyword_l: kw, assoc_l: al, begin_l: Some(th), expression_l: j(kw, end) }));
        }
        let mut res = body;
        if nres > 0 {
            let (el, eb) = self.opt_else();
            let first = res.as_ref().map(e).unwrap_or_else(|| e(&rs[0]));
            let last = eb.as_ref().map(e).or(el).unwrap_or_else(|| e(rs.last().unwrap()));
            res = Some(Node::Rescue(Rescue { body: ob(res), rescue_bodies: rs, else_: ob(eb), else_l: el, expression_l: j(first, last) }));
        }
        if self.flag() {
            let kw = self.t("ensure");
            self.onl("\n");
            self.raw(" ");
            let v = std::mem::replace(&mut self.value, 0);
            let bd = self.body();
            self.value = v;
            let first = res.as_ref().map(e).unwrap_or(kw);
            let last = bd.as_ref().map(e).unwrap_or(kw);
            res = Some(Node::Ensure(Ensure { body: ob(res), ensure: ob(bd), keyword_l: kw, expression_l: j(first, last) }));
        }
        res
    }
    pub fn c_mod(&mut self) -> Node {
        let k = self.choose(4);
        let isb = k >= 2 && self.flag();
        let body = if isb { self.deeper(|g| g.c_begin()) } else { self.stmt_nomod() };
        self.sp();
        let kw = self.t(["if", "unless", "while", "until"][k]);
        self.sp();
        let c0 = self.cond_expr();
        let el = je(&body, &c0);
        let c = b(cond(c0));
        let kwb = matches!(body, Node::KwBegin(_));
        match (k, kwb) {
            (0, _) => Node::IfMod(IfMod { cond: c, if_true: Some(b(body)), if_false: None, keyword_l: kw, expression_l: el }),
            (1, _) => Node::IfMod(IfMod { cond: c, if_true: None, if_false: Some(b(body)), keyword_l: kw, expression_l: el }),
            (2, false) => Node::While(While { cond: c, body: Some(b(body)), keyword_l: kw, begin_l: None, end_l: None, expression_l: el }),
            (3, false) => Node::Until(Until { cond: c, body: Some(b(body)), keyword_l: kw, begin_l: None, end_l: None, expression_l: el }),
            (2, true) => Node::WhilePost(WhilePost { cond: c, body: b(body), keyword_l: kw, expression_l: el }),
            (_, _) => Node::UntilPost(UntilPost { cond: c, body: b(body), keyword_l: kw, expression_l: el }),
        }
    }
    /// a statement that can be followed by a modifier without changing its own structure
    fn stmt_nomod(&mut self) -> Node {
        if self.rich < 1 {
            return self.leaf();
        }
        let nc = if self.depth > 0 && self.rich >= 2 { PRIMS } else { 0 };
        let jumps = if self.value == 0 { JUMPS } else { 0 };
        let k = self.dev(1 + LEAVES + nc + jumps);
        if k == 0 {
            self.leaf()
        } else if k <= LEAVES {
            self.leaf_n(k - 1)
        } else if k <= LEAVES + nc {
            self.deeper(|g| g.prim_n(k - 1 - LEAVES))
        } else {
            self.jump(k - 1 - LEAVES - nc)
        }
    }
    pub fn c_rescue_mod(&mut self) -> Node {
        let body = self.stmt_nomod();
        self.sp();
        let kw = self.t("rescue");
        self.sp();
        let v = self.stmt_nomod();
        rescue_mod(body, kw, v)
    }
    pub fn c_logic(&mut self) -> Node {
        let k = self.dev(2);
        let a = self.prim();
        self.sp();
        let o = self.t(["and", "or"][k]);
        self.onl(" ");
        let c = self.stmt_nomod();
        binop(a, ["and", "or"][k], o, c)
    }
    pub fn c_not(&mut self) -> Node {
        let k = self.dev(2);
        let o = self.t(["not", "!"][k]);
        if k == 0 {
            self.sp();
        } else {
            self.osp();
        }
        let p = self.pos();
        let v = self.prim();
        if k == 0 && (b"{(/".contains(&self.s[p]) || self.starts_kw(p)) {
            self.abandon(); // `not` is followed by an argument, not by the beginning of an expression
        }
        let el = j(o, e(&v));
        Node::Send(Send { recv: Some(b(cond(v))), method_name: "!".into(), args: vec![], dot_l: None, selector_l: Some(o), begin_l: None, end_l: None, operator_l: None, expression_l: el })
    }
    pub fn c_not_paren(&mut self) -> Node {
        let o = self.t("not");
        let p = self.t("(");
        if self.flag() {
            let q = self.t(")");
            return unop_full(begin(vec![], p, q), o);
        }
        self.onl("");
        let v = self.cond_expr();
        let q = self.t(")");
        Node::Send(Send { recv: Some(b(cond(v))), method_name: "!".into(), args: vec![], dot_l: None, selector_l: Some(o), begin_l: Some(p), end_l: Some(q), operator_l: None, expression_l: j(o, q) })
    }
    pub fn c_defined(&mut self) -> Node {
        let kw = self.t("defined?");
        let p = self.t("(");
        let v = self.cond_expr();
        let q = self.t(")");
        Node::Defined(Defined { value: b(v), keyword_l: kw, begin_l: Some(p), end_l: Some(q), expression_l: j(kw, q) })
    }
    pub fn c_paren(&mut self) -> Node {
        let p = self.t("(");
        self.onl("");
        let body = self.inner();
        let q = self.t(")");
        parens(p, body, q)
    }
    pub fn c_binop(&mut self) -> Node {
        let a = self.prim();
        let k = self.dev(BINOPS.len());
        self.sp();
        let o = self.t(BINOPS[k]);
        self.onl(" ");
        let c = self.prim();
        binop(a, BINOPS[k], o, c)
    }
    pub fn c_range(&mut self) -> Node {
        let k = self.dev(2);
        let op = ["..", "..."][k];
        let form = self.dev(2);
        if form == 0 {
            let a = self.prim();
            self.osp();
            let o = self.t(op);
            self.osp();
            let c = self.prim();
            binop(a, op, o, c)
        } else {
            let p = self.t("(");
            let (left, o, right);
            if self.flag() {
                left = None;
                o = self.t(op);
                right = Some(self.prim());
            } else {
                left = Some(self.prim());
                o = self.t(op);
                right = None;
            }
            let q = self.t(")");
            let el = j(left.as_ref().map(e).unwrap_or(o), right.as_ref().map(e).unwrap_or(o));
            let r = if k == 0 {
                Node::Irange(Irange { left: ob(left), right: ob(right), operator_l: o, expression_l: el })
            } else {
                Node::Erange(Erange { left: ob(left), right: ob(right), operator_l: o, expression_l: el })
            };
            begin(vec![r], p, q)
        }
    }
    pub fn c_unary(&mut self) -> Node {
        let k = self.dev(3);
        let o = self.t(["-", "+", "~"][k]);
        let v = self.leaf();
        unop(["-@", "+@", "~"][k], o, v)
    }

    // ------------------------------------------------------------------ calls
    /// argument list; `paren` allows trailing comma and newlines
    pub fn call_args(&mut self, paren: bool) -> Vec<Node> {
        let npos = [1, 0, 2][self.dev(3)];
        let mut v = vec![];
        let mut first = true;
        let mut sep = |g: &mut Self, first: &mut bool| {
            if !*first {
                g.t(",");
                g.onl(" ");
            }
            *first = false;
        };
        for _ in 0..npos {
            sep(self, &mut first);
            if self.flag() {
                let o = self.t("*");
                let x = self.arg();
                v.push(splat(o, Some(x)));
            } else {
                v.push(self.arg());
            }
        }
        let nk = self.dev(3);
        if nk > 0 {
            let mut ps = vec![];
            for _ in 0..nk {
                sep(self, &mut first);
                ps.push(self.assoc());
            }
            v.push(kwargs(ps));
        }
        let mut bp = false;
        if self.flag() {
            bp = true;
            sep(self, &mut first);
            let o = self.t("&");
            let x = self.arg();
            v.push(block_pass(o, Some(x)));
        }
        if paren && !bp && !v.is_empty() && self.flag() {
            self.t(",");
            self.onl("");
        }
        v
    }
    pub fn assoc(&mut self) -> Node {
        match self.dev(6) {
            0 => {
                let n = self.fresh();
                let nm = self.raw(&n);
                let c = self.raw(":");
                self.toks.push((nm.begin, c.end));
                self.onl(" ");
                let v = self.arg();
                label_pair(&n, nm, c, v)
            }
            1 => {
                let k = self.arg();
                self.sp();
                let o = self.t("=>");
                self.onl(" ");
                let v = self.arg();
                pair(k, o, v)
            }
            2 => {
                let o = self.t("**");
                let v = self.arg();
                kwsplat(o, v)
            }
            3 => {
                self.ctr += 1;
                let nm = format!("k{}", self.ctr);
                let q = self.t("\"");
                self.t(&nm);
                let c = self.t("\":");
                self.onl(" ");
                let v = self.arg();
                let el = l(q.begin, c.end);
                // the closing quote belongs to the key, the colon is the operator
                let key = Node::Sym(Sym { name: bytes(nm.as_bytes()), begin_l: Some(q), end_l: Some(l(c.begin, c.begin + 1)), expression_l: l(q.begin, c.begin + 1) });
                let op = l(c.begin + 1, c.end);
                let x = j(el, e(&v));
                Node::Pair(Pair { key: b(key), value: b(v), operator_l: op, expression_l: x })
            }
            4 => {
                self.ctr += 1;
                let w = ["if", "end", "class", "self", "nil", "do", "rescue", "while"][self.ctr % 8];
                let nm = self.raw(w);
                let c = self.raw(":");
                self.toks.push((nm.begin, c.end));
                self.onl(" ");
                let v = self.arg();
                label_pair(w, nm, c, v)
            }
            _ => {
                self.ctr += 1;
                let w = format!("Kn{}", self.ctr);
                let nm = self.raw(&w);
                let c = self.raw(":");
                self.toks.push((nm.begin, c.end));
                self.onl(" ");
                let v = self.arg();
                label_pair(&w, nm, c, v)
            }
        }
    }
    pub fn c_fcall(&mut self) -> Node {
        let names = ["foo", "Foo", "foo?", "foo!", "é"];
        let k = self.dev(names.len());
        let nl = self.t(names[k]);
        let p = self.t("(");
        self.onl("");
        let args = self.call_args(true);
        self.onl_close();
        let q = self.t(")");
        fcall(names[k], nl, Some(p), args, Some(q))
    }
    /// before a closing bracket a newline is allowed, other trivia too
    pub fn onl_close(&mut self) {
        self.onl("");
    }
    pub fn c_mcall(&mut self) -> Node {
        let recv = self.prim();
        let dk = self.dev(4);
        if dk == 3 && self.triv != Triv::Off {
            // leading-dot layout
        }
        let d = match dk {
            0 => self.dot("."),
            1 => self.dot("&."),
            2 => self.t("::"),
            _ => {
                self.raw("\n  ");
                self.t(".")
            }
        };
        let safe = dk == 1;
        let form = self.dev(3);
        if form == 2 {
            // recv.()
            let p = self.t("(");
            let args = self.call_args(true);
            let q = self.t(")");
            return mcall(recv, d, safe, "call", None, Some(p), args, Some(q));
        }
        let names = METHOD_NAMES;
        let k = self.dev(names.len());
        if dk == 2 && names[k] == "Foo" && form == 0 {
            let nl = self.t("Foo");
            let el = j(e(&recv), nl);
            return Node::Const(Const { scope: Some(b(recv)), name: "Foo".into(), double_colon_l: Some(d), name_l: nl, expression_l: el });
        }
        let nl = self.t(names[k]);
        if form == 0 {
            mcall(recv, d, safe, names[k], Some(nl), None, vec![], None)
        } else {
            let p = self.t("(");
            self.onl("");
            let args = self.call_args(true);
            self.onl_close();
            let q = self.t(")");
            mcall(recv, d, safe, names[k], Some(nl), Some(p), args, Some(q))
        }
    }
    /// a dot, possibly after trivia containing newlines and comments
    fn dot(&mut self, d: &str) -> Loc {
        if self.triv != Triv::Off {
            match self.dev(5) {
                0 => {}
                1 => {
                    self.raw(" \n ");
                }
                2 => {
                    self.raw(" ");
                    self.comment("# c", "\n");
                    self.raw("  ");
                }
                3 => {
                    self.raw("\n");
                    self.comment("# c", "\n");
                    self.raw("  ");
                    self.comment("# d", "\n");
                }
                _ => {
                    self.raw("\n  ");
                    self.comment("#", "\n");
                }
            }
        }
        let x = self.t(d);
        self.onl("");
        x
    }
    pub fn c_index(&mut self) -> Node {
        let recv = self.prim();
        let p = self.t("[");
        self.onl("");
        let args = self.call_args(true);
        self.onl_close();
        let q = self.t("]");
        let el = j(e(&recv), q);
        Node::Index(Index { recv: b(recv), indexes: args, begin_l: p, end_l: q, expression_l: el })
    }
    /// call without parentheses
    pub fn c_command(&mut self) -> Node {
        let form = self.dev(3);
        match form {
            0 => {
                let nl = self.t("cmd");
                self.sp();
                let args = self.cmd_args();
                fcall("cmd", nl, None, args, None)
            }
            1 => {
                let recv = self.prim();
                let dk = self.dev(3);
                let d = self.t([".", "&.", "::"][dk]);
                let nl = self.t("cmd");
                self.sp();
                let args = self.cmd_args();
                mcall(recv, d, dk == 1, "cmd", Some(nl), None, args, None)
            }
            _ => {
                let k = if self.in_def && !self.noctx { self.choose(2) } else { 0 };
                let kw = self.t(["super", "yield"][k]);
                self.sp();
                let mut args = self.cmd_args();
                if k == 1 && matches!(args.last(), Some(Node::BlockPass(_))) {
                    // a block cannot be passed to yield: not generated
                    self.abandon();
                    args.pop();
                }
                let el = j(kw, e(args.last().unwrap_or(&Node::Nil(Nil { expression_l: kw }))));
                if k == 0 {
                    Node::Super(Super { args, keyword_l: kw, begin_l: None, end_l: None, expression_l: el })
                } else {
                    Node::Yield(Yield { args, keyword_l: kw, begin_l: None, end_l: None, expression_l: el })
                }
            }
        }
    }
    /// mark the current execution as outside the modelled language
    pub fn abandon(&mut self) {
        self.hd_count = usize::MAX;
    }
    pub fn abandoned(&self) -> bool {
        self.hd_count == usize::MAX
    }
    /// command arguments: at least one, first token unambiguous
    fn cmd_args(&mut self) -> Vec<Node> {
        let p = self.pos();
        let v = self.in_cmdarg(true, |g| g.call_args(false));
        if v.is_empty() {
            self.abandon();
        }
        // `cmd [`, `cmd (`, `cmd {`, `cmd ?x`, `cmd -1`, `cmd *a` etc. are other constructs or warn
        let c = self.s.get(p).copied().unwrap_or(b' ');
        if b"({*&/".contains(&c) {
            self.abandon();
        }
        if self.starts_kw(p) {
            self.abandon();
        }
        v
    }
    pub fn c_yield_super(&mut self) -> Node {
        let k = if self.in_def { self.dev(5) } else { self.dev(3) };
        match k {
            0 => {
                let kw = self.t("super");
                Node::ZSuper(ZSuper { expression_l: kw })
            }
            1 | 2 => {
                let kw = self.t("super");
                let p = self.t("(");
                let args = if k == 1 { self.call_args(true) } else { vec![] };
                let q = self.t(")");
                Node::Super(Super { args, keyword_l: kw, begin_l: Some(p), end_l: Some(q), expression_l: j(kw, q) })
            }
            3 => {
                let kw = self.t("yield");
                Node::Yield(Yield { args: vec![], keyword_l: kw, begin_l: None, end_l: None, expression_l: kw })
            }
            _ => {
                let kw = self.t("yield");
                let p = self.t("(");
                let args = if self.flag() {
                    vec![]
                } else {
                    vec![self.arg()]
                };
                let q = self.t(")");
                Node::Yield(Yield { args, keyword_l: kw, begin_l: Some(p), end_l: Some(q), expression_l: j(kw, q) })
            }
        }
    }
    // ------------------------------------------------------------------ blocks
    /// a call followed by a block
    pub fn c_block(&mut self) -> Node {
        let call = match self.dev(6) {
            0 => {
                let x = self.t("foo");
                ident_send("foo", x)
            }
            1 => {
                let nl = self.t("foo");
                let p = self.t("(");
                let a = self.arg();
                let q = self.t(")");
                fcall("foo", nl, Some(p), vec![a], Some(q))
            }
            2 => {
                let r = self.prim();
                let d = self.t(".");
                let nl = self.t("bar");
                mcall(r, d, false, "bar", Some(nl), None, vec![], None)
            }
            3 => {
                let r = self.prim();
                let d = self.t("&.");
                let nl = self.t("bar");
                let p = self.t("(");
                let q = self.t(")");
                mcall(r, d, true, "bar", Some(nl), Some(p), vec![], Some(q))
            }
            4 => {
                let kw = self.t("super");
                let p = self.t("(");
                let a = self.arg();
                let q = self.t(")");
                Node::Super(Super { args: vec![a], keyword_l: kw, begin_l: Some(p), end_l: Some(q), expression_l: j(kw, q) })
            }
            _ => {
                let kw = self.t("super");
                Node::ZSuper(ZSuper { expression_l: kw })
            }
        };
        self.sp();
        let (args, body, o, c) = if self.flag() {
            if !self.do_ok() {
                self.abandon();
            }
            self.do_block()
        } else { self.brace_block() };
        block(call, args, body, o, c)
    }
    pub fn brace_block(&mut self) -> (Option<Node>, Option<Node>, Loc, Loc) {
        let o = self.t("{");
        let (v, bl) = (std::mem::replace(&mut self.value, 0), std::mem::replace(&mut self.in_block, true));
        self.open(true);
        self.onl(" ");
        let args = self.block_params();
        let body = self.inner();
        self.onl(" ");
        self.close();
        self.value = v;
        self.in_block = bl;
        let c = self.t("}");
        (args, body, o, c)
    }
    pub fn do_block(&mut self) -> (Option<Node>, Option<Node>, Loc, Loc) {
        let o = self.t("do");
        let (v, bl) = (std::mem::replace(&mut self.value, 0), std::mem::replace(&mut self.in_block, true));
        self.open(true);
        self.onl(" ");
        let args = self.block_params();
        self.onl("\n");
        self.raw(" ");
        let body = self.in_cmdarg(false, |g| g.bodystmt());
        self.close();
        self.value = v;
        self.in_block = bl;
        let c = self.t("end");
        (args, body, o, c)
    }
    fn one_arg(&mut self) -> Node {
        let v = self.fresh_var();
        let x = self.t(&v);
        self.declare(&v);
        Node::Arg(Arg { name: v, expression_l: x })
    }
    /// simple block parameters (P19 explores them in depth)
    pub fn block_params(&mut self) -> Option<Node> {
        match self.dev(4) {
            0 => None,
            1 => {
                let p = self.t("|");
                let a = self.one_arg();
                let q = self.t("|");
                self.raw(" ");
                let el = e(&a);
                let pa = Node::Procarg0(Procarg0 { args: vec![a], begin_l: None, end_l: None, expression_l: el });
                Some(Node::Args(Args { args: vec![pa], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
            2 => {
                let p = self.t("|");
                let a = self.one_arg();
                self.t(",");
                self.onl(" ");
                let c = self.one_arg();
                let q = self.t("|");
                self.raw(" ");
                Some(Node::Args(Args { args: vec![a, c], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
            _ => {
                let p = self.t("|");
                let q = self.t("|");
                self.raw(" ");
                Some(Node::Args(Args { args: vec![], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
        }
    }
    pub fn c_lambda(&mut self) -> Node {
        let a = self.t("->");
        let call = Node::Lambda(Lambda { expression_l: a });
        self.open(true);
        let (v, bl) = (std::mem::replace(&mut self.value, 0), std::mem::replace(&mut self.in_block, true));
        let args = match self.dev(4) {
            0 => None,
            1 => {
                let p = self.t("(");
                let x = self.one_arg();
                let q = self.t(")");
                Some(Node::Args(Args { args: vec![x], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
            2 => {
                self.sp();
                let x = self.one_arg();
                let el = e(&x);
                Some(Node::Args(Args { args: vec![x], expression_l: el, begin_l: None, end_l: None }))
            }
            _ => {
                let p = self.t("(");
                let q = self.t(")");
                Some(Node::Args(Args { args: vec![], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
        };
        self.sp();
        let r = if self.flag() {
            let o = self.t("do");
            self.onl("\n");
            self.raw(" ");
            let body = self.in_cmdarg(false, |g| g.bodystmt());
            let c = self.t("end");
            block(call, args, body, o, c)
        } else {
            let o = self.t("{");
            self.onl(" ");
            let body = self.inner();
            self.onl(" ");
            let c = self.t("}");
            block(call, args, body, o, c)
        };
        self.value = v;
        self.in_block = bl;
        self.close();
        r
    }
    /// command call with a block
    pub fn c_cmd_block(&mut self) -> Node {
        let nl = self.t("cmd");
        self.sp();
        let args = self.cmd_args();
        if matches!(args.last(), Some(Node::BlockPass(_))) {
            self.abandon();
        }
        let call = fcall("cmd", nl, None, args, None);
        self.sp();
        if *self.cond.last().unwrap() {
            self.abandon();
        }
        let (a, body, o, c) = self.do_block();
        block(call, a, body, o, c)
    }
    // ------------------------------------------------------------------ literals
    pub fn c_array(&mut self) -> Node {
        let p = self.t("[");
        self.onl("");
        let n = [1, 0, 2][self.dev(3)];
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.t(",");
                self.onl(" ");
            }
            if self.flag() {
                let o = self.t("*");
                let x = self.arg();
                v.push(splat(o, Some(x)));
            } else {
                v.push(self.arg());
            }
        }
        let nk = self.dev(2);
        if nk > 0 {
            if n > 0 {
                self.t(",");
                self.onl(" ");
            }
            let x = self.assoc();
            v.push(hash(vec![x], None, None));
        }
        if !v.is_empty() && self.flag() {
            self.t(",");
        }
        self.onl_close();
        let q = self.t("]");
        array(v, Some(p), Some(q))
    }
    pub fn c_hash(&mut self) -> Node {
        let p = self.t("{");
        self.onl("");
        let n = [1, 0, 2][self.dev(3)];
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.t(",");
                self.onl(" ");
            }
            v.push(self.assoc());
        }
        if n > 0 && self.flag() {
            self.t(",");
        }
        self.onl_close();
        let q = self.t("}");
        hash(v, Some(p), Some(q))
    }
    pub fn c_const_path(&mut self) -> Node {
        match self.dev(2) {
            0 => {
                let r = self.prim();
                let d = self.t("::");
                let n = self.t("Kk");
                let el = j(e(&r), n);
                Node::Const(Const { scope: Some(b(r)), name: "Kk".into(), double_colon_l: Some(d), name_l: n, expression_l: el })
            }
            _ => {
                let d = self.t("::");
                let n = self.t("Kk");
                Node::Const(Const { scope: Some(b(Node::Cbase(Cbase { expression_l: d }))), name: "Kk".into(), double_colon_l: Some(d), name_l: n, expression_l: j(d, n) })
            }
        }
    }
    /// string with interpolation
    pub fn c_dstr(&mut self) -> Node {
        let o = self.t("\"");
        let mut parts = vec![];
        if self.flag() {
            let x = self.t("x ");
            parts.push(str_(b"x ", None, None, x));
        }
        let p = self.t("#{");
        let body = self.inner();
        let q = self.t("}");
        parts.push(parens(p, body, q));
        if self.flag() {
            let x = self.t(" y");
            parts.push(str_(b" y", None, None, x));
        }
        let c = self.t("\"");
        Node::Dstr(Dstr { parts, begin_l: Some(o), end_l: Some(c), expression_l: j(o, c) })
    }
    pub fn c_xstr_sym(&mut self) -> Node {
        match self.dev(3) {
            0 => {
                let o = self.t("`");
                let x = self.t("ls");
                let c = self.t("`");
                Node::Xstr(Xstr { parts: vec![str_(b"ls", None, None, x)], begin_l: o, end_l: c, expression_l: j(o, c) })
            }
            1 => {
                let o = self.t(":\"");
                let x = self.t("q ");
                let p = self.t("#{");
                let body = self.inner();
                let q = self.t("}");
                let c = self.t("\"");
                Node::Dsym(Dsym { parts: vec![str_(b"q ", None, None, x), parens(p, body, q)], begin_l: Some(o), end_l: Some(c), expression_l: j(o, c) })
            }
            _ => {
                let o = self.t(":");
                let k = self.dev(METHOD_NAMES.len());
                let n = METHOD_NAMES[k];
                let x = self.t(n);
                sym(n.as_bytes(), Some(o), j(o, x))
            }
        }
    }
    pub fn c_words(&mut self) -> Node {
        let k = self.dev(4);
        let o = self.raw(["%w[", "%W[", "%i[", "%I["][k]);
        let mut v = vec![];
        for (i, w) in ["aa", "b"].iter().enumerate() {
            if i > 0 {
                self.raw(" ");
            }
            let x = self.t(w);
            v.push(if k < 2 { str_(w.as_bytes(), None, None, x) } else { sym(w.as_bytes(), None, x) });
        }
        let c = self.raw("]");
        array(v, Some(o), Some(c))
    }
    pub fn c_regexp(&mut self) -> Node {
        let o = self.t("/");
        let x = self.t("re");
        let k = self.dev(2);
        let cl = self.raw("/");
        let mut opt = None;
        let mut end = cl;
        if k == 1 {
            let ol = self.raw("i");
            opt = Some(Node::RegOpt(RegOpt { options: Some("i".into()), expression_l: ol }));
            end = ol;
        }
        self.toks.push((cl.begin, end.end));
        Node::Regexp(Regexp { parts: vec![str_(b"re", None, None, x)], options: ob(opt), begin_l: o, end_l: cl, expression_l: j(o, end) })
    }
    // ------------------------------------------------------------------ definitions
    pub fn c_def(&mut self) -> Node {
        let kw = self.t("def");
        self.sp();
        let definee = match self.dev(5) {
            0 => None,
            1 => {
                let x = self.t("self");
                Some(Node::Self_(Self_ { expression_l: x }))
            }
            2 => {
                let x = self.t("K");
                Some(konst("K", x))
            }
            3 => Some(self.leaf()),
            _ => {
                let p = self.t("(");
                let v = self.leaf();
                let q = self.t(")");
                let _ = (p, q);
                Some(v)
            }
        };
        let dot = definee.as_ref().map(|_| {
            let k = self.dev(2);
            self.t([".", "::"][k])
        });
        let names = ["foo", "foo=", "foo?", "Foo", "+", "[]=", "!", "-@", "if", "self", "`", "é"];
        let k = self.dev(names.len());
        let name = names[k];
        let nl = self.t(name);
        let saved = self.enter_def();
        let args = match self.dev(4) {
            0 => {
                self.term();
                None
            }
            1 => {
                let p = self.t("(");
                let x = self.one_arg();
                let q = self.t(")");
                self.onl("\n");
                self.raw(" ");
                Some(Node::Args(Args { args: vec![x], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
            2 => {
                self.sp();
                let x = self.one_arg();
                let el = e(&x);
                self.term();
                Some(Node::Args(Args { args: vec![x], expression_l: el, begin_l: None, end_l: None }))
            }
            _ => {
                let p = self.t("(");
                let q = self.t(")");
                self.onl("\n");
                self.raw(" ");
                Some(Node::Args(Args { args: vec![], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
        };
        let body = self.bodystmt();
        self.leave_def(saved);
        let end = self.t("end");
        match (definee, dot) {
            (Some(d), Some(dot)) => Node::Defs(Defs { definee: b(d), name: name.into(), args: ob(args), body: ob(body), keyword_l: kw, operator_l: dot, name_l: nl, assignment_l: None, end_l: Some(end), expression_l: j(kw, end) }),
            _ => Node::Def(Def { name: name.into(), args: ob(args), body: ob(body), keyword_l: kw, name_l: nl, end_l: Some(end), assignment_l: None, expression_l: j(kw, end) }),
        }
    }
    pub fn enter_def(&mut self) -> (u32, bool, bool) {
        self.open(false);
        self.cond.push(false);
        self.cmdarg.push(false);
        let s = (self.value, self.in_def, self.in_block);
        self.value = 0;
        self.in_def = true;
        s
    }
    pub fn leave_def(&mut self, s: (u32, bool, bool)) {
        self.close();
        self.cond.pop();
        self.cmdarg.pop();
        self.value = s.0;
        self.in_def = s.1;
        self.in_block = s.2;
    }
    pub fn c_endless_def(&mut self) -> Node {
        let kw = self.t("def");
        self.sp();
        let definee = if self.flag() {
            let x = self.t("self");
            let d = self.t(".");
            Some((Node::Self_(Self_ { expression_l: x }), d))
        } else {
            None
        };
        let nl = self.t("foo");
        let saved = self.enter_def();
        let args = match self.dev(3) {
            0 => {
                let p = self.t("(");
                let x = self.one_arg();
                let q = self.t(")");
                Some(Node::Args(Args { args: vec![x], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
            1 => {
                let p = self.t("(");
                let q = self.t(")");
                Some(Node::Args(Args { args: vec![], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
            _ => None,
        };
        self.sp();
        let a = self.t("=");
        self.onl(" ");
        let body = self.arg();
        let body = if self.flag() {
            self.sp();
            let r = self.t("rescue");
            self.sp();
            let v = self.arg();
            rescue_mod(body, r, v)
        } else {
            body
        };
        self.leave_def(saved);
        let el = j(kw, e(&body));
        match definee {
            Some((d, dot)) => Node::Defs(Defs { definee: b(d), name: "foo".into(), args: ob(args), body: Some(b(body)), keyword_l: kw, operator_l: dot, name_l: nl, assignment_l: Some(a), end_l: None, expression_l: el }),
            None => Node::Def(Def { name: "foo".into(), args: ob(args), body: Some(b(body)), keyword_l: kw, name_l: nl, end_l: None, assignment_l: Some(a), expression_l: el }),
        }
    }
    fn cpath(&mut self) -> Node {
        match self.dev(3) {
            0 => {
                let x = self.t("Kc");
                konst("Kc", x)
            }
            1 => {
                let d = self.t("::");
                let n = self.t("Kc");
                Node::Const(Const { scope: Some(b(Node::Cbase(Cbase { expression_l: d }))), name: "Kc".into(), double_colon_l: Some(d), name_l: n, expression_l: j(d, n) })
            }
            _ => {
                let p = self.pos();
                let r = self.prim();
                if self.starts_kw(p) {
                    self.abandon();
                }
                let d = self.t("::");
                let n = self.t("Kc");
                let el = j(e(&r), n);
                Node::Const(Const { scope: Some(b(r)), name: "Kc".into(), double_colon_l: Some(d), name_l: n, expression_l: el })
            }
        }
    }
    fn enter_class(&mut self) -> (u32, bool, bool, bool) {
        self.open(false);
        self.cond.push(false);
        self.cmdarg.push(false);
        let s = (self.value, self.in_class, self.in_def, self.in_block);
        self.value = 0;
        self.in_class = true;
        self.in_block = false;
        s
    }
    fn leave_class(&mut self, s: (u32, bool, bool, bool)) {
        self.close();
        self.cond.pop();
        self.cmdarg.pop();
        self.value = s.0;
        self.in_class = s.1;
        self.in_def = s.2;
        self.in_block = s.3;
    }
    pub fn c_class(&mut self) -> Node {
        if self.in_def {
            return self.leaf();
        }
        let kw = self.t("class");
        self.sp();
        let name = self.cpath();
        let (ol, sup) = if self.flag() {
            self.sp();
            let o = self.t("<");
            self.onl(" ");
            let v = self.cond_expr();
            (Some(o), Some(v))
        } else {
            (None, None)
        };
        self.term();
        let s = self.enter_class();
        let body = self.bodystmt();
        self.leave_class(s);
        let end = self.t("end");
        Node::Class(Class { name: b(name), superclass: ob(sup), body: ob(body), keyword_l: kw, operator_l: ol, end_l: end, expression_l: j(kw, end) })
    }
    pub fn c_module(&mut self) -> Node {
        if self.in_def {
            return self.leaf();
        }
        let kw = self.t("module");
        self.sp();
        let name = self.cpath();
        self.term();
        let s = self.enter_class();
        let body = self.bodystmt();
        self.leave_class(s);
        let end = self.t("end");
        Node::Module(Module { name: b(name), body: ob(body), keyword_l: kw, end_l: end, expression_l: j(kw, end) })
    }
    pub fn c_sclass(&mut self) -> Node {
        let kw = self.t("class");
        self.sp();
        let o = self.t("<<");
        self.sp();
        let x = self.prim();
        self.term();
        let s = self.enter_class();
        self.in_class = false;
        self.in_def = false;
        let body = self.bodystmt();
        self.leave_class(s);
        let end = self.t("end");
        Node::SClass(SClass { expr: b(x), body: ob(body), keyword_l: kw, operator_l: o, end_l: end, expression_l: j(kw, end) })
    }
    fn fitem(&mut self) -> Node {
        match self.dev(3) {
            0 => {
                let n = self.fresh();
                let x = self.t(&n);
                sym(n.as_bytes(), None, x)
            }
            1 => {
                let o = self.t(":");
                let x = self.t("s");
                sym(b"s", Some(o), j(o, x))
            }
            _ => {
                let k = self.dev(METHOD_NAMES.len());
                let n = METHOD_NAMES[k];
                let x = self.t(n);
                sym(n.as_bytes(), None, x)
            }
        }
    }
    pub fn c_alias(&mut self) -> Node {
        let kw = self.t("alias");
        self.sp();
        if self.flag() {
            let x = self.t("$n");
            self.sp();
            let (y, from) = if self.flag() {
                let y = self.t("$&");
                (y, Node::BackRef(BackRef { name: "$&".into(), expression_l: y }))
            } else {
                let y = self.t("$o");
                (y, Node::Gvar(Gvar { name: "$o".into(), expression_l: y }))
            };
            return Node::Alias(Alias { to: b(Node::Gvar(Gvar { name: "$n".into(), expression_l: x })), from: b(from), keyword_l: kw, expression_l: j(kw, y) });
        }
        let to = self.fitem();
        self.sp();
        let from = self.fitem();
        let el = j(kw, e(&from));
        Node::Alias(Alias { to: b(to), from: b(from), keyword_l: kw, expression_l: el })
    }
    pub fn c_undef(&mut self) -> Node {
        let kw = self.t("undef");
        self.sp();
        let n = 1 + self.dev(3);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.t(",");
                self.onl(" ");
            }
            v.push(self.fitem());
        }
        let el = j(kw, e(v.last().unwrap()));
        Node::Undef(Undef { names: v, keyword_l: kw, expression_l: el })
    }
    pub fn c_postexe(&mut self) -> Node {
        if self.in_def {
            return self.leaf();
        }
        let kw = self.t("END");
        self.sp();
        let o = self.t("{");
        self.onl(" ");
        let v = std::mem::replace(&mut self.value, 0);
        let body = self.inner();
        self.value = v;
        self.onl(" ");
        let c = self.t("}");
        Node::Postexe(Postexe { body: ob(body), keyword_l: kw, begin_l: o, end_l: c, expression_l: j(kw, c) })
    }
    // ------------------------------------------------------------------ assignment
    pub fn attr_target(&mut self) -> Node {
        let r = self.prim();
        let k = self.dev(3);
        let d = self.t([".", "&.", "::"][k]);
        let names = ["at", "At"];
        let m = if k == 2 { 0 } else { self.dev(2) };
        let n = self.t(names[m]);
        let nm = format!("{}=", names[m]);
        let el = j(e(&r), n);
        if k == 1 {
            Node::CSend(CSend { recv: b(r), method_name: nm, args: vec![], dot_l: d, selector_l: Some(n), begin_l: None, end_l: None, operator_l: None, expression_l: el })
        } else {
            Node::Send(Send { recv: Some(b(r)), method_name: nm, args: vec![], dot_l: Some(d), selector_l: Some(n), begin_l: None, end_l: None, operator_l: None, expression_l: el })
        }
    }
    pub fn index_target(&mut self) -> Node {
        let r = self.prim();
        let p = self.t("[");
        let n = [1, 0, 2][self.dev(3)];
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.t(",");
                self.onl(" ");
            }
            if self.flag() {
                let o = self.t("*");
                let x = self.arg();
                v.push(splat(o, Some(x)));
            } else {
                v.push(self.arg());
            }
        }
        let q = self.t("]");
        let el = j(e(&r), q);
        Node::IndexAsgn(IndexAsgn { recv: b(r), indexes: v, value: None, begin_l: p, end_l: q, operator_l: None, expression_l: el })
    }
    /// any assignment target; returns the node without value and the variable to declare
    pub fn target(&mut self, k: usize) -> (Node, Option<String>) {
        match k {
            0 => {
                let v = self.fresh_var();
                let nl = self.t(&v);
                (lvasgn(&v, nl), Some(v))
            }
            1 => {
                let nl = self.t("@i");
                (Node::Ivasgn(Ivasgn { name: "@i".into(), value: None, name_l: nl, operator_l: None, expression_l: nl }), None)
            }
            2 => {
                let nl = self.t("$g");
                (Node::Gvasgn(Gvasgn { name: "$g".into(), value: None, name_l: nl, operator_l: None, expression_l: nl }), None)
            }
            3 => {
                let nl = self.t("@@c");
                (Node::Cvasgn(Cvasgn { name: "@@c".into(), value: None, name_l: nl, operator_l: None, expression_l: nl }), None)
            }
            4 => (self.attr_target(), None),
            5 => (self.index_target(), None),
            _ => {
                if self.in_def {
                    return self.target(0);
                }
                match k {
                    6 => {
                        let nl = self.t("Kz");
                        (Node::Casgn(Casgn { scope: None, name: "Kz".into(), value: None, double_colon_l: None, name_l: nl, operator_l: None, expression_l: nl }), None)
                    }
                    7 => {
                        let r = self.prim();
                        let d = self.t("::");
                        let nl = self.t("Kz");
                        let el = j(e(&r), nl);
                        (Node::Casgn(Casgn { scope: Some(b(r)), name: "Kz".into(), value: None, double_colon_l: Some(d), name_l: nl, operator_l: None, expression_l: el }), None)
                    }
                    _ => {
                        let d = self.t("::");
                        let nl = self.t("Kz");
                        (Node::Casgn(Casgn { scope: Some(b(Node::Cbase(Cbase { expression_l: d }))), name: "Kz".into(), value: None, double_colon_l: Some(d), name_l: nl, operator_l: None, expression_l: j(d, nl) }), None)
                    }
                }
            }
        }
    }
    pub const TARGETS: usize = 9;
    pub fn c_asgn(&mut self) -> Node {
        let k = self.dev(Self::TARGETS);
        let (t, d) = self.target(k);
        if let Some(d) = &d {
            self.declare(d);
        }
        self.sp();
        let o = self.t("=");
        self.onl(" ");
        let v = match self.dev(6) {
            0 => self.arg(),
            1 => {
                // chained
                let k = self.dev(Self::TARGETS);
                let (t, d) = self.target(k);
                if let Some(d) = d {
                    self.declare(&d);
                }
                self.sp();
                let o = self.t("=");
                self.sp();
                let v = self.arg();
                asgn(t, o, v)
            }
            2 => {
                let a = self.arg();
                self.t(",");
                self.onl(" ");
                let c = if self.flag() {
                    let o = self.t("*");
                    let x = self.arg();
                    splat(o, Some(x))
                } else {
                    self.arg()
                };
                array(vec![a, c], None, None)
            }
            3 => {
                let o = self.t("*");
                let x = self.arg();
                array(vec![splat(o, Some(x))], None, None)
            }
            4 => {
                let a = self.arg();
                self.sp();
                let r = self.t("rescue");
                self.sp();
                let v = self.arg();
                rescue_mod(a, r, v)
            }
            _ => self.valued(|g| {
                let nl = g.t("cmd");
                g.sp();
                let a = g.leaf();
                fcall("cmd", nl, None, vec![a], None)
            }),
        };
        asgn(t, o, v)
    }
    pub fn c_op_asgn(&mut self) -> Node {
        let k = self.dev(Self::TARGETS);
        // constants may be conditionally assigned even with a scope
        let (mut t, d) = self.target(k);
        if let Some(d) = &d {
            self.declare(d);
        }
        // attribute targets keep their plain name in operator assignment
        match &mut t {
            Node::Send(s) => {
                s.method_name.pop();
            }
            Node::CSend(s) => {
                s.method_name.pop();
            }
            _ => {}
        }
        const OPS: [&str; 13] = ["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", "&&", "||"];
        let q = self.dev(OPS.len());
        self.sp();
        let o = self.t(&format!("{}=", OPS[q]));
        self.onl(" ");
        // `::K op= command` is not in the grammar
        let v = match self.dev(if k == 8 && !self.in_def { 2 } else { 3 }) {
            0 => self.arg(),
            1 => {
                let a = self.arg();
                self.sp();
                let r = self.t("rescue");
                self.sp();
                let v = self.arg();
                rescue_mod(a, r, v)
            }
            _ => self.valued(|g| {
                let nl = g.t("cmd");
                g.sp();
                let a = g.leaf();
                fcall("cmd", nl, None, vec![a], None)
            }),
        };
        op_asgn(t, OPS[q], o, v)
    }
    fn mlhs_item(&mut self, depth: u32) -> Node {
        let k = self.dev(Self::TARGETS + if depth > 0 { 1 } else { 0 });
        if k < Self::TARGETS {
            let (t, d) = self.target(k);
            if matches!(t, Node::CSend(_)) {
                self.abandon();
            }
            if let Some(d) = d {
                self.declare(&d);
            }
            t
        } else {
            let p = self.t("(");
            let items = self.mlhs_items(depth - 1);
            let q = self.t(")");
            Node::Mlhs(Mlhs { items, begin_l: Some(p), end_l: Some(q), expression_l: j(p, q) })
        }
    }
    fn mlhs_items(&mut self, depth: u32) -> Vec<Node> {
        // shapes: a, b | a, | a, *b | *a | a, *b, c | *a, b | a, * | *, a | *
        let shape = self.dev(10);
        let mut v = vec![];
        const SH: [&str; 10] = ["aa", "a,", "as", "s", "asa", "sa", "a*", "*a", "*", "aaa"];
        let sh = SH[shape].as_bytes();
        for (i, c) in sh.iter().enumerate() {
            if *c == b',' {
                self.t(",");
                continue;
            }
            if i > 0 {
                self.t(",");
                self.onl(" ");
            }
            match c {
                b'a' => v.push(self.mlhs_item(depth)),
                b's' => {
                    let o = self.t("*");
                    let x = self.mlhs_item(0);
                    v.push(splat(o, Some(x)));
                }
                _ => {
                    let o = self.t("*");
                    v.push(splat(o, None));
                }
            }
        }
        v
    }
    pub fn c_masgn(&mut self) -> Node {
        let par = self.flag();
        let p = if par { Some(self.t("(")) } else { None };
        let items = self.mlhs_items(1);
        let q = if par { Some(self.t(")")) } else { None };
        let el = j(p.unwrap_or_else(|| e(&items[0])), q.unwrap_or_else(|| e(items.last().unwrap())));
        let lhs = Node::Mlhs(Mlhs { items, begin_l: p, end_l: q, expression_l: el });
        self.sp();
        let o = self.t("=");
        self.onl(" ");
        let v = match self.dev(6) {
            0 => self.arg(),
            1 => {
                let a = self.arg();
                self.t(",");
                self.onl(" ");
                let c = self.arg();
                array(vec![a, c], None, None)
            }
            2 => {
                let o = self.t("*");
                let x = self.arg();
                array(vec![splat(o, Some(x))], None, None)
            }
            3 => {
                let a = self.arg();
                self.t(",");
                self.onl(" ");
                let o = self.t("*");
                let x = self.arg();
                array(vec![a, splat(o, Some(x))], None, None)
            }
            4 => {
                let a = self.arg();
                self.sp();
                let r = self.t("rescue");
                self.sp();
                let v = self.arg();
                rescue_mod(a, r, v)
            }
            _ => self.valued(|g| {
                let nl = g.t("cmd");
                g.sp();
                let a = g.leaf();
                fcall("cmd", nl, None, vec![a], None)
            }),
        };
        let el = je(&lhs, &v);
        Node::Masgn(Masgn { lhs: b(lhs), rhs: b(v), operator_l: o, expression_l: el })
    }
    // ------------------------------------------------------------------ pattern matching (see p18)
    pub fn c_match_pattern(&mut self) -> Node {
        let a = self.prim();
        let k = self.dev(2);
        self.sp();
        let o = self.t(["=>", "in"][k]);
        self.sp();
        let p = self.p_simple();
        let el = je(&a, &p);
        if k == 0 {
            Node::MatchPattern(MatchPattern { value: b(a), pattern: b(p), operator_l: o, expression_l: el })
        } else {
            Node::MatchPatternP(MatchPatternP { value: b(a), pattern: b(p), operator_l: o, expression_l: el })
        }
    }
    pub fn p_simple(&mut self) -> Node {
        match self.dev(4) {
            0 => {
                let v = self.fresh_var();
                let x = self.t(&v);
                self.declare(&v);
                Node::MatchVar(MatchVar { name: v, name_l: x, expression_l: x })
            }
            1 => {
                let x = self.t("1");
                int("1", x)
            }
            2 => {
                let x = self.t("K");
                konst("K", x)
            }
            _ => {
                let p = self.t("[");
                let v = self.fresh_var();
                let x = self.t(&v);
                self.declare(&v);
                let q = self.t("]");
                Node::ArrayPattern(ArrayPattern { elements: vec![Node::MatchVar(MatchVar { name: v, name_l: x, expression_l: x })], begin_l: Some(p), end_l: Some(q), expression_l: j(p, q) })
            }
        }
    }
    pub fn c_case_in(&mut self) -> Node {
        let kw = self.t("case");
        self.sp();
        let x = self.cond_expr();
        self.term();
        let n = 1 + self.dev(2);
        let mut ins = vec![];
        for _ in 0..n {
            let w = self.t("in");
            self.sp();
            let p = self.p_simple();
            let guard = match self.dev(3) {
                0 => None,
                k => {
                    self.sp();
                    let g = self.t(["if", "unless"][k - 1]);
                    self.sp();
                    // newlines inside a guard are not insignificant everywhere (in_kwarg)
                    let tv = std::mem::replace(&mut self.triv, Triv::Off);
                    let c = self.prim();
                    self.triv = tv;
                    let el = j(g, e(&c));
                    Some(if k == 1 {
                        Node::IfGuard(IfGuard { cond: b(c), keyword_l: g, expression_l: el })
                    } else {
                        Node::UnlessGuard(UnlessGuard { cond: b(c), keyword_l: g, expression_l: el })
                    })
                }
            };
            let th = self.then_();
            let body = self.body();
            let end = body.as_ref().map(e).or(guard.as_ref().map(e)).unwrap_or_else(|| e(&p));
            ins.push(Node::InPattern(InPattern { pattern: b(p), guard: ob(guard), body: ob(body), keyword_l: w, begin_l: th, expression_l: j(w, end) }));
        }
        let (el, eb) = match self.dev(3) {
            0 => (None, None),
            1 => {
                let el = self.t("else");
                self.onl("\n");
                self.raw(" ");
                let b = self.body();
                let b = b.or(Some(Node::EmptyElse(EmptyElse { expression_l: el })));
                (Some(el), b)
            }
            _ => {
                let el = self.t("else");
                self.term();
                (Some(el), Some(Node::EmptyElse(EmptyElse { expression_l: el })))
            }
        };
        let end = self.t("end");
        Node::CaseMatch(CaseMatch { expr: b(x), in_bodies: ins, else_body: ob(eb), keyword_l: kw, else_l: el, end_l: end, expression_l: j(kw, end) })
    }
}

fn unop_full(v: Node, o: Loc) -> Node {
    let el = j(o, e(&v));
    Node::Send(Send { recv: Some(b(v)), method_name: "!".into(), args: vec![], dot_l: None, selector_l: Some(o), begin_l: None, end_l: None, operator_l: None, expression_l: el })
}

pub const LEAVES: usize = 22;
pub const PRIMS: usize = 27;
pub const STMTS: usize = 18;
pub const JUMPS: usize = 5;
