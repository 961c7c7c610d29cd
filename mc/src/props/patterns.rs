//! P18: pattern matching. A generator of patterns from Ruby's pattern grammar, with the tree each
//! of them stands for, and enumerations of duplicate captures, duplicate keys and pins.
use super::*;
use crate::g::*;
use crate::n::*;
use crate::oracle::*;
use lib_ruby_parser::{DiagnosticMessage, ErrorLevel};

struct Pg<'a, 'b> {
    g: &'a mut G<'b>,
    caps: Vec<String>,
    /// inside an alternative only throw-away names may be captured
    alt: u32,
    /// a newline after a label is significant unless inside braces
    braces: u32,
}
fn mv(name: &str, nl: Loc, el: Loc) -> Node {
    Node::MatchVar(MatchVar { name: name.into(), name_l: nl, expression_l: el })
}
impl Pg<'_, '_> {
    fn name(&mut self) -> String {
        self.g.ctr += 1;
        let p = if self.alt > 0 { "_x" } else { ["v", "é", "vX_", "_w"][self.g.ctr % 4] };
        let n = format!("{p}{}", self.g.ctr);
        self.caps.push(n.clone());
        n
    }
    fn var(&mut self) -> Node {
        let n = self.name();
        let x = self.g.t(&n);
        self.g.declare(&n);
        mv(&n, x, x)
    }
    fn rest(&mut self, op: &str) -> Node {
        let o = self.g.t(op);
        if self.g.flag() {
            return Node::MatchRest(MatchRest { name: None, operator_l: o, expression_l: o });
        }
        let v = self.var();
        let el = j(o, e(&v));
        Node::MatchRest(MatchRest { name: Some(b(v)), operator_l: o, expression_l: el })
    }
    fn comma(&mut self) -> Loc {
        let c = self.g.t(",");
        self.g.onl(" ");
        c
    }
    /// elements of an array pattern: items, trailing comma, whether it is a find pattern
    fn items(&mut self, d: u32, k: usize) -> (Vec<Node>, Option<Loc>, bool) {
        // p = pattern, r = rest, `,` at the end = trailing comma
        const L: [&str; 15] = ["p", "pp", "", "p,", "r", "pr", "rp", "rpr", "prp", "pp,", "rppr", "ppp", "pprpp", "rpp", "ppp,"];
        let l = L[k];
        let mut v = vec![];
        let mut tc = None;
        for (i, c) in l.chars().enumerate() {
            if c == ',' {
                tc = Some(self.g.t(","));
                break;
            }
            if i > 0 {
                self.comma();
            }
            v.push(if c == 'p' { self.pat(d, 0) } else { self.rest("*") });
        }
        (v, tc, l == "rpr" || l == "rppr")
    }
    fn seq(&mut self, d: u32, k: usize, br: Option<(&str, &str)>) -> Node {
        let o = br.map(|b| self.g.t(b.0));
        if br.is_some() {
            self.g.onl("");
        }
        let (v, tc, find) = self.items(d, k);
        if br.is_some() && !v.is_empty() {
            self.g.onl("");
        }
        let c = br.map(|b| self.g.t(b.1));
        self.seq_node(v, tc, find, o, c)
    }
    fn seq_node(&mut self, v: Vec<Node>, tc: Option<Loc>, find: bool, o: Option<Loc>, c: Option<Loc>) -> Node {
        let f = o.or_else(|| v.first().map(e)).unwrap();
        let t = c.or(tc).or_else(|| v.last().map(e)).unwrap();
        let el = j(f, t);
        if find {
            Node::FindPattern(FindPattern { elements: v, begin_l: o, end_l: c, expression_l: el })
        } else if tc.is_some() {
            Node::ArrayPatternWithTail(ArrayPatternWithTail { elements: v, begin_l: o, end_l: c, expression_l: el })
        } else {
            Node::ArrayPattern(ArrayPattern { elements: v, begin_l: o, end_l: c, expression_l: el })
        }
    }
    fn label_gap(&mut self) {
        if self.braces > 0 {
            self.g.onl(" ");
        } else {
            self.g.sp();
        }
    }
    fn kw(&mut self, d: u32, c: char) -> Node {
        match c {
            'k' => {
                let n = self.name();
                let x = self.g.raw(&n);
                let y = self.g.raw(":");
                self.g.toks.push((x.begin, y.end));
                self.g.declare(&n);
                mv(&n, x, j(x, y))
            }
            'q' => {
                let n = self.name();
                let o = self.g.t("\"");
                let x = self.g.t(&n);
                let y = self.g.t("\":");
                self.g.declare(&n);
                mv(&n, x, j(o, y))
            }
            'P' => {
                self.g.ctr += 1;
                let i = self.g.ctr % 5;
                const KW: [&str; 16] = ["if", "end", "nil", "while", "self", "in", "then", "and", "class", "__FILE__", "defined?", "BEGIN", "do", "not", "return", "case"];
                let n = if i == 4 { KW[self.g.ctr / 5 % 16].to_string() } else { format!("{}{}", ["k", "K", "_k", "é"][i], self.g.ctr) };
                let n = if self.g.ctr % 7 == 3 && i != 4 { format!("{n}?") } else { n };
                let x = self.g.raw(&n);
                let y = self.g.raw(":");
                self.g.toks.push((x.begin, y.end));
                self.label_gap();
                let p = self.pat(d, 0);
                label_pair(&n, x, y, p)
            }
            'Q' | 'S' => {
                self.g.ctr += 1;
                let n = format!("k {}", self.g.ctr);
                let o = self.g.t(if c == 'Q' { "\"" } else { "'" });
                self.g.t(&n);
                let y = self.g.t(if c == 'Q' { "\":" } else { "':" });
                self.label_gap();
                let p = self.pat(d, 0);
                let q = l(y.begin, y.begin + 1);
                let key = Node::Sym(Sym { name: bytes(n.as_bytes()), begin_l: Some(o), end_l: Some(q), expression_l: j(o, q) });
                let el = j(o, e(&p));
                Node::Pair(Pair { key: b(key), value: b(p), operator_l: l(y.begin + 1, y.end), expression_l: el })
            }
            'R' => self.rest("**"),
            _ => {
                let o = self.g.t("**");
                let n = self.g.t("nil");
                Node::MatchNilPattern(MatchNilPattern { operator_l: o, name_l: n, expression_l: j(o, n) })
            }
        }
    }
    fn hash(&mut self, d: u32, k: usize, br: Option<(&str, &str)>) -> Node {
        const L: [&str; 20] = ["k", "P", "kP", "R", "PR", "N", "PN", "P,", "Q", "q", "k,", "S", "PP", "kR", "kk", "QP", "qk", "PkQR", "kqPN", ""];
        let o = br.map(|b| self.g.t(b.0));
        if br.is_some() {
            self.braces += 1;
            self.g.onl("");
        }
        let mut v = vec![];
        for (i, c) in L[k].chars().enumerate() {
            if c == ',' {
                self.g.t(",");
                break;
            }
            if i > 0 {
                self.comma();
            }
            let x = self.kw(d, c);
            v.push(x);
        }
        if let (Some(_), true) = (br, !v.is_empty() && !self.g.s.ends_with(b":")) {
            self.g.onl("");
        }
        let c = br.map(|b| self.g.t(b.1));
        if br.is_some() {
            self.braces -= 1;
        }
        let f = o.or_else(|| v.first().map(e)).unwrap();
        let t = c.or_else(|| v.last().map(e)).unwrap();
        Node::HashPattern(HashPattern { elements: v, begin_l: o, end_l: c, expression_l: j(f, t) })
    }
    fn cpath(&mut self) -> Node {
        match self.g.dev(4) {
            0 => {
                let x = self.g.t("K");
                konst("K", x)
            }
            1 => {
                let c = self.g.t("::");
                let x = self.g.t("K");
                Node::Const(Const { scope: Some(b(Node::Cbase(Cbase { expression_l: c }))), name: "K".into(), double_colon_l: Some(c), name_l: x, expression_l: j(c, x) })
            }
            2 => {
                let a = self.g.t("K");
                let c = self.g.t("::");
                let x = self.g.t("L");
                Node::Const(Const { scope: Some(b(konst("K", a))), name: "L".into(), double_colon_l: Some(c), name_l: x, expression_l: j(a, x) })
            }
            _ => {
                let a = self.g.t("K");
                let c = self.g.t("::");
                let x = self.g.t("L");
                let m = Node::Const(Const { scope: Some(b(konst("K", a))), name: "L".into(), double_colon_l: Some(c), name_l: x, expression_l: j(a, x) });
                let c = self.g.t("::");
                let x = self.g.t("Mé");
                Node::Const(Const { scope: Some(b(m)), name: "Mé".into(), double_colon_l: Some(c), name_l: x, expression_l: j(a, x) })
            }
        }
    }
    fn constp(&mut self, d: u32, br: (&str, &str)) -> Node {
        let k = self.cpath();
        let o = self.g.t(br.0);
        let w = self.g.dev(14);
        if w != 2 {
            self.g.onl("");
        }
        let p = match w {
            0 => {
                let (v, t, f) = self.items(d, 0);
                self.seq_node(v, t, f, None, None)
            }
            2 => {
                let q = self.g.t(br.1);
                let p = self.seq_node(vec![], None, false, Some(o), Some(q));
                let el = j(e(&k), q);
                return Node::ConstPattern(ConstPattern { const_: b(k), pattern: b(p), begin_l: o, end_l: q, expression_l: el });
            }
            1 | 3..=9 => {
                let (v, t, f) = self.items(d, w);
                self.seq_node(v, t, f, None, None)
            }
            _ => self.hash(d, [0, 1, 4, 5][w - 10], None),
        };
        if !self.g.s.ends_with(b":") {
            self.g.onl("");
        }
        let q = self.g.t(br.1);
        let el = j(e(&k), q);
        Node::ConstPattern(ConstPattern { const_: b(k), pattern: b(p), begin_l: o, end_l: q, expression_l: el })
    }
    fn prim(&mut self, k: usize) -> Node {
        let g = &mut *self.g;
        match k {
            0 => g.leaf_n(0),
            1 => {
                let x = g.t("-1");
                Node::Int(Int { value: "-1".into(), operator_l: Some(l(x.begin, x.begin + 1)), expression_l: x })
            }
            2 => g.leaf_n(7),
            3 => g.leaf_n(6),
            4 => g.leaf_n(1),
            5 => g.leaf_n(2),
            6 => g.leaf_n(12),
            7 => g.leaf_n(16),
            8 => g.leaf_n(13),
            9 => g.leaf_n(17),
            10 => g.leaf_n(18),
            11 => g.leaf_n(10),
            12 => g.leaf_n(19),
            13 => g.leaf_n(20),
            14 => g.c_dstr(),
            15 => g.c_words(),
            16 => g.c_regexp(),
            17 => g.c_xstr_sym(),
            _ => {
                let a = g.t("->");
                g.raw(" ");
                let o = g.t("{");
                g.raw(" ");
                let n = g.fresh();
                let x = g.t(&n);
                g.raw(" ");
                let c = g.t("}");
                block(Node::Lambda(Lambda { expression_l: a }), None, Some(ident_send(&n, x)), o, c)
            }
        }
    }
    fn range(&mut self) -> Node {
        let k = self.g.dev(6);
        let op = if k % 2 == 0 { ".." } else { "..." };
        let left = if k < 4 {
            let p = self.g.dev(4);
            Some(self.prim([0, 1, 2, 4][p]))
        } else {
            None
        };
        let o = self.g.t(op);
        let right = if k / 2 != 1 {
            let p = self.g.dev(4);
            Some(self.prim([0, 1, 2, 4][p]))
        } else {
            None
        };
        let el = j(left.as_ref().map(e).unwrap_or(o), right.as_ref().map(e).unwrap_or(o));
        let (left, right) = (ob(left), ob(right));
        if op == ".." {
            Node::Irange(Irange { left, right, operator_l: o, expression_l: el })
        } else {
            Node::Erange(Erange { left, right, operator_l: o, expression_l: el })
        }
    }
    fn pin(&mut self, k: usize) -> Node {
        let o = self.g.t("^");
        let v = match k {
            0 => {
                // captured earlier in this very pattern, or before it
                let n = if self.g.flag() && !self.caps.is_empty() { self.caps[0].clone() } else { "pre".into() };
                let x = self.g.t(&n);
                lvar(&n, x)
            }
            1 => self.g.leaf_n(3),
            2 => self.g.leaf_n(4),
            3 => self.g.leaf_n(11),
            _ => {
                let p = self.g.t("(");
                let v = match self.g.dev(3) {
                    0 => self.g.leaf(),
                    1 => {
                        let a = self.g.leaf();
                        self.g.raw(" ");
                        let o = self.g.t("+");
                        self.g.raw(" ");
                        let c = self.g.leaf_n(0);
                        binop(a, "+", o, c)
                    }
                    _ => {
                        let x = self.g.t("pre");
                        lvar("pre", x)
                    }
                };
                let q = self.g.t(")");
                begin(vec![v], p, q)
            }
        };
        let el = j(o, e(&v));
        Node::Pin(Pin { var: b(v), selector_l: o, expression_l: el })
    }
    /// level 0: anything; 1: no `=>`; 2: no `|` either
    fn pat(&mut self, d: u32, lvl: u32) -> Node {
        let k = self.g.dev(17);
        if d == 0 && matches!(k, 9..=15) {
            self.g.abandon();
        }
        let d1 = d.saturating_sub(1);
        match k {
            0 => self.var(),
            1 => self.prim(0),
            2 => self.cpath(),
            3 => self.pin(0),
            4 => {
                let k = 1 + self.g.dev(4);
                self.pin(k)
            }
            5 => self.range(),
            6 => self.prim(2),
            7 => {
                let k = 1 + self.g.dev(18);
                self.prim(k)
            }
            8 => self.prim(4),
            9 => {
                let k = self.g.dev(15);
                self.seq(d1, k, Some(("[", "]")))
            }
            10 => {
                let k = self.g.dev(20);
                self.hash(d1, k, Some(("{", "}")))
            }
            11 => {
                let p = self.g.t("(");
                self.g.onl("");
                let v = self.pat(d1, 0);
                self.g.onl("");
                let q = self.g.t(")");
                begin(vec![v], p, q)
            }
            12 => self.constp(d1, ("(", ")")),
            13 => self.constp(d1, ("[", "]")),
            14 if lvl == 0 => {
                let a = self.pat(d1, 0);
                self.g.raw(" ");
                let o = self.g.t("=>");
                self.g.raw(" ");
                let v = self.var();
                let el = je(&a, &v);
                Node::MatchAs(MatchAs { value: b(a), as_: b(v), operator_l: o, expression_l: el })
            }
            15 if lvl <= 1 => {
                self.alt += 1;
                let a = self.pat(d1, 1);
                self.g.raw(" ");
                let o = self.g.t("|");
                self.g.onl(" ");
                let c = self.pat(d1, 2);
                self.alt -= 1;
                let el = je(&a, &c);
                Node::MatchAlt(MatchAlt { lhs: b(a), rhs: b(c), operator_l: o, expression_l: el })
            }
            14 | 15 => {
                self.g.abandon();
                self.var()
            }
            _ => self.prim(6),
        }
    }
    fn top(&mut self, d: u32) -> Node {
        match self.g.dev(3) {
            0 => self.pat(d, 0),
            1 => {
                let k = [1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14][self.g.dev(13)];
                self.seq(d, k, None)
            }
            _ => {
                let k = self.g.dev(19);
                self.hash(d, k, None)
            }
        }
    }
}
/// what the pattern text ends with decides what may follow
fn dangling(g: &G) -> bool {
    matches!(g.s.last(), Some(b',' | b'*' | b'.')) || g.s.ends_with(b"\":")
}
fn bare_label(g: &G) -> bool {
    g.s.last() == Some(&b':')
}
fn reads(g: &mut G, names: &[String]) -> Node {
    let p = g.t("[");
    let mut v = vec![];
    for (i, n) in names.iter().enumerate() {
        if i > 0 {
            g.raw(", ");
        }
        v.push(g.ident(n));
    }
    let q = g.t("]");
    array(v, Some(p), Some(q))
}
const CTX: [&str; 9] = ["a => P", "a in P", "case/in", "(a in P)", "if a in P then", "x = (a => P)", "a in P and b", "a => P if b", "while a in P do"];
fn run(depth: u32, budget: u32, nctx: usize, triv: Triv) -> Family {
    fam(format!("patterns with up to {budget} deviations from a single variable, nested to depth {depth}, in {nctx} contexts, layout {}", if triv == Triv::Off { "plain" } else { "varied" }), budget, move |c, ctx| {
        let k = c.choose(nctx);
        let mut g = G::new(c);
        let g = &mut g;
        g.triv = Triv::Off;
        let mut st = vec![];
        // a variable to pin
        let x = g.t("pre");
        g.raw(" ");
        let o = g.t("=");
        g.raw(" ");
        let v = g.leaf_n(0);
        g.declare("pre");
        st.push(asgn(lvasgn("pre", x), o, v));
        g.raw("\n");
        let mpat = |g: &mut G, caps: &mut Vec<String>, strict: bool| -> Node {
            let a = g.leaf();
            g.raw(" ");
            let o = g.t(if strict { "=>" } else { "in" });
            g.raw(" ");
            g.triv = triv;
            let mut p = Pg { g, caps: vec![], alt: 0, braces: 0 };
            let n = p.top(depth);
            *caps = p.caps;
            g.triv = Triv::Off;
            let el = je(&a, &n);
            if strict {
                Node::MatchPattern(MatchPattern { value: b(a), pattern: b(n), operator_l: o, expression_l: el })
            } else {
                Node::MatchPatternP(MatchPatternP { value: b(a), pattern: b(n), operator_l: o, expression_l: el })
            }
        };
        let mut caps = vec![];
        match CTX[k] {
            "a => P" | "a in P" => {
                let m = mpat(g, &mut caps, k == 0);
                st.push(m);
                g.raw(if dangling(g) { ";" } else { "\n" });
            }
            "case/in" => {
                let kw = g.t("case");
                g.raw(" ");
                let x = g.leaf();
                g.raw("\n");
                let w = g.t("in");
                g.raw(" ");
                g.triv = triv;
                let mut p = Pg { g, caps: vec![], alt: 0, braces: 0 };
                let n = p.top(depth);
                caps = p.caps;
                g.triv = Triv::Off;
                let guard = if dangling(g) || bare_label(g) { 0 } else { g.dev(3) };
                let guard = if guard > 0 {
                    g.raw(" ");
                    let gk = g.t(["if", "unless"][guard - 1]);
                    g.raw(" ");
                    let c = if caps.is_empty() { g.leaf() } else { g.ident(&caps[0].clone()) };
                    let el = j(gk, e(&c));
                    Some(if guard == 1 {
                        Node::IfGuard(IfGuard { cond: b(c), keyword_l: gk, expression_l: el })
                    } else {
                        Node::UnlessGuard(UnlessGuard { cond: b(c), keyword_l: gk, expression_l: el })
                    })
                } else {
                    None
                };
                let th = if dangling(g) || g.flag() {
                    g.raw(" ");
                    let t = g.t("then");
                    g.raw(" ");
                    t
                } else {
                    g.term()
                };
                let body = if g.flag() { None } else { Some(reads(g, &caps)) };
                let end = body.as_ref().map(e).or(guard.as_ref().map(e)).unwrap_or(e(&n));
                g.raw("\n");
                let mut ins = vec![Node::InPattern(InPattern { pattern: b(n), guard: ob(guard), body: ob(body), keyword_l: w, begin_l: th, expression_l: j(w, end) })];
                if g.flag() {
                    // the same names may be captured again by another branch
                    let w = g.t("in");
                    g.raw(" ");
                    let nm = caps.iter().find(|n| g.declared(n)).cloned().unwrap_or("v0".into());
                    let x = g.t(&nm);
                    g.declare(&nm);
                    let t = g.term();
                    ins.push(Node::InPattern(InPattern { pattern: b(mv(&nm, x, x)), guard: None, body: None, keyword_l: w, begin_l: t, expression_l: j(w, x) }));
                }
                let (el, eb) = match g.dev(3) {
                    0 => (None, None),
                    1 => {
                        let el = g.t("else");
                        g.raw("\n");
                        (Some(el), Some(Node::EmptyElse(EmptyElse { expression_l: el })))
                    }
                    _ => {
                        let el = g.t("else");
                        g.raw(" ");
                        let x = g.leaf();
                        g.raw("\n");
                        (Some(el), Some(x))
                    }
                };
                let end = g.t("end");
                g.raw("\n");
                st.push(Node::CaseMatch(CaseMatch { expr: b(x), in_bodies: ins, else_body: ob(eb), keyword_l: kw, else_l: el, end_l: end, expression_l: j(kw, end) }));
            }
            "(a in P)" => {
                let p = g.t("(");
                let m = mpat(g, &mut caps, false);
                let q = g.t(")");
                st.push(begin(vec![m], p, q));
                g.raw("\n");
            }
            "x = (a => P)" => {
                let x = g.t("x");
                g.raw(" ");
                let o = g.t("=");
                g.raw(" ");
                let p = g.t("(");
                let m = mpat(g, &mut caps, false);
                let q = g.t(")");
                g.declare("x");
                st.push(asgn(lvasgn("x", x), o, begin(vec![m], p, q)));
                g.raw("\n");
            }
            "if a in P then" => {
                let kw = g.t("if");
                g.raw(" ");
                let m = mpat(g, &mut caps, false);
                g.raw(" ");
                let t = g.t("then");
                g.raw(" ");
                let x = g.leaf();
                g.raw("\n");
                let z = g.t("end");
                g.raw("\n");
                st.push(Node::If(If { cond: b(m), if_true: Some(b(x)), if_false: None, keyword_l: kw, begin_l: t, else_l: None, end_l: Some(z), expression_l: j(kw, z) }));
            }
            "while a in P do" => {
                let kw = g.t("while");
                g.raw(" ");
                let m = mpat(g, &mut caps, false);
                g.raw(" ");
                let t = g.t("do");
                g.raw(" ");
                let x = g.leaf();
                g.raw("\n");
                let z = g.t("end");
                g.raw("\n");
                st.push(Node::While(While { cond: b(m), body: Some(b(x)), keyword_l: kw, begin_l: Some(t), end_l: Some(z), expression_l: j(kw, z) }));
            }
            "a in P and b" => {
                let m = mpat(g, &mut caps, false);
                g.raw(" ");
                let o = g.t("and");
                g.raw(" ");
                let x = g.leaf();
                g.raw("\n");
                st.push(binop(m, "and", o, x));
            }
            _ => {
                let m = mpat(g, &mut caps, true);
                if dangling(g) || bare_label(g) {
                    return ctx.outcome("out of model");
                }
                g.raw(" ");
                let kw = g.t("if");
                g.raw(" ");
                let x = g.leaf();
                g.raw("\n");
                let el = je(&m, &x);
                st.push(Node::IfMod(IfMod { cond: b(x), if_true: Some(b(m)), if_false: None, keyword_l: kw, expression_l: el }));
            }
        }
        let r = reads(g, &caps);
        st.push(r);
        expect(ctx, g, compstmt(st));
    })
}

/// two captures, keys or a pin with equal or different names in every pair of places
fn names() -> Family {
    // N: a captured name; the scope of uniqueness is the whole pattern of one branch
    const CAP: [&str; 11] = ["N", "[N]", "[*N]", "{N:}", "{\"N\":}", "{k: N}", "{**N}", "1 => N", "K(N)", "(N)", "K[N:]"];
    const NM: [&str; 6] = ["a", "b", "_", "_a", "é", "aB"];
    const W: [(&str, &str); 5] = [("case x\nin [", "]\nend"), ("x => [", "]"), ("x in ", ";"), ("case x\nin K(", ") then\nend"), ("case x\nin {p: [", "]} if z\nend")];
    fam("two captures of equal or different names, every pair of places, names and contexts".to_string(), 0, |c, ctx| {
        let w = W[c.choose(W.len())];
        let (p, q) = (CAP[c.choose(CAP.len())], CAP[c.choose(CAP.len())]);
        let (m, n) = (NM[c.choose(6)], NM[c.choose(6)]);
        let mut s = w.0.to_string();
        s.push_str(&p.replace('N', m));
        s.push_str(", ");
        let at = s.len() + q.find('N').unwrap();
        s.push_str(&q.replace('N', n));
        s.push_str(w.1);
        verdict(ctx, &s, if m == n && !m.starts_with('_') { Some((at, n.len())) } else { None }, |m| matches!(m, DiagnosticMessage::DuplicateVariableName {}));
    })
}
fn keys() -> Family {
    // the second element of each: does it capture the key's own name
    const KEY: [(&str, usize, usize); 5] = [("N: 1", 0, 1), ("N:", 0, 1), ("\"N\": 1", 0, 3), ("\"N\":", 0, 3), ("'N': nil", 0, 3)];
    const W: [(&str, &str); 6] = [("case x\nin {", "}\nend"), ("x => {", "}"), ("x in ", ";"), ("case x\nin K(", ") then\nend"), ("case x\nin K[", "]\nend"), ("case x\nin [{a:}, {", "}]\nend")];
    const NM: [&str; 5] = ["b", "c", "_", "_b", "é"];
    fam("two keys of equal or different names in one hash pattern, every pair of spellings".to_string(), 0, |c, ctx| {
        let w = W[c.choose(W.len())];
        let (p, q) = (KEY[c.choose(5)], KEY[c.choose(5)]);
        let (m, n) = (NM[c.choose(5)], NM[c.choose(5)]);
        let mid = c.choose(2);
        let mut s = w.0.to_string();
        s.push_str(&p.0.replace('N', m));
        s.push_str([", ", ", z: {b: 1, c: [{c: 1}]}, "][mid]);
        let at = s.len();
        s.push_str(&q.0.replace('N', n));
        s.push_str(w.1);
        // the location is that of the label, or of the name when the name is also captured
        let _ = at;
        verdict_any(ctx, &s, m == n, at, at + q.2 + n.len(), |m| matches!(m, DiagnosticMessage::DuplicateKeyName {} | DiagnosticMessage::DuplicateVariableName {}));
    })
}
/// keys of different hash patterns do not clash
fn nested_keys() -> Family {
    const S: [(&str, bool); 16] = [
        ("{a: {a: 1}}", true), ("[{a: 1}, {a: 2}]", true), ("{a: [{a: 1}], b: {a: 2}}", true), ("{a: K(a: 1)}", true), ("{a: K[a: 1], b: K(a: 1)}", true), ("{a: (K(a: 1))}", true),
        ("{a: {a: 1}, a: 2}", false), ("{a: K(a: 1), a: 2}", false), ("{a: K[b: 1], a: 2}", false), ("{a: (1), a: 2}", false), ("{a: K(), a: 2}", false), ("{a: [], a: 2}", false), ("{a: {}, a: 2}", false), ("{a: [*, 1, *], a: 2}", false),
        ("K(a: 1) | K(a: 2) | {a: 3}", true), ("{a: K[], b: K(1), c: K[a: 2], a: 1}", false),
    ];
    fam("nested hash patterns with repeated keys".to_string(), 0, |c, ctx| {
        let (p, ok) = S[c.choose(S.len())];
        let w = c.choose(4);
        let s = match w {
            0 => format!("case x\nin {p}\n1\nend"),
            1 => format!("x => {p}"),
            2 => format!("case x\nin {{q: 1}} then 2\nin {p} if 1\nelse\nend"),
            _ => format!("case x\nin {{a: 1}} then (y in {p})\nin {{a: 2}}\nend"),
        };
        let at = if ok { 0 } else { s[..s.find(p).unwrap() + p.len()].rfind(" a: ").unwrap() + 1 };
        verdict_any(ctx, &s, !ok, at, at + 2, |m| matches!(m, DiagnosticMessage::DuplicateKeyName {}));
    })
}
/// a capture of a variable in one branch or pattern does not clash with another
fn branches() -> Family {
    const S: [(&str, bool); 9] = [
        ("case x\nin a then 1\nin a then 2\nend", true), ("case x\nin a\n case y\n in a then 1\n end\nend", true), ("x => a; y => a", true), ("x in a and y in a", true),
        ("case x\nin a if (y in a)\n1\nend", true), ("case x\nin a, a then 1\nend", false), ("a = 1; x in a", true), ("case x\nin ^(y in a; 1), a\n1\nend", true), ("case x\nin a, b, {c: [a]}\n1\nend", false),
    ];
    fam("the same name captured by different patterns".to_string(), 0, |c, ctx| {
        let (s, ok) = S[c.choose(S.len())];
        if s.contains("^(y in a; 1)") {
            // a pinned expression is one expression
            return ctx.outcome("out of model");
        }
        let at = s.rfind('a').unwrap();
        let at = if s.starts_with("case x\nin a, a") { 13 } else { at };
        verdict(ctx, s, if ok { None } else { Some((at, 1)) }, |m| matches!(m, DiagnosticMessage::DuplicateVariableName {}));
    })
}
fn pins() -> Family {
    const PRE: [(&str, bool); 8] = [("", false), ("v = 1\n", true), ("foo { v = 1 }\n", false), ("def m(v); end\n", false), ("w = 1\n", false), ("y => v\n", true), ("v ||= 1; ", true), ("->(v) {}\n", false)];
    const PAT: [(&str, bool); 8] = [("^v", false), ("[^v]", false), ("{k: ^v}", false), ("[v, ^v]", true), ("K(^v, v)", false), ("^v | 1", false), ("{v:, k: ^v}", true), ("1 => v, ^v", true)];
    const W: [(&str, &str); 3] = [("case x\nin ", "\n1\nend"), ("x in ", ";"), ("x => ", "\n")];
    const B: [(&str, &str, bool, bool); 5] = [("", "", true, true), ("foo { ", " }", true, true), ("def m\n", "\nend", false, true), ("class K\n", "\nend", false, true), ("-> do\n", "\nend", true, true)];
    fam("pins of declared and undeclared variables in every scope".to_string(), 0, |c, ctx| {
        let (pre, d) = PRE[c.choose(8)];
        let (p, own) = PAT[c.choose(8)];
        let w = W[c.choose(3)];
        let (o, z, inherits, _) = B[c.choose(5)];
        let ok = own || d && inherits;
        let mut s = format!("{pre}{o}{}", w.0);
        let at = s.len() + p.find("^v").unwrap() + 1;
        s.push_str(p);
        s.push_str(w.1);
        s.push_str(z);
        verdict(ctx, &s, if ok { None } else { Some((at, 1)) }, |m| matches!(m, DiagnosticMessage::NoSuchLocalVariable { var_name } if var_name == "v"));
    })
}
/// a match written inside a value of another pattern has names and keys of its own
fn inner_matches() -> Family {
    const HOLD: [(&str, &str); 6] = [("\"#{", "}\""), ("-> { ", " }"), (":\"#{", "}\""), ("/#{", "}/"), ("-> do ", " end"), ("\"#{1}#{", "}\"..")];
    // `k` the key, `n` the capture
    const I: [&str; 10] = ["y => {k: n}", "(y in {k: n})", "case y; in {k: n} then 1; end", "y => [n]", "y in n", "y => {k:}", "case y; in [n, *] | {q: 1} then 1; in {k: 1} then 2; end", "y => {k: \"#{z in {k: n}}\"}", "case y\nin {k: 1} if (z in {k: 2})\nend", "case y\nin {k: n} then 1\nelse 2 end"];
    const O: [(&str, &str, &str, char); 6] = [("{A: 1, ", "z: @", ", B: 2}", 'k'), ("[A, ", "@", ", B]", 'n'), ("K(a: A, ", "z: @", ", b: B)", 'n'), ("K[A: 1, ", "z: @", ", B: 1]", 'k'), ("[{A: 1, ", "z: @", ", B: 2}]", 'k'), ("[*, A, ", "@", ", B, *]", 'n')];
    const W: [(&str, &str); 4] = [("case x\nin ", "\n1\nend"), ("x => ", ""), ("(x in ", ")"), ("case x\nin {k: 1, n:} then 1\nin ", " if 1\nend")];
    fam("a match inside the value of another pattern", 0, move |c, ctx| {
        let h = HOLD[c.choose(HOLD.len())];
        let i = I[c.choose(I.len())];
        let o = O[c.choose(O.len())];
        let w = W[c.choose(W.len())];
        let (k, n) = (["k", "w"][c.choose(2)], ["n", "v"][c.choose(2)]);
        let (a, b) = (["k", "n", "g"][c.choose(3)], ["k", "n", "h"][c.choose(3)]);
        // only the captures of the pattern itself, and only its keys, clash
        let bad = a == b;
        let i: String = i.split_inclusive(|ch: char| !ch.is_ascii_alphabetic()).map(|t| {
            let e = t.trim_end_matches(|ch: char| !ch.is_ascii_alphabetic());
            match e {
                "k" => t.replacen('k', k, 1),
                "n" => t.replacen('n', n, 1),
                _ => t.to_string(),
            }
        }).collect();
        let mut s = format!("{}{}{}{}{}{}", w.0, o.0.replace('A', a), o.1.trim_end_matches('@'), h.0, i, h.1);
        let tail = o.2.split_once('B').unwrap();
        s.push_str(tail.0);
        let at = s.len();
        s.push_str(b);
        s.push_str(tail.1);
        s.push_str(w.1);
        let is = |m: &DiagnosticMessage| if o.3 == 'k' { matches!(m, DiagnosticMessage::DuplicateKeyName {}) } else { matches!(m, DiagnosticMessage::DuplicateVariableName {}) };
        verdict_any(ctx, &s, bad, at, at + b.len() + 1, is);
    })
}
/// names that can and cannot be captured by a bare key
fn key_names() -> Family {
    const NM: [(&str, bool); 14] = [("a", true), ("_a", true), ("aB1", true), ("é", true), ("A", false), ("a?", false), ("a!", false), ("É", false), ("Ab", false), ("_", true), ("a_1", true), ("日", true), ("_1x", true), ("_A", true)];
    const W: [(&str, &str); 5] = [("case x\nin {", "}\nend"), ("x => {", "}"), ("x in ", ";"), ("case x\nin K(", ") then\nend"), ("case x\nin [{k: {", "}}]\nend")];
    fam("bare keys of every kind of name".to_string(), 0, |c, ctx| {
        let (n, ok) = NM[c.choose(NM.len())];
        let w = W[c.choose(W.len())];
        let q = c.choose(3);
        if n == "日" {
            // not lower case, yet a local variable name in Ruby; decided by P06
            return ctx.outcome("out of model");
        }
        let mut s = w.0.to_string();
        let at = s.len() + if q == 1 { 1 } else { 0 };
        s.push_str(&match q {
            0 => format!("{n}:"),
            1 => format!("\"{n}\":"),
            _ => format!("{n}: 1"),
        });
        s.push_str(w.1);
        verdict(ctx, &s, if ok || q == 2 { None } else { Some((at, n.len())) }, |m| matches!(m, DiagnosticMessage::KeyMustBeValidAsLocalVariable {}));
    })
}
/// interpolated keys are never allowed
fn interp_keys() -> Family {
    const K: [&str; 5] = ["\"#{y}\":", "\"a#{y}\":", "\"#{y}b\": 1", "\"a#@b\": 1", "\"a#{1}c\": 1"];
    const W: [(&str, &str); 4] = [("case x\nin {", "}\nend"), ("x => {", "}"), ("x in ", ";"), ("case x\nin K(", ") then\nend")];
    fam("interpolated keys".to_string(), 0, |c, ctx| {
        let k = K[c.choose(5)];
        let w = W[c.choose(4)];
        let s = format!("{}{k}{}", w.0, w.1);
        let n = k.rfind(':').unwrap() + 1;
        verdict(ctx, &s, Some((w.0.len(), n)), |m| matches!(m, DiagnosticMessage::SymbolLiteralWithInterpolation {}));
    })
}
/// orders of elements the pattern grammar forbids
fn shapes(n: usize) -> Family {
    fam(format!("every sequence of {n} elements in every kind of bracket: accepted exactly in the legal orders"), 0, move |c, ctx| {
        // p value, r `*x`, k `k:`, P `k: 1`, R `**x`, N `**nil`
        let ks: Vec<char> = (0..n).map(|_| ['p', 'r', 'P', 'R', 'N', 'k'][c.choose(6)]).collect();
        let trail = n > 0 && c.choose(2) == 1;
        let w = c.choose(5);
        let br = [("[", "]"), ("{", "}"), ("K(", ")"), ("K[", "]"), ("", "")][w];
        let mut s = String::from("case x\nin ");
        s.push_str(br.0);
        for (i, k) in ks.iter().enumerate() {
            if i > 0 {
                s.push_str(", ");
            }
            s.push_str(&match k {
                'p' => "1".to_string(),
                'r' => format!("*r{i}"),
                'P' => format!("k{i}: 1"),
                'k' => format!("k{i}:"),
                'R' => format!("**r{i}"),
                _ => "**nil".into(),
            });
        }
        if trail {
            s.push(',');
        }
        s.push_str(br.1);
        s.push_str(" then 1\nend");
        let seq = ks.iter().all(|k| matches!(k, 'p' | 'r'));
        let kw = ks.iter().all(|k| !matches!(k, 'p' | 'r'));
        let rests = ks.iter().filter(|k| **k == 'r').count();
        let seq_ok = seq && (rests <= 1 || rests == 2 && n > 2 && ks[0] == 'r' && ks[n - 1] == 'r') && (!trail || rests == 0);
        let last_only = kw && ks.iter().enumerate().all(|(i, k)| !matches!(k, 'R' | 'N') || i == n - 1);
        let kw_ok = last_only && (!trail || !matches!(ks.last(), Some('R' | 'N')));
        let ok = match w {
            0 => seq_ok || n == 0,
            1 => kw_ok || n == 0,
            2 | 3 => n == 0 || seq_ok || kw_ok,
            _ => n > 0 && (seq_ok || kw_ok),
        };
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let r = parse(s.as_bytes());
        ctx.end();
        if (errors(&r) == 0) != ok {
            ctx.fail(format!("expected {}, got {}", if ok { "no error" } else { "an error" }, diag_str(&r.diagnostics)));
            return;
        }
        ctx.nontrivial();
        ctx.outcome(if ok { "accepted as expected" } else { "rejected as expected" });
    })
}
fn verdict(ctx: &mut Ctx, s: &str, bad: Option<(usize, usize)>, f: impl Fn(&DiagnosticMessage) -> bool) {
    if !ctx.begin(s.as_bytes()) {
        return;
    }
    let r = parse(s.as_bytes());
    ctx.end();
    match bad {
        None => {
            if errors(&r) > 0 {
                ctx.fail(format!("rejected: {}", diag_str(&r.diagnostics)));
                return;
            }
            ctx.outcome("accepted as expected");
        }
        Some((p, n)) => {
            if !r.diagnostics.iter().any(|d| d.level == ErrorLevel::Error && d.loc.begin == p && d.loc.end == p + n && f(&d.message)) {
                ctx.fail(format!("expected the error at {p}..{}, got: {}", p + n, diag_str(&r.diagnostics)));
                return;
            }
            ctx.outcome("rejected as expected");
        }
    }
    ctx.nontrivial();
}
fn verdict_any(ctx: &mut Ctx, s: &str, bad: bool, from: usize, to: usize, f: impl Fn(&DiagnosticMessage) -> bool) {
    if !ctx.begin(s.as_bytes()) {
        return;
    }
    let r = parse(s.as_bytes());
    ctx.end();
    if !bad && errors(&r) > 0 {
        ctx.fail(format!("rejected: {}", diag_str(&r.diagnostics)));
        return;
    }
    if bad && !r.diagnostics.iter().any(|d| d.level == ErrorLevel::Error && d.loc.begin >= from && d.loc.end <= to && f(&d.message)) {
        ctx.fail(format!("expected the error within {from}..{to}, got: {}", diag_str(&r.diagnostics)));
        return;
    }
    ctx.nontrivial();
    ctx.outcome(if bad { "rejected as expected" } else { "accepted as expected" });
}
/// the families about duplicate names and keys and unknown pins
pub fn misuse() -> Vec<Family> {
    vec![names(), keys(), nested_keys(), branches(), pins(), key_names(), inner_matches()]
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P18",
        rule: "Each execution is a program with one pattern drawn from the reference pattern grammar (all derivations within the stated deviations and depth), in case/in, `in` and `=>` contexts, together with the tree it stands for; every captured name is read afterwards and must be a variable. Separate enumerations pair captures, keys and pins of equal and different names and orders of elements, with the verdict Ruby gives.",
        assumptions: &["captures under alternatives use only throw-away names", "patterns deeper than the bound are not explored"],
        families: |th| {
            let mut v = vec![
                run(3, if th { 6 } else { 5 }, if th { 9 } else { 3 }, Triv::Off),
                run(2, if th { 5 } else { 4 }, 9, Triv::Off),
                run(2, if th { 4 } else { 3 }, 3, Triv::On),
                names(),
                keys(),
                inner_matches(),
                nested_keys(),
                branches(),
                pins(),
                key_names(),
                interp_keys(),
            ];
            for n in 0..=(if th { 5 } else { 4 }) {
                v.push(shapes(n));
            }
            v.extend(super::slots::families("P18", th));
            v
        },
    }]
}
