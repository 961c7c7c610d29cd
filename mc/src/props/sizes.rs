//! Sizes: each shape with one part grown through every length up to a bound and around powers of
//! two. What holds for three elements must hold for three hundred.
use super::*;
use crate::n::*;
use crate::oracle::*;

pub fn lens(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    let mut p = 64;
    while p <= 1 << 16 {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([99, 100, 101, 999, 1000, 1001]);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
struct S {
    s: String,
}
impl S {
    fn t(&mut self, x: &str) -> Loc {
        let a = self.s.len();
        self.s.push_str(x);
        l(a, a + x.len())
    }
    fn x(&mut self, n: &str) -> Node {
        let a = self.t(n);
        ident_send(n, a)
    }
    fn i(&mut self, n: &str) -> Node {
        let a = self.t(n);
        int(n, a)
    }
    fn list(&mut self, n: usize, mut f: impl FnMut(&mut S, usize) -> Node) -> Vec<Node> {
        (0..n)
            .map(|i| {
                if i > 0 {
                    self.t(", ");
                }
                f(self, i)
            })
            .collect()
    }
}
fn name(i: usize) -> String {
    format!("v{i}")
}
type Shape = (&'static str, &'static str, usize, fn(&mut S, usize) -> Option<Node>);
const SHAPES: &[Shape] = &[
    ("P07", "double-quoted string of n characters", 65537, |g, n| {
        let o = g.t("\"");
        let c = "ab".repeat(n / 2) + &"c".repeat(n % 2);
        g.t(&c);
        let q = g.t("\"");
        Some(str_(c.as_bytes(), Some(o), Some(q), j(o, q)))
    }),
    ("P07", "n escapes in a string", 16385, |g, n| {
        let o = g.t("\"");
        g.t(&"\\n".repeat(n));
        let q = g.t("\"");
        Some(str_("\n".repeat(n).as_bytes(), Some(o), Some(q), j(o, q)))
    }),
    ("P07", "n interpolations in a string", 4097, |g, n| {
        let o = g.t("\"");
        let mut parts = vec![];
        for i in 0..n {
            let p = g.t("#{");
            let v = g.i(&i.to_string());
            let q = g.t("}");
            parts.push(begin(vec![v], p, q));
            let a = g.t("a");
            parts.push(str_(b"a", None, None, a));
        }
        let q = g.t("\"");
        if n == 0 {
            return None;
        }
        Some(Node::Dstr(Dstr { parts, begin_l: Some(o), end_l: Some(q), expression_l: j(o, q) }))
    }),
    ("P07", "n nested brackets in a %q literal", 4097, |g, n| {
        let o = g.t("%q(");
        let c = "(".repeat(n) + &")".repeat(n);
        g.t(&c);
        let q = g.t(")");
        Some(str_(c.as_bytes(), Some(o), Some(q), j(o, q)))
    }),
    ("P07", "symbol of n characters", 65537, |g, n| {
        if n == 0 {
            return None;
        }
        let o = g.t(":");
        let c = "a".repeat(n);
        let a = g.t(&c);
        Some(sym(c.as_bytes(), Some(o), j(o, a)))
    }),
    ("P08", "heredoc identifier of n characters", 65537, |g, n| {
        if n == 0 {
            return None;
        }
        let id = "A".repeat(n);
        let o = g.t(&format!("<<{id}"));
        g.t("\n");
        let bl = g.t("a\n");
        let z = g.t(&id);
        Some(Node::Heredoc(Heredoc { parts: vec![str_(b"a\n", None, None, bl)], expression_l: o, heredoc_body_l: bl, heredoc_end_l: z }))
    }),
    ("P08", "heredoc body line indented by n", 4097, |g, n| {
        let o = g.t("<<~A");
        g.t("\n");
        let a = g.t(&" ".repeat(n));
        let bl = g.t("a\n");
        let z = g.t("A");
        Some(Node::Heredoc(Heredoc { parts: vec![str_(b"a\n", None, None, j(a, bl))], expression_l: o, heredoc_body_l: j(a, bl), heredoc_end_l: z }))
    }),
    ("P08", "n heredocs on one line", 257, |g, n| {
        if n == 0 {
            return None;
        }
        let o = g.t("[");
        let ops: Vec<Loc> = (0..n)
            .map(|i| {
                if i > 0 {
                    g.t(",");
                }
                g.t(&format!("<<A{i}"))
            })
            .collect();
        let q = g.t("]");
        g.t("\n");
        let v = ops
            .into_iter()
            .enumerate()
            .map(|(i, op)| {
                let c = format!("{i}\n");
                let bl = g.t(&c);
                let z = g.t(&format!("A{i}"));
                g.t("\n");
                Node::Heredoc(Heredoc { parts: vec![str_(c.as_bytes(), None, None, bl)], expression_l: op, heredoc_body_l: bl, heredoc_end_l: z })
            })
            .collect();
        Some(array(v, Some(o), Some(q)))
    }),
    ("P08", "heredoc of n lines", 4097, |g, n| {
        if n == 0 {
            return None;
        }
        let o = g.t("<<A");
        g.t("\n");
        let a = g.s.len();
        let c: String = (0..n).map(|i| format!("{i}\n")).collect();
        let x = g.t(&c);
        let parts = vec![str_(c.as_bytes(), None, None, x)];
        let bl = l(a, g.s.len());
        let z = g.t("A");
        Some(Node::Heredoc(Heredoc { parts, expression_l: o, heredoc_body_l: bl, heredoc_end_l: z }))
    }),
    ("P09", "decimal integer of n digits", 16385, |g, n| {
        if n == 0 {
            return None;
        }
        Some(g.i(&"1234567890".repeat(n / 10 + 1)[..n].to_string()))
    }),
    ("P09", "binary integer of n digits with separators", 16385, |g, n| {
        if n == 0 {
            return None;
        }
        Some(g.i(&format!("0b1{}", "_0".repeat(n))))
    }),
    ("P20", "call with n arguments", 4097, |g, n| {
        let f = g.t("m");
        let o = g.t("(");
        let a = g.list(n, |g, i| g.i(&i.to_string()));
        let q = g.t(")");
        Some(fcall("m", f, Some(o), a, Some(q)))
    }),
    ("P20", "command with n arguments", 4097, |g, n| {
        if n == 0 {
            return None;
        }
        let f = g.t("m");
        g.t(" ");
        let a = g.list(n, |g, i| g.i(&i.to_string()));
        Some(fcall("m", f, None, a, None))
    }),
    ("P20", "chain of n method calls", 1025, |g, n| {
        let mut r = g.x("x");
        for _ in 0..n {
            let d = g.t(".");
            let m = g.t("m");
            r = mcall(r, d, false, "m", Some(m), None, vec![], None);
        }
        Some(r)
    }),
    ("P13", "chain of n method calls on lines of their own", 1025, |g, n| {
        let mut r = g.x("x");
        for _ in 0..n {
            g.t("\n  ");
            let d = g.t(".");
            let m = g.t("m");
            r = mcall(r, d, false, "m", Some(m), None, vec![], None);
        }
        Some(r)
    }),
    ("P13", "n blank lines between statements", 65537, |g, n| {
        let x = g.x("x");
        g.t("\n");
        g.t(&"\n".repeat(n));
        let y = g.x("y");
        compstmt(vec![x, y])
    }),
    ("P13", "n spaces between tokens", 65537, |g, n| {
        let x = g.x("x");
        g.t(&" ".repeat(n));
        let o = g.t("=~");
        g.t(&" ".repeat(n));
        let y = g.x("y");
        Some(binop(x, "=~", o, y))
    }),
    ("P13", "n escaped newlines between tokens", 4097, |g, n| {
        let x = g.x("x");
        g.t(" ");
        g.t(&"\\\n".repeat(n));
        let o = g.t("+");
        g.t(" ");
        g.t(&"\\\n".repeat(n));
        let y = g.x("y");
        Some(binop(x, "+", o, y))
    }),
    ("P05", "chain of n additions", 1025, |g, n| {
        let mut r = g.x("x");
        for _ in 0..n {
            g.t(" ");
            let o = g.t("+");
            g.t(" ");
            let y = g.x("y");
            r = binop(r, "+", o, y);
        }
        Some(r)
    }),
    ("P05", "n nested parentheses", 513, |g, n| {
        let os: Vec<Loc> = (0..n).map(|_| g.t("(")).collect();
        let mut r = g.x("x");
        for o in os.into_iter().rev() {
            let q = g.t(")");
            r = begin(vec![r], o, q);
        }
        Some(r)
    }),
    ("P05", "n negations", 513, |g, n| {
        let os: Vec<Loc> = (0..n).map(|_| g.t("!")).collect();
        let mut r = g.x("x");
        for o in os.into_iter().rev() {
            r = unop("!", o, r);
        }
        Some(r)
    }),
    ("P26", "array of n elements", 4097, |g, n| {
        let o = g.t("[");
        let a = g.list(n, |g, i| g.i(&i.to_string()));
        let q = g.t("]");
        Some(array(a, Some(o), Some(q)))
    }),
    ("P26", "hash of n pairs", 1025, |g, n| {
        g.t("m(");
        let h = g.t("{");
        let a = g.list(n, |g, i| {
            let k = format!("k{i}");
            let a = g.t(&k);
            let c = g.t(":");
            g.t(" ");
            let v = g.i(&i.to_string());
            label_pair(&k, a, c, v)
        });
        let q = g.t("}");
        let r = g.t(")");
        Some(fcall("m", l(0, 1), Some(l(1, 2)), vec![hash(a, Some(h), Some(q))], Some(r)))
    }),
    ("P26", "word list of n words", 4097, |g, n| {
        let o = g.t("%w[");
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                g.t(" ");
            }
            let w = i.to_string();
            let a = g.t(&w);
            v.push(str_(w.as_bytes(), None, None, a));
        }
        let q = g.t("]");
        Some(array(v, Some(o), Some(q)))
    }),
    ("P19", "method with n parameters", 513, |g, n| {
        let kw = g.t("def");
        g.t(" ");
        let m = g.t("m");
        let o = g.t("(");
        let a = g.list(n, |g, i| {
            let a = g.t(&name(i));
            Node::Arg(Arg { name: name(i), expression_l: a })
        });
        let q = g.t(")");
        g.t("; ");
        let z = g.t("end");
        let args = Node::Args(Args { args: a, begin_l: Some(o), end_l: Some(q), expression_l: j(o, q) });
        Some(Node::Def(Def { name: "m".into(), args: Some(b(args)), body: None, keyword_l: kw, name_l: m, end_l: Some(z), assignment_l: None, expression_l: j(kw, z) }))
    }),
    ("P19", "block with n keyword parameters", 513, |g, n| {
        if n == 0 {
            return None;
        }
        let m = g.x("m");
        g.t(" ");
        let o = g.t("{");
        g.t(" ");
        let p = g.t("|");
        let a = g.list(n, |g, i| {
            let a = g.t(&name(i));
            let c = g.t(":");
            Node::Kwarg(Kwarg { name: name(i), name_l: a, expression_l: j(a, c) })
        });
        let q = g.t("|");
        g.t(" ");
        let z = g.t("}");
        let args = Node::Args(Args { args: a, begin_l: Some(p), end_l: Some(q), expression_l: j(p, q) });
        Some(block(m, Some(args), None, o, z))
    }),
    ("P21", "if with n elsif clauses", 257, |g, n| {
        let kw = g.t("if");
        g.t(" ");
        let c = g.x("c");
        let t = g.t("\n");
        let x = g.x("x");
        g.t("\n");
        let mut st = vec![(kw, c, t, x)];
        for _ in 0..n {
            let kw = g.t("elsif");
            g.t(" ");
            let c = g.x("c");
            let t = g.t("\n");
            let x = g.x("x");
            g.t("\n");
            st.push((kw, c, t, x));
        }
        let z = g.t("end");
        let mut acc: Option<(Loc, Node)> = None;
        for (i, (kw, c, t, x)) in st.into_iter().enumerate().rev() {
            // the whole ends at `end`; a nested elsif ends where its own text ends
            let el = if i == 0 {
                j(kw, z)
            } else {
                match &acc {
                    Some((_, n)) => j(kw, e(n)),
                    None => j(kw, e(&x)),
                }
            };
            let (else_l, if_false) = match acc.take() {
                Some((k, n)) => (Some(k), Some(b(n))),
                None => (None, None),
            };
            acc = Some((kw, Node::If(If { cond: b(c), if_true: Some(b(x)), if_false, keyword_l: kw, begin_l: t, else_l, end_l: if i == 0 { Some(z) } else { None }, expression_l: el })));
        }
        acc.map(|x| x.1)
    }),
    ("P21", "case with n when clauses", 1025, |g, n| {
        if n == 0 {
            return None;
        }
        let kw = g.t("case");
        g.t(" ");
        let x = g.x("x");
        g.t("\n");
        let mut v = vec![];
        for i in 0..n {
            let w = g.t("when");
            g.t(" ");
            let p = g.i(&i.to_string());
            let t = g.t("\n");
            let y = g.x("y");
            g.t("\n");
            let el = j(w, e(&y));
            v.push(Node::When(When { patterns: vec![p], body: Some(b(y)), keyword_l: w, begin_l: t, expression_l: el }));
        }
        let z = g.t("end");
        Some(Node::Case(Case { expr: Some(b(x)), when_bodies: v, else_body: None, keyword_l: kw, else_l: None, end_l: z, expression_l: j(kw, z) }))
    }),
    ("P22", "n targets of a multiple assignment", 1025, |g, n| {
        if n < 2 {
            return None;
        }
        let v = g.list(n, |g, i| {
            let a = g.t(&name(i));
            lvasgn(&name(i), a)
        });
        g.t(" ");
        let o = g.t("=");
        g.t(" ");
        let r = g.x("x");
        let ml = j(e(&v[0]), e(v.last().unwrap()));
        let el = j(ml, e(&r));
        Some(Node::Masgn(Masgn { lhs: b(Node::Mlhs(Mlhs { items: v, begin_l: None, end_l: None, expression_l: ml })), rhs: b(r), operator_l: o, expression_l: el }))
    }),
    ("P22", "n assignments in a row", 513, |g, n| {
        let mut st = vec![];
        for i in 0..n {
            let a = g.t(&name(i));
            g.t(" ");
            let o = g.t("=");
            g.t(" ");
            st.push((i, a, o));
        }
        let mut r = g.x("x");
        for (i, a, o) in st.into_iter().rev() {
            r = asgn(lvasgn(&name(i), a), o, r);
        }
        Some(r)
    }),
    ("P23", "n statements", 4097, |g, n| {
        let mut v = vec![];
        for i in 0..n {
            v.push(g.x(&name(i)));
            g.t("\n");
        }
        compstmt(v)
    }),
    ("P23", "n nested modules", 257, |g, n| {
        let mut st = vec![];
        for _ in 0..n {
            let kw = g.t("module");
            g.t(" ");
            let k = g.t("K");
            g.t("\n");
            st.push((kw, k));
        }
        let mut r = g.x("x");
        g.t("\n");
        for (kw, k) in st.into_iter().rev() {
            let z = g.t("end");
            g.t("\n");
            r = Node::Module(Module { name: b(konst("K", k)), body: Some(b(r)), keyword_l: kw, end_l: z, expression_l: j(kw, z) });
        }
        Some(r)
    }),
    ("P24", "identifier of n characters", 65537, |g, n| if n == 0 { None } else { Some(g.x(&"abc_".repeat(n / 4 + 1)[..n].to_string())) }),
    ("P24", "method name of n characters after a dot", 65537, |g, n| {
        if n == 0 {
            return None;
        }
        let m = "abc_".repeat(n / 4 + 1)[..n].to_string();
        let x = g.x("x");
        let d = g.t(".");
        let a = g.t(&m);
        Some(mcall(x, d, false, &m, Some(a), None, vec![], None))
    }),
    ("P06", "n variables declared and then read", 1025, |g, n| {
        let mut v = vec![];
        for i in 0..n {
            let a = g.t(&name(i));
            g.t(" ");
            let o = g.t("=");
            g.t(" ");
            let r = g.i("1");
            g.t("\n");
            v.push(asgn(lvasgn(&name(i), a), o, r));
        }
        for i in 0..n {
            let a = g.t(&name(i));
            g.t("\n");
            v.push(lvar(&name(i), a));
        }
        v.push(g.x(&name(n)));
        compstmt(v)
    }),
    ("P06", "a variable seen through n blocks", 257, |g, n| {
        let a = g.t("a");
        g.t(" ");
        let o = g.t("=");
        g.t(" ");
        let r = g.i("1");
        g.t("\n");
        let first = asgn(lvasgn("a", a), o, r);
        let mut st = vec![];
        for _ in 0..n {
            let m = g.x("m");
            g.t(" ");
            let p = g.t("{");
            g.t(" ");
            st.push((m, p));
        }
        let x = g.t("a");
        let mut r = lvar("a", x);
        for (m, p) in st.into_iter().rev() {
            g.t(" ");
            let q = g.t("}");
            r = block(m, None, Some(r), p, q);
        }
        compstmt(vec![first, r])
    }),
    ("P06", "n block variables forgotten at the end of their blocks", 257, |g, n| {
        let mut v = vec![];
        for i in 0..n {
            let m = g.x("m");
            g.t(" ");
            let p = g.t("{");
            g.t(" ");
            let a = g.t(&name(i));
            g.t(" ");
            let o = g.t("=");
            g.t(" ");
            let r = g.i("1");
            g.t(" ");
            let q = g.t("}");
            g.t("\n");
            v.push(block(m, None, Some(asgn(lvasgn(&name(i), a), o, r)), p, q));
        }
        for i in 0..n {
            v.push(g.x(&name(i)));
            g.t("\n");
        }
        compstmt(v)
    }),
    ("P27", "regexp of n characters", 16385, |g, n| {
        let o = g.t("/");
        let c = "ab".repeat(n);
        let x = g.t(&c);
        let q = g.t("/");
        let parts = if n == 0 { vec![] } else { vec![str_(c.as_bytes(), None, None, x)] };
        Some(Node::Regexp(Regexp { parts, options: None, begin_l: o, end_l: q, expression_l: j(o, q) }))
    }),
    ("P18", "n alternatives of a pattern", 513, |g, n| {
        let kw = g.t("case");
        g.t(" ");
        let x = g.x("x");
        g.t("\n");
        let i = g.t("in");
        g.t(" ");
        let mut p = g.i("0");
        for k in 0..n {
            g.t(" ");
            let o = g.t("|");
            g.t(" ");
            let r = g.i(&k.to_string());
            let el = j(e(&p), e(&r));
            p = Node::MatchAlt(MatchAlt { lhs: b(p), rhs: b(r), operator_l: o, expression_l: el });
        }
        let t = g.t("\n");
        let z = g.t("end");
        let el = j(i, e(&p));
        let ip = Node::InPattern(InPattern { pattern: b(p), guard: None, body: None, keyword_l: i, begin_l: t, expression_l: el });
        Some(Node::CaseMatch(CaseMatch { expr: b(x), in_bodies: vec![ip], else_body: None, keyword_l: kw, else_l: None, end_l: z, expression_l: j(kw, z) }))
    }),
    ("P18", "n captures of an array pattern", 513, |g, n| {
        if n == 0 {
            return None;
        }
        let kw = g.t("case");
        g.t(" ");
        let x = g.x("x");
        g.t("\n");
        let i = g.t("in");
        g.t(" ");
        let o = g.t("[");
        let v = g.list(n, |g, i| {
            let a = g.t(&name(i));
            Node::MatchVar(MatchVar { name: name(i), name_l: a, expression_l: a })
        });
        let q = g.t("]");
        let t = g.t("\n");
        let z = g.t("end");
        let p = Node::ArrayPattern(ArrayPattern { elements: v, begin_l: Some(o), end_l: Some(q), expression_l: j(o, q) });
        let el = j(i, q);
        let ip = Node::InPattern(InPattern { pattern: b(p), guard: None, body: None, keyword_l: i, begin_l: t, expression_l: el });
        Some(Node::CaseMatch(CaseMatch { expr: b(x), in_bodies: vec![ip], else_body: None, keyword_l: kw, else_l: None, end_l: z, expression_l: j(kw, z) }))
    }),
    ("P29", "variables of n characters", 65537, |g, n| {
        if n == 0 {
            return None;
        }
        let m = "abc_".repeat(n / 4 + 1)[..n].to_string();
        let o = g.t("[");
        let a = g.t(&format!("@{m}"));
        g.t(",");
        let c = g.t(&format!("@@{m}"));
        g.t(",");
        let d = g.t(&format!("${m}"));
        let q = g.t("]");
        Some(array(
            vec![
                Node::Ivar(Ivar { name: format!("@{m}"), expression_l: a }),
                Node::Cvar(Cvar { name: format!("@@{m}"), expression_l: c }),
                Node::Gvar(Gvar { name: format!("${m}"), expression_l: d }),
            ],
            Some(o),
            Some(q),
        ))
    }),
];
pub fn family(id: &str) -> Family {
    let sh: Vec<&Shape> = SHAPES.iter().filter(|s| s.0 == id).collect();
    fam(format!("sizes: {}", sh.iter().map(|s| format!("{} (n up to {})", s.1, s.2)).collect::<Vec<_>>().join("; ")), 0, move |c, ctx| {
        let (_, _, max, f) = sh[c.choose(sh.len())];
        let ls = lens(*max);
        let n = ls[c.choose(ls.len())];
        let mut g = S { s: String::new() };
        match f(&mut g, n) {
            Some(t) => expect_src(ctx, g.s.as_bytes(), Some(t), None),
            None => ctx.outcome("out of model"),
        }
    })
}
pub fn has(id: &str) -> bool {
    SHAPES.iter().any(|s| s.0 == id)
}
