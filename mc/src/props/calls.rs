//! Every sequence of arguments or elements in every form of call and literal (P20, P26), every
//! arrangement of words in a word list (P26), and every condition (P21, P22).
use super::*;
use crate::g::*;
use crate::n::*;
use crate::oracle::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum A {
    Pos,
    Splat,
    Label,
    Arrow,
    KwSplat,
    Quoted,
    DQuoted,
    Short,
    ShortConst,
    ShortVar,
    KwLabel,
    Block,
    AnonBlock,
    Fwd,
    SymArrow,
    StrArrow,
}
pub const KINDS: [A; 16] = [
    A::Pos, A::Splat, A::Label, A::Block, A::Arrow, A::KwSplat, A::Quoted, A::Short, A::DQuoted, A::ShortConst, A::KwLabel, A::AnonBlock, A::Fwd, A::ShortVar, A::SymArrow, A::StrArrow,
];
impl A {
    fn assoc(self) -> bool {
        matches!(self, A::Label | A::Arrow | A::KwSplat | A::Quoted | A::DQuoted | A::Short | A::ShortConst | A::ShortVar | A::KwLabel | A::SymArrow | A::StrArrow)
    }
    fn short(self) -> bool {
        matches!(self, A::Short | A::ShortConst | A::ShortVar)
    }
    fn block(self) -> bool {
        matches!(self, A::Block | A::AnonBlock)
    }
}
fn key(g: &mut G, name: &str) -> (Node, Loc) {
    let nm = g.raw(name);
    let c = g.raw(":");
    (sym(name.as_bytes(), None, nm), c)
}
/// emit one element
fn elem(g: &mut G, k: A) -> Node {
    match k {
        A::Pos => g.leaf(),
        A::Splat => {
            let o = g.t("*");
            let v = g.leaf();
            splat(o, Some(v))
        }
        A::Label | A::KwLabel => {
            let n = if k == A::Label {
                g.fresh()
            } else {
                g.ctr += 1;
                ["if", "do", "end", "nil", "self", "not", "in", "then"][g.ctr % 8].to_string()
            };
            let (kn, c) = key(g, &n);
            g.raw(" ");
            let v = g.leaf();
            pair(kn, c, v)
        }
        A::Arrow => {
            let kn = g.leaf();
            g.raw(" ");
            let o = g.t("=>");
            g.raw(" ");
            let v = g.leaf();
            pair(kn, o, v)
        }
        A::SymArrow => {
            let n = g.fresh();
            let c = g.raw(":");
            let x = g.raw(&n);
            let kn = sym(n.as_bytes(), Some(c), j(c, x));
            let o = g.t("=>");
            let v = g.leaf();
            pair(kn, o, v)
        }
        A::StrArrow => {
            let n = g.fresh();
            let p = g.raw("'");
            let x = g.raw(&n);
            let q = g.raw("'");
            let _ = x;
            let kn = str_(n.as_bytes(), Some(p), Some(q), j(p, q));
            g.raw(" ");
            let o = g.t("=>");
            let v = g.leaf();
            pair(kn, o, v)
        }
        A::KwSplat => {
            let o = g.t("**");
            let v = g.leaf();
            kwsplat(o, v)
        }
        A::Quoted | A::DQuoted => {
            g.ctr += 1;
            let nm = format!("k{}", g.ctr);
            let q = g.raw("\"");
            let x = g.raw(&nm);
            let mut parts = vec![str_(nm.as_bytes(), None, None, x)];
            if k == A::DQuoted {
                let p = g.t("#{");
                let v = g.leaf();
                let c = g.t("}");
                parts.push(begin(vec![v], p, c));
            }
            let z = g.raw("\"");
            let c = g.raw(":");
            g.raw(" ");
            let v = g.leaf();
            let kn = if k == A::Quoted {
                Node::Sym(Sym { name: bytes(nm.as_bytes()), begin_l: Some(q), end_l: Some(z), expression_l: j(q, z) })
            } else {
                Node::Dsym(Dsym { parts, begin_l: Some(q), end_l: Some(z), expression_l: j(q, z) })
            };
            pair(kn, c, v)
        }
        A::Short | A::ShortVar | A::ShortConst => {
            g.ctr += 1;
            let n = match k {
                A::Short => ["x", "_y", "あ", "é", "x1", "xY"][g.ctr % 6].to_string() + &g.ctr.to_string(),
                A::ShortVar => "v".to_string(),
                _ => format!("{}{}", ["K", "É"][g.ctr % 2], g.ctr),
            };
            let (kn, c) = key(g, &n);
            let x = e(&kn);
            let v = match k {
                A::Short => ident_send(&n, x),
                A::ShortVar => lvar(&n, x),
                _ => konst(&n, x),
            };
            let el = j(x, c);
            Node::Pair(Pair { key: b(kn), value: b(v), operator_l: c, expression_l: el })
        }
        A::Block => {
            let o = g.t("&");
            let v = g.leaf();
            block_pass(o, Some(v))
        }
        A::AnonBlock => {
            let o = g.t("&");
            block_pass(o, None)
        }
        A::Fwd => {
            let o = g.t("...");
            Node::ForwardedArgs(ForwardedArgs { expression_l: o })
        }
    }
}
/// a list of elements, plain; the pairs are not collected yet
fn list(g: &mut G, ks: &[A], trail: bool) -> Vec<Node> {
    let mut v = vec![];
    for (i, k) in ks.iter().enumerate() {
        if i > 0 {
            g.raw(", ");
        }
        v.push(elem(g, *k));
    }
    if trail {
        g.raw(",");
    }
    v
}
#[derive(Clone, Copy, PartialEq)]
enum L {
    Paren,
    Cmd,
    Index,
    Array,
    Hash,
    Jump,
    Yield,
    YieldParen,
}
fn legal(f: L, ks: &[A], trail: bool) -> bool {
    let mut st = 0;
    for (i, k) in ks.iter().enumerate() {
        let last = i + 1 == ks.len();
        let s = if k.assoc() {
            1
        } else if k.block() {
            2
        } else if *k == A::Fwd {
            3
        } else {
            0
        };
        if s < st || st >= 2 {
            return false;
        }
        match (f, s) {
            (L::Hash, 1) => {}
            (L::Hash, _) => return false,
            (L::Array | L::Jump | L::Yield | L::YieldParen, 2) => return false,
            (L::Paren, 3) => {
                if !last || st != 0 || trail {
                    return false;
                }
            }
            (_, 3) => return false,
            _ => {}
        }
        st = s;
    }
    if trail {
        return !ks.is_empty() && st < 2 && matches!(f, L::Paren | L::Index | L::Array | L::Hash);
    }
    true
}
fn collect(v: Vec<Node>, kw: bool) -> Vec<Node> {
    let mut o: Vec<Node> = vec![];
    let mut ps: Vec<Node> = vec![];
    let flush = |ps: &mut Vec<Node>, o: &mut Vec<Node>| {
        if !ps.is_empty() {
            let p = std::mem::take(ps);
            o.push(if kw { kwargs(p) } else { hash(p, None, None) });
        }
    };
    for n in v {
        match n {
            Node::Pair(_) | Node::Kwsplat(_) => ps.push(n),
            n => {
                flush(&mut ps, &mut o);
                o.push(n);
            }
        }
    }
    flush(&mut ps, &mut o);
    o
}
/// the tree must be as expected; warnings do not matter here
pub fn expect_tree(ctx: &mut Ctx, src: &[u8], exp: Option<Node>) {
    if !ctx.begin(src) {
        return;
    }
    let r = parse(src);
    ctx.end();
    if errors(&r) > 0 {
        ctx.fail(format!("valid program rejected: {}", diag_str(&r.diagnostics)));
        return;
    }
    if let Some(d) = diff_opt(exp.as_ref(), r.ast.as_deref()) {
        ctx.fail(format!("tree differs: {d}"));
        return;
    }
    ctx.nontrivial();
    ctx.outcome("accepted as expected");
}
const FORMS: usize = 30;
fn args(n: usize, kinds: usize) -> Family {
    fam(format!("every sequence of {n} arguments or elements of {kinds} kinds in {FORMS} forms"), 0, move |c, ctx| {
        let form = c.choose(FORMS);
        let ks: Vec<A> = (0..n).map(|_| KINDS[c.choose(kinds)]).collect();
        let trail = c.choose(2) == 1;
        let mut g = G::new(c);
        let anon = ks.contains(&A::AnonBlock);
        let fwd = ks.contains(&A::Fwd);
        if anon && fwd || ks.iter().filter(|k| **k == A::ShortVar).count() > 1 {
            return ctx.outcome("out of model");
        }
        let cmd = matches!(form, 6..=11 | 22..=24);
        if cmd && (n == 0 || ks.last().unwrap().short() || trail || *ks.last().unwrap() == A::AnonBlock || ks[0] == A::Fwd) {
            return ctx.outcome("out of model");
        }
        // everything stands in a method, which may take a block or everything
        let kw = g.t("def");
        g.raw(" ");
        let name = g.t("m");
        let args = if anon || fwd {
            let p = g.t("(");
            let a = if anon {
                let o = g.t("&");
                Node::Blockarg(Blockarg { name: None, operator_l: o, name_l: None, expression_l: o })
            } else {
                let o = g.t("...");
                Node::ForwardArg(ForwardArg { expression_l: o })
            };
            let q = g.t(")");
            Some(Node::Args(Args { args: vec![a], begin_l: Some(p), end_l: Some(q), expression_l: j(p, q) }))
        } else {
            None
        };
        g.raw("\n");
        let mut st = vec![];
        if ks.contains(&A::ShortVar) {
            let x = g.t("v");
            let o = g.t("=");
            let y = g.t("1");
            g.raw("\n");
            st.push(asgn(lvasgn("v", x), o, int("1", y)));
        }
        let mut blocked = false; // a block follows
        let (ok, node) = match form {
            0..=5 | 12..=16 => {
                // call with parentheses
                let k = match form { 0..=5 => form, 12 => 0, 13 => 1, 14 => 5, 15 => 4, _ => 0 };
                let (recv, d, nl) = match k {
                    0 => (None, None, Some(g.t("foo"))),
                    5 => (None, None, Some(g.t("super"))),
                    k => {
                        let r = g.leaf();
                        let d = g.t([".", "&.", "::", "."][k - 1]);
                        let nl = if k == 4 { None } else { Some(g.t("foo")) };
                        (Some(r), Some(d), nl)
                    }
                };
                let p = g.t("(");
                let v = collect(list(&mut g, &ks, trail), true);
                let q = g.t(")");
                let call = match (recv, k) {
                    (Some(r), k) => mcall(r, d.unwrap(), k == 2, if k == 4 { "call" } else { "foo" }, nl, Some(p), v, Some(q)),
                    (None, 0) => fcall("foo", nl.unwrap(), Some(p), v, Some(q)),
                    _ => Node::Super(Super { args: v, keyword_l: nl.unwrap(), begin_l: Some(p), end_l: Some(q), expression_l: j(nl.unwrap(), q) }),
                };
                blocked = form >= 12;
                let call = if blocked {
                    g.raw(" ");
                    let o = g.t(if form == 16 { "do" } else { "{" });
                    g.raw(" ");
                    let body = g.leaf();
                    g.raw(" ");
                    let z = g.t(if form == 16 { "end" } else { "}" });
                    block(call, None, Some(body), o, z)
                } else {
                    call
                };
                (legal(L::Paren, &ks, trail), call)
            }
            6..=9 | 22 | 23 => {
                let k = match form { 22 => 0, 23 => 1, f => f - 6 };
                let (recv, d, nl) = match k {
                    0 => (None, None, g.t("foo")),
                    3 => (None, None, g.t("super")),
                    k => {
                        let r = g.leaf();
                        let d = g.t([".", "&."][k - 1]);
                        (Some(r), Some(d), g.t("foo"))
                    }
                };
                g.raw(" ");
                let v = collect(list(&mut g, &ks, trail), true);
                let call = match (recv, k) {
                    (Some(r), k) => mcall(r, d.unwrap(), k == 2, "foo", Some(nl), None, v, None),
                    (None, 0) => fcall("foo", nl, None, v, None),
                    _ => {
                        let x = j(nl, e(v.last().unwrap()));
                        Node::Super(Super { args: v, keyword_l: nl, begin_l: None, end_l: None, expression_l: x })
                    }
                };
                blocked = form >= 22;
                let call = if blocked {
                    g.raw(" ");
                    let o = g.t("do");
                    g.raw(" ");
                    let body = g.leaf();
                    g.raw(" ");
                    let z = g.t("end");
                    block(call, None, Some(body), o, z)
                } else {
                    call
                };
                (legal(L::Cmd, &ks, trail), call)
            }
            10 | 11 | 24 => {
                let nl = g.t(["yield", "return", "next"][[0, 1, 2][match form { 10 => 0, 11 => 1, _ => 2 }]]);
                g.raw(" ");
                let v = collect(list(&mut g, &ks, trail), form == 10);
                let x = j(nl, e(v.last().unwrap()));
                // not judged: `return &a`
                if form != 10 && ks.iter().any(|k| k.block()) {
                    return ctx.outcome("out of model");
                }
                // no label directly after return and next
                let label = form != 10 && matches!(ks[0], A::Label | A::KwLabel | A::Quoted | A::DQuoted | A::Short | A::ShortConst | A::ShortVar);
                (
                    !label && legal(if form == 10 { L::Yield } else { L::Jump }, &ks, trail),
                    match form {
                        10 => Node::Yield(Yield { args: v, keyword_l: nl, begin_l: None, end_l: None, expression_l: x }),
                        11 => Node::Return(Return { args: v, keyword_l: nl, expression_l: x }),
                        _ => Node::Next(Next { args: v, keyword_l: nl, expression_l: x }),
                    },
                )
            }
            17 => {
                let nl = g.t("yield");
                let p = g.t("(");
                let v = collect(list(&mut g, &ks, trail), true);
                let q = g.t(")");
                // no trailing comma here
                (legal(L::YieldParen, &ks, trail), Node::Yield(Yield { args: v, keyword_l: nl, begin_l: Some(p), end_l: Some(q), expression_l: j(nl, q) }))
            }
            18 => {
                let r = g.leaf();
                let p = g.t("[");
                let v = collect(list(&mut g, &ks, trail), true);
                let q = g.t("]");
                let x = j(e(&r), q);
                (legal(L::Index, &ks, trail), Node::Index(Index { recv: b(r), indexes: v, begin_l: p, end_l: q, expression_l: x }))
            }
            19 | 20 => {
                let r = g.leaf();
                let p = g.t("[");
                let v = collect(list(&mut g, &ks, trail), form == 20);
                let q = g.t("]");
                let x = j(e(&r), q);
                g.raw(" ");
                let o = g.t(["=", "||="][form - 19]);
                g.raw(" ");
                let z = g.leaf();
                let ok = legal(L::Index, &ks, trail);
                if form == 19 {
                    let x = j(x, e(&z));
                    (ok, Node::IndexAsgn(IndexAsgn { recv: b(r), indexes: v, value: Some(b(z)), begin_l: p, end_l: q, operator_l: Some(o), expression_l: x }))
                } else {
                    (ok, op_asgn(Node::IndexAsgn(IndexAsgn { recv: b(r), indexes: v, value: None, begin_l: p, end_l: q, operator_l: None, expression_l: x }), "||", o, z))
                }
            }
            21 | 25 => {
                let p = g.t("[");
                let v = collect(list(&mut g, &ks, trail), false);
                let q = g.t("]");
                let a = array(v, Some(p), Some(q));
                let n = if form == 25 {
                    let d = g.t(".");
                    let nl = g.t("foo");
                    mcall(a, d, false, "foo", Some(nl), None, vec![], None)
                } else {
                    a
                };
                (legal(L::Array, &ks, trail), n)
            }
            26 => {
                let x = g.t("x");
                g.raw(" ");
                let o = g.t("=");
                g.raw(" ");
                let p = g.t("{");
                let v = list(&mut g, &ks, trail);
                let q = g.t("}");
                (legal(L::Hash, &ks, trail), asgn(lvasgn("x", x), o, hash(v, Some(p), Some(q))))
            }
            27 => {
                let nl = g.t("foo");
                g.raw(" ");
                let p = g.t("[");
                let v = collect(list(&mut g, &ks, trail), false);
                let q = g.t("]");
                (legal(L::Array, &ks, trail), fcall("foo", nl, None, vec![array(v, Some(p), Some(q))], None))
            }
            28 => {
                let nl = g.t("foo");
                let p0 = g.t("(");
                let p = g.t("{");
                g.raw(" ");
                let v = list(&mut g, &ks, trail);
                g.raw(" ");
                let q = g.t("}");
                let q0 = g.t(")");
                (legal(L::Hash, &ks, trail), fcall("foo", nl, Some(p0), vec![hash(v, Some(p), Some(q))], Some(q0)))
            }
            _ => {
                let r = g.leaf();
                let p = g.t("[");
                let v = collect(list(&mut g, &ks, trail), true);
                let q = g.t("]");
                let x = j(e(&r), q);
                let r = Node::Index(Index { recv: b(r), indexes: v, begin_l: p, end_l: q, expression_l: x });
                let d = g.t("&.");
                let nl = g.t("foo");
                (legal(L::Index, &ks, trail), mcall(r, d, true, "foo", Some(nl), None, vec![], None))
            }
        };
        let ok = ok && !(blocked && ks.iter().any(|k| k.block() || *k == A::Fwd));
        g.raw("\n");
        let end = g.t("end");
        if !ok {
            return expect_error(ctx, &g.s);
        }
        // an endless range and a beginless argument are other things
        st.push(node);
        let n = Node::Def(Def { name: "m".into(), args: ob(args), body: ob(compstmt(st)), keyword_l: kw, name_l: name, end_l: Some(end), assignment_l: None, expression_l: j(kw, end) });
        let s = g.s.clone();
        expect_tree(ctx, &s, Some(n));
    })
}

// ------------------------------------------------------------------------------ word lists
fn words(n: usize, full: bool) -> Family {
    const W: [&str; 10] = ["a", "bc", "#{d}", "a#{d}", "#{d}b", "#{d}#{f}", "\\ ", "é", "a\\nb", "#"];
    const SEP: [&str; 5] = [" ", "\n", "  ", "\t", " \n "];
    let dl: &'static [(&'static str, &'static str)] = if full { &[("[", "]"), ("(", ")"), ("{", "}"), ("<", ">"), ("|", "|"), ("!", "!")] } else { &[("[", "]"), ("|", "|")] };
    let ns = if full { 5 } else { 3 };
    fam(format!("word lists: every list of {n} of {} words x {ns} separators x leading and trailing blanks x {} delimiters x 4 kinds", W.len(), dl.len()), 0, move |c, ctx| {
        let kind = ["%w", "%W", "%i", "%I"][c.choose(4)];
        let (o, cl) = dl[c.choose(dl.len())];
        let interp = matches!(kind, "%W" | "%I");
        let symb = matches!(kind, "%i" | "%I");
        let mut g = G::new(c);
        let ob_ = g.raw(&format!("{kind}{o}"));
        let lead = g.choose(3);
        g.raw(["", " ", "\n "][lead]);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                let k = g.choose(ns);
                g.raw(SEP[k]);
            }
            let w = W[g.choose(W.len())];
            // text and interpolations of one word
            let a = g.pos();
            let mut parts: Vec<Node> = vec![];
            let mut text = String::new();
            let mut ts = a;
            let mut it = w.chars().peekable();
            let flush = |g: &G, text: &mut String, ts: usize, parts: &mut Vec<Node>| {
                if !text.is_empty() {
                    parts.push(str_(text.as_bytes(), None, None, l(ts, g.pos())));
                    text.clear();
                }
            };
            while let Some(ch) = it.next() {
                match ch {
                    '#' if interp && it.peek() == Some(&'{') => {
                        flush(&g, &mut text, ts, &mut parts);
                        it.next();
                        let p = g.raw("#{");
                        let nm = it.next().unwrap().to_string();
                        let x = g.raw(&nm);
                        it.next();
                        let q = g.raw("}");
                        parts.push(begin(vec![ident_send(&nm, x)], p, q));
                        ts = g.pos();
                    }
                    '\\' => {
                        let e = it.next().unwrap();
                        g.raw(&format!("\\{e}"));
                        match e {
                            ' ' => text.push(' '),
                            'n' if interp => text.push('\n'),
                            e => {
                                text.push('\\');
                                text.push(e);
                            }
                        }
                    }
                    ch => {
                        g.raw(&ch.to_string());
                        text.push(ch);
                    }
                }
            }
            flush(&g, &mut text, ts, &mut parts);
            let x = l(a, g.pos());
            let plain = parts.len() == 1 && matches!(parts[0], Node::Str(_));
            v.push(match (plain, symb) {
                (true, false) => parts.pop().unwrap(),
                (true, true) => match parts.pop().unwrap() {
                    Node::Str(s) => Node::Sym(Sym { name: s.value, begin_l: None, end_l: None, expression_l: x }),
                    n => n,
                },
                (false, false) => Node::Dstr(Dstr { parts, begin_l: None, end_l: None, expression_l: x }),
                (false, true) => Node::Dsym(Dsym { parts, begin_l: None, end_l: None, expression_l: x }),
            });
        }
        let tail = g.choose(3);
        g.raw(["", " ", "\n"][tail]);
        let cb = g.raw(cl);
        let n = Node::Array(Array { elements: v, begin_l: Some(ob_), end_l: Some(cb), expression_l: j(ob_, cb) });
        expect(ctx, &g, Some(n));
    })
}

// ------------------------------------------------------------------------------ conditions
/// a condition before the rewrite; composites stand in parentheses
fn cexpr(g: &mut G, d: usize, top: bool, ops: usize) -> Node {
    let k = if d == 0 { g.choose(4) } else { g.choose(4 + ops) };
    match k {
        0 => g.leaf(),
        1 => {
            let o = g.t("/");
            let x = g.t("r");
            let c = g.t("/");
            Node::Regexp(Regexp { parts: vec![str_(b"r", None, None, x)], options: None, begin_l: o, end_l: c, expression_l: j(o, c) })
        }
        2 => {
            let x = g.t("1");
            int("1", x)
        }
        3 => {
            let o = g.t("/");
            let p = g.t("#{");
            let v = g.leaf();
            let q = g.t("}");
            let c = g.t("/");
            Node::Regexp(Regexp { parts: vec![begin(vec![v], p, q)], options: None, begin_l: o, end_l: c, expression_l: j(o, c) })
        }
        k => {
            let p = if top && k < 12 { None } else { Some(g.t("(")) };
            let n = match k - 4 {
                0 | 1 | 2 | 3 | 4 => {
                    let op = ["&&", "..", "||", "...", "and"][k - 4];
                    let a = cexpr(g, d - 1, false, ops);
                    g.raw(" ");
                    let o = g.t(op);
                    g.raw(" ");
                    let c = cexpr(g, d - 1, false, ops);
                    binop(a, op, o, c)
                }
                5 => {
                    let o = g.t("!");
                    let a = cond(cexpr(g, d - 1, false, ops));
                    unop("!", o, a)
                }
                6 => {
                    let o = g.t("not");
                    g.raw(" ");
                    let a = cond(cexpr(g, d - 1, false, ops));
                    one_stmt(g, &a);
                    unop("!", o, a)
                }
                7 => {
                    let a = cond(cexpr(g, d - 1, false, ops));
                    g.raw(" ");
                    let q = g.t("?");
                    g.raw(" ");
                    let x = cexpr(g, 0, false, ops);
                    g.raw(" ");
                    let co = g.t(":");
                    g.raw(" ");
                    let y = cexpr(g, 0, false, ops);
                    let el = je(&a, &y);
                    Node::IfTernary(IfTernary { cond: b(a), if_true: b(x), if_false: b(y), question_l: q, colon_l: co, expression_l: el })
                }
                // always in parentheses
                8 => {
                    let a = cexpr(g, d - 1, false, ops);
                    let o = g.t("..");
                    let el = j(e(&a), o);
                    Node::Irange(Irange { left: Some(b(a)), right: None, operator_l: o, expression_l: el })
                }
                9 => {
                    let o = g.t("..");
                    let a = cexpr(g, d - 1, false, ops);
                    let el = j(o, e(&a));
                    Node::Irange(Irange { left: None, right: Some(b(a)), operator_l: o, expression_l: el })
                }
                10 => {
                    let a = cexpr(g, d - 1, false, ops);
                    g.raw("; ");
                    let c = cexpr(g, 0, false, ops);
                    compstmt(vec![a, c]).unwrap()
                }
                11 => {
                    let x = g.t("x");
                    g.raw(" ");
                    let o = g.t("=");
                    g.raw(" ");
                    let a = cexpr(g, d - 1, false, ops);
                    asgn(lvasgn("x", x), o, a)
                }
                12 => {
                    let x = g.t("begin");
                    g.raw(" ");
                    let a = cexpr(g, d - 1, false, ops);
                    g.raw(" ");
                    let z = g.t("end");
                    kwbegin(x, Some(a), z)
                }
                13 => cexpr(g, d - 1, false, ops),
                14 => {
                    let o = g.t("defined?");
                    let q = g.t("(");
                    let a = cexpr(g, d - 1, false, ops);
                    let z = g.t(")");
                    let a = a;
                    Node::Defined(Defined { value: b(a), keyword_l: o, begin_l: Some(q), end_l: Some(z), expression_l: j(o, z) })
                }
                _ => {
                    let a = cexpr(g, d - 1, false, ops);
                    g.raw(" ");
                    let o = g.t("==");
                    g.raw(" ");
                    let c = cexpr(g, 0, false, ops);
                    binop(a, "==", o, c)
                }
            };
            match p {
                None => n,
                Some(p) => {
                    let q = g.t(")");
                    parens(p, Some(n), q)
                }
            }
        }
    }
}
/// `not (a; b)` is no expression
fn one_stmt(g: &mut G, n: &Node) {
    if matches!(n, Node::Begin(x) if x.statements.len() > 1) {
        g.abandon();
    }
}
fn conditions(d: usize, ops: usize) -> Family {
    fam(format!("every condition of depth {d} over {ops} operators and 4 leaves in 20 contexts"), 0, move |c, ctx| {
        let k = c.choose(20);
        let mut g = G::new(c);
        let g = &mut g;
        let cx = |g: &mut G| cexpr(g, d, true, ops);
        let sub = |g: &mut G| cexpr(g, d, false, ops);
        let n = match k {
            0 | 1 => {
                let kw = g.t(["if", "unless"][k]);
                g.raw(" ");
                let c = b(cond(cx(g)));
                g.raw(" ");
                let th = g.t("then");
                g.raw(" ");
                let z = Some(b(g.leaf()));
                g.raw(" ");
                let end = g.t("end");
                let (t, f) = if k == 0 { (z, None) } else { (None, z) };
                Node::If(If { cond: c, if_true: t, if_false: f, keyword_l: kw, begin_l: th, else_l: None, end_l: Some(end), expression_l: j(kw, end) })
            }
            2 => {
                let kw = g.t("if");
                g.raw(" ");
                let c0 = b(g.leaf());
                g.raw(" ");
                let th0 = g.t("then");
                g.raw(" ");
                let z0 = b(g.leaf());
                g.raw(" ");
                let kw1 = g.t("elsif");
                g.raw(" ");
                let c = b(cond(cx(g)));
                g.raw(" ");
                let th = g.t("then");
                g.raw(" ");
                let z = b(g.leaf());
                g.raw(" ");
                let end = g.t("end");
                let x = j(kw1, e(&z));
                let inner = Node::If(If { cond: c, if_true: Some(z), if_false: None, keyword_l: kw1, begin_l: th, else_l: None, end_l: None, expression_l: x });
                Node::If(If { cond: c0, if_true: Some(z0), if_false: Some(b(inner)), keyword_l: kw, begin_l: th0, else_l: Some(kw1), end_l: Some(end), expression_l: j(kw, end) })
            }
            3 | 4 => {
                let kw = g.t(["while", "until"][k - 3]);
                g.raw(" ");
                let c = b(cond(cx(g)));
                g.raw(" ");
                let th = Some(g.t("do"));
                g.raw(" ");
                let z = Some(b(g.leaf()));
                g.raw(" ");
                let end = Some(g.t("end"));
                let x = j(kw, end.unwrap());
                if k == 3 {
                    Node::While(While { cond: c, body: z, keyword_l: kw, begin_l: th, end_l: end, expression_l: x })
                } else {
                    Node::Until(Until { cond: c, body: z, keyword_l: kw, begin_l: th, end_l: end, expression_l: x })
                }
            }
            5..=10 => {
                let body = if k >= 9 {
                    let p = g.t("begin");
                    g.raw(" ");
                    let z = g.leaf();
                    g.raw(" ");
                    let q = g.t("end");
                    kwbegin(p, Some(z), q)
                } else {
                    g.leaf()
                };
                g.raw(" ");
                let kw = g.t(["if", "unless", "while", "until", "while", "until"][k - 5]);
                g.raw(" ");
                let c0 = cx(g);
                let x = je(&body, &c0);
                let c = b(cond(c0));
                let body = b(body);
                match k {
                    5 => Node::IfMod(IfMod { cond: c, if_true: Some(body), if_false: None, keyword_l: kw, expression_l: x }),
                    6 => Node::IfMod(IfMod { cond: c, if_true: None, if_false: Some(body), keyword_l: kw, expression_l: x }),
                    7 => Node::While(While { cond: c, body: Some(body), keyword_l: kw, begin_l: None, end_l: None, expression_l: x }),
                    8 => Node::Until(Until { cond: c, body: Some(body), keyword_l: kw, begin_l: None, end_l: None, expression_l: x }),
                    9 => Node::WhilePost(WhilePost { cond: c, body, keyword_l: kw, expression_l: x }),
                    _ => Node::UntilPost(UntilPost { cond: c, body, keyword_l: kw, expression_l: x }),
                }
            }
            11 => {
                let o = g.t("not");
                g.raw(" ");
                let c = cond(sub(g));
                one_stmt(g, &c);
                unop("!", o, c)
            }
            12 => {
                let o = g.t("!");
                let c = cond(sub(g));
                unop("!", o, c)
            }
            13 => {
                let c = cond(sub(g));
                g.raw(" ");
                let q = g.t("?");
                g.raw(" ");
                let x = g.leaf();
                g.raw(" ");
                let co = g.t(":");
                g.raw(" ");
                let y = g.leaf();
                let el = je(&c, &y);
                Node::IfTernary(IfTernary { cond: b(c), if_true: b(x), if_false: b(y), question_l: q, colon_l: co, expression_l: el })
            }
            // no conditions
            14 => {
                let x = g.t("y");
                g.raw(" ");
                let o = g.t("=");
                g.raw(" ");
                let v = sub(g);
                asgn(lvasgn("y", x), o, v)
            }
            15 => {
                let nl = g.t("foo");
                let p = g.t("(");
                let v = sub(g);
                let q = g.t(")");
                fcall("foo", nl, Some(p), vec![v], Some(q))
            }
            16 => sub(g),
            17 => {
                let p = g.t("[");
                let v = sub(g);
                let q = g.t("]");
                array(vec![v], Some(p), Some(q))
            }
            18 => {
                let kw = g.t("case");
                g.raw(" ");
                let v = cx(g);
                g.raw("\n");
                let w = g.t("when");
                g.raw(" ");
                let x = cexpr(g, d - 1, false, 1);
                g.raw(" ");
                let th = g.t("then");
                g.raw(" ");
                let z = g.leaf();
                g.raw("\n");
                let end = g.t("end");
                let wl = j(w, e(&z));
                let when = Node::When(When { patterns: vec![x], body: Some(b(z)), keyword_l: w, begin_l: th, expression_l: wl });
                Node::Case(Case { expr: Some(b(v)), when_bodies: vec![when], else_body: None, keyword_l: kw, else_l: None, end_l: end, expression_l: j(kw, end) })
            }
            _ => {
                let kw = g.t("if");
                g.raw(" ");
                let c = b(g.leaf());
                g.raw(" ");
                let th = g.t("then");
                g.raw(" ");
                let z = Some(b(cx(g)));
                g.raw(" ");
                let end = g.t("end");
                Node::If(If { cond: c, if_true: z, if_false: None, keyword_l: kw, begin_l: th, else_l: None, end_l: Some(end), expression_l: j(kw, end) })
            }
        };
        if g.abandoned() {
            return ctx.outcome("out of model");
        }
        let s = g.s.clone();
        expect_tree(ctx, &s, Some(n));
    })
}
pub fn arg_families(th: bool) -> Vec<Family> {
    let mut v: Vec<Family> = (0..=2).map(|n| args(n, KINDS.len())).collect();
    v.push(args(3, if th { KINDS.len() } else { 13 }));
    if th {
        v.push(args(4, 11));
    }
    v
}
pub fn word_families(th: bool) -> Vec<Family> {
    let mut v: Vec<Family> = (0..=2).map(|n| words(n, true)).collect();
    v.push(words(3, th));
    if th {
        v.push(words(4, false));
    }
    v
}
pub fn cond_families(th: bool) -> Vec<Family> {
    let mut v = vec![conditions(1, 16), conditions(2, 16)];
    if th {
        v.push(conditions(3, 6));
    }
    v
}
