//! P19: every sequence of parameters in every form of definition.
use super::*;
use crate::g::*;
use crate::n::*;
use crate::oracle::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Req,
    Opt,
    Rest,
    Kw,
    KwOpt,
    KwRest,
    Blk,
    Mlhs(usize),
    AnonRest,
    AnonKwRest,
    KwNil,
    AnonBlk,
    Fwd,
}
const KINDS: [K; 19] = [
    K::Req, K::Opt, K::Rest, K::Kw, K::KwOpt, K::KwRest, K::Blk, K::Mlhs(0), K::AnonRest, K::AnonKwRest, K::KwNil, K::AnonBlk, K::Fwd, K::Mlhs(1), K::Mlhs(2), K::Mlhs(3), K::Mlhs(4), K::Mlhs(5), K::Mlhs(6),
];
/// position of a kind in the order required < optional < rest < post < keyword < keyword rest < block
fn legal(ks: &[K], def: bool) -> bool {
    let mut st = 0; // 0 req, 1 opt, 2 rest, 3 post, 4 kw, 5 kwrest, 6 block, 7 forward
    for k in ks {
        st = match k {
            K::Req | K::Mlhs(_) => match st {
                0 => 0,
                1..=3 => 3,
                _ => return false,
            },
            K::Opt if st <= 1 => 1,
            K::Rest | K::AnonRest if st <= 1 => 2,
            K::Kw | K::KwOpt if st <= 4 => 4,
            K::KwRest | K::AnonKwRest if st <= 4 => 5,
            // no keywords at all before **nil
            K::KwNil if st <= 3 => 5,
            K::Blk | K::AnonBlk if st <= 5 => 6,
            K::Fwd if def && st <= 3 && !ks.iter().any(|k| matches!(k, K::Rest | K::AnonRest)) => 7,
            _ => return false,
        };
    }
    true
}
fn arg(g: &mut G, names: &mut Vec<String>) -> Node {
    let n = name(g, names);
    let x = g.t(&n);
    Node::Arg(Arg { name: n, expression_l: x })
}
fn name(g: &mut G, names: &mut Vec<String>) -> String {
    g.ctr += 1;
    let n = format!("{}{}", ["p", "_", "é", "pX"][g.ctr % 4], g.ctr + 100);
    names.push(n.clone());
    n
}
fn rest(g: &mut G, names: &mut Vec<String>, named: bool) -> Node {
    let o = g.t("*");
    if !named {
        return Node::Restarg(Restarg { name: None, operator_l: o, name_l: None, expression_l: o });
    }
    let n = name(g, names);
    let x = g.t(&n);
    Node::Restarg(Restarg { name: Some(n), operator_l: o, name_l: Some(x), expression_l: j(o, x) })
}
fn mlhs(g: &mut G, names: &mut Vec<String>, shape: &str) -> Node {
    let p = g.t("(");
    let mut v = vec![];
    for (i, c) in shape.chars().enumerate() {
        if i > 0 {
            g.raw(", ");
        }
        v.push(match c {
            'a' => arg(g, names),
            '*' => rest(g, names, true),
            '-' => rest(g, names, false),
            _ => mlhs(g, names, "aa"),
        });
    }
    let q = g.t(")");
    Node::Mlhs(Mlhs { items: v, begin_l: Some(p), end_l: Some(q), expression_l: j(p, q) })
}
const SHAPES: [&str; 7] = ["aa", "a", "a*a", "-", "am", "*", "ma-"];
fn param(g: &mut G, k: K, names: &mut Vec<String>) -> Node {
    match k {
        K::Req => arg(g, names),
        K::Mlhs(i) => mlhs(g, names, SHAPES[i]),
        K::Opt => {
            let n = name(g, names);
            let x = g.t(&n);
            g.raw(" ");
            let o = g.t("=");
            g.raw(" ");
            let d = dflt(g, names);
            let el = j(x, e(&d));
            Node::Optarg(Optarg { name: n, default: b(d), name_l: x, operator_l: o, expression_l: el })
        }
        K::Rest => rest(g, names, true),
        K::AnonRest => rest(g, names, false),
        K::Kw | K::KwOpt => {
            let n = name(g, names);
            let x = g.raw(&n);
            let c = g.raw(":");
            if k == K::Kw {
                return Node::Kwarg(Kwarg { name: n, name_l: x, expression_l: j(x, c) });
            }
            g.raw(" ");
            let d = dflt(g, names);
            let el = j(x, e(&d));
            Node::Kwoptarg(Kwoptarg { name: n, default: b(d), name_l: x, expression_l: el })
        }
        K::KwRest => {
            let o = g.t("**");
            let n = name(g, names);
            let x = g.t(&n);
            Node::Kwrestarg(Kwrestarg { name: Some(n), operator_l: o, name_l: Some(x), expression_l: j(o, x) })
        }
        K::AnonKwRest => {
            let o = g.t("**");
            Node::Kwrestarg(Kwrestarg { name: None, operator_l: o, name_l: None, expression_l: o })
        }
        K::KwNil => {
            let o = g.t("**");
            let x = g.t("nil");
            Node::Kwnilarg(Kwnilarg { name_l: x, expression_l: j(o, x) })
        }
        K::Blk => {
            let o = g.t("&");
            let n = name(g, names);
            let x = g.t(&n);
            Node::Blockarg(Blockarg { name: Some(n), operator_l: o, name_l: Some(x), expression_l: j(o, x) })
        }
        K::AnonBlk => {
            let o = g.t("&");
            Node::Blockarg(Blockarg { name: None, operator_l: o, name_l: None, expression_l: o })
        }
        K::Fwd => {
            let o = g.t("...");
            Node::ForwardArg(ForwardArg { expression_l: o })
        }
    }
}
/// a default value: a literal, or an earlier parameter
fn dflt(g: &mut G, names: &[String]) -> Node {
    if names.len() > 1 {
        let n = names[0].clone();
        let x = g.t(&n);
        return lvar(&n, x);
    }
    let x = g.t("1");
    int("1", x)
}
fn body(g: &mut G, names: &[String]) -> Node {
    let p = g.t("[");
    let mut v = vec![];
    for (i, n) in names.iter().enumerate() {
        if i > 0 {
            g.raw(", ");
        }
        let x = g.t(n);
        v.push(lvar(n, x));
    }
    let q = g.t("]");
    array(v, Some(p), Some(q))
}
#[derive(Clone, Copy, PartialEq)]
enum F {
    DefParen,
    DefBare,
    Defs,
    DefsBare,
    Endless,
    EndlessSelf,
    Brace,
    Do,
    LamParen,
    LamBare,
    LamParenDo,
    LamBareDo,
    CmdDo,
}
const FORMS: [F; 13] = [F::DefParen, F::Brace, F::LamParen, F::LamBare, F::DefBare, F::Defs, F::DefsBare, F::Endless, F::EndlessSelf, F::Do, F::LamParenDo, F::LamBareDo, F::CmdDo];

fn params(n: usize, nk: usize, nf: usize, deep: bool) -> Family {
    fam(format!("every sequence of {n} parameters of {nk} kinds in {nf} forms of definition{}", if deep { ", with block-locals and excess commas" } else { "" }), 0, move |c, ctx| {
        let f = FORMS[c.choose(nf)];
        let ks: Vec<K> = (0..n).map(|_| KINDS[c.choose(nk)]).collect();
        one(c, ctx, f, ks, deep);
    })
}
/// every legal list with up to two parameters of each positional kind and up to `nkw` keywords
fn full(nkw: usize) -> Family {
    fam(format!("every legal list: 0-2 required, 0-2 optional, rest, 0-2 post, up to {nkw} keywords, keyword rest, block, in every form"), 0, move |c, ctx| {
        let f = FORMS[c.choose(FORMS.len())];
        let mut ks = vec![];
        let req = |c: &mut Chooser, ks: &mut Vec<K>| match c.choose(4) {
            0 => {}
            1 => ks.push(K::Req),
            2 => ks.extend([K::Req, K::Req]),
            _ => ks.extend([K::Req, K::Mlhs(2)]),
        };
        req(c, &mut ks);
        for _ in 0..c.choose(3) {
            ks.push(K::Opt);
        }
        match c.choose(3) {
            0 => {}
            1 => ks.push(K::Rest),
            _ => ks.push(K::AnonRest),
        }
        if matches!(ks.last(), Some(K::Opt | K::Rest | K::AnonRest)) {
            req(c, &mut ks);
        }
        for _ in 0..c.choose(nkw + 1) {
            ks.push([K::Kw, K::KwOpt][c.choose(2)]);
        }
        match c.choose(4) {
            0 => {}
            1 => ks.push(K::KwRest),
            2 => ks.push(K::AnonKwRest),
            _ => ks.push(K::KwNil),
        }
        match c.choose(3) {
            0 => {}
            1 => ks.push(K::Blk),
            _ => ks.push(K::AnonBlk),
        }
        one(c, ctx, f, ks, true);
    })
}
fn one(c: &mut Chooser, ctx: &mut Ctx, f: F, ks: Vec<K>, deep: bool) {
        let n = ks.len();
        let blockish = matches!(f, F::Brace | F::Do | F::LamParen | F::LamParenDo | F::CmdDo);
        let pipes = matches!(f, F::Brace | F::Do | F::CmdDo);
        let locals = if blockish && deep { c.choose(3) } else { 0 };
        let comma = n > 0 && !matches!(f, F::DefBare | F::DefsBare | F::LamBare | F::LamBareDo) && c.choose(2) == 1;
        let def = !blockish && !matches!(f, F::LamBare | F::LamBareDo);
        let bare = matches!(f, F::DefBare | F::DefsBare | F::LamBare | F::LamBareDo);
        let anon_end = matches!(ks.last(), Some(K::AnonRest | K::AnonKwRest | K::AnonBlk | K::Fwd));
        if bare && matches!(ks.first(), Some(K::Mlhs(_))) || !def && ks.contains(&K::Fwd) {
            return ctx.outcome("out of model");
        }
        if matches!(f, F::LamBare | F::LamBareDo) && anon_end {
            return ctx.outcome("out of model");
        }
        let mut ok = legal(&ks, def);
        // one excess comma after plain parameters of a block
        if comma {
            ok &= pipes && ks.iter().all(|k| matches!(k, K::Req | K::Mlhs(_)));
        }
        let mut g = G::new(c);
        let g = &mut g;
        let mut names = vec![];
        let list = |g: &mut G, names: &mut Vec<String>| -> Vec<Node> {
            let mut v: Vec<Node> = vec![];
            for (i, k) in ks.iter().enumerate() {
                if i > 0 {
                    g.raw(", ");
                }
                v.push(param(g, *k, names));
            }
            if comma {
                g.raw(",");
            }
            if pipes && n == 1 && !comma && matches!(ks[0], K::Req | K::Mlhs(_)) {
                let el = e(&v[0]);
                v = vec![Node::Procarg0(match v.pop().unwrap() {
                    Node::Mlhs(m) => Procarg0 { args: m.items, begin_l: m.begin_l, end_l: m.end_l, expression_l: el },
                    a => Procarg0 { args: vec![a], begin_l: None, end_l: None, expression_l: el },
                })];
            }
            if locals > 0 {
                g.raw(";");
                for i in 0..locals {
                    if i > 0 {
                        g.raw(", ");
                    }
                    let n = name(g, names);
                    let x = g.t(&n);
                    v.push(Node::Shadowarg(Shadowarg { name: n, expression_l: x }));
                }
            }
            v
        };
        let node = match f {
            F::DefParen | F::DefBare | F::Defs | F::DefsBare | F::Endless | F::EndlessSelf => {
                let kw = g.t("def");
                g.raw(" ");
                let selfd = matches!(f, F::Defs | F::DefsBare | F::EndlessSelf);
                let s = if selfd {
                    let x = g.t("self");
                    let d = g.t(".");
                    Some((Node::Self_(Self_ { expression_l: x }), d))
                } else {
                    None
                };
                let nl = g.t("m");
                let args = if bare {
                    if n > 0 {
                        g.raw(" ");
                    }
                    let v = list(g, &mut names);
                    if v.is_empty() {
                        None
                    } else {
                        let el = je(&v[0], v.last().unwrap());
                        Some(Node::Args(Args { args: v, begin_l: None, end_l: None, expression_l: el }))
                    }
                } else {
                    let p = g.t("(");
                    let v = list(g, &mut names);
                    let q = g.t(")");
                    Some(Node::Args(Args { args: v, begin_l: Some(p), end_l: Some(q), expression_l: j(p, q) }))
                };
                let endless = matches!(f, F::Endless | F::EndlessSelf);
                let mut asl = None;
                if endless {
                    g.raw(" ");
                    asl = Some(g.t("="));
                    g.raw(" ");
                } else {
                    g.raw(if bare && !anon_end && n % 2 == 1 { "\n" } else { ";" });
                }
                let bd = body(g, &names);
                let mut end = None;
                if !endless {
                    g.raw("\n");
                    end = Some(g.t("end"));
                }
                let el = j(kw, end.unwrap_or(e(&bd)));
                match s {
                    Some((x, d)) => Node::Defs(Defs { definee: b(x), name: "m".into(), args: ob(args), body: Some(b(bd)), keyword_l: kw, operator_l: d, name_l: nl, assignment_l: asl, end_l: end, expression_l: el }),
                    None => Node::Def(Def { name: "m".into(), args: ob(args), body: Some(b(bd)), keyword_l: kw, name_l: nl, end_l: end, assignment_l: asl, expression_l: el }),
                }
            }
            F::Brace | F::Do | F::CmdDo => {
                let nl = g.t("foo");
                let call = if f == F::CmdDo {
                    g.raw(" ");
                    let a = g.leaf();
                    fcall("foo", nl, None, vec![a], None)
                } else {
                    ident_send("foo", nl)
                };
                g.raw(" ");
                let o = g.t(if f == F::Brace { "{" } else { "do" });
                g.raw(" ");
                let p = g.t("|");
                let v = list(g, &mut names);
                let q = g.t("|");
                g.raw(" ");
                let args = Node::Args(Args { args: v, begin_l: Some(p), end_l: Some(q), expression_l: j(p, q) });
                let bd = body(g, &names);
                g.raw(" ");
                let z = g.t(if f == F::Brace { "}" } else { "end" });
                block(call, Some(args), Some(bd), o, z)
            }
            F::LamParen | F::LamBare | F::LamParenDo | F::LamBareDo => {
                let a = g.t("->");
                let args = if bare {
                    g.raw(" ");
                    let v = list(g, &mut names);
                    if v.is_empty() {
                        None
                    } else {
                        let el = je(&v[0], v.last().unwrap());
                        Some(Node::Args(Args { args: v, begin_l: None, end_l: None, expression_l: el }))
                    }
                } else {
                    let p = g.t("(");
                    let v = list(g, &mut names);
                    let q = g.t(")");
                    Some(Node::Args(Args { args: v, begin_l: Some(p), end_l: Some(q), expression_l: j(p, q) }))
                };
                let br = matches!(f, F::LamParen | F::LamBare);
                g.raw(" ");
                let o = g.t(if br { "{" } else { "do" });
                g.raw(" ");
                let bd = body(g, &names);
                g.raw(" ");
                let z = g.t(if br { "}" } else { "end" });
                block(Node::Lambda(Lambda { expression_l: a }), args, Some(bd), o, z)
            }
        };
        if !ok {
            return expect_error(ctx, &g.s);
        }
        expect(ctx, g, Some(node));
}
/// two parameters of the same name, wherever they stand
pub fn duplicates() -> Family {
    const P: [(&str, &str); 10] = [("N", ""), ("N = 1", ""), ("*N", ""), ("N:", ""), ("N: 1", ""), ("**N", ""), ("&N", ""), ("(N, q)", ""), ("(q, *N)", ""), ("(q, (N, r))", "")];
    const W: [(&str, &str); 6] = [("def m(", "); end"), ("def self.m(", ") = 1"), ("foo { |", "| }"), ("->(", ") { }"), ("def m ", "\nend"), ("foo do |", "|; end")];
    const NM: [&str; 5] = ["a", "_", "_a", "é", "aB"];
    fam("two parameters of equal or different names, every pair of kinds, names and forms".to_string(), 0, |c, ctx| {
        let (i, k) = (c.choose(P.len()), c.choose(P.len()));
        let f = c.choose(W.len());
        let mid = c.choose(2);
        let shadow = f == 2 || f == 3 || f == 5;
        let sh = if shadow { c.choose(3) } else { 0 };
        let (a, d) = (NM[c.choose(5)], NM[c.choose(5)]);
        let kind = |i: usize| [K::Req, K::Opt, K::Rest, K::Kw, K::KwOpt, K::KwRest, K::Blk, K::Mlhs(0), K::Mlhs(0), K::Mlhs(0)][i];
        if !legal(&[kind(i), kind(k)], false) || f == 4 && i >= 7 {
            return ctx.outcome("out of model");
        }
        let mut s = W[f].0.to_string();
        s.push_str(&P[i].0.replace('N', a));
        if mid == 1 && legal(&[kind(i), K::KwOpt, kind(k)], false) {
            s.push_str(", z: 1");
        }
        s.push_str(", ");
        let p2 = s.len() + P[k].0.find('N').unwrap();
        // other names stay apart
        s.push_str(&P[k].0.replace('q', "s").replace('r', "t").replace('N', d));
        let mut bad = if a == d && !a.starts_with('_') { Some((p2, d)) } else { None };
        match sh {
            1 => {
                s.push_str("; ");
                if !a.starts_with('_') && bad.is_none() {
                    bad = Some((s.len(), a));
                } else if !a.starts_with('_') {
                    bad = bad.map(|_| (p2, d));
                }
                s.push_str(a);
            }
            2 => s.push_str("; w"),
            _ => {}
        }
        s.push_str(W[f].1);
        let Some((p, nm)) = bad else {
            if !ctx.begin(s.as_bytes()) {
                return;
            }
            let r = parse(s.as_bytes());
            ctx.end();
            if errors(&r) > 0 {
                ctx.fail(format!("different names rejected: {}", diag_str(&r.diagnostics)));
                return;
            }
            ctx.nontrivial();
            return ctx.outcome("accepted as expected");
        };
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let r = parse(s.as_bytes());
        ctx.end();
        let ok = r.diagnostics.iter().any(|x| x.level == lib_ruby_parser::ErrorLevel::Error && x.loc.begin == p && x.loc.end == p + nm.len() && matches!(x.message, lib_ruby_parser::DiagnosticMessage::DuplicatedArgumentName {}));
        if !ok {
            ctx.fail(format!("duplicate parameter not reported at {p}: {}", diag_str(&r.diagnostics)));
            return;
        }
        ctx.nontrivial();
        ctx.outcome("rejected as expected");
    })
}
/// three to n parameters, each of every kind, the last named like one of the others
pub fn far_duplicates() -> Family {
    const P: [&str; 10] = ["N", "N = 1", "*N", "N:", "N: 1", "**N", "&N", "(N, q)", "(q, *N)", "(q, (N, r))"];
    const W: [(&str, &str); 4] = [("def m(", "); end"), ("foo { |", "| }"), ("->(", ") { }"), ("def m ", "\nend")];
    const K3: [K; 10] = [K::Req, K::Opt, K::Rest, K::Kw, K::KwOpt, K::KwRest, K::Blk, K::Mlhs(0), K::Mlhs(0), K::Mlhs(0)];
    const N: [usize; 9] = [1, 2, 3, 4, 7, 8, 15, 31, 64];
    fam("a parameter named like one n places before it, every pair of kinds".to_string(), 0, |c, ctx| {
        let (i, k) = (c.choose(P.len()), c.choose(P.len()));
        let w = W[c.choose(W.len())];
        let between = N[c.choose(N.len())];
        let same = c.choose(2) == 0;
        // what stands between: required, keyword or block-local parameters
        let mid = [K::Req, K::Kw, K::KwOpt, K::Mlhs(0)][c.choose(4)];
        let mut ks = vec![K3[i]];
        ks.extend(vec![mid; between]);
        ks.push(K3[k]);
        if !legal(&ks, false) || w.0 == "def m " && i >= 7 {
            return ctx.outcome("out of model");
        }
        let mut s = format!("{}{}", w.0, P[i].replace('N', "a"));
        for x in 0..between {
            s.push_str(&match mid {
                K::Req => format!(", b{x}"),
                K::Kw => format!(", b{x}:"),
                K::KwOpt => format!(", b{x}: 1"),
                _ => format!(", (b{x}, c{x})"),
            });
        }
        s.push_str(", ");
        let p = s.len() + P[k].find('N').unwrap();
        s.push_str(&P[k].replace('q', "s").replace('r', "t").replace('N', if same { "a" } else { "d" }));
        s.push_str(w.1);
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let r = parse(s.as_bytes());
        ctx.end();
        let ok = if same { r.diagnostics.iter().any(|x| x.level == lib_ruby_parser::ErrorLevel::Error && x.loc.begin == p && x.loc.end == p + 1 && matches!(x.message, lib_ruby_parser::DiagnosticMessage::DuplicatedArgumentName {})) } else { errors(&r) == 0 };
        if !ok {
            return ctx.fail(format!("{} at {p}: {}", if same { "duplicate parameter not reported" } else { "different names rejected" }, diag_str(&r.diagnostics)));
        }
        ctx.nontrivial();
        ctx.outcome(if same { "rejected as expected" } else { "accepted as expected" });
    })
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P19",
        rule: "Each execution is a definition with a sequence of parameters; all sequences up to the stated length over the stated parameter kinds are generated in every form of definition together with the tree Ruby's rules give, or with the verdict that the order is illegal; the body names every parameter, which must be a variable there. The parser's tree must equal the expected one, illegal orders must give an error.",
        assumptions: &["longer parameter lists than the bound are not explored; default values are a literal or an earlier parameter"],
        families: |th| {
            let mut v: Vec<Family> = (0..=2).map(|n| params(n, KINDS.len(), FORMS.len(), true)).collect();
            v.push(params(3, KINDS.len(), FORMS.len(), true));
            v.push(params(4, 13, if th { FORMS.len() } else { 6 }, false));
            v.push(full(if th { 3 } else { 2 }));
            v.push(duplicates());
            v.push(far_duplicates());
            if th {
                v.push(params(4, 13, FORMS.len(), true));
                v.push(params(5, 11, FORMS.len(), false));
            }
            v
        },
    }]
}
