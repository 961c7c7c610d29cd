//! P29: variables. Every kind of variable name, valid or not, in every position a variable may
//! stand in, and whatever may follow it directly.
use super::*;
use crate::n::*;
use crate::oracle::*;
use lib_ruby_parser::Lexer;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    G, // global
    B, // back reference
    N, // numbered reference
    I, // instance
    C, // class
}
const PUNCT: &str = "~*$?!@/\\;,.=:<>\"";
const BACK: &str = "&`'+";
fn names(th: bool) -> Vec<(K, String)> {
    let mut v = vec![];
    for c in PUNCT.chars() {
        v.push((K::G, format!("${c}")));
    }
    for c in BACK.chars() {
        v.push((K::B, format!("${c}")));
    }
    for d in ["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "99", "100", "1000000"] {
        v.push((K::N, format!("${d}")));
    }
    let cs: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_', 'é', '日']).collect();
    for c in &cs {
        v.push((K::G, format!("$-{c}")));
        if !('1'..='9').contains(c) {
            v.push((K::G, format!("${c}")));
        }
        if !c.is_ascii_digit() {
            v.push((K::I, format!("@{c}")));
            v.push((K::C, format!("@@{c}")));
        }
    }
    for n in ["ab", "a1", "aB", "Ab", "_1", "_a", "__", "éa", "aé", "日本", "if", "self", "nil", "end", "a_b", "LOAD_PATH", "abcdefghijklmnopqrstuvwxyz", "_1_"] {
        v.push((K::G, format!("${n}")));
        v.push((K::I, format!("@{n}")));
        v.push((K::C, format!("@@{n}")));
    }
    for n in ["00", "01", "0a", "0_", "0é", "0A"] {
        v.push((K::G, format!("${n}")));
    }
    if th {
        for a in &cs {
            for b in &cs {
                if !a.is_ascii_digit() {
                    v.push((K::G, format!("${a}{b}")));
                    v.push((K::I, format!("@{a}{b}")));
                    v.push((K::C, format!("@@{a}{b}")));
                }
            }
        }
    }
    v.sort_by(|a, b| a.1.cmp(&b.1));
    v.dedup();
    v
}
/// does the name end by itself, or would a following identifier character become part of it?
fn open_ended(k: K, n: &str) -> bool {
    match k {
        K::B => false,
        K::N => false,
        K::G => !n.starts_with("$-") && !PUNCT.contains(n.chars().nth(1).unwrap()),
        _ => true,
    }
}
struct S {
    s: String,
}
impl S {
    fn t(&mut self, x: &str) -> Loc {
        let a = self.s.len();
        self.s.push_str(x);
        l(a, a + x.len())
    }
    fn x(&mut self, n: &str) -> Node {
        let a = self.t(n);
        ident_send(n, a)
    }
    fn i(&mut self, n: &str) -> Node {
        let a = self.t(n);
        int(n, a)
    }
    fn read(&mut self, k: K, n: &str) -> Node {
        let a = self.t(n);
        var(k, n, a)
    }
    fn target(&mut self, k: K, n: &str) -> Node {
        let a = self.t(n);
        let name = n.to_string();
        match k {
            K::I => Node::Ivasgn(Ivasgn { name, value: None, name_l: a, operator_l: None, expression_l: a }),
            K::C => Node::Cvasgn(Cvasgn { name, value: None, name_l: a, operator_l: None, expression_l: a }),
            _ => Node::Gvasgn(Gvasgn { name, value: None, name_l: a, operator_l: None, expression_l: a }),
        }
    }
}
fn var(k: K, n: &str, a: Loc) -> Node {
    let name = n.to_string();
    match k {
        K::G => Node::Gvar(Gvar { name, expression_l: a }),
        K::B => Node::BackRef(BackRef { name, expression_l: a }),
        K::N => Node::NthRef(NthRef { name: n[1..].to_string(), expression_l: a }),
        K::I => Node::Ivar(Ivar { name, expression_l: a }),
        K::C => Node::Cvar(Cvar { name, expression_l: a }),
    }
}
const NT: usize = 52;
enum W {
    Tree(Node),
    Bad,
    Out,
}
fn position(g: &mut S, k: K, n: &str, at: usize) -> W {
    let assignable = matches!(k, K::G | K::I | K::C);
    let bins = ["+", "-", "*", "/", "<<", "&", "|", "^", "%", "<", "==", "**", "<=>"];
    W::Tree(match at {
        0 => g.read(k, n),
        1 => {
            let v = g.read(k, n);
            let d = g.t(".");
            let z = g.t("z");
            mcall(v, d, false, "z", Some(z), None, vec![], None)
        }
        2 => {
            let v = g.read(k, n);
            let o = g.t("[");
            let i = g.i("0");
            let q = g.t("]");
            let el = j(e(&v), q);
            Node::Index(Index { recv: b(v), indexes: vec![i], begin_l: o, end_l: q, expression_l: el })
        }
        // binary operators tight, half spaced and spaced: a variable is a value, so nothing
        // after it begins an argument
        3..=15 => {
            let v = g.read(k, n);
            let o = g.t(bins[at - 3]);
            let y = g.x("y");
            binop(v, bins[at - 3], o, y)
        }
        16..=28 => {
            let v = g.read(k, n);
            g.t(" ");
            let o = g.t(bins[at - 16]);
            let y = g.x("y");
            binop(v, bins[at - 16], o, y)
        }
        29 => {
            let c = g.read(k, n);
            let q = if open_ended(k, n) || k == K::N { g.t("?") } else { g.t(" ? ") };
            let q = if q.end - q.begin == 3 { l(q.begin + 1, q.begin + 2) } else { q };
            let x = g.i("1");
            g.t(" ");
            let o = g.t(":");
            g.t(" ");
            let y = g.i("2");
            let el = j(e(&c), e(&y));
            Node::IfTernary(IfTernary { cond: b(c), if_true: b(x), if_false: b(y), question_l: q, colon_l: o, expression_l: el })
        }
        30 => {
            let v = g.read(k, n);
            g.t("\n");
            let y = g.x("y");
            compstmt(vec![v, y]).unwrap()
        }
        31 => {
            let o = g.t("[");
            let v = g.read(k, n);
            g.t(",");
            let w = g.read(k, n);
            let q = g.t("]");
            array(vec![v, w], Some(o), Some(q))
        }
        32 => {
            let f = g.t("x");
            let o = g.t("(");
            let v = g.read(k, n);
            let q = g.t(")");
            fcall("x", f, Some(o), vec![v], Some(q))
        }
        33 => {
            let f = g.t("x");
            g.t(" ");
            let v = g.read(k, n);
            fcall("x", f, None, vec![v], None)
        }
        34 | 35 => {
            let tight = at == 34;
            // `$= =`, `$,=`, ... : the name is read first
            let t = g.target(k, n);
            if !tight {
                g.t(" ");
            }
            let o = g.t("=");
            let v = g.i("1");
            if !assignable {
                return W::Bad;
            }
            asgn(t, o, v)
        }
        36..=38 => {
            let op = ["+", "||", "&&"][at - 36];
            let t = g.target(k, n);
            g.t(" ");
            let o = g.t(&format!("{op}="));
            g.t(" ");
            let v = g.i("1");
            if !assignable {
                return W::Bad;
            }
            op_asgn(t, op, o, v)
        }
        39 => {
            let t = g.target(k, n);
            g.t(",");
            let xl = g.t("x");
            g.t(" ");
            let o = g.t("=");
            g.t(" ");
            let v = g.x("y");
            if !assignable {
                return W::Bad;
            }
            let x = lvasgn("x", xl);
            let ml = j(e(&t), e(&x));
            let m = Node::Mlhs(Mlhs { items: vec![t, x], begin_l: None, end_l: None, expression_l: ml });
            let el = j(ml, e(&v));
            Node::Masgn(Masgn { lhs: b(m), rhs: b(v), operator_l: o, expression_l: el })
        }
        40 => {
            let xl = g.t("x");
            g.t(", ");
            let s = g.t("*");
            let t = g.target(k, n);
            g.t(" ");
            let o = g.t("=");
            g.t(" ");
            let v = g.x("y");
            if !assignable {
                return W::Bad;
            }
            let x = lvasgn("x", xl);
            let t = splat(s, Some(t));
            let ml = j(e(&x), e(&t));
            let m = Node::Mlhs(Mlhs { items: vec![x, t], begin_l: None, end_l: None, expression_l: ml });
            let el = j(ml, e(&v));
            Node::Masgn(Masgn { lhs: b(m), rhs: b(v), operator_l: o, expression_l: el })
        }
        41 => {
            let kw = g.t("for");
            g.t(" ");
            let t = g.target(k, n);
            g.t(" ");
            let op = g.t("in");
            g.t(" ");
            let v = g.x("y");
            g.t(" ");
            let d = g.t("do");
            g.t(" ");
            let el = g.t("end");
            if !assignable {
                return W::Bad;
            }
            Node::For(For { iterator: b(t), iteratee: b(v), body: None, keyword_l: kw, operator_l: op, begin_l: d, end_l: el, expression_l: j(kw, el) })
        }
        42 => {
            let bk = g.t("begin");
            g.t("\n");
            let x = g.x("x");
            g.t("\n");
            let kw = g.t("rescue");
            g.t(" ");
            let a = g.t("=>");
            g.t(" ");
            let t = g.target(k, n);
            let nl = g.t("\n");
            let el = g.t("end");
            if !assignable {
                return W::Bad;
            }
            let tl = nl;
            let rb = Node::RescueBody(RescueBody { exc_list: None, exc_var: Some(b(t)), body: None, keyword_l: kw, assoc_l: Some(a), begin_l: Some(nl), expression_l: j(kw, tl) });
            let rl = j(e(&x), tl);
            let r = Node::Rescue(Rescue { body: Some(b(x)), rescue_bodies: vec![rb], else_: None, else_l: None, expression_l: rl });
            kwbegin(bk, Some(r), el)
        }
        43 | 44 => {
            let kw = g.t("defined?");
            let (o, q);
            let v;
            if at == 43 {
                o = Some(g.t("("));
                v = g.read(k, n);
                q = Some(g.t(")"));
            } else {
                g.t(" ");
                o = None;
                q = None;
                v = g.read(k, n);
            }
            let el = j(kw, q.unwrap_or(e(&v)));
            Node::Defined(Defined { value: b(v), keyword_l: kw, begin_l: o, end_l: q, expression_l: el })
        }
        45 => {
            let o = g.t("[");
            let c = g.t(":");
            let a = g.t(n);
            g.t(", ");
            let i = g.i("1");
            let q = g.t("]");
            array(vec![sym(n.as_bytes(), Some(c), j(c, a)), i], Some(o), Some(q))
        }
        46 => {
            let kw = g.t("alias");
            g.t(" ");
            let p = g.t("$a");
            g.t(" ");
            let a = g.t(n);
            if !matches!(k, K::G | K::B) {
                return W::Bad;
            }
            let from = var(k, n, a);
            Node::Alias(Alias { to: b(var(K::G, "$a", p)), from: b(from), keyword_l: kw, expression_l: j(kw, a) })
        }
        47 => {
            // where a name is expected, back references and numbered ones are plain globals
            let kw = g.t("alias");
            g.t(" ");
            let p = g.t(n);
            g.t(" ");
            let a = g.t("$a");
            match k {
                K::G => {}
                K::B | K::N => return W::Out,
                _ => return W::Bad,
            }
            Node::Alias(Alias { to: b(var(K::G, n, p)), from: b(var(K::G, "$a", a)), keyword_l: kw, expression_l: j(kw, a) })
        }
        48 => {
            let kw = g.t("case");
            g.t(" ");
            let x = g.x("x");
            g.t("\n");
            let il = g.t("in");
            g.t(" ");
            let p = g.t("^");
            let v = g.read(k, n);
            g.t("\n");
            let el = g.t("end");
            if !assignable {
                return W::Bad;
            }
            let pl = j(p, e(&v));
            let pin = Node::Pin(Pin { var: b(v), selector_l: p, expression_l: pl });
            let ip = Node::InPattern(InPattern { pattern: b(pin), guard: None, body: None, keyword_l: il, begin_l: l(pl.end, pl.end + 1), expression_l: j(il, pl) });
            Node::CaseMatch(CaseMatch { expr: b(x), in_bodies: vec![ip], else_body: None, keyword_l: kw, else_l: None, end_l: el, expression_l: j(kw, el) })
        }
        49 => {
            let o = g.t("[");
            let h = g.t("{");
            let key = g.t("a");
            let c = g.t(":");
            let v = g.read(k, n);
            let q = g.t("}");
            let x = hash(vec![label_pair("a", key, c, v)], Some(h), Some(q));
            let r = g.t("]");
            array(vec![x], Some(o), Some(r))
        }
        50 => {
            let o = g.t("!");
            let v = g.read(k, n);
            unop("!", o, v)
        }
        _ => {
            let v = g.read(k, n);
            g.t(" ");
            let kw = g.t("if");
            g.t(" ");
            let c = g.read(k, n);
            let el = j(e(&v), e(&c));
            Node::IfMod(IfMod { cond: b(c), if_true: Some(b(v)), if_false: None, keyword_l: kw, expression_l: el })
        }
    })
}
fn positions(th: bool) -> Family {
    let ns = names(th);
    fam(format!("{} variable names in {NT} positions", ns.len()), 0, move |c, ctx| {
        let (k, n) = &ns[c.choose(ns.len())];
        let at = c.choose(NT);
        let mut g = S { s: String::new() };
        match position(&mut g, *k, n, at) {
            // here Ruby warns that the operator looks like a prefix
            W::Tree(t) if (16..=28).contains(&at) => {
                if !ctx.begin(g.s.as_bytes()) {
                    return;
                }
                let r = parse(g.s.as_bytes());
                ctx.end();
                match diff_opt(Some(&t), r.ast.as_deref()) {
                    Some(d) => ctx.fail(format!("tree differs: {d} {}", diag_str(&r.diagnostics))),
                    None => {
                        ctx.nontrivial();
                        ctx.outcome("accepted as expected");
                    }
                }
            }
            W::Tree(t) => expect_src(ctx, g.s.as_bytes(), Some(t), None),
            W::Bad => expect_error(ctx, g.s.as_bytes()),
            W::Out => ctx.outcome("out of model"),
        }
    })
}
/// the variable at the start of `s`: how long it is and which token it is; `None` when malformed
fn scan(s: &str) -> Option<(usize, &'static str)> {
    let c: Vec<(usize, char)> = s.char_indices().collect();
    let at = |i: usize| c.get(i).map(|x| x.1);
    let end = |i: usize| c.get(i).map_or(s.len(), |x| x.0);
    let idc = |x: Option<char>| x.map_or(false, |x| x == '_' || x.is_ascii_alphanumeric() || !x.is_ascii());
    let run = |mut i: usize, f: &dyn Fn(Option<char>) -> bool| {
        while f(at(i)) {
            i += 1;
        }
        end(i)
    };
    let dig = |x: Option<char>| x.map_or(false, |x| x.is_ascii_digit());
    match at(0) {
        Some('$') => match at(1) {
            Some(x) if PUNCT.contains(x) => Some((2, "tGVAR")),
            Some(x) if BACK.contains(x) => Some((2, "tBACK_REF")),
            Some('-') => {
                if idc(at(2)) {
                    Some((end(3), "tGVAR"))
                } else {
                    None
                }
            }
            Some('1'..='9') => Some((run(1, &dig), "tNTH_REF")),
            x if idc(x) => Some((run(1, &idc), "tGVAR")),
            _ => None,
        },
        Some('@') => {
            let (i, t) = if at(1) == Some('@') { (2, "tCVAR") } else { (1, "tIVAR") };
            if idc(at(i)) && !dig(at(i)) {
                Some((run(i, &idc), t))
            } else {
                None
            }
        }
        _ => None,
    }
}
fn first_token(ctx: &mut Ctx, pre: &str, s: &str) {
    let src = format!("{pre}{s}");
    match scan(s) {
        None => expect_error(ctx, src.as_bytes()),
        Some((n, t)) => {
            if !ctx.begin(src.as_bytes()) {
                return;
            }
            let toks = Lexer::new(src.as_bytes().to_vec(), "v", None).tokenize_until_eof();
            ctx.end();
            let (a, z) = (pre.len(), pre.len() + n);
            match toks.iter().find(|t| t.loc.begin >= a) {
                Some(x) if x.token_name() == t && (x.loc.begin, x.loc.end) == (a, z) && x.as_bytes() == s[..n].as_bytes() => {
                    ctx.nontrivial();
                    ctx.outcome("variable read in full");
                }
                x => ctx.fail(format!("expected {t} {:?} at {a}, got {x:?}", &s[..n])),
            }
        }
    }
}
const PRE: [&str; 6] = ["", "x = ", "[", "x + ", "x ", "x\n"];
fn bytes_() -> Family {
    fam("every character after `$`, `$-`, `@`, `@@`, with every kind of neighbour", 0, move |c, ctx| {
        let p = PRE[c.choose(PRE.len())];
        let h = ["$", "$-", "@", "@@", "$_", "$0", "$1", "@a", "@@a", "$a"][c.choose(10)];
        let x = c.choose(131);
        let x = match x {
            128 => 'é',
            129 => '日',
            130 => '😀',
            x => x as u8 as char,
        };
        let q = ["", " ", "\n", "a", "1", "_", "é", "$", "@", "=", "?", "-"][c.choose(12)];
        let s = format!("{h}{x}{q}");
        // these end the input wherever they stand
        if s.contains(['\0', '\x04', '\x1a']) {
            ctx.outcome("out of model");
            return;
        }
        first_token(ctx, p, &s);
    })
}
const AL: [&str; 15] = ["$", "@", "-", "a", "A", "1", "0", "_", "é", "~", "&", "+", " ", ";", "="];
fn strings(n: usize) -> Family {
    fam(format!("every word of {n} of {} pieces after `$` or `@`", AL.len()), 0, move |c, ctx| {
        let mut s = ["$", "@"][c.choose(2)].to_string();
        for _ in 0..n {
            s.push_str(AL[c.choose(AL.len())]);
        }
        first_token(ctx, "", &s);
    })
}
/// a variable where only a name, a parameter or a class may stand
fn misplaced(th: bool) -> Family {
    let ns = names(th);
    const T: [(&str, &str); 16] = [
        ("def ", "; end"),
        ("def x(", "); end"),
        ("def x(*", "); end"),
        ("def x(&", "); end"),
        ("x { |", "| }"),
        ("x { |a, ", "| }"),
        ("x { |a; ", "| }"),
        ("->(", ") { }"),
        ("class ", "; end"),
        ("module ", "; end"),
        ("undef ", ""),
        ("x.", ""),
        ("x::", ""),
        ("x&.", " = 1"),
        ("case 1; in ", "; end"),
        ("case 1; in K(", "); end"),
    ];
    fam(format!("{} variable names where none may stand", ns.len()), 0, move |c, ctx| {
        let (_, n) = &ns[c.choose(ns.len())];
        let (p, q) = T[c.choose(T.len())];
        // a variable takes no part of what follows it
        let sp = ["", " "][c.choose(2)];
        expect_error(ctx, format!("{p}{n}{sp}{q}").as_bytes());
    })
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P29",
        rule: "Each execution puts one variable name (or one malformed one) in one position and compares the tree with Ruby's rules for what the name is and which node it makes there, or requires an error.",
        assumptions: &["source text is valid UTF-8"],
        families: |th| {
            let mut v = vec![positions(th), bytes_(), misplaced(th), super::lit::dvar_chars()];
            for n in 0..=if th { 6 } else { 5 } {
                v.push(strings(n));
            }
            for n in 0..=if th { 5 } else { 4 } {
                v.push(super::lit::dvars(n));
            }
            v
        },
    }]
}
