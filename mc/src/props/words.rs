//! P24: words. Every reserved word, every near miss of one and every other kind of name, in every
//! position where a word may stand, with the tree it stands for there.
use super::*;
use crate::n::*;
use crate::oracle::*;
use lib_ruby_parser::{reserved_word, Lexer};

const KW: [(&str, &str); 41] = [
    ("BEGIN", "klBEGIN"),
    ("END", "klEND"),
    ("__ENCODING__", "k__ENCODING__"),
    ("__FILE__", "k__FILE__"),
    ("__LINE__", "k__LINE__"),
    ("alias", "kALIAS"),
    ("and", "kAND"),
    ("begin", "kBEGIN"),
    ("break", "kBREAK"),
    ("case", "kCASE"),
    ("class", "kCLASS"),
    ("def", "kDEF"),
    ("defined?", "kDEFINED"),
    ("do", "kDO"),
    ("else", "kELSE"),
    ("elsif", "kELSIF"),
    ("end", "kEND"),
    ("ensure", "kENSURE"),
    ("false", "kFALSE"),
    ("for", "kFOR"),
    ("if", "kIF"),
    ("in", "kIN"),
    ("module", "kMODULE"),
    ("next", "kNEXT"),
    ("nil", "kNIL"),
    ("not", "kNOT"),
    ("or", "kOR"),
    ("redo", "kREDO"),
    ("rescue", "kRESCUE"),
    ("retry", "kRETRY"),
    ("return", "kRETURN"),
    ("self", "kSELF"),
    ("super", "kSUPER"),
    ("then", "kTHEN"),
    ("true", "kTRUE"),
    ("undef", "kUNDEF"),
    ("unless", "kUNLESS"),
    ("until", "kUNTIL"),
    ("when", "kWHEN"),
    ("while", "kWHILE"),
    ("yield", "kYIELD"),
];
fn is_kw(w: &str) -> bool {
    KW.iter().any(|k| k.0 == w)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum C {
    Kw,
    Ident,
    Cst,
    Fid,
    Op,
    Setter,
}
fn class(w: &str) -> C {
    let f = w.chars().next().unwrap();
    if is_kw(w) {
        C::Kw
    } else if !(f.is_alphabetic() || f == '_') {
        C::Op
    } else if w.ends_with('=') {
        C::Setter
    } else if w.ends_with(['?', '!']) {
        C::Fid
    } else if f.is_uppercase() {
        C::Cst
    } else {
        C::Ident
    }
}
/// a word the lexer can read as one word
fn wordlike(w: &str) -> bool {
    let core = w.strip_suffix(['?', '!', '=']).unwrap_or(w);
    !core.is_empty() && !core.starts_with(|c: char| c.is_ascii_digit()) && core.chars().all(|c| c == '_' || c.is_alphanumeric()) && w != "__END__"
}
fn near(w: &str) -> Vec<String> {
    let mut v = vec![];
    for s in ["s", "_", "1", "?", "!", "E", "é", "="] {
        v.push(format!("{w}{s}"));
    }
    for p in ["_", "x", "K", "é", "É"] {
        v.push(format!("{p}{w}"));
    }
    v.push(w[..w.len() - 1].to_string());
    v.push(w[1..].to_string());
    v.push(w.to_uppercase());
    v.push(w.to_lowercase());
    v.push(format!("{}{}", w[..1].to_uppercase(), &w[1..]));
    v.push(format!("{w}{w}"));
    v
}
const OPS: [&str; 27] = ["+", "-", "*", "/", "%", "**", "==", "!=", "===", "=~", "!~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "^", "!", "~", "+@", "-@", "[]", "[]="];
fn words() -> Vec<String> {
    let mut v: Vec<String> = KW.iter().map(|k| k.0.to_string()).collect();
    for k in KW {
        v.extend(near(k.0));
    }
    for w in ["a", "A", "é", "É", "_", "__", "a1", "A1", "aB", "Ab", "a?", "a!", "A?", "A!", "a=", "A=", "_a", "_A", "añb", "λ", "a_b", "p", "P", "ab_c1?", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "é?", "日本", "_1a", "_0", "`", "raise", "loop", "lambda", "proc", "private", "it", "then_", "doo", "ends", "fo", "forr", "defined", "defined!", "begin?", "__dir__", "__method__", "__LINE", "_END_"] {
        v.push(w.to_string());
    }
    for w in OPS {
        v.push(w.to_string());
    }
    v.retain(|w| w == "`" || OPS.contains(&w.as_str()) || wordlike(w));
    v.sort();
    v.dedup();
    v
}
struct S {
    s: String,
}
impl S {
    fn t(&mut self, x: &str) -> Loc {
        let a = self.s.len();
        self.s.push_str(x);
        l(a, a + x.len())
    }
    fn x(&mut self, n: &str) -> Node {
        let a = self.t(n);
        ident_send(n, a)
    }
    fn i(&mut self, n: &str) -> Node {
        let a = self.t(n);
        int(n, a)
    }
    fn def(&mut self, w: &str, recv: u8, args: u8) -> Node {
        let kw = self.t("def");
        self.t(" ");
        let (rv, dot) = match recv {
            0 => (None, None),
            1 => (Some(self.x("x")), Some(self.t("."))),
            2 => {
                let a = self.t("self");
                (Some(Node::Self_(Self_ { expression_l: a })), Some(self.t(".")))
            }
            _ => {
                let a = self.t("K");
                (Some(konst("K", a)), Some(self.t("::")))
            }
        };
        let nl = self.t(w);
        let mut asg = None;
        let arg = |x: Loc| Node::Arg(Arg { name: "a".into(), expression_l: x });
        let mut body = None;
        let a = match args {
            0 => {
                self.t("; ");
                None
            }
            1 => {
                let p = self.t("(");
                let x = self.t("a");
                let q = self.t(")");
                self.t("; ");
                Some(Node::Args(Args { args: vec![arg(x)], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
            2 => {
                self.t(" ");
                let x = self.t("a");
                self.t("\n");
                Some(Node::Args(Args { args: vec![arg(x)], expression_l: x, begin_l: None, end_l: None }))
            }
            3 => {
                let p = self.t("(");
                let q = self.t(")");
                self.t(" ");
                asg = Some(self.t("="));
                self.t(" ");
                body = Some(self.i("1"));
                Some(Node::Args(Args { args: vec![], expression_l: j(p, q), begin_l: Some(p), end_l: Some(q) }))
            }
            _ => {
                self.t("\n");
                body = Some(self.x("y"));
                self.t("\n");
                None
            }
        };
        // an empty pair of parentheses is still a parameter list
        let el = if asg.is_none() { Some(self.t("end")) } else { None };
        let x = j(kw, el.unwrap_or_else(|| e(body.as_ref().unwrap())));
        match (rv, dot) {
            (Some(d), Some(dot)) => Node::Defs(Defs { definee: b(d), name: w.into(), args: ob(a), body: ob(body), keyword_l: kw, operator_l: dot, name_l: nl, end_l: el, assignment_l: asg, expression_l: x }),
            _ => Node::Def(Def { name: w.into(), args: ob(a), body: ob(body), keyword_l: kw, name_l: nl, end_l: el, assignment_l: asg, expression_l: x }),
        }
    }
    fn label(&mut self, w: &str) -> Node {
        let a = self.t(w);
        let c = self.t(":");
        self.t(" ");
        let v = self.i("1");
        label_pair(w, a, c, v)
    }
    fn fsym(&mut self, w: &str) -> Node {
        let a = self.t(w);
        sym(w.as_bytes(), None, a)
    }
    fn colon(&mut self, w: &str) -> Node {
        let o = self.t(":");
        let a = self.t(w);
        sym(w.as_bytes(), Some(o), j(o, a))
    }
}
const NT: usize = 50;
/// the program for word `w` in position `k`, `None` where the word cannot stand
fn position(g: &mut S, w: &str, k: usize) -> Option<Node> {
    use C::*;
    let c = class(w);
    let dots = [".", "&.", "::"];
    let word = !matches!(c, Op | Setter);
    let konst_ = |g: &mut S, w: &str| {
        let a = g.t(w);
        konst(w, a)
    };
    Some(match k {
        // x.W x&.W x::W
        0..=2 => {
            if c == Setter {
                return None;
            }
            let r = g.x("x");
            let d = g.t(dots[k]);
            let a = g.t(w);
            // after a dot no word is reserved
            let up = w.starts_with(|c: char| c.is_uppercase()) && c != Fid;
            if k == 2 && up {
                let el = j(e(&r), a);
                Node::Const(crate::n::Const { scope: Some(b(r)), name: w.into(), double_colon_l: Some(d), name_l: a, expression_l: el })
            } else {
                mcall(r, d, k == 1, w, Some(a), None, vec![], None)
            }
        }
        3..=5 => {
            if c == Setter {
                return None;
            }
            let r = g.x("x");
            let d = g.t(dots[k - 3]);
            let a = g.t(w);
            let o = g.t("(");
            let v = g.i("1");
            let q = g.t(")");
            mcall(r, d, k == 4, w, Some(a), Some(o), vec![v], Some(q))
        }
        6..=8 => {
            if c == Setter {
                return None;
            }
            let r = g.x("x");
            let d = g.t(dots[k - 6]);
            let a = g.t(w);
            g.t(" ");
            let v = g.i("1");
            mcall(r, d, k == 7, w, Some(a), None, vec![v], None)
        }
        // x.W = 1, x&.W = 1
        9 | 10 => {
            if !matches!(c, Kw | Ident | Cst) || w == "defined?" {
                return None;
            }
            let r = g.x("x");
            let d = g.t(dots[k - 9]);
            let a = g.t(w);
            g.t(" ");
            let o = g.t("=");
            g.t(" ");
            let v = g.i("1");
            let mut n = mcall(r, d, k == 10, &format!("{w}="), Some(a), None, vec![v], None);
            match &mut n {
                Node::Send(s) => s.operator_l = Some(o),
                Node::CSend(s) => s.operator_l = Some(o),
                _ => {}
            }
            n
        }
        11 => {
            if !matches!(c, Kw | Ident | Cst) || w == "defined?" {
                return None;
            }
            let r = g.x("x");
            let d = g.t(".");
            let a = g.t(w);
            g.t(" ");
            let o = g.t("+=");
            g.t(" ");
            let v = g.i("1");
            op_asgn(mcall(r, d, false, w, Some(a), None, vec![], None), "+", o, v)
        }
        12 | 13 => {
            if c == Setter {
                return None;
            }
            let r = g.x("x");
            let d = g.t(".");
            let a = g.t(w);
            g.t(" ");
            let m = mcall(r, d, false, w, Some(a), None, vec![], None);
            let o = g.t(["{", "do"][k - 12]);
            g.t(" ");
            let q = g.t(["}", "end"][k - 12]);
            block(m, None, None, o, q)
        }
        // what follows a method name
        14 => {
            if c == Setter {
                return None;
            }
            let r = g.x("x");
            let d = g.t(".");
            let a = g.t(w);
            g.t("\n");
            let m = mcall(r, d, false, w, Some(a), None, vec![], None);
            let y = g.x("y");
            compstmt(vec![m, y]).unwrap()
        }
        15 => {
            if c == Setter || c == Op {
                return None;
            }
            let r = g.x("x");
            let d = g.t(".");
            let a = g.t(w);
            g.t(" ");
            let m = mcall(r, d, false, w, Some(a), None, vec![], None);
            let o = g.t("/");
            g.t(" ");
            let y = g.x("y");
            binop(m, "/", o, y)
        }
        16 => {
            if c == Setter || c == Op {
                return None;
            }
            let r = g.x("x");
            let d = g.t(".");
            let a = g.t(w);
            let m = mcall(r, d, false, w, Some(a), None, vec![], None);
            let d = g.t(".");
            let z = g.t("z");
            mcall(m, d, false, "z", Some(z), None, vec![], None)
        }
        // definitions
        17..=36 => {
            let (recv, args) = (((k - 17) / 5) as u8, ((k - 17) % 5) as u8);
            if c == Setter && args == 3 {
                return None;
            }
            // `def self.x` reads the receiver; `[]=() = 1` is a setter too
            if w == "[]=" && args == 3 {
                return None;
            }
            // `def K::C` is fine, the name may be anything
            g.def(w, recv, args)
        }
        37 | 38 => {
            let kw = g.t("alias");
            g.t(" ");
            let to = if k == 37 { g.fsym(w) } else { g.fsym("x") };
            g.t(" ");
            let from = if k == 37 { g.fsym("x") } else { g.fsym(w) };
            let el = j(kw, e(&from));
            Node::Alias(Alias { to: b(to), from: b(from), keyword_l: kw, expression_l: el })
        }
        39 => {
            let kw = g.t("undef");
            g.t(" ");
            let p = g.fsym(w);
            g.t(", ");
            let q = g.fsym("x");
            let el = j(kw, e(&q));
            let u = Node::Undef(Undef { names: vec![p, q], keyword_l: kw, expression_l: el });
            g.t("\n");
            let kw = g.t("undef");
            g.t(" ");
            let p = g.fsym("y");
            g.t(", ");
            let q = g.fsym(w);
            let el = j(kw, e(&q));
            let u2 = Node::Undef(Undef { names: vec![p, q], keyword_l: kw, expression_l: el });
            compstmt(vec![u, u2]).unwrap()
        }
        40 => {
            let o = g.t("[");
            let s = g.colon(w);
            g.t(", ");
            let i = g.i("1");
            let q = g.t("]");
            array(vec![s, i], Some(o), Some(q))
        }
        // labels
        41 => {
            if !word {
                return None;
            }
            let f = g.t("x");
            let p = g.t("(");
            let o = g.t("{");
            let v = g.label(w);
            let q = g.t("}");
            let h = hash(vec![v], Some(o), Some(q));
            let r = g.t(")");
            fcall("x", f, Some(p), vec![h], Some(r))
        }
        42 => {
            if !word {
                return None;
            }
            let f = g.t("x");
            let p = g.t("(");
            let i = g.i("2");
            g.t(", ");
            let v = g.label(w);
            let r = g.t(")");
            fcall("x", f, Some(p), vec![i, kwargs(vec![v])], Some(r))
        }
        43 => {
            if !word {
                return None;
            }
            let f = g.t("x");
            g.t(" ");
            let v = g.label(w);
            fcall("x", f, None, vec![kwargs(vec![v])], None)
        }
        44 => {
            if !matches!(c, Kw | Ident) || w.starts_with(|c: char| c.is_uppercase()) || w == "defined?" {
                return None;
            }
            let ll = g.t("->");
            let p = g.t("(");
            let a = g.t(w);
            let q = g.t(":");
            g.t(" ");
            let v = g.i("1");
            let r = g.t(")");
            g.t(" ");
            let el = j(a, e(&v));
            let ka = Node::Kwoptarg(Kwoptarg { name: w.into(), default: b(v), name_l: a, expression_l: el });
            let _ = q;
            let args = Node::Args(Args { args: vec![ka], expression_l: j(p, r), begin_l: Some(p), end_l: Some(r) });
            let o = g.t("{");
            let z = g.t("}");
            block(Node::Lambda(Lambda { expression_l: ll }), Some(args), None, o, z)
        }
        // the word on its own
        45 => match c {
            Ident | Fid => g.x(w),
            Cst => konst_(g, w),
            _ => return None,
        },
        46 => {
            if !matches!(c, Ident | Fid | Cst) {
                return None;
            }
            let f = g.t(w);
            let p = g.t("(");
            let i = g.i("2");
            let r = g.t(")");
            fcall(w, f, Some(p), vec![i], Some(r))
        }
        47 => {
            if !matches!(c, Ident | Fid | Cst) {
                return None;
            }
            let f = g.t(w);
            g.t(" ");
            let i = g.i("2");
            fcall(w, f, None, vec![i], None)
        }
        48 => {
            let a = g.t(match c {
                Ident | Cst => w,
                _ => return None,
            });
            g.t(" ");
            let o = g.t("=");
            g.t(" ");
            let v = g.i("1");
            if c == Cst {
                let el = j(a, e(&v));
                Node::Casgn(Casgn { scope: None, name: w.into(), value: Some(b(v)), double_colon_l: None, name_l: a, operator_l: Some(o), expression_l: el })
            } else {
                asgn(lvasgn(w, a), o, v)
            }
        }
        _ => {
            // @W, @@W, $W
            if !matches!(c, Kw | Ident | Cst) || w == "defined?" {
                return None;
            }
            let o = g.t("[");
            let n = format!("@{w}");
            let a = g.t(&n);
            let x = Node::Ivar(Ivar { name: n, expression_l: a });
            g.t(", ");
            let n = format!("@@{w}");
            let a = g.t(&n);
            let y = Node::Cvar(Cvar { name: n, expression_l: a });
            g.t(", ");
            let n = format!("${w}");
            let a = g.t(&n);
            let z = Node::Gvar(Gvar { name: n, expression_l: a });
            let q = g.t("]");
            array(vec![x, y, z], Some(o), Some(q))
        }
    })
}
fn positions() -> Family {
    let ws = words();
    fam(format!("{} words in {NT} positions", ws.len()), 0, move |c, ctx| {
        let w = &ws[c.choose(ws.len())];
        let k = c.choose(NT);
        let mut g = S { s: String::new() };
        match position(&mut g, w, k) {
            Some(n) => expect_src(ctx, g.s.as_bytes(), Some(n), None),
            None => ctx.outcome("out of model"),
        }
    })
}
const AL: &[u8] = b"abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?!=";
/// every word one edit away from a reserved one
fn edits(trees: bool) -> Family {
    fam(format!("every word one edit away from a reserved word{}", if trees { ", in 6 positions" } else { ", in the lookup" }), 0, move |c, ctx| {
        let w = KW[c.choose(41)].0.as_bytes();
        let mut v = w.to_vec();
        match c.choose(4) {
            0 => {
                let i = c.choose(w.len());
                v[i] = AL[c.choose(AL.len())];
            }
            1 => {
                let i = c.choose(w.len() + 1);
                v.insert(i, AL[c.choose(AL.len())]);
            }
            2 => {
                v.remove(c.choose(w.len()));
            }
            _ => {
                let i = c.choose(w.len() - 1);
                v.swap(i, i + 1);
            }
        }
        let s = String::from_utf8(v).unwrap();
        if !trees {
            lookup(ctx, &s);
            return;
        }
        if !wordlike(&s) {
            ctx.outcome("out of model");
            return;
        }
        let k = [45, 0, 17, 37, 41, 40][c.choose(6)];
        let mut g = S { s: String::new() };
        match position(&mut g, &s, k) {
            Some(n) => expect_src(ctx, g.s.as_bytes(), Some(n), None),
            None => ctx.outcome("out of model"),
        }
    })
}
fn lookup(ctx: &mut Ctx, s: &str) {
    if !ctx.begin(s.as_bytes()) {
        return;
    }
    let got = reserved_word(s.as_bytes()).is_some();
    ctx.end();
    if got != is_kw(s) {
        ctx.fail(format!("the lookup says {got} for {s:?}"));
        return;
    }
    ctx.nontrivial();
    ctx.outcome(if got { "reserved" } else { "not reserved" });
}
fn short_words(n: usize, al: &'static [u8], trees: bool) -> Family {
    fam(format!("every word of {n} characters out of {}{}", al.len(), if trees { ", as a program" } else { ", in the lookup" }), 0, move |c, ctx| {
        let s: String = (0..n).map(|_| al[c.choose(al.len())] as char).collect();
        if !trees {
            lookup(ctx, &s);
            return;
        }
        if !wordlike(&s) || is_kw(&s) || s.ends_with('=') {
            ctx.outcome("out of model");
            return;
        }
        let mut g = S { s: String::new() };
        let n = position(&mut g, &s, 45);
        expect_src(ctx, g.s.as_bytes(), n, None);
    })
}
/// keywords as tokens, at the start of an expression and as modifiers
fn tokens() -> Family {
    const PRE: [&str; 10] = ["", "  ", "x; ", "x\n", "(", "[", "x = ", "x + ", "x(1, ", "!"];
    const POST: [&str; 5] = ["", " ", "\n", ";", "#"];
    fam("reserved words at the start of an expression", 0, move |c, ctx| {
        let (w, t) = KW[c.choose(41)];
        let p = PRE[c.choose(PRE.len())];
        let q = POST[c.choose(POST.len())];
        let s = format!("{p}{w}{q}");
        check_token(ctx, &s, p.len(), w, t);
    })
}
fn modifiers() -> Family {
    const PRE: [&str; 9] = ["x ", "1 ", "x.y ", "x() ", "nil ", "'a' ", "[] ", "x? ", "K "];
    fam("reserved words after a value", 0, move |c, ctx| {
        let (w, t) = KW[c.choose(41)];
        let p = PRE[c.choose(PRE.len())];
        let m = match w {
            "if" => "kIF_MOD",
            "unless" => "kUNLESS_MOD",
            "while" => "kWHILE_MOD",
            "until" => "kUNTIL_MOD",
            "rescue" => "kRESCUE_MOD",
            _ => t,
        };
        check_token(ctx, &format!("{p}{w} y"), p.len(), w, m);
    })
}
fn check_token(ctx: &mut Ctx, s: &str, at: usize, w: &str, t: &str) {
    if !ctx.begin(s.as_bytes()) {
        return;
    }
    let toks = Lexer::new(s.as_bytes().to_vec(), "w", None).tokenize_until_eof();
    ctx.end();
    let tok = toks.iter().find(|t| t.loc.begin == at && t.loc.end > at);
    match tok {
        Some(x) if x.token_name() == t && x.loc.end == at + w.len() && x.as_bytes() == w.as_bytes() => {
            ctx.nontrivial();
            ctx.outcome("keyword");
        }
        x => ctx.fail(format!("expected {t} {w:?} at {at}, got {x:?}")),
    }
}
/// what a slash or a sign after a keyword means
fn after() -> Family {
    // kind: v = value, b = begins an expression, a = call without arguments yet, n = names a method
    fn kind(w: &str) -> char {
        match w {
            "nil" | "self" | "true" | "false" | "end" | "redo" | "retry" | "__FILE__" | "__LINE__" | "__ENCODING__" | "BEGIN" | "END" => 'v',
            "super" | "yield" | "not" | "defined?" => 'a',
            "def" | "alias" | "undef" => 'n',
            _ => 'b',
        }
    }
    const X: [(&str, &str, &str, &str, &str); 12] = [
        // text, token at offset 1 after v, b, a, n
        (" /x/", "tDIVIDE", "tREGEXP_BEG", "tREGEXP_BEG", "tDIVIDE"),
        (" / x", "tDIVIDE", "tREGEXP_BEG", "tDIVIDE", "tDIVIDE"),
        (" -x", "tMINUS", "tUMINUS", "tUMINUS", "tMINUS"),
        (" - x", "tMINUS", "tUMINUS", "tMINUS", "tMINUS"),
        (" -1", "tMINUS", "tUMINUS_NUM", "tUMINUS_NUM", "tMINUS"),
        (" [x]", "tLBRACK2", "tLBRACK", "tLBRACK", "tLBRACK2"),
        (" *x", "tSTAR2", "tSTAR", "tSTAR", "tSTAR2"),
        (" &x", "tAMPER2", "tAMPER", "tAMPER", "tAMPER2"),
        (" ::X", "tCOLON2", "tCOLON3", "tCOLON3", "tCOLON2"),
        (" %w[x]", "tPERCENT", "tQWORDS_BEG", "tQWORDS_BEG", "tPERCENT"),
        (" <<X\nX\n", "tLSHFT", "tSTRING_BEG", "tSTRING_BEG", "tLSHFT"),
        (" ?x", "tEH", "tCHAR", "tCHAR", "tEH"),
    ];
    fam("operators after every reserved word", 0, move |c, ctx| {
        let (w, _) = KW[c.choose(41)];
        let (x, v, b_, a, n) = X[c.choose(X.len())];
        let k = kind(w);
        let t = match k {
            'v' => v,
            'b' => b_,
            'a' => a,
            _ => n,
        };
        // `class <<` opens a singleton class; method names are read in one piece
        if (w == "class" && x.starts_with(" <<")) || (k == 'n' && (x.contains('[') || x.contains("::") || x.contains('?') || x.contains("<<"))) {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{w}{x}");
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let toks = Lexer::new(s.as_bytes().to_vec(), "w", None).tokenize_until_eof();
        ctx.end();
        match toks.iter().find(|t| t.loc.begin == w.len() + 1) {
            Some(y) if y.token_name() == t => {
                ctx.nontrivial();
                ctx.outcome("operator as expected");
            }
            y => ctx.fail(format!("expected {t}, got {y:?}")),
        }
    })
}
/// where a name ends when `=`, `!` or `?` follows directly
fn suffixes() -> Family {
    // text after the word: how much of it belongs to the word, the token after it; first where a
    // method name is expected, then elsewhere
    const X: [(&str, (usize, &str), (usize, &str)); 17] = [
        ("=b", (1, "tIDENTIFIER"), (0, "tEQL")),
        ("= b", (1, "tIDENTIFIER"), (0, "tEQL")),
        ("=(b)", (1, "tLPAREN2"), (0, "tEQL")),
        ("=;", (1, "tSEMI"), (0, "tEQL")),
        ("==b", (0, "tEQ"), (0, "tEQ")),
        ("=~b", (0, "tMATCH"), (0, "tMATCH")),
        ("=>b", (0, "tASSOC"), (0, "tASSOC")),
        ("==>b", (1, "tASSOC"), (0, "tEQ")),
        ("===b", (0, "tEQQ"), (0, "tEQQ")),
        ("!=b", (0, "tNEQ"), (0, "tNEQ")),
        ("!~b", (1, "tTILDE"), (1, "tTILDE")),
        ("! b", (1, "tIDENTIFIER"), (1, "tIDENTIFIER")),
        ("? b", (1, "tIDENTIFIER"), (1, "tIDENTIFIER")),
        ("?;", (1, "tSEMI"), (1, "tSEMI")),
        ("?(b)", (1, "tLPAREN2"), (1, "tLPAREN2")),
        ("+b", (0, ""), (0, "")),
        (".b", (0, "tDOT"), (0, "tDOT")),
    ];
    const PRE: [(&str, bool); 9] = [("", false), ("x; ", false), ("x.", false), ("x&.", false), ("x = ", false), ("x = :", true), ("def ", true), ("undef ", true), ("alias ", true)];
    const W: [&str; 9] = ["a", "ab", "a1", "_", "é", "A", "Ab", "É", "_1"];
    fam("names followed directly by `=`, `!`, `?` and operators", 0, move |c, ctx| {
        let (p, fname) = PRE[c.choose(PRE.len())];
        let w = W[c.choose(W.len())];
        let (x, f, o) = X[c.choose(X.len())];
        let (n, t) = if fname { f } else { o };
        let s = format!("{p}{w}{x}");
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let toks = Lexer::new(s.as_bytes().to_vec(), "w", None).tokenize_until_eof();
        ctx.end();
        let z = p.len() + w.len() + n;
        let i = toks.iter().position(|t| t.loc.begin == p.len());
        let name = i.map(|i| &toks[i]);
        let next = i.and_then(|i| toks.get(i + 1));
        let text = &s[p.len()..z];
        if name.map(|t| (t.loc.end, t.as_bytes().as_slice())) != Some((z, text.as_bytes())) {
            return ctx.fail(format!("expected the name {text:?} at {}, got {name:?}", p.len()));
        }
        if !t.is_empty() && next.map(|x| x.token_name()) != Some(t) {
            return ctx.fail(format!("expected {t} after the name {text:?}, got {next:?}"));
        }
        ctx.nontrivial();
        ctx.outcome("name ends where it should");
    })
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P24",
        rule: "Each execution puts one word (a reserved one, a near miss, any other kind of name, or an operator name) in one position and compares the tree, the token, or the answer of the published lookup with what Ruby's list of reserved words says.",
        assumptions: &["the names `~@` and `!@` are not judged", "words beyond the stated length are only near misses"],
        families: |th| {
            let mut v = vec![positions(), edits(false), edits(true), tokens(), modifiers(), after(), suffixes()];
            for n in 0..=3 {
                v.push(short_words(n, AL, false));
                if n > 0 {
                    v.push(short_words(n, AL, true));
                }
            }
            v.push(short_words(4, &AL[..27], false));
            if th {
                v.push(short_words(4, &AL[..27], true));
                v.push(short_words(4, AL, false));
                v.push(short_words(5, &AL[..26], false));
                v.push(short_words(5, &AL[..26], true));
            }
            v
        },
    }]
}
