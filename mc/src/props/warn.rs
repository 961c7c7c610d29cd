//! P28: warnings. Every operator after every class of preceding token in every spacing, and a table
//! of the other warnings, each with the exact list of diagnostics expected.
use super::*;
use crate::n::*;
use crate::oracle::*;
use lib_ruby_parser::{Diagnostic, DiagnosticMessage as M, ErrorLevel};

fn w(begin: usize, end: usize, message: M) -> Diagnostic {
    Diagnostic { level: ErrorLevel::Warning, message, loc: l(begin, end) }
}
fn key(d: &Diagnostic) -> (usize, usize, String) {
    (d.loc.begin, d.loc.end, format!("{:?} {:?}", d.level, d.message))
}
/// the diagnostics must be exactly `exp`; the root of the tree must satisfy `shape`
fn judge(ctx: &mut Ctx, src: &[u8], exp: Vec<Diagnostic>, shape: impl Fn(Option<&Node>) -> bool) {
    if !ctx.begin(src) {
        return;
    }
    let r = parse(src);
    ctx.end();
    let mut a: Vec<_> = exp.iter().map(key).collect();
    let mut b_: Vec<_> = r.diagnostics.iter().map(key).collect();
    a.sort();
    b_.sort();
    if a != b_ {
        ctx.fail(format!("expected diagnostics [{}], got [{}]", diag_str(&exp), diag_str(&r.diagnostics)));
        return;
    }
    if !shape(r.ast.as_deref()) {
        ctx.fail(format!("diagnostics as expected, but the tree is {:?}", r.ast));
        return;
    }
    ctx.nontrivial();
    ctx.outcome(if exp.is_empty() { "no diagnostics, as expected" } else { "warned as expected" });
}
fn last_stmt(n: &Node) -> &Node {
    match n {
        Node::Begin(Begin { statements, begin_l: None, .. }) if !statements.is_empty() => last_stmt(&statements[statements.len() - 1]),
        n => n,
    }
}
/// where a statement may stand: text before and after
const AROUND: [(&str, &str); 12] = [
    ("", ""),
    ("", "\n"),
    ("z = ", ""),
    ("(", ")"),
    ("begin; ", "; end"),
    ("if q; ", " end"),
    ("\"#{", "}\""),
    ("m { ", " }"),
    ("q && (", ")"),
    ("def m; ", "\nend"),
    ("while ", "; end"),
    ("-> { ", "}"),
];
#[derive(Clone, Copy, PartialEq)]
enum K {
    /// a value has just ended
    End,
    /// a value has just ended with `)`
    Paren,
    /// a method name that may take arguments
    Arg,
    /// the same, where a local variable of that name exists but does not count
    ArgOnly,
}
const LEFT: [(&str, K); 46] = [
    ("x", K::End),
    ("1", K::End),
    ("1.5", K::End),
    ("2r", K::End),
    ("3i", K::End),
    ("'s'", K::End),
    ("\"s\"", K::End),
    ("\"s#{x}\"", K::End),
    ("`s`", K::End),
    ("?a", K::End),
    (":s", K::End),
    (":+", K::End),
    (":\"s\"", K::End),
    ("%(s)", K::End),
    ("%w[a b]", K::End),
    ("%i[a b]", K::End),
    ("/re/", K::End),
    ("/re/mi", K::End),
    ("@a", K::End),
    ("@@a", K::End),
    ("$a", K::End),
    ("$1", K::End),
    ("$~", K::End),
    ("[1]", K::End),
    ("x[1]", K::End),
    ("foo[1]", K::End),
    ("foo{}", K::End),
    ("begin;end", K::End),
    ("foo do end", K::End),
    ("nil", K::End),
    ("self", K::End),
    ("true", K::End),
    ("false", K::End),
    ("__FILE__", K::End),
    ("__LINE__", K::End),
    ("(1)", K::Paren),
    ("foo()", K::Paren),
    ("x.foo(1)", K::Paren),
    ("foo", K::Arg),
    ("Foo", K::Arg),
    ("foo?", K::Arg),
    ("foo!", K::Arg),
    ("x.foo", K::ArgOnly),
    ("x.x", K::ArgOnly),
    ("x&.Foo", K::ArgOnly),
    ("x::foo", K::ArgOnly),
];
/// operator, operand, binary after a name with a space before and none after?
#[derive(Clone, Copy, PartialEq)]
enum Pre {
    No,
    Star,
    DStar,
    Amp,
    AmpSym,
    First(u8),
    Regexp,
    /// read as an argument without a warning
    Quiet,
}
/// operator, right operand, what the operator might have meant (warned about after a value), what it
/// means after a method name when there is a space before it and none after
const OPS: [(&str, &str, Option<&str>, Pre); 47] = [
    ("*", "y", Some("argument prefix"), Pre::Star),
    ("*", "[y]", Some("argument prefix"), Pre::Star),
    ("*", "1", Some("argument prefix"), Pre::Star),
    ("**", "y", Some("argument prefix"), Pre::DStar),
    ("**", "1", Some("argument prefix"), Pre::DStar),
    ("&", "y", Some("argument prefix"), Pre::Amp),
    ("&", "(y)", Some("argument prefix"), Pre::Amp),
    ("&", "@y", Some("argument prefix"), Pre::Amp),
    ("&", ":y", Some("argument prefix"), Pre::AmpSym),
    ("&", ":Y", Some("argument prefix"), Pre::AmpSym),
    ("&", ":é", Some("argument prefix"), Pre::AmpSym),
    ("&", ":\"y\"", Some("argument prefix"), Pre::AmpSym),
    ("&", ":'y'", Some("argument prefix"), Pre::AmpSym),
    ("&", ":+", Some("argument prefix"), Pre::Amp),
    ("&", "::Y", Some("argument prefix"), Pre::Amp),
    ("-", "y", Some("unary operator"), Pre::First(b'-')),
    ("-", "1", Some("unary operator"), Pre::First(b'-')),
    ("-", "1.5", Some("unary operator"), Pre::First(b'-')),
    ("-", "(1)", Some("unary operator"), Pre::First(b'-')),
    ("-", "é", Some("unary operator"), Pre::First(b'-')),
    ("+", "y", Some("unary operator"), Pre::First(b'+')),
    ("+", "1", Some("unary operator"), Pre::First(b'+')),
    ("+", "2r", Some("unary operator"), Pre::First(b'+')),
    ("+", "\"s\"", Some("unary operator"), Pre::First(b'+')),
    ("/", "y", Some("regexp literal"), Pre::Regexp),
    ("/", "1", Some("regexp literal"), Pre::Regexp),
    ("/", "(y)", Some("regexp literal"), Pre::Regexp),
    ("%", "y", Some("string literal"), Pre::Quiet),
    ("%", "1", Some("string literal"), Pre::Quiet),
    ("%", "(y)", Some("string literal"), Pre::Quiet),
    ("<<", "y", Some("here document"), Pre::Quiet),
    ("<<", "1", Some("here document"), Pre::Quiet),
    ("<<", "[y]", Some("here document"), Pre::No),
    ("<<", "@y", Some("here document"), Pre::No),
    (">>", "y", None, Pre::No),
    ("|", "y", None, Pre::No),
    ("^", "y", None, Pre::No),
    ("==", "y", None, Pre::No),
    ("!=", "y", None, Pre::No),
    ("=~", "y", None, Pre::No),
    ("<", "y", None, Pre::No),
    (">=", "y", None, Pre::No),
    ("<=>", "y", None, Pre::No),
    ("&&", "y", None, Pre::No),
    ("||", "y", None, Pre::No),
    ("..", "y", None, Pre::No),
    ("...", "y", None, Pre::No),
];
const BEFORE: [&str; 6] = ["", " ", "\t", "  ", " \\\n", " \\\n "];
const AFTER: [&str; 6] = ["", " ", "\t", "\n", " # c\n", "\\\n"];

fn operators(th: bool) -> Family {
    fam(if th { "operators in all places" } else { "operators" }, if th { 2 } else { 1 }, move |c, ctx| {
        let (left, k) = LEFT[c.choose(LEFT.len())];
        let (op, rhs, means, pre) = OPS[c.choose(OPS.len())];
        let bf = BEFORE[c.choose(BEFORE.len())];
        let af = AFTER[c.choose(AFTER.len())];
        let (pa, pb) = AROUND[c.dev(AROUND.len())];
        // a further argument, operator or the like after the operand
        let more = ["", " + y", ".z"][c.dev(3)];
        let mut s = String::from("x = y = 1; ");
        // `def` does not see the variables
        if pa.starts_with("def") {
            s = format!("{pa}{s}");
        } else {
            s += pa;
        }
        let spaced = bf != "";
        // a backslash is not white space, so it counts as the start of an operand
        let tight = af == "" || af == "\\\n";
        let isarg = k == K::Arg || k == K::ArgOnly;
        let glued = bf == "" && !matches!(left.as_bytes()[left.len() - 1], b'\'' | b'"' | b'`' | b')' | b']' | b'}');
        s += left;
        s += bf;
        let at = s.len();
        s += op;
        let opend = s.len();
        let mut exp = vec![];
        let mut shape_arg = false;
        if spaced && tight && isarg && pre != Pre::No {
            // read as an argument
            shape_arg = true;
            if af != "" && !matches!(pre, Pre::Star | Pre::DStar | Pre::Amp | Pre::AmpSym | Pre::First(_)) {
                ctx.outcome("out of model");
                return;
            }
            match pre {
                Pre::Star => exp.push(w(at, opend, M::StarInterpretedAsArgPrefix {})),
                Pre::DStar => exp.push(w(at, opend, M::DStarInterpretedAsArgPrefix {})),
                Pre::Amp => exp.push(w(at, opend, M::AmpersandInterpretedAsArgPrefix {})),
                Pre::AmpSym => {
                    if af != "" {
                        exp.push(w(at, opend, M::AmpersandInterpretedAsArgPrefix {}))
                    }
                }
                Pre::First(o) => exp.push(w(at, opend, M::AmbiguousFirstArgument { operator: o })),
                Pre::Regexp => exp.push(w(at, opend, M::AmbiguousRegexp {})),
                _ => {}
            }
            s += af;
            match (op, pre) {
                ("/", _) => {
                    s += rhs;
                    s += "/";
                }
                ("%", _) => {
                    if rhs != "(y)" {
                        ctx.outcome("out of model");
                        return;
                    }
                    s += rhs;
                }
                ("<<", _) => {
                    // a heredoc; only where its body can follow
                    if pb != "\n" || more != "" || rhs == "[y]" || rhs == "@y" {
                        ctx.outcome("out of model");
                        return;
                    }
                    s += rhs;
                    s += "\n";
                    s += rhs;
                }
                _ => s += rhs,
            }
        } else {
            if spaced && tight && k != K::Paren {
                if let Some(m) = means {
                    exp.push(w(at, opend, M::AmbiguousOperator { operator: op.into(), interpreted_as: m.into() }));
                }
            }
            s += af;
            s += rhs;
        }
        if glued && (left.ends_with('?') || left.ends_with('!')) && op.starts_with(['=', '~']) {
            // the last character of the name goes with the operator
            ctx.outcome("out of model");
            return;
        }
        if op.starts_with("..") && af.ends_with('\n') && af != "\\\n" || (left == "foo do end" && pa == "while ") {
            ctx.outcome("out of model");
            return;
        }
        s += more;
        s += pb;
        judge(ctx, s.as_bytes(), exp, move |n| {
            let Some(n) = n else { return false };
            if pa != "" || more != "" {
                return true;
            }
            match last_stmt(n) {
                Node::Send(Send { args, recv, method_name, .. }) => {
                    if shape_arg {
                        args.len() == 1 && method_name != op
                    } else if op == "!=" || op == "=~" {
                        true
                    } else {
                        method_name == op && args.len() == 1 && recv.is_some()
                    }
                }
                Node::CSend(_) => shape_arg,
                _ => matches!(op, "&&" | "||" | ".." | "..." | "=~"),
            }
        });
    })
}

fn around(c: &mut Chooser) -> (&'static str, &'static str) {
    AROUND[c.choose(AROUND.len())]
}
fn any(n: Option<&Node>) -> bool {
    n.is_some()
}
fn dots() -> Family {
    const L: [&str; 8] = ["1", "x", "foo", "(1)", "x.y", "[1]", "'s'", ""];
    const EOL: [(&str, bool); 14] = [
        ("", true),
        (" ", true),
        ("\n2", true),
        (" \n2", true),
        ("\t\t\n2", true),
        (" # c\n2", true),
        ("# c", true),
        ("\r\n2", true),
        ("\n\n2", true),
        ("2", false),
        (" 2", false),
        (" 2 # c", false),
        ("\\\n2", false),
        (" y\n", false),
    ];
    // text before, text after, whether a bracket is open
    const IN: [(&str, &str, bool); 13] = [
        ("", "", false),
        ("(", ")", true),
        ("((", "))", true),
        ("m { ", " }", true),
        ("m do ", "\nend", false),
        ("begin; ", "\nend", false),
        ("def m; ", "\nend", false),
        ("[1]; ", "", false),
        ("m(1) { }; ", "", false),
        ("m([", "])", true),
        ("-> { ", " }", true),
        ("if q then ", "\nend", false),
        ("{ q => (1) }; ", "", false),
    ];
    fam("triple dots at the end of a line", 0, move |c, ctx| {
        let left = L[c.choose(L.len())];
        let op = ["..", "..."][c.choose(2)];
        let (eol, at_eol) = EOL[c.choose(EOL.len())];
        let (a, z, open) = IN[c.choose(IN.len())];
        let sp = ["", " "][c.choose(2)];
        // nothing to the right: the next token closes the range
        let needs = left == "" && (eol == "" || eol == " " || eol == "# c");
        if needs || (eol.ends_with("# c") && z != "" && !z.starts_with('\n')) || (eol.trim() == "" && z != "" && open && at_eol && !eol.contains('\n')) {
            ctx.outcome("out of model");
            return;
        }
        // something directly before the dots of a beginless range would be its beginning
        if left == "" && a.ends_with(' ') && false {
            return;
        }
        let mut s = String::from("x = y = 1; ");
        if a.starts_with("def") {
            s = String::from("def m; x = y = 1; ");
        } else {
            s += a;
        }
        s += left;
        s += sp;
        let at = s.len();
        s += op;
        let end = s.len();
        s += eol;
        s += z;
        let exp = if op == "..." && at_eol && !open { vec![w(at, end, M::TripleDotAtEol {})] } else { vec![] };
        judge(ctx, s.as_bytes(), exp, any);
    })
}
fn if_eol() -> Family {
    const EOL: [(&str, bool); 10] = [("\n", true), (" \n", true), ("\t\n\n", true), (" # c\n", true), ("# c\n# d\n", true), ("\r\n", true), (" ", false), ("\\\n", false), (" \\\n ", false), (" q; ", false)];
    // text before the keyword, keyword, text after, whether the keyword starts a conditional
    const KW: [(&str, &str, &str, bool); 12] = [
        ("", "if", "x; end", true),
        ("", "if", "x then 1 else 2 end", true),
        ("if x; ", "elsif", "x; end", true),
        ("if x; elsif x; 1; ", "elsif", "x; 2; else 3; end", true),
        ("", "unless", "x; end", false),
        ("", "while", "x; end", false),
        ("", "until", "x; end", false),
        ("1 ", "if", "x", false),
        ("1 ", "unless", "x", false),
        ("1 ", "while", "x", false),
        ("", "case", "x; when 1; end", false),
        ("case x; ", "when", "1; end", false),
    ];
    fam("conditionals at the end of a line", 0, move |c, ctx| {
        let (a, k, z, cond) = KW[c.choose(KW.len())];
        let (eol, at) = EOL[c.choose(EOL.len())];
        let (pa, pb) = around(c);
        if (a == "1 " && (pa == "while " || pa == "z = ")) || (eol == " q; " && (a == "1 " || k == "case" || k == "when")) {
            ctx.outcome("out of model");
            return;
        }
        let mut s = format!("{pa}x = 1; ");
        if pa == "while " || pa == "z = " {
            s = format!("x = 1; {pa}");
        }
        s += a;
        let b0 = s.len();
        s += k;
        let e0 = s.len();
        s += eol;
        if eol == " q; " {
            s += "";
            // the condition is there; what follows is the body
        }
        s += z;
        s += pb;
        let exp = if cond && at { vec![w(b0, e0, M::TokAtEolWithoutExpression { token_name: k.into() })] } else { vec![] };
        if eol == " q; " && z.contains("then") {
            ctx.outcome("out of model");
            return;
        }
        judge(ctx, s.as_bytes(), exp, any);
    })
}
fn def_parens() -> Family {
    const NAMES: [&str; 22] = ["foo", "foo?", "foo!", "Foo", "+", "-@", "[]", "[]=", "<=>", "!", "`", "if", "end", "nil", "self.foo", "x.foo", "Foo.foo", "Foo::bar", "self.if", "(1+x).foo", "self.+", "é"];
    const SP: [&str; 6] = ["", " ", "\t", "  ", "\\\n", " \\\n "];
    const PS: [&str; 8] = ["()", "(a)", "( a )", "(\na)", "(a, b = 1, *c, d:, **e, &f)", "(...)", "((a, b))", "(a = (1))"];
    fam("definitions", 0, move |c, ctx| {
        let n = NAMES[c.choose(NAMES.len())];
        let sp = SP[c.choose(SP.len())];
        let ps = PS[c.choose(PS.len())];
        let body = ["; end", "\nend", " 1; end", " = 1"][c.choose(4)];
        let (pa, pb) = around(c);
        if n == "[]=" && body == " = 1" {
            // not allowed
            ctx.outcome("out of model");
            return;
        }
        let mut s = format!("x = 1; {pa}def {n}");
        if n == "x.foo" && pa == "def m; " {
            // not a variable there; still a receiver
        }
        s += sp;
        let at = s.len();
        s += ps;
        s += body;
        s += pb;
        let exp = if sp != "" { vec![w(at, at + 1, M::ParenthesesIterpretedAsArglist {})] } else { vec![] };
        judge(ctx, s.as_bytes(), exp, any);
    })
}
fn lambda_parens() -> Family {
    const PS: [&str; 5] = ["()", "(a)", "(a = (1))", "(a; b)", "((a, b), *c)"];
    fam("lambdas and calls with spaced parentheses", 0, move |c, ctx| {
        let sp = ["", " ", "\t"][c.choose(3)];
        let (pa, pb) = around(c);
        let k = c.choose(10);
        let s = match k {
            0..=4 => format!("->{sp}{}{sp}{{ }}", PS[k]),
            5 => format!("foo{sp}(1)"),
            6 => format!("foo{sp}(1){sp}{{ }}"),
            7 => format!("x.foo{sp}(1)"),
            8 => format!("yield{sp}(1)"),
            _ => format!("[->{sp}(a){sp}{{ }}, ->{sp}(b){sp}{{ }}]"),
        };
        // yield needs a method
        let s = if k == 8 {
            if pa == "def m; " || pa == "z = " || pa == "while " {
                ctx.outcome("out of model");
                return;
            }
            format!("def q; {pa}{s}{pb}\nend")
        } else {
            format!("x = 1; {pa}{s}{pb}")
        };
        judge(ctx, s.as_bytes(), vec![], any);
    })
}
fn cr(n: usize) -> Family {
    const P: [&str; 9] = ["1;", "\r", "\r\n", "\n", " ", "'\r';", "\"a\r\";", "# \r c\n", "%w[\r];"];
    fam(format!("carriage returns, {n} pieces"), 0, move |c, ctx| {
        let mut s = String::new();
        let mut pcs = vec![];
        for _ in 0..n {
            let p = P[c.choose(P.len())];
            pcs.push((s.len(), p));
            s += p;
        }
        let mut exp = vec![];
        let mut warned = false;
        for (i, (at, p)) in pcs.iter().enumerate() {
            if *p == "\r" && !pcs.get(i + 1).map_or(false, |n| n.1.starts_with('\n')) {
                // one warning per line
                if !warned {
                    exp.push(w(*at, *at + 1, M::SlashRAtMiddleOfLine {}));
                }
                warned = true;
            } else if p.ends_with('\n') {
                warned = false;
            }
        }
        // a carriage return at the very end, or one that cuts a `\r\n` pair, is covered by the rule
        judge(ctx, s.as_bytes(), exp, |_| true);
    })
}
fn ternary() -> Family {
    const COND: [(&str, bool); 14] = [("x", false), ("1", false), ("(x)", false), ("[1]", false), ("@a", false), ("nil", false), ("foo()", false), ("'s'", false), ("foo", true), ("Foo", true), ("foo!", true), ("x.foo", true), ("x.x", true), ("x&.foo", true)];
    const SPQ: [&str; 3] = [" ", "\t", " \\\n"];
    // value, first identifier run, kind
    const VAL: [(&str, &str); 20] = [
        ("ab", "ab"),
        ("aé", "aé"),
        ("a1", "a1"),
        ("_b", "_b"),
        ("__", "__"),
        ("Ab", "Ab"),
        ("xx.yy", "xx"),
        ("ab[1]", "ab"),
        ("ab(1)", "ab"),
        ("12", "12"),
        ("nil", "nil"),
        ("self", "self"),
        ("x", ""),
        ("1", ""),
        ("@ab", ""),
        ("[1]", ""),
        ("(1)", ""),
        ("\"ab\"", ""),
        (":ab", ""),
        ("$ab", ""),
    ];
    fam("ternary conditions", 0, move |c, ctx| {
        let (cond, name) = COND[c.choose(COND.len())];
        let sp1 = SPQ[c.choose(SPQ.len())];
        let sp2 = ["", " ", "\n", "\t"][c.choose(4)];
        let (v, run) = VAL[c.choose(VAL.len())];
        let (sp3, sp4) = [(" ", " "), (" ", "\n"), ("\n", " "), (" ", ""), ("\n", ""), ("", " "), ("", "")][c.choose(7)];
        let (pa, pb) = around(c);
        let first = v.as_bytes()[0];
        // `?` and one character make a character literal after a name; the colon may make a label or a symbol
        let word = first.is_ascii_alphanumeric() || first == b'_';
        if name && sp2 == "" && run == "" {
            ctx.outcome("out of model");
            return;
        }
        let value_ends = matches!(v, "12" | "nil" | "self" | "x" | "1" | "@ab" | "[1]" | "\"ab\"" | ":ab" | "$ab" | "ab[1]");
        let paren = v.ends_with(')');
        if sp4 == "" && !value_ends && !paren {
            // `ab :c` passes a symbol, `ab:` is a label
            ctx.outcome("out of model");
            return;
        }
        if sp3 == "" && ((word && v.as_bytes()[v.len() - 1] != b')' && v.as_bytes()[v.len() - 1] != b']' && v != "1" && v != "12") || v == ":ab" || v == "\"ab\"") {
            ctx.outcome("out of model");
            return;
        }
        if sp3 == "\n" && pa == "while " && false {
            return;
        }
        let mut s = format!("x = 1; {pa}");
        if pa == "def m; " {
            s = format!("{pa}x = 1; ");
        }
        s += cond;
        s += sp1;
        let q = s.len();
        s += "?";
        s += sp2;
        s += v;
        s += sp3;
        let cl = s.len();
        s += ":";
        s += sp4;
        s += "y";
        s += pb;
        let mut exp = vec![];
        if name && sp2 == "" {
            exp.push(w(q, q + 1, M::AmbiguousTernaryOperator { condition: run.into() }));
        }
        if sp3 != "" && sp4 == "" && value_ends {
            // a line break is white space too, but it is a token of its own before the colon
            if sp3 == " " {
                exp.push(w(cl, cl + 1, M::AmbiguousOperator { operator: ":".into(), interpreted_as: "symbol literal".into() }));
            } else {
                ctx.outcome("out of model");
                return;
            }
        }
        if sp3 == "\n" && sp4 == "" {
            ctx.outcome("out of model");
            return;
        }
        judge(ctx, s.as_bytes(), exp, any);
    })
}
fn comparisons(n: usize) -> Family {
    const OP: [&str; 9] = ["<", "<=", ">", ">=", "+", "|", "==", "&&", "and"];
    const V: [&str; 4] = ["x", "1", "foo", "(x < 1)"];
    fam(format!("comparison chains of {n} operators"), 1, move |c, ctx| {
        let sp = [" ", ""][c.choose(2)];
        let mut s = String::from("x = 1; ");
        let mut exp = vec![];
        let (mut rel, mut eq) = (0, 0);
        s += V[c.dev(4)];
        for _ in 0..n {
            let op = OP[c.choose(OP.len())];
            let sp = if op == "and" { " " } else { sp };
            s += sp;
            let at = s.len();
            s += op;
            match op {
                "==" => {
                    eq += 1;
                    rel = 0;
                }
                "&&" | "and" => {
                    eq = 0;
                    rel = 0;
                }
                "+" | "|" => {}
                _ => {
                    rel += 1;
                    if rel > 1 {
                        exp.push(w(at, at + op.len(), M::ComparisonAfterComparison { comparison: op.into() }));
                    }
                }
            }
            if eq > 1 {
                ctx.outcome("out of model");
                return;
            }
            s += sp;
            s += V[c.dev(4)];
        }
        judge(ctx, s.as_bytes(), exp, any);
    })
}
fn dup_keys(n: usize, th: bool) -> Family {
    // text, offset and length of the key, identity of the value (0: never equal to another)
    const KEYS: [(&str, usize, usize, usize); 42] = [
        ("a: 1", 0, 1, 1),
        (":a => 1", 0, 2, 1),
        (":\"a\" => 1", 0, 4, 1),
        ("\"a\": 1", 0, 3, 1),
        ("%s(a) => 1", 0, 5, 1),
        ("b: 1", 0, 1, 2),
        (":b => 1", 0, 2, 2),
        ("A: 1", 0, 1, 3),
        ("a?: 1", 0, 2, 4),
        ("if: 1", 0, 2, 5),
        (":if => 1", 0, 3, 5),
        ("\"a\" => 1", 0, 3, 10),
        ("'a' => 1", 0, 3, 10),
        ("%q(a) => 1", 0, 5, 10),
        ("?a => 1", 0, 2, 10),
        ("\"b\" => 1", 0, 3, 11),
        ("\"\\x61\" => 1", 0, 6, 10),
        ("1 => 1", 0, 1, 20),
        ("2 => 1", 0, 1, 21),
        ("-1 => 1", 0, 2, 22),
        ("1.0 => 1", 0, 3, 30),
        ("1.5 => 1", 0, 3, 31),
        ("1r => 1", 0, 2, 40),
        ("1i => 1", 0, 2, 50),
        ("/a/ => 1", 0, 3, 60),
        ("%r{a} => 1", 0, 5, 60),
        ("/a/i => 1", 0, 4, 61),
        ("/a/mi => 1", 0, 5, 62),
        ("/a/im => 1", 0, 5, 62),
        ("/b/ => 1", 0, 3, 63),
        ("/a#{1}/ => 1", 0, 7, 0),
        ("\"a#{1}\" => 1", 0, 7, 0),
        ("\"a#{1}\": 1", 0, 7, 0),
        ("a => 1", 0, 1, 0),
        ("nil => 1", 0, 3, 0),
        ("self => 1", 0, 4, 0),
        ("A => 1", 0, 1, 0),
        ("[1] => 1", 0, 3, 0),
        ("@a => 1", 0, 2, 0),
        ("(1) => 1", 0, 3, 0),
        ("**a", 0, 0, 0),
        ("1..2 => 1", 0, 4, 0),
    ];
    const FORM: [(&str, &str); 9] = [("p({", "})"), ("m(", ")"), ("m ", ""), ("[", "]"), ("x[", "]"), ("x.m(1, ", ")"), ("x = {", ",}"), ("p({ 1i => {", "}})"), ("p \"#{{", "}}\"")];
    fam(format!("repeated hash keys, {n} pairs"), 0, move |c, ctx| {
        let (a, z) = if n > 2 && !th { FORM[0] } else { FORM[c.choose(FORM.len())] };
        let mut s = String::from(a);
        let mut seen: Vec<usize> = vec![];
        let mut exp = vec![];
        for i in 0..n {
            let lim = if i > 0 && n > 2 && !th { 25 } else { KEYS.len() };
            let (t, o, len, id) = KEYS[c.choose(lim)];
            if i > 0 {
                s += ", ";
            }
            if id != 0 && seen.contains(&id) {
                exp.push(w(s.len() + o, s.len() + o + len, M::DuplicateHashKey {}));
            }
            seen.push(id);
            if i == 0 && a == "m " && (t.starts_with("[") || t.starts_with('/') || t.starts_with('-') || t.starts_with("**") || t.starts_with('%') || t.starts_with('?') || t.starts_with('(')) {
                // warned about for another reason
                ctx.outcome("out of model");
                return;
            }
            s += t;
        }
        s += z;
        judge(ctx, s.as_bytes(), exp, any);
    })
}
fn nth() -> Family {
    const N: [(&str, bool); 14] = [
        ("1", false),
        ("9", false),
        ("10", false),
        ("100", false),
        ("65536", false),
        ("1073741822", false),
        ("1073741823", false),
        ("1073741824", true),
        ("1999999999", true),
        ("2147483647", true),
        ("4294967297", true),
        ("9223372036854775808", true),
        ("18446744073709551617", true),
        ("100000000000000000000000000000000000001", true),
    ];
    fam("number references", 0, move |c, ctx| {
        let (n, big) = N[c.choose(N.len())];
        let (pa, pb) = around(c);
        let k = c.choose(4);
        let (x, z) = [("", ""), ("m(", ")"), ("1 + ", " + 2"), ("[", "]")][k];
        let s = format!("{pa}{x}${n}{z}{pb}");
        let at = pa.len() + x.len();
        let exp = if big { vec![w(at, at + n.len() + 1, M::NthRefIsTooBig { nth_ref: n.into() })] } else { vec![] };
        judge(ctx, s.as_bytes(), exp, any);
    })
}
/// white space written raw in a control or meta escape: the suggestion, and the place
fn escapes() -> Family {
    const PRE: [(&str, &str, &str); 7] = [
        // escape, suggestion for a space, suggestion for another white space character
        ("\\M-", "\\M-", "\\M-"),
        ("\\C-", "\\C-", ""),
        ("\\c", "\\C-", ""),
        ("\\M-\\C-", "\\M-\\C-", "\\M-"),
        ("\\M-\\c", "\\M-\\C-", "\\M-"),
        ("\\C-\\M-", "\\C-\\M-", "\\M-"),
        ("\\c\\M-", "\\C-\\M-", "\\M-"),
    ];
    const WS: [(&str, char); 6] = [(" ", 's'), ("\t", 't'), ("\n", 'n'), ("\x0b", 'v'), ("\x0c", 'f'), ("a", '-')];
    const LIT: [(&str, &str); 8] = [("\"", "\""), ("\"ab", "cd\""), ("?", ""), ("%(", ")"), (":\"", "\""), ("%W[a", "b]"), ("`", "`"), ("<<A\n", "\nA\n")];
    fam("white space in control and meta escapes", 0, move |c, ctx| {
        let (e, sp, other) = PRE[c.choose(PRE.len())];
        let (ws, code) = WS[c.choose(WS.len())];
        let (a, z) = LIT[c.choose(LIT.len())];
        let tail = ["", " + 1"][c.choose(2)];
        if tail != "" && a.starts_with("<<") {
            ctx.outcome("out of model");
            return;
        }
        let mut s = String::from("x = ");
        let at = s.len();
        s += a;
        let eb = s.len();
        s += e;
        s += ws;
        let ee = s.len();
        s += z;
        let end = s.len();
        s += tail;
        let src = s.as_bytes();
        if !ctx.begin(src) {
            return;
        }
        let r = parse(src);
        ctx.end();
        // a byte above 0x7f makes some of these literals invalid text
        if (e.contains("M-") && a == ":\"") || (ws == "\n" && (a == "%W[a" && false)) {
            ctx.outcome("out of model");
            return;
        }
        let ok = if code == '-' {
            r.diagnostics.is_empty()
        } else {
            let sug = format!("{}\\{}", if code == 's' { sp } else { other }, code);
            r.diagnostics.len() == 1
                && r.diagnostics[0].level == ErrorLevel::Warning
                && r.diagnostics[0].message == (M::InvalidCharacterSyntax { suggestion: sug })
                && r.diagnostics[0].loc.begin >= at
                && r.diagnostics[0].loc.begin <= eb
                && r.diagnostics[0].loc.end >= ee
                && r.diagnostics[0].loc.end <= end
        };
        if !ok || r.ast.is_none() {
            ctx.fail(format!("expected {} for the escape at {eb}..{ee}, got [{}], suggestion {:?}", if code == '-' { "no diagnostics" } else { "one warning" }, diag_str(&r.diagnostics), (sp, other, code)));
            return;
        }
        ctx.nontrivial();
        ctx.outcome("escape as expected");
    })
}
/// `?` before white space where only a character literal can stand
fn qmark() -> Family {
    const IN: [(&str, &str); 6] = [("x = ", ""), ("p(", ")"), ("[", "]"), ("1 + ", ""), ("", ""), ("m(1, ", ")")];
    const WS: [(&str, char); 6] = [(" ", 's'), ("\t", 't'), ("\n", 'n'), ("\x0b", 'v'), ("\x0c", 'f'), ("\r", 'r')];
    fam("a question mark and white space", 0, move |c, ctx| {
        let (a, z) = IN[c.choose(IN.len())];
        let (ws, code) = WS[c.choose(WS.len())];
        let s = format!("{a}?{ws}{z}");
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let r = parse(s.as_bytes());
        ctx.end();
        let m = M::InvalidCharacterSyntax { suggestion: format!("?\\{code}") };
        let n = r.diagnostics.iter().filter(|d| d.level == ErrorLevel::Warning && d.message == m && d.loc.begin == a.len() && d.loc.end == a.len() + 2).count();
        if n != 1 || errors(&r) == 0 {
            ctx.fail(format!("expected the warning {:?} at {}..{} and an error, got [{}]", m.render(), a.len(), a.len() + 2, diag_str(&r.diagnostics)));
            return;
        }
        ctx.nontrivial();
        ctx.outcome("warned and rejected as expected");
    })
}
/// several statements: each is warned about on its own, whatever stands around it
fn together(n: usize) -> Family {
    fam(format!("{n} statements together"), 0, move |c, ctx| {
        let bl = ["", "m { ", "m do ", "def q; x = 1; ", "\"#{"][c.choose(5)];
        let sep = ["; ", "\n", " ;\n"][c.choose(3)];
        let mut s = String::from("x = 1; ");
        s += bl;
        let mut exp = vec![];
        for i in 0..n {
            if i > 0 {
                s += sep;
            }
            let at = s.len();
            let k = c.choose(26);
            let first = |o| M::AmbiguousFirstArgument { operator: o };
            let amb = |o: &str, m: &str| M::AmbiguousOperator { operator: o.into(), interpreted_as: m.into() };
            let (t, d): (&str, Option<(usize, usize, M)>) = match k {
                0 => ("foo *x", Some((4, 5, M::StarInterpretedAsArgPrefix {}))),
                1 => ("foo **x", Some((4, 6, M::DStarInterpretedAsArgPrefix {}))),
                2 => ("foo &x", Some((4, 5, M::AmpersandInterpretedAsArgPrefix {}))),
                3 => ("foo -x", Some((4, 5, first(b'-')))),
                4 => ("foo +1", Some((4, 5, first(b'+')))),
                5 => ("foo /x/", Some((4, 5, M::AmbiguousRegexp {}))),
                6 => ("x -1", Some((2, 3, amb("-", "unary operator")))),
                7 => ("x *1", Some((2, 3, amb("*", "argument prefix")))),
                8 => ("x /1", Some((2, 3, amb("/", "regexp literal")))),
                9 => ("x %1", Some((2, 3, amb("%", "string literal")))),
                10 => ("x <<1", Some((2, 4, amb("<<", "here document")))),
                11 => ("x ? 1 :x", Some((6, 7, amb(":", "symbol literal")))),
                12 => ("foo ?xx : x", Some((4, 5, M::AmbiguousTernaryOperator { condition: "xx".into() }))),
                13 => ("if\nx; end", Some((0, 2, M::TokAtEolWithoutExpression { token_name: "if".into() }))),
                14 => ("def z (a); end", Some((6, 7, M::ParenthesesIterpretedAsArglist {}))),
                15 => ("1 < x < 2", Some((6, 7, M::ComparisonAfterComparison { comparison: "<".into() }))),
                16 => ("m(a: 1, a: 2)", Some((8, 9, M::DuplicateHashKey {}))),
                17 => ("$1073741824", Some((0, 11, M::NthRefIsTooBig { nth_ref: "1073741824".into() }))),
                18 => ("x", None),
                19 => ("foo - x", None),
                20 => ("x - 1", None),
                21 => ("foo(*x, -x, &x)", None),
                22 => ("foo x, *x, **x, &x", None),
                23 => ("x-1", None),
                24 => ("def z(a); end", None),
                _ => ("if x\nx; end", None),
            };
            s += t;
            if let Some((a, b_, m)) = d {
                exp.push(w(at + a, at + b_, m));
            }
        }
        s += match bl {
            "" => "",
            "m { " => " }",
            "\"#{" => "}\"",
            _ => "\nend",
        };
        judge(ctx, s.as_bytes(), exp, any);
    })
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P28",
        rule: "Each execution writes one program from the model's table of ambiguous and unambiguous spellings and compares the complete list of diagnostics (kind, values, location) with the model's.",
        assumptions: &[],
        families: |th| {
            let mut v = vec![operators(false), dots(), if_eol(), def_parens(), lambda_parens(), ternary(), nth(), escapes(), qmark(), together(2)];
            v.extend((1..=if th { 7 } else { 5 }).map(cr));
            v.extend((1..=if th { 6 } else { 4 }).map(comparisons));
            v.extend((2..=3).map(|n| dup_keys(n, th)));
            if th {
                v.push(operators(true));
                v.push(together(3));
                v.push(together(4));
            }
            v
        },
    }]
}
