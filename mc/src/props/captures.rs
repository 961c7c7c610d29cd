//! P22, with the parser's `onig` feature on: a regular-expression literal on the left of `=~`
//! declares its named groups as variables.
use super::scope::collect;
use super::*;
use crate::n::*;
use crate::oracle::*;
use std::collections::HashMap;

/// text of a piece (N: a name), does it capture N; `x` option: does it then
const P: &[(&str, bool, bool)] = &[
    ("x", false, false),
    ("(?<N>y)", true, true),
    ("(?'N'y)", true, true),
    ("(?:(?<N>y))", true, true),
    ("(?=(?<N>y))", true, true),
    ("(?<N>(y))", true, true),
    ("\\(\\?<N>", false, false),
    ("[(?<N>)]", false, false),
    ("(?#(?<N>y)", false, false),
    (" # (?<N>y)\n", true, false),
    ("(?:N)", false, false),
    ("(?<N>[é-ü]\\u00e9)", true, true),
    ("\\\\(?<N>y)", true, true),
    ("(?<N>\\k<N>)", true, true),
    ("(?i:(?<N>y))", true, true),
    ("(?<N>a\\/)|b", true, true),
    ("(?<=y)", false, false),
    ("(?<!N)", false, false),
];
const NM: [&str; 5] = ["a", "b", "é", "_x1", "aB日"];
/// form of the literal, the options
const FORM: [(&str, &str, bool); 7] = [("/", "/", false), ("/", "/i", false), ("/", "/x", true), ("/", "/mox", true), ("%r{", "}", false), ("%r<", ">m", false), ("%r!", "!x", true)];
/// what becomes of the literal: text before and after it, is it matched directly, and does what the
/// match declares stay visible after all of this
const USE: [(&str, &str, bool, bool); 22] = [
    ("", " =~ v", true, true),
    ("", "=~v", true, true),
    ("", " =~ foo(1)", true, true),
    ("v =~ ", "", false, true),
    ("(", ") =~ v", false, true),
    ("", " !~ v", false, true),
    ("", " == v", false, true),
    ("", ".=~(v)", false, true),
    ("", ".match(v)", false, true),
    ("w = ", " =~ v", true, true),
    ("foo(", " =~ v)", true, true),
    ("foo ", " =~ v", true, true),
    ("if ", " =~ v then 1 end", true, true),
    ("1 while ", " =~ v", true, true),
    ("!(", " =~ v)", true, true),
    ("foo { ", " =~ v }", true, false),
    ("def m = ", " =~ v", true, false),
    ("class K; ", " =~ v; end", true, false),
    ("[1, ", " =~ v]", true, true),
    ("\"#{", " =~ v}\"", true, true),
    ("", " =~ v && ", true, true),
    ("begin; ", " =~ v; end", true, true),
];
fn captures(n: usize, few: bool) -> Family {
    let forms = if few { 3 } else { FORM.len() };
    let uses = if few { 4 } else { USE.len() };
    fam(format!("named groups: {n} of {} pieces of a pattern x {} names x {forms} literals x {uses} uses", P.len(), NM.len()), 0, move |c, ctx| {
        let (o, z, x) = FORM[c.choose(forms)];
        let (pre, post, direct, stays) = USE[c.choose(uses)];
        // how a piece comes: as it is, or after an interpolation that is or is not static
        let interp = c.choose(4);
        let mut re = String::new();
        let mut names = vec![];
        for i in 0..n {
            let p = P[c.choose(P.len())];
            let nm = NM[c.choose(if few { 3 } else { NM.len() })];
            if i > 0 && interp == 3 {
                re.push_str("#{\"q\"}");
            }
            // `<` and `{` would have to be escaped
            if o == "%r<" && p.0.contains('<') && p.0.matches('<').count() != p.0.matches('>').count() || o == "%r!" && p.0.contains('!') || o == "/" && p.0.contains("a/") {
                return ctx.outcome("out of model");
            }
            re.push_str(&p.0.replace('N', nm));
            if if x { p.2 } else { p.1 } && !names.contains(&nm) {
                names.push(nm);
            }
        }
        if pre == "foo " && o == "/" && re.starts_with(' ') {
            // a division
            return ctx.outcome("out of model");
        }
        // a name used twice cannot be referred back to while it is defined
        if re.contains("\\k<") && names.len() < n {
            return ctx.outcome("out of model");
        }
        if interp == 1 {
            re.push_str("#{1}");
        }
        if interp == 2 {
            re.push_str("#{}");
        }
        let dynamic = interp == 1;
        let open = pre.len() + o.len();
        let _ = open;
        let lit = format!("{o}{re}{z}");
        let end = if post.ends_with("&& ") { "(nil" } else { "" };
        let s = format!("{pre}{lit}{post}{end}");
        let mut s = if end.is_empty() { s } else { s + ")" };
        s.push('\n');
        let mut reads = vec![];
        for nm in NM {
            let a = s.len();
            s.push_str(nm);
            reads.push((a, s.len(), nm));
            s.push('\n');
        }
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let r = parse(s.as_bytes());
        ctx.end();
        if errors(&r) > 0 {
            return ctx.fail(format!("valid program rejected: {}", diag_str(&r.diagnostics)));
        }
        let Some(t) = &r.ast else {
            return ctx.fail("no tree".into());
        };
        let rewritten = direct && !dynamic;
        let mut found = vec![];
        find(t, &mut found);
        let exp = if rewritten { vec![(pre.len(), pre.len() + lit.len())] } else { vec![] };
        if found != exp {
            return ctx.fail(format!("matches that declare variables: literals at {found:?} instead of {exp:?}"));
        }
        let mut m = HashMap::new();
        collect(t, &mut m);
        for (a, z, nm) in reads {
            let var = rewritten && stays && names.contains(&nm);
            let got = m.get(&(a, z)).and_then(|v| v.first().copied());
            let ok = match (got, var) {
                (Some(Node::Lvar(v)), true) => v.name == nm,
                (Some(Node::Send(v)), false) => v.method_name == nm,
                _ => false,
            };
            if !ok {
                return ctx.fail(format!("`{nm}` at {a} should be a {}", if var { "local variable" } else { "method call" }));
            }
        }
        ctx.nontrivial();
        ctx.outcome(if rewritten { "captures declared as expected" } else { "no captures, as expected" });
    })
}
/// the literals of the matches that declare variables
fn find(n: &Node, v: &mut Vec<(usize, usize)>) {
    if let Node::MatchWithLvasgn(x) = n {
        let l = e(&x.re);
        v.push((l.begin, l.end));
    }
    crate::meta::visit(n, &mut |_, f| match f {
        crate::meta::F::N(c) | crate::meta::F::OptN(Some(c)) => find(c, v),
        crate::meta::F::Ns(x) => x.iter().for_each(|c| find(c, v)),
        _ => {}
    });
}
pub fn families(th: bool) -> Vec<Family> {
    if !cfg!(feature = "onig") {
        return vec![];
    }
    let mut v = vec![captures(1, false), captures(2, true)];
    if th {
        v.push(captures(2, false));
        v.push(captures(3, true));
    }
    v
}
