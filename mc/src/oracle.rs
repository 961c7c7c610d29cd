//! Running the implementation and comparing what it returns with what the model says.
use crate::g::G;
use crate::meta::{self, F};
use crate::n::*;
use crate::run::Ctx;
use lib_ruby_parser::source::CommentType;
use lib_ruby_parser::{Diagnostic, ErrorLevel, Parser, ParserOptions, ParserResult};

pub fn opts(record_tokens: bool) -> ParserOptions {
    ParserOptions { record_tokens, ..Default::default() }
}
pub fn parse(src: &[u8]) -> ParserResult {
    Parser::new(src.to_vec(), opts(false)).do_parse()
}
pub fn parse_tok(src: &[u8]) -> ParserResult {
    Parser::new(src.to_vec(), ParserOptions::default()).do_parse()
}
pub fn errors(r: &ParserResult) -> usize {
    r.diagnostics.iter().filter(|d| d.level == ErrorLevel::Error).count()
}
pub fn diag_str(d: &[Diagnostic]) -> String {
    d.iter().map(|d| format!("{}..{} {} {}", d.loc.begin, d.loc.end, if d.level == ErrorLevel::Error { "error" } else { "warning" }, d.message.render())).collect::<Vec<_>>().join("; ")
}

fn fstr(f: &F) -> String {
    match f {
        F::Loc(l) => format!("{}..{}", l.begin, l.end),
        F::OptLoc(l) => l.map(|l| format!("{}..{}", l.begin, l.end)).unwrap_or("none".into()),
        F::N(n) => n.str_type().to_string(),
        F::OptN(n) => n.map(|n| n.str_type().to_string()).unwrap_or("none".into()),
        F::Ns(v) => format!("{} nodes", v.len()),
        F::S(s) => format!("{s:?}"),
        F::OptS(s) => format!("{s:?}"),
        F::B(b) => format!("{:?}", String::from_utf8_lossy(b.as_raw())),
        F::U(u) => format!("{u}"),
    }
}

fn fields<'a>(n: &'a Node) -> Vec<(&'static str, F<'a>)> {
    let mut v = vec![];
    meta::visit(n, &mut |k, f| v.push((k, f)));
    v
}

/// first difference between two trees
pub fn diff(exp: &Node, act: &Node, path: &str) -> Option<String> {
    if exp == act {
        return None;
    }
    let (te, ta) = (meta::type_name(exp), meta::type_name(act));
    if te != ta {
        return Some(format!("at {path}: expected {te} [{}..{}], got {ta} [{}..{}]", e(exp).begin, e(exp).end, e(act).begin, e(act).end));
    }
    for ((k, fe), (_, fa)) in fields(exp).into_iter().zip(fields(act)) {
        let p = format!("{path}.{te}.{k}");
        match (&fe, &fa) {
            (F::N(a), F::N(b)) | (F::OptN(Some(a)), F::OptN(Some(b))) => {
                if let Some(d) = diff(a, b, &p) {
                    return Some(d);
                }
            }
            (F::Ns(a), F::Ns(b)) if a.len() == b.len() => {
                for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
                    if let Some(d) = diff(x, y, &format!("{p}[{i}]")) {
                        return Some(d);
                    }
                }
            }
            _ => {
                let (se, sa) = (fstr(&fe), fstr(&fa));
                if se != sa {
                    return Some(format!("at {p}: expected {se}, got {sa}"));
                }
            }
        }
    }
    Some(format!("at {path}: trees differ in a way not located"))
}

pub fn diff_opt(exp: Option<&Node>, act: Option<&Node>) -> Option<String> {
    match (exp, act) {
        (None, None) => None,
        (Some(a), Some(b)) => diff(a, b, ""),
        (Some(a), None) => Some(format!("expected {}, got no tree", meta::type_name(a))),
        (None, Some(b)) => Some(format!("expected no tree, got {}", meta::type_name(b))),
    }
}

/// The source generated by `g` must parse to exactly `exp`, with no diagnostics, and with exactly
/// the comments `g` wrote.
pub fn expect(ctx: &mut Ctx, g: &G, exp: Option<Node>) {
    if g.abandoned() {
        ctx.outcome("out of model");
        return;
    }
    expect_src(ctx, &g.s, exp, Some(&g.comments));
}
pub fn expect_src(ctx: &mut Ctx, src: &[u8], exp: Option<Node>, comments: Option<&[(Loc, CommentType)]>) {
    if !ctx.begin(src) {
        return;
    }
    let r = parse(src);
    ctx.end();
    if let Some(d) = diff_opt(exp.as_ref(), r.ast.as_deref()) {
        let dg = if r.diagnostics.is_empty() { String::new() } else { format!(" (diagnostics: {})", diag_str(&r.diagnostics)) };
        ctx.fail(format!("tree differs: {d}{dg}"));
        return;
    }
    if !r.diagnostics.is_empty() {
        ctx.fail(format!("unexpected diagnostics: {}", diag_str(&r.diagnostics)));
        return;
    }
    if let Some(c) = comments {
        check_comments(ctx, &r, c);
    }
    ctx.nontrivial();
    ctx.outcome("accepted as expected");
}
pub fn check_comments(ctx: &mut Ctx, r: &ParserResult, c: &[(Loc, CommentType)]) {
    let got: Vec<(Loc, CommentType)> = r.comments.iter().map(|c| (c.location, c.kind.clone())).collect();
    if got != c {
        ctx.fail(format!("comments differ: expected {:?}, got {:?}", c, got));
    }
}
/// The source must be rejected with at least one error.
pub fn expect_error(ctx: &mut Ctx, src: &[u8]) {
    if !ctx.begin(src) {
        return;
    }
    let r = parse(src);
    ctx.end();
    if errors(&r) == 0 {
        ctx.fail(format!("accepted without error; tree: {:?}", r.ast));
    }
    ctx.nontrivial();
    ctx.outcome("rejected as expected");
}
