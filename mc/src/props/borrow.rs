//! Inputs borrowed from the families of other properties: the same programs, judged by the
//! invariants that hold for every input (P01, P02, P04, P10, P12, P13, P14, P17), not by the model they were
//! generated with. `borrow.txt` lists the families small enough, with the number of their inputs.
use super::soup::Which;
use super::*;
use crate::n::*;
use crate::oracle::*;
use lib_ruby_parser::{Parser, ParserOptions};

#[derive(Clone, Copy, PartialEq)]
pub enum J {
    Soup(Which),
    /// diagnostics, tokens and comments against the position model
    Render,
    /// a second parse under another name, after another source
    Again,
    /// the final state of accepted input
    State,
    /// blank lines, comments and separators before and after
    Around,
}
/// sizes of borrowed families: the quick and the thorough bound
pub const SOME: u64 = 300_000;
pub const MORE: u64 = 2_000_000;
const LIST: &str = include_str!("borrow.txt");

const FROM: &[&str] = &["P05", "P06", "P07", "P08", "P09", "P12", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P26", "P27", "P28", "P29"];

/// what property `me` borrows
pub fn families(me: &'static str, th: bool) -> Vec<Family> {
    let max = if th { MORE } else { SOME };
    match me {
        "P01" => small(me, max, FROM, Some(J::Soup(Which::Total))),
        "P02" => small(me, max, FROM, Some(J::Soup(Which::Locs))),
        "P04" => small(me, max, FROM, Some(J::Soup(Which::Toks))),
        "P10" => small(me, max, FROM, Some(J::Render)),
        "P12" | "P13" => small(me, if th { 300_000 } else { 60_000 }, FROM, Some(J::Around)),
        "P14" => small(me, max, FROM, Some(J::Again)),
        "P17" => {
            let trees = tree::fams(&tree::all_cons(), if th { 3 } else { 2 }, 2, crate::g::Triv::Off);
            let mut v: Vec<Family> = trees.into_iter().map(|f| wrap("P03", f, J::State)).collect();
            v.extend(small(me, max, FROM, Some(J::State)));
            v
        }
        // with the judges they have there: the whole tree is compared
        "P03" => small(me, if th { 500_000 } else { 60_000 }, &["P05", "P07", "P18", "P19", "P20", "P21", "P22", "P26", "P27", "P29"], None),
        _ => vec![],
    }
}
/// all listed families of at most `max` inputs
fn small(me: &str, max: u64, from: &[&'static str], j: Option<J>) -> Vec<Family> {
    let mut v = vec![];
    for id in from {
        if *id == me {
            continue;
        }
        let want: Vec<&str> = LIST
            .lines()
            .filter_map(|l| {
                let mut p = l.splitn(3, '\t');
                let (i, n, name) = (p.next()?, p.next()?.parse::<u64>().ok()?, p.next()?);
                (i == *id && n <= max).then_some(name)
            })
            .collect();
        if want.is_empty() {
            continue;
        }
        let before = v.len();
        for f in find(id).map(|p| p.own(false)).unwrap_or_default() {
            if want.contains(&f.name.as_str()) {
                v.push(match j {
                    Some(j) => wrap(id, f, j),
                    None => Family { name: format!("{id}: {}", f.name), ..f },
                });
            }
        }
        if v.len() - before < want.len() {
            panic!("HARNESS: borrow.txt is out of date for {id}");
        }
    }
    v
}
pub fn wrap(id: &'static str, f: Family, j: J) -> Family {
    let Family { name, budget, dedup, f } = f;
    Family {
        name: format!("inputs of {id}: {name}"),
        budget,
        dedup,
        f: Box::new(move |c, ctx| {
            ctx.divert = Some(vec![]);
            f(c, ctx);
            let inputs = ctx.divert.take().unwrap_or_default();
            ctx.fails.clear();
            for s in inputs {
                match j {
                    J::Soup(w) => soup::judge(ctx, &s, w),
                    J::Render => api::rendered(ctx, &s, "a.rb"),
                    J::Again => again(ctx, &s),
                    J::State => state(ctx, &s),
                    J::Around => around(ctx, &s),
                }
            }
        }),
    }
}
fn again(ctx: &mut Ctx, s: &[u8]) {
    if !ctx.begin(s) {
        return;
    }
    let p = |name: &str, t: bool| Parser::new(s.to_vec(), ParserOptions { buffer_name: name.into(), record_tokens: t, decoder: None }).do_parse();
    let a = p("x", true);
    Parser::new(b"a = 1; ->{ _1 }; x = <<B\n".to_vec(), opts(false)).do_parse();
    let b = p("y", false);
    ctx.end();
    if a.ast != b.ast || a.diagnostics != b.diagnostics || a.comments != b.comments || a.magic_comments != b.magic_comments {
        ctx.fail(format!("a second parse gives {:?} {} instead of {:?} {}", b.ast, diag_str(&b.diagnostics), a.ast, diag_str(&a.diagnostics)));
    }
    if b.input.bytes != s || b.input.name != "y" || !b.tokens.is_empty() {
        ctx.fail("the input handed back differs".into());
    }
    ctx.nontrivial();
    ctx.outcome("same result again");
}
fn state(ctx: &mut Ctx, s: &[u8]) {
    if !ctx.begin(s) {
        return;
    }
    let ok = errors(&parse(s)) == 0;
    if ok {
        // panics when any nesting state is not back to its initial value
        Parser::new(s.to_vec(), opts(false)).do_parse_with_state_validation();
        ctx.nontrivial();
    }
    ctx.end();
    ctx.outcome(if ok { "state initial" } else { "rejected" });
}
/// What is accepted is accepted with blank lines, comments and separators around it, with the same
/// tree moved by the length of what stands before, and the same comments.
fn around(ctx: &mut Ctx, s: &[u8]) {
    use lib_ruby_parser::source::CommentType as C;
    const PRE: &[(&[u8], Option<(usize, usize, bool)>)] = &[(b"\n", None), (b" ", None), (b";", None), (b"\t\x0b\x0c", None), (b"\r\n\r\n", None), (b"# c\n", Some((0, 4, false))), (b"=begin\nx\n=end\n", Some((0, 14, true))), (b"\\\n", None)];
    const POST: &[(&[u8], Option<(usize, usize, bool)>)] = &[(b"\n", None), (b"\n\n", None), (b"\r\n", None), (b"\n# c", Some((1, 4, false))), (b"\n=begin\n=end\n", Some((1, 13, true))), (b"\n__END__\nx(", None), (b"\n\0", None), (b" ", None), (b";", None), (b" # c", Some((1, 4, false))), (b"\x04", None)];
    let base = match ctx.begin(s) {
        false => return,
        true => parse(s),
    };
    ctx.end();
    let has = |x: &[u8]| s.windows(x.len()).any(|w| w == x);
    // texts in which a position or the end of the file matters
    if errors(&base) > 0 || base.ast.is_none() || has(b"__END__") || has(b"coding") || s.starts_with(b"\xef\xbb\xbf") || has(b"\0") || has(b"\x04") || has(b"\x1a") || s.starts_with(b"=") || s.starts_with(b"#!") {
        return ctx.outcome("out of model");
    }
    let hd = has(b"<<");
    let doc = has(b"=begin");
    // the line the text ends with is a comment
    let tail = base.comments.iter().any(|c| c.location.end >= s.len());
    for (i, (t, cm)) in PRE.iter().chain(POST.iter()).enumerate() {
        let pre = i < PRE.len();
        if !pre && i >= PRE.len() + 7 && (hd || tail || doc) {
            continue;
        }
        if s.ends_with(b"\\") || s.ends_with(b"\r") && !pre {
            continue;
        }
        let v = if pre { [t, s].concat() } else { [s, t].concat() };
        ctx.enter(&v);
        let mut r = parse(&v);
        ctx.end();
        if errors(&r) > 0 {
            ctx.fail(format!("{:?} is rejected: {}", String::from_utf8_lossy(&v), diag_str(&r.diagnostics)));
            continue;
        }
        let sh = if pre { t.len() } else { 0 };
        if let Some(w) = &mut r.ast {
            unshift(w, sh);
        }
        if let Some(d) = diff_opt(base.ast.as_deref(), r.ast.as_deref()) {
            ctx.fail(format!("{:?} has another tree than {:?}: {d}", String::from_utf8_lossy(&v), String::from_utf8_lossy(s)));
        }
        let mut wc: Vec<(Loc, C)> = base.comments.iter().map(|c| (l(c.location.begin + sh, c.location.end + sh), c.kind.clone())).collect();
        // a comment includes the end of its line
        if !pre && tail && !s.ends_with(b"\n") {
            let nl = if t.starts_with(b"\r") { 2 } else { 1 };
            wc.iter_mut().filter(|c| c.0.end == s.len()).for_each(|c| c.0.end += nl);
        }
        if let Some((a, b, d)) = cm {
            let k = if pre { 0 } else { s.len() };
            wc.push((l(k + a, k + b), if *d { C::Document } else { C::Inline }));
        }
        let mut gc: Vec<(Loc, C)> = r.comments.iter().map(|c| (c.location, c.kind.clone())).collect();
        let key = |x: &(Loc, C)| (x.0.begin, x.0.end);
        wc.sort_by_key(key);
        gc.sort_by_key(key);
        if wc != gc {
            ctx.fail(format!("{:?}: expected comments {wc:?}, got {gc:?}", String::from_utf8_lossy(&v)));
        }
    }
    ctx.nontrivial();
    ctx.outcome("same with other text around");
}
/// moves a tree back to where it would be without the text before it
fn unshift(n: &mut Node, by: usize) {
    use crate::meta::FM;
    crate::meta::visit_mut(n, &mut |_, f| match f {
        FM::Loc(x) => {
            x.begin = x.begin.wrapping_sub(by);
            x.end = x.end.wrapping_sub(by);
        }
        FM::N(c) => unshift(c, by),
    });
}
