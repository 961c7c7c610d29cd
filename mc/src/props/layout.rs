//! P13: the same tokens with other white space between them. Each template is parsed once with
//! its plainest layout; every other layout of a gap must give the same tree with the positions
//! moved, and the same tokens.
use super::*;
use crate::meta::{self, F};
use crate::n::*;
use crate::oracle::*;
use lib_ruby_parser::Lexer;

/// `·` optional blank, `␣` mandatory blank, `⌄` optional blank or line break, `␤` mandatory blank
/// or line break, `↓` place before a leading dot (nothing, or a line break and comment lines)
const T: &[&str] = &[
    "1·+⌄2", "x·=⌄1;x·-⌄1", "1·*⌄2·**⌄3", "[⌄1·,⌄2⌄]", "[⌄]", "{⌄a:⌄1·,⌄b·=>⌄2⌄}", "{⌄\"a\":⌄1⌄}", "foo(⌄1·,⌄2⌄)", "foo(⌄)", "foo(⌄*⌄b·,⌄a:⌄1·,⌄**⌄c⌄)", "foo(⌄1·,⌄&⌄b⌄)", "a↓.⌄b↓&.⌄c", "a↓.⌄b(1)↓.⌄c␣{·1·}↓.⌄d", "A::⌄B", "a::⌄b",
    "x·=⌄y·=⌄1", "x·+=⌄1", "x·||=⌄1", "@a·=⌄1", "$a·&&=⌄1", "A·=⌄1", "A::⌄B·=⌄1", "a↓.⌄b·=⌄1", "a[⌄1⌄]·=⌄2", "a[⌄1·,⌄2⌄]", "1·?⌄␣2␣:⌄3", "1␣if␤2", "1␣unless␤2", "1␣while␤2", "1␣until␤2", "1␣rescue␤2", "1␣and␤2␣or␤3", "not␤1", "1·&&⌄2·||⌄3", "!·1", "defined?␤x", "defined?(⌄x⌄)",
    "def␤m·(⌄a·,⌄b·=⌄1·,⌄*⌄c·,⌄d:⌄1·,⌄**⌄e·,⌄&⌄f⌄)·;end", "def␤self·.·m·;1·;end", "def␤m·()·=⌄1", "p·{·|⌄a·,⌄b·;·c·|·1⌄}", "p␣do·|⌄a⌄|·;1;end", "->·(⌄a·,⌄b⌄)·{⌄1⌄}", "->·a·,⌄b·{⌄1⌄}", "->␣do·;1·;end", "p␣1·,⌄2", "p␣a:⌄1·,⌄b:⌄2", "a.b␣1·,⌄*⌄c", "p␣1␣do·;2·;end", "class␤A·<⌄B·;1·;end", "class␤A::⌄B·;end", "class·<<⌄self·;1·;end", "module␤A·;end",
    "case␤1·;when␤2·,⌄3␣then␤4␣else␤5␣end", "case␤1·;in␤[⌄a·,⌄*⌄b⌄]␣then␤4␣end", "case␤1·;in␤{⌄a:⌄Integer·=>⌄b⌄}␣if␤c␣then␤4␣end", "case␤1·;in␤1·|⌄2␣then␤4␣end", "case␤1;in␤A(⌄1·,⌄x⌄)·;end", "1␣=>⌄a", "1␣in␤a", "if␤1␣then␤2␣elsif␤3␣then␤4␣else␤5␣end", "unless␤1␣then␤2␣end", "while␤1␣do␤2␣end", "until␤1·;2·;end", "for␤i·,⌄j␣in␤1␣do␤2␣end",
    "begin␤1·;rescue␣A·,⌄B·=>⌄e␣then␤2·;else␤3·;ensure␤4␣end", "1·..⌄2", "1·...⌄2", "alias␤a␤b", "alias␤$a␣$b", "undef␤a·,⌄b", "return␣1·,⌄2", "break␣1", "yield␣1·,⌄2", "yield(⌄1⌄)", "super␣1", "super(⌄1⌄)", "a·,⌄b·=⌄1·,⌄2", "*⌄a·,⌄(⌄b·,⌄c⌄)·=⌄1", "x·=⌄1·,⌄2", "x·=⌄*⌄a", "BEGIN·{⌄1⌄}", "END·{⌄1⌄}", "(⌄1⌄)", "(⌄1·;2⌄)", "\"#{⌄1⌄}\"", "\"a\"␣\"b\"", "1·<=>⌄2", "1·==⌄2", "1·=~⌄2", "1·<<⌄2", "1·>⌄2", "1·&⌄2·|⌄3·^⌄4", "x·=⌄1;x·%⌄2·/⌄3", "x·=⌄1;x·[1]", "-·x", "~·x", "foo·;bar·;baz", "a␣do␤|x|␤1␤end", "x·=⌄if␤1␣then␤2␣end", "x·=⌄1␣rescue␤2", "return␣if␤1", "a.⌄b␣do␤1␤end↓.⌄c", "a↓.⌄()", "[⌄1⌄]↓.⌄a", "\"s\"↓.⌄a", "foo(⌄1⌄)↓.⌄a", "%w[a]↓.⌄a", ":a↓.⌄b", "@a↓.⌄b", "1↓.⌄b", "nil↓.⌄b", "{}↓.⌄b", "a?↓.⌄b", "A↓.⌄b", "a·=⌄b↓.⌄c", "p␣a↓.⌄b", "__FILE__↓.⌄b", "end_a↓&.⌄b", "/r/↓.⌄b", "?a↓.⌄b", "yield↓.⌄b", "self↓.⌄b", "(⌄1⌄)↓.⌄b", "->{}↓.⌄b", "begin·;1·;end↓.⌄b", "x·=⌄1;x↓.⌄b", "a↓.⌄b↓.⌄c·=⌄1", "a↓.⌄b␣c·,⌄d", "case·;when␤1␣then␤2␣end↓.⌄a", "1·!=⌄b", "1·!~⌄b", "foo␣!·a", "foo␣->␣{⌄1⌄}", "foo␣[⌄1⌄]", "foo␣(⌄1)·,⌄2", "a·;␤b", "{⌄a:⌄{⌄b:⌄[⌄1⌄]⌄}⌄}", "foo(⌄bar(⌄1⌄)⌄)", "x·=⌄[⌄1·,⌄]", "{⌄a:⌄1·,⌄}", "foo(⌄1·,⌄)", "def␤m(⌄...⌄)·;n(⌄...⌄)·;end", "def␤a·;end·;b", "def␤m␣a·,⌄b·;end", "a␣=>⌄{⌄b:⌄}", "a␣in␤[⌄x·,⌄]", "b·=⌄1;case␤a·;in␤^·b␣then␤end;", "private␣def␤m·()·;end", "!·(⌄1⌄)",
];
const WS: [&str; 4] = [" ", "\t", "\x0c", "\x0b"];
#[derive(Clone, Copy, PartialEq)]
enum K {
    S0,
    S1,
    N0,
    N1,
    Dot,
}
fn split(t: &str) -> (Vec<String>, Vec<K>) {
    let (mut v, mut k) = (vec![String::new()], vec![]);
    for c in t.chars() {
        let g = match c {
            '·' => K::S0,
            '␣' => K::S1,
            '⌄' => K::N0,
            '␤' => K::N1,
            '↓' => K::Dot,
            c => {
                v.last_mut().unwrap().push(c);
                continue;
            }
        };
        k.push(g);
        v.push(String::new());
    }
    (v, k)
}
fn default(k: K) -> &'static str {
    if matches!(k, K::S1 | K::N1) { " " } else { "" }
}
/// one layout of a gap, `n` atoms long at most
fn gap(c: &mut Chooser, k: K, n: usize) -> String {
    let mut s = String::new();
    if k == K::Dot {
        // blanks, a line break (or a comment, which contains one), comment lines, blanks
        s.push_str(["", " ", "\t", "\x0c", "\x0b", " \\\n"][c.choose(6)]);
        s.push_str(["\n", "\r\n", "# c\n", "# é\r\n"][c.choose(4)]);
        for _ in 0..c.choose(n) {
            s.push_str(["", " ", "\x0b", "\t"][c.choose(4)]);
            s.push_str(["# d\n", "#\n", "# .e\r\n"][c.choose(3)]);
        }
        for _ in 0..c.choose(n) {
            s.push_str(WS[c.choose(4)]);
        }
        return s;
    }
    for _ in 0..c.choose(n) + 1 {
        let m = if matches!(k, K::N0 | K::N1) { 12 } else { 6 };
        s.push_str([" ", "\t", "\x0c", "\x0b", "\\\n", "\\\r\n", "\n", "\r\n", "# c\n", "\n=begin\nx\n=end\n", "#\r\n", "\r\n=begin a\r\n=end b\r\n"][c.choose(m)]);
    }
    s
}
/// a blank that would glue to the word before it needs no separator, a comment does
struct Map {
    /// start of the gap, default length, new length
    g: Vec<(usize, usize, usize)>,
}
impl Map {
    fn begin(&self, p: usize) -> usize {
        (p as isize + self.g.iter().filter(|(o, d, _)| p >= o + d).map(|(_, d, n)| *n as isize - *d as isize).sum::<isize>()) as usize
    }
    fn end(&self, p: usize) -> usize {
        (p as isize + self.g.iter().filter(|(o, _, _)| p > *o).map(|(_, d, n)| *n as isize - *d as isize).sum::<isize>()) as usize
    }
    fn loc(&self, x: &Loc) -> Loc {
        l(self.begin(x.begin), self.end(x.end))
    }
}
fn same(a: &Node, b: &Node, m: &Map) -> Result<(), String> {
    if meta::type_name(a) != meta::type_name(b) {
        return Err(format!("{} became {}", meta::type_name(a), meta::type_name(b)));
    }
    let (mut fa, mut fb) = (vec![], vec![]);
    meta::visit(a, &mut |k, f| fa.push((k, f)));
    meta::visit(b, &mut |k, f| fb.push((k, f)));
    for ((k, x), (_, z)) in fa.iter().zip(&fb) {
        let ok = match (x, z) {
            (F::N(p), F::N(q)) | (F::OptN(Some(p)), F::OptN(Some(q))) => {
                same(p, q, m)?;
                true
            }
            (F::OptN(None), F::OptN(None)) => true,
            (F::Ns(p), F::Ns(q)) => {
                for (p, q) in p.iter().zip(q.iter()) {
                    same(p, q, m)?;
                }
                p.len() == q.len()
            }
            (F::Loc(p), F::Loc(q)) => m.loc(p) == **q,
            (F::OptLoc(p), F::OptLoc(q)) => p.map(|p| m.loc(p)) == q.copied(),
            (F::S(p), F::S(q)) => p == q,
            (F::OptS(p), F::OptS(q)) => p == q,
            (F::B(p), F::B(q)) => p == q,
            (F::U(p), F::U(q)) => p == q,
            _ => false,
        };
        if !ok {
            return Err(format!("{}.{k} changed", meta::type_name(a)));
        }
    }
    Ok(())
}
fn judge(ctx: &mut Ctx, parts: &[String], kinds: &[K], gaps: &[(usize, String)]) {
    let (mut base, mut s) = (vec![], vec![]);
    let mut m = Map { g: vec![] };
    for (i, p) in parts.iter().enumerate() {
        base.extend_from_slice(p.as_bytes());
        s.extend_from_slice(p.as_bytes());
        if i < kinds.len() {
            let d = default(kinds[i]);
            let n = gaps.iter().find(|g| g.0 == i).map_or(d, |g| g.1.as_str());
            m.g.push((base.len(), d.len(), n.len()));
            base.extend_from_slice(d.as_bytes());
            s.extend_from_slice(n.as_bytes());
        }
    }
    let b = parse_tok(&base);
    if errors(&b) > 0 {
        if ctx.begin(&base) {
            ctx.fail(format!("valid program rejected: {}", diag_str(&b.diagnostics)));
        }
        return;
    }
    if !ctx.begin(&s) {
        return;
    }
    let r = parse_tok(&s);
    ctx.end();
    if errors(&r) > 0 {
        ctx.fail(format!("{:?} with other white space is rejected: {}", String::from_utf8_lossy(&base), diag_str(&r.diagnostics)));
        return;
    }
    let (Some(x), Some(y)) = (&b.ast, &r.ast) else {
        ctx.fail("no tree".into());
        return;
    };
    if let Err(e) = same(x, y, &m) {
        ctx.fail(format!("{:?} with other white space: {e}", String::from_utf8_lossy(&base)));
        return;
    }
    let f = |t: &&lib_ruby_parser::Token| t.token_type != Lexer::tNL && t.token_type != Lexer::END_OF_INPUT;
    let ta: Vec<_> = b.tokens.iter().filter(f).map(|t| (t.token_type, t.token_value.as_raw().clone(), m.loc(&t.loc))).collect();
    let tb: Vec<_> = r.tokens.iter().filter(f).map(|t| (t.token_type, t.token_value.as_raw().clone(), t.loc)).collect();
    if ta != tb {
        let i = ta.iter().zip(&tb).position(|(a, b)| a != b);
        ctx.fail(format!("{:?} with other white space: tokens differ at {i:?}", String::from_utf8_lossy(&base)));
        return;
    }
    ctx.nontrivial();
    ctx.outcome("same tree, same tokens");
}
pub fn families(th: bool) -> Vec<Family> {
    let n = if th { 4 } else { 3 };
    vec![
        fam(format!("templates: every layout of one gap, up to {n} pieces of white space"), 0, move |c, ctx| {
            let (p, k) = split(T[c.choose(T.len())]);
            let i = c.choose(k.len());
            let g = gap(c, k[i], n);
            judge(ctx, &p, &k, &[(i, g)]);
        }),
        fam("templates: every layout of two gaps, one piece each", 0, move |c, ctx| {
            let (p, k) = split(T[c.choose(T.len())]);
            if k.len() < 2 {
                return;
            }
            let i = c.choose(k.len() - 1);
            let j = i + 1 + c.choose(k.len() - 1 - i);
            let w = if th { 2 } else { 1 };
            let (a, b) = (gap(c, k[i], w), gap(c, k[j], w));
            judge(ctx, &p, &k, &[(i, a), (j, b)]);
        }),
    ]
}
