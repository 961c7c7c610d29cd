//! P16: bracket and keyword structure. All words over openers, closers, middle keywords and simple
//! statements, one per line, against a deterministic pushdown recogniser; and every program of the
//! reference grammar with one bracket or `end` removed, added or exchanged.
use super::*;
use crate::g::*;
use crate::oracle::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Body {
    /// statements, nothing else
    Plain,
    /// statements with rescue, else and ensure clauses
    Full,
    If,
    Unless,
    When,
    /// a list of at most one element
    Opt,
    /// exactly one element
    One,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Open(&'static str, Body),
    Close,
    Mid,
    Atom,
}
const TOKENS: &[(&str, T)] = &[
    ("(", T::Open(")", Body::Plain)),
    (")", T::Close),
    ("[", T::Open("]", Body::Opt)),
    ("]", T::Close),
    ("m {", T::Open("}", Body::Plain)),
    ("}", T::Close),
    ("begin", T::Open("end", Body::Full)),
    ("end", T::Close),
    ("if x", T::Open("end", Body::If)),
    ("else", T::Mid),
    ("rescue", T::Mid),
    ("1", T::Atom),
    ("def m", T::Open("end", Body::Full)),
    ("m(", T::Open(")", Body::Opt)),
    ("m do", T::Open("end", Body::Full)),
    ("x = { 1 =>", T::Open("}", Body::One)),
    ("while x", T::Open("end", Body::Plain)),
    ("ensure", T::Mid),
    ("case x\nwhen 1", T::Open("end", Body::When)),
    ("when 1", T::Mid),
    ("elsif x", T::Mid),
    ("class << x", T::Open("end", Body::Full)),
    ("class A", T::Open("end", Body::Full)),
    ("-> {", T::Open("}", Body::Plain)),
    ("-> do", T::Open("end", Body::Full)),
    ("\"#{", T::Open("}\"", Body::Plain)),
    ("}\"", T::Close),
    ("m[", T::Open("]", Body::Opt)),
    ("unless x", T::Open("end", Body::Unless)),
    ("until x do", T::Open("end", Body::Plain)),
    ("for a in x", T::Open("end", Body::Plain)),
    ("m { |a|", T::Open("}", Body::Plain)),
    ("m 1 do |a|", T::Open("end", Body::Full)),
    ("def m(a)", T::Open("end", Body::Full)),
    ("module A", T::Open("end", Body::Full)),
    ("m.m(1) {", T::Open("}", Body::Plain)),
    ("x", T::Atom),
    ("->(a) {", T::Open("}", Body::Plain)),
    ("x ||= begin", T::Open("end", Body::Full)),
    ("END {", T::Open("}", Body::Plain)),
    ("if (x)", T::Open("end", Body::If)),
    ("case\nwhen x then", T::Open("end", Body::When)),
    ("while x do", T::Open("end", Body::Plain)),
    ("m[1] = [", T::Open("]", Body::Opt)),
    ("super(", T::Open(")", Body::Opt)),
    ("m.(", T::Open(")", Body::Opt)),
];
struct F {
    close: &'static str,
    body: Body,
    /// elements so far; for clauses: 0 start, 1 after rescue, 2 after else, 3 after ensure
    n: usize,
    in_def: bool,
}
/// Some(true): balanced, Some(false): not, None: not judged
fn recognise(w: &[usize]) -> Option<bool> {
    let mut st: Vec<F> = vec![F { close: "", body: Body::Plain, n: 0, in_def: false }];
    for i in w {
        let (text, t) = TOKENS[*i];
        let depth = st.len();
        let top = st.last_mut().unwrap();
        let list = matches!(top.body, Body::Opt | Body::One);
        match t {
            T::Atom | T::Open(..) => {
                if list {
                    if top.n > 0 {
                        return Some(false);
                    }
                    top.n = 1;
                    if text == "m 1 do |a|" {
                        return None;
                    }
                    if text == "END {" {
                        return Some(false);
                    }
                }
                if let T::Open(close, body) = t {
                    let mut in_def = top.in_def;
                    if text.starts_with("def") {
                        in_def = true;
                    } else if text.starts_with("class") || text.starts_with("module") {
                        if in_def && text != "class << x" {
                            return Some(false);
                        }
                        in_def = false;
                    }
                    st.push(F { close, body, n: 0, in_def });
                }
            }
            T::Close => {
                if depth > 1 && top.close == "}\"" && text == "}" {
                    // the text of the string goes on
                    return None;
                }
                if depth == 1 || top.close != text || (top.body == Body::One && top.n == 0) {
                    return Some(false);
                }
                st.pop();
            }
            T::Mid => {
                let kind = text.split(' ').next().unwrap();
                let next = match (top.body, kind, top.n) {
                    (Body::If, "elsif", 0) => 0,
                    (Body::If | Body::Unless | Body::When, "else", 0) => 2,
                    (Body::When, "when", 0) => 0,
                    (Body::Full, "rescue", 0 | 1) => 1,
                    (Body::Full, "else", 1) => 2,
                    (Body::Full, "ensure", 0 | 1 | 2) => 3,
                    _ => return Some(false),
                };
                top.n = next;
            }
        }
    }
    Some(st.len() == 1)
}
fn judge(ctx: &mut Ctx, w: &[usize], sep: &str) {
    let Some(ok) = recognise(w) else {
        ctx.outcome("out of model");
        return;
    };
    let mut s = String::new();
    for i in w {
        s += TOKENS[*i].0;
        s += sep;
    }
    if !ctx.begin(s.as_bytes()) {
        return;
    }
    let r = parse(s.as_bytes());
    ctx.end();
    let n = errors(&r);
    if ok != (n == 0) {
        ctx.fail(if ok { format!("balanced, but rejected: {}", diag_str(&r.diagnostics)) } else { format!("not balanced, but accepted: {:?}", r.ast) });
        return;
    }
    ctx.nontrivial();
    ctx.outcome(if ok { "balanced, accepted" } else { "unbalanced, rejected" });
}
fn words(n: usize, tokens: usize) -> Family {
    fam(format!("all words of {n} out of {tokens} pieces"), 0, move |c, ctx| {
        let w: Vec<usize> = (0..n).map(|_| c.choose(tokens.min(TOKENS.len()))).collect();
        judge(ctx, &w, "\n");
    })
}
/// balanced words of up to `n` openers over all openers, then one edit
fn edits(n: usize, tokens: usize) -> Family {
    fam(format!("balanced words of {n} pairs out of {tokens} pieces and their single edits"), 0, move |c, ctx| {
        let openers: Vec<usize> = (0..tokens.min(TOKENS.len())).filter(|i| matches!(TOKENS[*i].1, T::Open(..))).collect();
        let mut w = vec![];
        let mut st: Vec<&'static str> = vec![];
        let mut left = n;
        while left > 0 || !st.is_empty() {
            let open = if left == 0 { false } else if st.is_empty() { true } else { c.choose(2) == 0 };
            if open {
                let i = openers[c.choose(openers.len())];
                let T::Open(z, _) = TOKENS[i].1 else { return };
                st.push(z);
                w.push(i);
                left -= 1;
            } else {
                let z = st.pop().unwrap();
                w.push(TOKENS.iter().position(|t| t.0 == z).unwrap());
            }
        }
        match c.choose(4) {
            0 => {}
            1 => {
                let k = c.choose(w.len());
                w.remove(k);
            }
            2 => {
                let k = c.choose(w.len());
                w[k] = [1, 3, 5, 7, 26, 9, 10, 17, 11, 0, 2, 4, 6][c.choose(13)];
            }
            _ => {
                let k = c.choose(w.len() + 1);
                w.insert(k, [1, 3, 5, 7, 26, 9, 10, 17, 19, 20, 11, 0, 2, 4, 6][c.choose(15)]);
            }
        }
        judge(ctx, &w, "\n");
    })
}
/// two openers nested alternately, many levels deep, closed one too few, exactly or one too many times
fn deep(max: usize) -> Family {
    fam(format!("every two openers nested up to {max} levels deep, closed exactly, one too few, one too many, one exchanged"), 0, move |c, ctx| {
        let openers: Vec<usize> = (0..TOKENS.len()).filter(|i| matches!(TOKENS[*i].1, T::Open(..))).collect();
        let x = openers[c.choose(openers.len())];
        let y = openers[c.choose(openers.len())];
        let n = [5, 9, 17, 33, 65, 129][c.choose([5, 9, 17, 33, 65, 129].iter().filter(|d| **d <= max).count())] - 1;
        let n = n + c.choose(2);
        let mut w: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { x } else { y }).collect();
        let closers: Vec<usize> = w
            .iter()
            .rev()
            .map(|i| {
                let T::Open(z, _) = TOKENS[*i].1 else { unreachable!() };
                TOKENS.iter().position(|t| t.0 == z).unwrap()
            })
            .collect();
        w.push(11);
        let a = w.len();
        w.extend(&closers);
        match c.choose(4) {
            0 => {}
            1 => {
                w.remove(a + c.choose(3) * (n - 1) / 2);
            }
            2 => {
                w.insert(a + c.choose(3) * n / 2, [1, 3, 5, 7][c.choose(4)]);
            }
            _ => {
                w[a + c.choose(3) * (n - 1) / 2] = [1, 3, 5, 7][c.choose(4)];
            }
        }
        judge(ctx, &w, "\n");
    })
}
/// brackets nested deep inside something that is waiting for its `do`
const WAITING: &[(&str, &str)] = &[
    ("while a(", ") do\nend\n"), ("until [", "] do b end\n"), ("for x in ", " do\nend\n"), ("a b(", ") do\nend\n"), ("a b, ", " do |x| end\n"), ("-> (x = ", ") do\nend\n"), ("while a { ", " } do\nend\n"), ("a -> { ", " } do\nend\n"), ("while a ", "\nend\n"), ("a.b c do d(", ") do end end\n"), ("while a b ", " do c d do end end\n"),
];
const NESTS: &[(&str, &str)] = &[("(", ")"), ("[", "]"), ("a(", ")"), ("[{ a: ", "}]"), ("a { ", " }"), ("-> { ", " }"), ("\"#{", "}\""), ("a[", "]"), ("begin; ", "; end"), ("->(x = (", ")) do end"), ("(a b do ", " end)"), ("(while c do ", " end)")];
/// as above, each with a block of its own (not directly in `begin`, where `do` belongs to the loop, in Ruby as well)
const DO_NESTS: &[(&str, &str)] = &[("[a do ", " end]"), ("a(b do ", " end)"), ("a[b do ", " end]"), ("[{ a: b do ", " end}]"), ("\"#{a do ", " end}\""), ("a { b do ", " end }"), ("(a do ", " end)"), ("(a b do |x| ", " end)"), ("-> { a do ", " end }"), ("->(x = (a do ", " end)) { }"), ("a(*b do ", " end)"), ("a(c: b do ", " end)"), ("a(&b do ", " end)"), ("[*a do ", " end]"), ("a((b do ", " end))"), ("(-> do ", " end)"), ("{ (a do ", " end) => 1 }.b")];
fn waiting_blocks(max: usize) -> Family {
    fam(format!("blocks written with do inside every kind of bracket, nested to depth {max}, inside constructs waiting for their do, closed exactly, one too few, one too many"), 0, move |c, ctx| {
        let (a, z) = WAITING[c.choose(WAITING.len())];
        let n = c.choose(max) + 1;
        let all = DO_NESTS.len() + NESTS.len();
        let nest: Vec<(&str, &str)> = (0..n).map(|_| { let i = c.choose(all); if i < DO_NESTS.len() { DO_NESTS[i] } else { NESTS[i - DO_NESTS.len()] } }).collect();
        // a brace directly after a bare method name opens a block
        if nest[0].0.starts_with('{') && a.ends_with("a ") {
            ctx.outcome("out of model");
            return;
        }
        nested(c, ctx, a, z, &nest);
    })
}
fn waiting(max: usize) -> Family {
    fam(format!("every two openers nested to every depth up to {max} inside {} constructs waiting for their do, closed exactly, one too few, one too many", WAITING.len()), 0, move |c, ctx| {
        let (a, z) = WAITING[c.choose(WAITING.len())];
        let (x, y) = (NESTS[c.choose(NESTS.len())], NESTS[c.choose(NESTS.len())]);
        let n = c.choose(max) + 1;
        let nest: Vec<_> = (0..n).map(|i| if i % 2 == 0 { x } else { y }).collect();
        nested(c, ctx, a, z, &nest);
    })
}
fn nested(c: &mut Chooser, ctx: &mut Ctx, a: &str, z: &str, nest: &[(&str, &str)]) {
    let mut s = a.to_string();
    for n in nest {
        s.push_str(n.0);
    }
    s.push('v');
    let edit = c.choose(3);
    if edit == 2 {
        s.push_str(["]", ")"][c.choose(2)]);
    }
    for (i, n) in nest.iter().enumerate().rev() {
        if edit == 1 && i == 0 {
            continue;
        }
        s.push_str(n.1);
    }
    s.push_str(z);
    let ok = edit == 0;
    if !ctx.begin(s.as_bytes()) {
        return;
    }
    let r = parse(s.as_bytes());
    ctx.end();
    if ok != (errors(&r) == 0) {
        ctx.fail(if ok { format!("balanced, but rejected: {}", diag_str(&r.diagnostics)) } else { "not balanced, but accepted".into() });
        return;
    }
    ctx.nontrivial();
    ctx.outcome(if ok { "balanced, accepted" } else { "unbalanced, rejected" });
}
/// a program of the reference grammar with one bracket or `end` removed, added or exchanged
fn mutants(name: &'static str, f: super::tree::C, k: u32, depth: i32) -> Family {
    fam(format!("{name}: one bracket or end too few, too many or of another kind, depth {depth}"), k, move |c, ctx| {
        let (s, toks, bad) = {
            let mut g = G::new(c);
            g.rich = 2;
            g.depth = depth;
            g.triv = Triv::Off;
            f(&mut g);
            let bad = g.abandoned();
            (g.s.clone(), g.toks.clone(), bad)
        };
        // literals and comments could swallow the change
        if bad || s.iter().any(|b| b"\"'`%/#\\".contains(b)) || s.windows(2).any(|w| w == b"<<") {
            ctx.outcome("out of model");
            return;
        }
        // a `do` may serve another construct once an `end` is gone; `end` may be a name
        let has = |w: &[u8]| s.windows(w.len()).any(|x| x == w);
        let loops = has(b" do") && (has(b"for ") || has(b"while ") || has(b"until "));
        let is_end = |i: usize| {
            let (a, b) = toks[i];
            let prev: &[u8] = if i == 0 { b"" } else { &s[toks[i - 1].0..toks[i - 1].1] };
            &s[a..b] == b"end" && !loops && !matches!(prev, b"." | b"&." | b"::" | b"def" | b"alias" | b"undef" | b":") && !matches!(s.get(b), Some(b':' | b'='))
        };
        let br: Vec<(usize, usize)> = (0..toks.len()).filter(|i| matches!(&s[toks[*i].0..toks[*i].1], b"(" | b")" | b"[" | b"]" | b"{" | b"}") || is_end(*i)).map(|i| toks[i]).collect();
        let mut z = s.clone();
        match c.choose(3) {
            0 => {
                if br.is_empty() {
                    ctx.outcome("out of model");
                    return;
                }
                let (a, b) = br[c.choose(br.len())];
                z.splice(a..b, std::iter::repeat(b' ').take(b - a));
            }
            1 => {
                if br.is_empty() {
                    ctx.outcome("out of model");
                    return;
                }
                let (a, b) = br[c.choose(br.len())];
                let x: &[&[u8]] = match &s[a..b] {
                    b"(" => &[b"[", b"{"],
                    b"[" => &[b"(", b"{"],
                    b"{" => &[b"(", b"["],
                    b")" => &[b"]", b"}", b" end "],
                    b"]" => &[b")", b"}", b" end "],
                    b"}" => &[b")", b"]", b" end "],
                    _ => &[b")", b"]", b"}"],
                };
                let x = x[c.choose(x.len())];
                // `{` and `do` blocks close differently, but `->{ end` is wrong as well
                z.splice(a..b, x.iter().copied());
            }
            _ => {
                let k = c.choose(toks.len() + 1);
                let at = if k == toks.len() { s.len() } else { toks[k].0 };
                let x = [" ( ", " ) ", " [ ", " ] ", " { ", " } "][c.choose(6)];
                z.splice(at..at, x.bytes());
            }
        }
        if !ctx.begin(&z) {
            return;
        }
        let r = parse(&z);
        ctx.end();
        if errors(&r) == 0 {
            ctx.fail(format!("not balanced, but accepted: {:?}", r.ast));
            return;
        }
        ctx.nontrivial();
        ctx.outcome("unbalanced, rejected");
    })
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P16",
        rule: "Words over openers, closers, clause keywords and simple statements, one per line, are run exhaustively up to the stated length and judged by a deterministic pushdown recogniser: no error exactly when the recogniser accepts. Programs of the reference grammar with exactly one bracket or `end` removed, added or exchanged have unequal numbers of openers and closers of some kind and must be rejected.",
        assumptions: &["inside the mutated programs there are no string-like literals or comments, which could swallow a bracket", "`}` inside an interpolation is not judged, since what follows becomes text"],
        families: |th| {
            let mut v: Vec<Family> = (0..=3).map(|n| words(n, 99)).collect();
            v.push(words(4, 36));
            v.push(words(5, 18));
            v.push(words(6, 11));
            v.extend((1..=2).map(|n| edits(n, 99)));
            v.push(edits(3, 12));
            v.push(deep(if th { 129 } else { 33 }));
            v.push(waiting(if th { 300 } else { 70 }));
            v.push(waiting_blocks(if th { 3 } else { 2 }));
            for (n, f) in super::tree::all_cons().into_iter().filter(|(n, _)| !matches!(*n, "dstr" | "words" | "regexp" | "xstr_sym" | "sclass")) {
                v.push(mutants(n, f, if th { 3 } else { 2 }, 2));
            }
            if th {
                v.push(words(4, 99));
                v.push(words(5, 28));
                v.push(words(6, 15));
                v.push(words(7, 9));
                v.push(edits(3, 99));
                v.push(edits(4, 8));
            }
            v
        },
    }]
}
