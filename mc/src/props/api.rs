//! P10: positions, extracted text and rendered diagnostics. P14: histories of parses.
use super::*;
use crate::oracle::*;
use lib_ruby_parser::source::{DecodedInput, Input};
use lib_ruby_parser::{Diagnostic, DiagnosticMessage, ErrorLevel, Loc, LocExt, Parser, ParserOptions, ParserResult};

/// line and column of a position: count the line feeds before it
fn line_col(s: &[u8], pos: usize) -> Option<(usize, usize)> {
    if pos > s.len() {
        return None;
    }
    let before = &s[..pos];
    let start = before.iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    Some((before.iter().filter(|c| **c == b'\n').count(), pos - start))
}
/// the line that contains a position, without its line feed
fn line_of(s: &[u8], pos: usize) -> (usize, usize) {
    let start = s[..pos].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    let end = s[pos..].iter().position(|c| *c == b'\n').map_or(s.len(), |p| pos + p);
    (start, end)
}
fn text(s: &[u8]) -> String {
    String::from_utf8_lossy(s).into_owned()
}
/// the rendering must have the three lines the documentation shows
fn judge_render(name: &str, s: &[u8], d: &Diagnostic, got: Option<&str>) -> Result<(), String> {
    let (b, e) = (d.loc.begin, d.loc.end);
    if b > s.len() {
        return match got {
            None => Ok(()),
            Some(g) => Err(format!("location {b}..{e} is past the end, yet rendered as {g:?}")),
        };
    }
    let Some(g) = got else { return Err(format!("diagnostic at {b}..{e} is not rendered")) };
    let (l, c) = line_col(s, b).unwrap();
    let (ls, le) = line_of(s, b);
    let level = if d.level == ErrorLevel::Error { "error" } else { "warning" };
    let head = format!("{name}:{}:{c}: {level}: {}\n{name}:{}: ", l + 1, d.message.render(), l + 1);
    let Some(rest) = g.strip_prefix(head.as_str()) else { return Err(format!("diagnostic at {b}..{e}: expected it to start with {head:?}, got {g:?}")) };
    let line = text(&s[ls..le]);
    let under = format!("\n{name}:{}: ", l + 1);
    // a carriage return before the line feed may or may not be counted as part of the line
    let short = line.strip_suffix('\r').unwrap_or(&line).to_string();
    let marks = match (rest.strip_prefix(line.as_str()).and_then(|r| r.strip_prefix(under.as_str())), rest.strip_prefix(short.as_str()).and_then(|r| r.strip_prefix(under.as_str()))) {
        (Some(m), _) | (None, Some(m)) => m,
        _ => return Err(format!("diagnostic at {b}..{e}: expected the line {line:?} to be quoted, got {g:?}")),
    };
    let m = marks.as_bytes();
    if m.len() < c + 1 || m[..c].iter().any(|x| *x != b' ') || m[c] != b'^' || m[c + 1..].iter().any(|x| *x != b'~') {
        return Err(format!("diagnostic at {b}..{e}: expected ^ in column {c}, got {marks:?}"));
    }
    // on the quoted line exactly the columns of the location are marked
    let want = if e > b { e.min(le) .max(b + 1) - b } else { 1 };
    let have = m.len() - c;
    let ok = if e > le { have >= want } else { have == want };
    if !ok {
        return Err(format!("diagnostic at {b}..{e}: expected {want} marked columns, got {marks:?}"));
    }
    Ok(())
}
fn positions(ctx: &mut Ctx, s: &[u8], prev: Option<&[u8]>) {
    if !ctx.begin(s) {
        return;
    }
    let mut d = DecodedInput::named("f.rb");
    let mut i = Input::new("f.rb", None);
    if let Some(p) = prev {
        d.update_bytes(p.to_vec());
        i.update_bytes(p.to_vec());
    }
    d.update_bytes(s.to_vec());
    i.update_bytes(s.to_vec());
    if d.as_shared_bytes() != s || i.as_shared_bytes() != s || d.bytes != s || d.name != "f.rb" {
        ctx.fail("the input does not hold its bytes or its name".into());
    }
    for pos in 0..s.len() + 3 {
        let want = line_col(s, pos);
        let got = (d.line_col_for_pos(pos), i.line_col_for_pos(pos), Loc { begin: pos, end: pos }.begin_line_col(&d));
        if got != (want, want, want) {
            ctx.fail(format!("position {pos}: expected {want:?}, got {got:?}"));
        }
    }
    for b in 0..s.len() + 2 {
        for e in b..s.len() + 2 {
            let l = Loc { begin: b, end: e };
            let want = if e <= s.len() { Some(text(&s[b..e])) } else { None };
            let got = l.source(&d);
            if want != got {
                ctx.fail(format!("source of {b}..{e}: expected {want:?}, got {got:?}"));
            }
            let x = l.expand_to_line(&d);
            if b > s.len() {
                if x.is_some() {
                    ctx.fail(format!("line of {b}..{e}, which is past the end: {x:?}"));
                }
            } else {
                let (ls, le) = line_of(s, b);
                let n = line_col(s, b).unwrap().0;
                let short = if le > ls && s[le - 1] == b'\r' { le - 1 } else { le };
                match x {
                    Some((ln, l)) if ln == n && l.begin == ls && (l.end == le || l.end == short) => {}
                    x => ctx.fail(format!("line of {b}..{e}: expected ({n}, {ls}..{le}), got {x:?}")),
                }
            }
            if e <= s.len() {
                for level in [ErrorLevel::Error, ErrorLevel::Warning] {
                    let dg = Diagnostic { level, message: DiagnosticMessage::FractionAfterNumeric {}, loc: l };
                    if dg.render_message() != dg.message.render() {
                        ctx.fail("render_message differs from the message".into());
                    }
                    if dg.is_error() == dg.is_warning() || dg.is_error() != (dg.level == ErrorLevel::Error) {
                        ctx.fail("level predicates".into());
                    }
                    if let Err(m) = judge_render("f.rb", s, &dg, dg.render(&d).as_deref()) {
                        ctx.fail(m);
                    }
                }
            }
        }
    }
    if i.into_bytes() != s || d.into_bytes() != s {
        ctx.fail("into_bytes differs".into());
    }
    ctx.end();
    ctx.nontrivial();
    ctx.outcome("positions agree");
}

const NAMES: &[&str] = &["(eval)", "a.rb", "dir/x y.rb", "", "é"];
/// every diagnostic of a parse renders to what the model says, against the input handed back
pub fn rendered(ctx: &mut Ctx, s: &[u8], name: &str) {
    if !ctx.begin(s) {
        return;
    }
    let r = Parser::new(s.to_vec(), ParserOptions { buffer_name: name.into(), ..Default::default() }).do_parse();
    ctx.end();
    if r.input.name != name || r.input.bytes != s {
        ctx.fail(format!("the input handed back is {:?} named {:?}", text(&r.input.bytes), r.input.name));
    }
    for d in &r.diagnostics {
        if let Err(m) = judge_render(name, s, d, d.render(&r.input).as_deref()) {
            ctx.fail(m);
        }
    }
    for c in &r.comments {
        if c.location.source(&r.input).map_or(true, |t| t != text(&s[c.location.begin..c.location.end])) {
            ctx.fail("text of a comment".into());
        }
    }
    for t in &r.tokens {
        let want = s.get(t.loc.begin..t.loc.end).map(text);
        if t.loc.source(&r.input) != want || t.loc.begin_line_col(&r.input) != line_col(s, t.loc.begin) {
            ctx.fail(format!("text or position of token {t:?}"));
        }
    }
    if r.diagnostics.is_empty() {
        ctx.outcome("no diagnostics");
    } else {
        ctx.nontrivial();
        ctx.outcome("diagnostics rendered");
    }
}
/// long lines and many lines
fn big(ctx: &mut Ctx, s: &[u8]) {
    if !ctx.begin(s) {
        return;
    }
    let mut d = DecodedInput::named("f.rb");
    d.update_bytes(s.to_vec());
    let starts: Vec<usize> = std::iter::once(0).chain(s.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1)).collect();
    let mut ps = vec![0, 1, s.len() / 2, s.len().saturating_sub(1), s.len(), s.len() + 1];
    for i in [0, 1, 2, starts.len() / 2, starts.len() - 1] {
        let a = starts[i.min(starts.len() - 1)];
        ps.extend([a.saturating_sub(2), a.saturating_sub(1), a, a + 1, a + 255, a + 256, a + 257]);
    }
    for pos in ps {
        let want = line_col(s, pos);
        let got = d.line_col_for_pos(pos);
        if got != want {
            ctx.fail(format!("position {pos}: expected {want:?}, got {got:?}"));
        }
        if pos <= s.len() {
            let dg = Diagnostic { level: ErrorLevel::Error, message: DiagnosticMessage::FractionAfterNumeric {}, loc: Loc { begin: pos, end: (pos + 3).min(s.len()) } };
            if let Err(m) = judge_render("f.rb", s, &dg, dg.render(&d).as_deref()) {
                ctx.fail(m);
            }
        }
    }
    ctx.end();
    ctx.nontrivial();
    ctx.outcome("positions agree");
}
const LINES: &[&str] = &["", "a", "\t1 = 2", "foo )", "é = é; 1__2", "\"\\u1\"", "x = <<A", "A", "def (", "end", "alias $a $1", "\r", "# c", "p *a"];
fn p10(thorough: bool) -> Vec<Family> {
    let n = if thorough { 8 } else { 6 };
    let mut v = vec![fam_nd("byte strings: every position and range", 0, move |c, ctx| {
        let len = c.choose(n + 1);
        let mut s = vec![];
        for _ in 0..len {
            s.push([b'a', b'\n', b'\r', b' ', 0xc3, 0xa9][c.choose(6)]);
        }
        positions(ctx, &s, None);
    })];
    v.push(fam_nd("byte strings replacing others", 0, move |c, ctx| {
        let mk = |c: &mut Chooser, n: usize| {
            let len = c.choose(n + 1);
            (0..len).map(|_| [b'a', b'\n'][c.choose(2)]).collect::<Vec<u8>>()
        };
        let prev = mk(c, 5);
        let s = mk(c, 7);
        positions(ctx, &s, Some(&prev));
    }));
    let k = if thorough { 5 } else { 3 };
    v.push(fam_nd("sequences of lines with errors", 0, move |c, ctx| {
        let name = NAMES[c.choose(NAMES.len())];
        let n = c.choose(k) + 1;
        let mut s = vec![];
        for i in 0..n {
            if i > 0 {
                s.extend_from_slice([&b"\n"[..], b"\r\n"][c.choose(2)]);
            }
            s.extend_from_slice(LINES[c.choose(LINES.len())].as_bytes());
        }
        if c.choose(2) == 1 {
            s.push(b'\n');
        }
        rendered(ctx, &s, name);
    }));
    v.push(fam_nd("sizes: m lines of n characters", 0, move |c, ctx| {
        let ls = super::sizes::lens(65537);
        let n = ls[c.choose(ls.len())];
        let m = ls[c.choose(ls.len())];
        if n * m > 300_000 {
            return ctx.outcome("out of model");
        }
        let mut s = vec![];
        for i in 0..m {
            s.extend(std::iter::repeat(b'a').take(n));
            s.extend_from_slice(if i % 3 == 1 { b"\r\n" } else { b"\n" });
        }
        s.extend_from_slice(b"xyz");
        big(ctx, &s);
    }));
    v
}

// ---------------------------------------------------------------------------------------------
// P14

/// everything a parse returns except the tokens and the name
fn facts(r: &ParserResult) -> String {
    format!("{:?}|{:?}|{:?}|{:?}|{:?}", r.ast, r.diagnostics, r.comments, r.magic_comments, r.input.bytes)
}
/// sources that exercise every piece of state the lexer and parser keep
const SRC: &[&str] = &[
    "",
    "a = 1; a; b",
    "a",
    "x = <<A; y\nq #{z}\nA\n",
    "x = <<A",
    "\"#{",
    "def m(...) = f(...)",
    "f(...)",
    "->{ _1 + _2 }; _1",
    "p { |a; b| a }",
    "case v; in {a: Integer => b, **nil} then a; end",
    "while x do y end; z do |w| end",
    "class A; def b; C = 1; end; end",
    "p { (",
    "/x/i =~ y; if /r/ then 1 end",
    "# frozen_string_literal: true\n# c\n=begin\nd\n=end\na",
    "# encoding: binary\n\"\\xff\"",
    "%w[a b",
    "1 ? 2 : 3\n__END__\nx",
    "foo -1, *a, &b\r\nc\r",
    "def a(b, b); end; a",
    "BEGIN { a = 1 }; a",
    "é = 1; é",
    "a\n  .b # c\n  .c",
    "$1 = 2",
    "@1; @@; $; 0b2; 1__2",
    "a\r b",
    "def a(b, b, c, c, d:, d:, e: 1, e: 2); end",
    "{a: 1, a: 2, b: 3, b: 4, 1 => 2, 1 => 3, c: 5, c: 6}",
    "case v; in {a: 1, a: 2, b:, b:, c: d, e: d}; end",
    "case v; when 1, 1, 2, 2, :a, :a then 1; end",
    "foo { |a, (b, c), *d, e:, f: 1, **g, &h| a; z }; a; b",
    "# frozen_string_literal: true\n# warn_indent: true\n# shareable_constant_value: none\n# coding: utf-8\n1",
    "puts -1, *a, /b/, ?ab, 1...\n2",
    "a = b = c = 1; def self.d(*, **, &) = e(*, **, &)",
    "\x01; \"\\xff\"; :\"\\xff\"; /\\xff/",
    "x = <<~A + <<-B\n    a\n  #{b}\n  A\n  c\n  B\n",
];
const T: &[&str] = &["a", "=", "1", "\n", "(", ")", "{", "}", "|", "\"", "#{", "<<A", "A", "def ", "end", "do ", " ", "_1", "->", "...", ":", "%w[", "/", "é", "in ", "case "];
/// sources that differ from each other in one word only, in several places a word can stand
fn near() -> &'static [String] {
    static N: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        let words = [
            "a", "A", "b", "ab", "ba", "aB", "Ab", "\u{e9}", "\u{c9}", "\u{e8}", "_", "_1", "_9", "_a", "if", "iF", "end", "enD", "self", "selF", "nil", "nul", "$a", "$b", "$1", "$2", "$&", "@a", "@b", "@@a", ":a", ":b", ":A", "a?", "a!", "b?", "1", "2", "1.0", "1r", "1i", "0x1", "\"a\"", "\"b\"", "'a'", "\"#{a}\"", "`a`", "?a", "?b", "%w[a]", "%i[a]", "%w[b]",
            "/a/", "/b/", "/a/i", "/a/m", "<<A\na\nA\n", "<<A\nb\nA\n", "<<~A\n  a\nA\n", "<<B\na\nB\n", "[a]", "[b]", "{a: 1}", "{b: 1}", "->{ _1 }", "->(a) { a }", "# a\n", "# b\n", "a b", "a = 1", "b = 1", "\t", "(a)", "=begin\na\n=end\n",
        ];
        let around = [("", ""), ("x = ", "\n"), ("a; ", "; a")];
        around.iter().flat_map(|(p, q)| words.iter().map(move |w| format!("{p}{w}{q}"))).collect()
    })
}
fn src(i: usize) -> Option<&'static str> {
    SRC.get(i).copied().or_else(|| near().get(i - SRC.len()).map(|s| s.as_str()))
}
/// what a process that has done nothing else makes of a source
pub fn facts_of(i: usize) -> String {
    src(i).map_or(String::new(), |s| facts(&parse_opt(s.as_bytes(), "(eval)", true)))
}
fn alone(i: usize) -> &'static str {
    static B: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    &B.get_or_init(|| {
        let run = |i: usize| -> Option<String> {
            use std::io::Read;
            let mut c = std::process::Command::new(std::env::current_exe().ok()?).args(["facts", &i.to_string()]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().ok()?;
            let mut o = c.stdout.take()?;
            let t = std::thread::spawn(move || {
                let mut s = String::new();
                o.read_to_string(&mut s).map(|_| s).ok()
            });
            for _ in 0..2000 {
                if let Some(st) = c.try_wait().ok()? {
                    let s = t.join().ok()?;
                    return if st.success() { s } else { None };
                }
                std::thread::sleep(std::time::Duration::from_millis(5));
            }
            let _ = c.kill();
            let _ = c.wait();
            None
        };
        // a source that no process can parse is left to this one to stumble over
        (0..SRC.len() + near().len()).map(|i| run(i).unwrap_or_else(|| facts_of(i))).collect()
    })[i]
}
fn parse_opt(s: &[u8], name: &str, tokens: bool) -> ParserResult {
    Parser::new(s.to_vec(), ParserOptions { buffer_name: name.into(), record_tokens: tokens, decoder: None }).do_parse()
}
fn p14(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    // histories: create parsers, run some of them, drop some of them, in every order
    let depth = if thorough { 7 } else { 6 };
    v.push(fam_nd("histories of two parsers and a third source", 0, move |c, ctx| {
        let pick = [c.choose(SRC.len()), c.choose(SRC.len())];
        let key = format!("{}\u{1}{}", SRC[pick[0]], SRC[pick[1]]);
        if !ctx.begin(key.as_bytes()) {
            return;
        }
        let base: Vec<&str> = pick.iter().map(|p| alone(*p)).collect();
        // each step: create parser i, run parser i, drop parser i
        let mut live: [Option<Parser>; 2] = [None, None];
        for _ in 0..depth {
            let i = c.choose(2);
            match (live[i].take(), if live[i].is_some() { c.choose(2) } else { 0 }) {
                (None, _) => live[i] = Some(Parser::new(SRC[pick[i]].as_bytes().to_vec(), opts(true))),
                (Some(p), 0) => {
                    let r = p.do_parse();
                    if facts(&r) != base[i] {
                        ctx.fail(format!("source {i} gives a different result later: {} instead of {}", facts(&r), base[i]));
                    }
                }
                (Some(_), _) => {}
            }
        }
        ctx.end();
        ctx.nontrivial();
        ctx.outcome("same result in every history");
    }));
    // every ordered pair of sources after each other, tokens on or off, any name
    v.push(fam_nd("options and names", 0, move |c, ctx| {
        let i = c.choose(SRC.len());
        let s = SRC[i].as_bytes();
        let name = NAMES[c.choose(NAMES.len())];
        let tokens = c.choose(2) == 1;
        if !ctx.begin(s) {
            return;
        }
        let base = parse_opt(s, "(eval)", true);
        let r = parse_opt(s, name, tokens);
        ctx.end();
        if facts(&r) != alone(i) {
            ctx.fail(format!("result depends on the name or on token recording: {} instead of {}", facts(&r), alone(i)));
        }
        if r.input.name != name || r.input.bytes != s {
            ctx.fail("input handed back".into());
        }
        if tokens != !r.tokens.is_empty() || tokens && format!("{:?}", r.tokens) != format!("{:?}", base.tokens) {
            ctx.fail("tokens".into());
        }
        ctx.nontrivial();
        ctx.outcome("independent of options");
    }));
    v.push(fam_nd("parses on other threads", 0, move |c, ctx| {
        let (i, k) = (c.choose(SRC.len()), c.choose(SRC.len()));
        let (a, b) = (SRC[i], SRC[k]);
        let key = format!("{a}\u{1}{b}");
        if !ctx.begin(key.as_bytes()) {
            return;
        }
        let base = [alone(i), alone(k)];
        let spawn = |s: &'static str| std::thread::Builder::new().stack_size(1 << 20).spawn(move || (0..8).map(|_| facts(&parse_opt(s.as_bytes(), "x", true))).collect::<Vec<_>>()).unwrap();
        let (ta, tb) = (spawn(a), spawn(b));
        for (t, w) in [(ta, base[0]), (tb, base[1])] {
            match t.join() {
                Ok(v) if v.iter().all(|f| f == w) => {}
                x => ctx.fail(format!("a parse on another thread gives {x:?} instead of {w}")),
            }
        }
        ctx.end();
        ctx.nontrivial();
        ctx.outcome("independent of threads");
    }));
    let near_n = if thorough { 3 } else { 2 };
    v.push(fam_nd(format!("every {near_n} of {} sources that differ in one word, one after the other", near().len()), 0, move |c, ctx| {
        let w: Vec<usize> = (0..near_n).map(|_| c.choose(near().len())).collect();
        let last = w[near_n - 1];
        if !ctx.begin(w.iter().map(|i| near()[*i].as_str()).collect::<Vec<_>>().join("\u{1}").as_bytes()) {
            return;
        }
        let want = alone(SRC.len() + last);
        for i in &w[..near_n - 1] {
            parse_opt(near()[*i].as_bytes(), "x", false);
        }
        let r = parse_opt(near()[last].as_bytes(), "y", false);
        ctx.end();
        if facts(&r) != want {
            ctx.fail(format!("{:?} gives {} instead of {want}", near()[last], facts(&r)));
        }
        ctx.nontrivial();
        ctx.outcome("same result after others like it");
    }));
    // the same source over and over
    let reps = if thorough { 70_000 } else { 4_000 };
    v.push(fam_nd(format!("every source {reps} times in a row, with and without others in between"), 0, move |c, ctx| {
        let i = c.choose(SRC.len());
        let other = c.choose(3);
        if !ctx.begin(format!("{} x {reps}", SRC[i]).as_bytes()) {
            return;
        }
        for n in 0..reps {
            let r = parse_opt(SRC[i].as_bytes(), "(eval)", other == 1);
            // formatting is what takes the time: every result early on, later every seventh
            if n < 300 || n % 7 == 0 || n + 1 == reps {
                let f = facts(&r);
                if f != alone(i) {
                    ctx.fail(format!("parse number {n} of the same source gives {f} instead of {}", alone(i)));
                    return;
                }
            }
            if other == 2 {
                parse_opt(SRC[n % SRC.len()].as_bytes(), "o", false);
            }
            if n % 1000 == 0 {
                ctx.end();
                ctx.begin(format!("{} x {reps}", SRC[i]).as_bytes());
            }
        }
        ctx.end();
        ctx.nontrivial();
        ctx.outcome("same result every time");
    }));
    // a batch of sources forwards and then backwards
    v.push(fam_nd("batches of token sequences parsed in ascending and in descending order", 0, move |c, ctx| {
        let p = c.choose(T.len());
        if !ctx.begin(format!("{} ...", T[p]).as_bytes()) {
            return;
        }
        let all: Vec<String> = (0..T.len() * T.len()).map(|i| format!("{}{}{}", T[p], T[i / T.len()], T[i % T.len()])).collect();
        let up: Vec<String> = all.iter().map(|s| facts(&parse_opt(s.as_bytes(), "x", true))).collect();
        for (s, a) in all.iter().zip(&up).rev() {
            let b = facts(&parse_opt(s.as_bytes(), "x", false));
            if *a != b {
                ctx.fail(format!("{s:?} parsed in another order gives {b} instead of {a}"));
                return;
            }
        }
        ctx.end();
        ctx.nontrivial();
        ctx.outcome("same result in either order");
    }));
    // every short token sequence is parsed twice around another parse
    let n = if thorough { 4 } else { 3 };
    v.push(fam_nd("token sequences parsed again after another source", 0, move |c, ctx| {
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(T[c.choose(T.len())]);
        }
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let a = facts(&parse_opt(s.as_bytes(), "x", true));
        for o in ["a = 1; ->{ _1 }; x = <<B\n", "def é(...) = p("] {
            parse_opt(o.as_bytes(), "y", false);
            let b = facts(&parse_opt(s.as_bytes(), "z", false));
            if a != b {
                ctx.fail(format!("second parse gives {b} instead of {a}"));
            }
        }
        ctx.end();
        ctx.nontrivial();
        ctx.outcome("same result again");
    }));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P10", rule: "for every byte string of the bounded alphabet, every position and every range: line, column, extracted text, containing line and rendered diagnostic equal those computed by counting line feeds; every diagnostic of every bounded sequence of erroneous lines renders against the returned input to the same", assumptions: &[], families: p10 },
        Prop { id: "P14", rule: "in every bounded history of creating, running and dropping parsers, on any thread, with any option, a source gives the result it gives alone", assumptions: &["thread schedules are those of the operating system; no state is shared between parsers for a schedule to matter"], families: p14 },
    ]
}
