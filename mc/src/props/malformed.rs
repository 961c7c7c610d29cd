//! P30: what is reported for a malformed or unterminated literal. The first error must name the
//! fault and stand where the fault is, whatever precedes and follows the literal.
use super::*;
use crate::oracle::*;
use lib_ruby_parser::{DiagnosticMessage as D, ErrorLevel};

/// what may precede an expression
const PRE: &[&str] = &["", "a = ", "foo(", "[1, ", "def m\n  ", "if ", "x + ", "\"a#{", "foo ", "{ k: ", "# é\n", "é = 1; ", "foo.bar b, ", "-> { ", "case x\nwhen ", "a\r\n", "/b#{", "x ? ", "%W[a#{", "return ", "x[", "foo k: ", "!", "class C\n\n", "b = <<X\ntext\nX\n", "foo(<<~X,\n  a\nX\n", "<<A\na#{", "foo(<<~A, b)\n  a\n  #{"];
const QPRE: usize = 28;

/// the first error is of this kind and at this place; `None`: there is no error
fn first(ctx: &mut Ctx, s: &str, want: Option<(usize, usize, bool, &dyn Fn(&D) -> bool)>) {
    if !ctx.begin(s.as_bytes()) {
        return;
    }
    let r = parse(s.as_bytes());
    ctx.end();
    ctx.nontrivial();
    let got = r.diagnostics.iter().find(|d| d.level == ErrorLevel::Error);
    match (want, got) {
        (None, None) => ctx.outcome("no fault, no error"),
        (None, Some(_)) => ctx.fail(format!("nothing is wrong, but: {}", diag_str(&r.diagnostics))),
        (Some(_), None) => ctx.fail("the fault is not reported".to_string()),
        (Some((a, b, exact, f)), Some(d)) => {
            if !f(&d.message) {
                ctx.fail(format!("another error is reported: {}", diag_str(&r.diagnostics)));
            } else if exact && (d.loc.begin, d.loc.end) != (a, b) || d.loc.begin < a || d.loc.end > b {
                ctx.fail(format!("the error stands at {}..{}, the fault at {a}..{b}", d.loc.begin, d.loc.end));
            } else {
                ctx.outcome("reported as what it is");
            }
        }
    }
}
fn pres(th: bool) -> usize {
    if th { PRE.len() } else { QPRE }
}

/// strings, regexps and lists that are never closed
fn unterminated(n: u32, th: bool) -> Family {
    // opener, closer, interpolates, kind
    const O: [(&str, char, bool, u8); 22] = [
        ("\"", '"', true, 0), ("'", '\'', false, 0), ("`", '`', true, 0), ("%(", ')', true, 0), ("%q[", ']', false, 0), ("%Q<", '>', true, 0), ("%x!", '!', true, 0), ("%s(", ')', false, 0), (":\"", '"', true, 0), (":'", '\'', false, 0), ("%|", '|', true, 0), ("/", '/', true, 1), ("%r(", ')', true, 1), ("%r!", '!', true, 1), ("%w[", ']', false, 2), ("%W[", ']', true, 2), ("%i(", ')', false, 2), ("%I<", '>', true, 2), ("%w|", '|', false, 2), ("%{", '}', false, 0), ("%q{", '}', false, 0), ("%r{", '}', false, 1),
    ];
    const A: [&str; 16] = ["a", " ", "\n", "é", "#{b}", "\\\\", "(", "[", "\"", "'", "\\", "#", "]", ")", "=begin\n", "{"];
    let pr = pres(th);
    fam(format!("literals of up to {n} parts that are never closed"), 0, move |c, ctx| {
        let (o, z, interp, kind) = O[c.choose(O.len())];
        let k = c.choose(n as usize + 1);
        let mut body = String::new();
        for _ in 0..k {
            let a = A[c.choose(A.len())];
            if a.contains(z) && a.len() == 1 || a == "#{b}" && !interp && o.contains('{') {
                ctx.outcome("out of model");
                return;
            }
            body.push_str(a);
            if a == "\\" {
                // an escaped closer does not close
                body.push(z);
            }
        }
        let pre = PRE[c.choose(pr)];
        // a space right after these openers is another matter, as is a name before a slash
        if o == "/" && body.starts_with([' ', '=']) || o == "/" && (pre == "foo " || pre == "x ? ") || body.replace("#{b}", "").contains("#{") || body.contains("\n=begin") || body.starts_with("=begin") && pre.is_empty() {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{pre}{o}{body}");
        let e = s.len();
        first(ctx, &s, Some((e, e, true, &|m| kind_is(kind, m))));
    })
}
fn kind_is(kind: u8, m: &D) -> bool {
    match kind {
        0 => matches!(m, D::UnterminatedString {}),
        1 => matches!(m, D::UnterminatedRegexp {}),
        _ => matches!(m, D::UnterminatedList {}),
    }
}
/// interpolations that are never closed
fn open_interp(th: bool) -> Family {
    const O: [&str; 14] = ["\"", "`", "%(", "%Q[", ":\"", "/", "%r(", "%W[", "%I(", "%x!", "<<A\n", "<<~A\n  ", "<<-\"A\"\n", "<<`A`\n"];
    const B: [&str; 10] = ["b", "b\n", " ", "\n", "b; ", "(b)", "[b]", "foo b", "foo { }", "\"#{b}\""];
    let pr = pres(th);
    fam("interpolations that are never closed", 0, move |c, ctx| {
        let o = O[c.choose(O.len())];
        let t = ["", "a", "a#{b}"][c.choose(3)];
        let b = B[c.choose(B.len())];
        let pre = PRE[c.choose(pr)];
        if o == "/" && (pre == "foo " || pre == "x ? ") {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{pre}{o}{t}#{{{b}");
        first(ctx, &s, Some((s.len(), s.len(), true, &|m| matches!(m, D::UnexpectedToken { token_name } if token_name == "END_OF_INPUT"))));
    })
}
fn heredocs(n: u32, th: bool) -> Family {
    const O: [(&str, &str, &str); 13] = [("<<", "A", "A"), ("<<-", "A", "A"), ("<<~", "A", "A"), ("<<", "\"A\"", "A"), ("<<", "'A'", "A"), ("<<~", "`A`", "A"), ("<<-", "'A B'", "A B"), ("<<~", "\"é\"", "é"), ("<<", "Éa1", "Éa1"), ("<<~", "_a", "_a"), ("<<", "a", "a"), ("<<-", "\"A-\"", "A-"), ("<<", "\"  A\"", "  A")];
    const REST: [&str; 7] = ["", ".foo", ")", " # c", ", b", " do", " + \"c\""];
    const L: [&str; 12] = ["\n", "text\n", " x A\n", "AA\n", "A A\n", "éé\n", "A;\n", "#{b}\n", "\"A\"\n", "<<A\n", "A\\\n", "=begin\n"];
    let pr = pres(th);
    fam(format!("heredocs of up to {n} lines whose end is missing"), 0, move |c, ctx| {
        let (o, q, id) = O[c.choose(O.len())];
        let rest = REST[c.choose(REST.len())];
        let k = c.choose(n as usize + 1);
        let mut body = String::new();
        for _ in 0..k {
            body.push_str(L[c.choose(L.len())]);
        }
        // the end, not alone on its line, or indented where it must not be, or on the last line in another case
        match c.choose(4) {
            0 => {}
            1 => body.push_str("B"),
            2 => body.push_str(&format!("{id}x")),
            _ => body.push_str(&format!(" {id}{}", if o == "<<" { "\n" } else { " \n" })),
        }
        let pre = PRE[c.choose(pr)];
        if pre == "a\r\n" || k == 0 && rest == " do" && pre.ends_with('{') {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{pre}{o}{q}{rest}\n{body}");
        let p = pre.len() + o.len();
        first(ctx, &s, Some((p, p + q.len(), true, &|m| matches!(m, D::UnterminatedHeredoc { heredoc_id } if heredoc_id == id))));
    })
}
/// quoted names of heredocs that are never closed
fn heredoc_ids(th: bool) -> Family {
    const T: [&str; 8] = ["", "A", "A B", "é", "A(", "A#{b}", "A\\", "1"];
    const Z: [&str; 4] = ["", "\n", "\nA\n", "\ntext\nA\""];
    let pr = pres(th);
    fam("quoted heredoc names that are never closed", 0, move |c, ctx| {
        let o = ["<<", "<<-", "<<~"][c.choose(3)];
        let q = ["\"", "'", "`"][c.choose(3)];
        let t = T[c.choose(T.len())];
        let z = Z[c.choose(Z.len())];
        let pre = PRE[c.choose(pr)];
        let s = format!("{pre}{o}{q}{t}{z}");
        let (a, b) = (pre.len(), pre.len() + o.len() + q.len() + t.len() + 1);
        first(ctx, &s, Some((a, b.min(s.len().max(b - 1)), false, &|m| matches!(m, D::UnterminatedHeredocId {}))));
    })
}
/// malformed numbers
fn numbers(th: bool) -> Family {
    #[derive(Clone)]
    enum E {
        None,
        Octal,
        Trail(u8),
        Frac,
    }
    let mut v: Vec<(String, usize, E)> = vec![];
    let digits: [(&str, &[&str]); 10] = [("0x", &["1", "f", "1f", "1_f", "FF"]), ("0X", &["1"]), ("0b", &["1", "10", "1_0", "00"]), ("0B", &["0"]), ("0d", &["1", "19", "1_9"]), ("0D", &["8"]), ("0o", &["1", "17", "1_7"]), ("0O", &["7"]), ("0", &["1", "17", "1_7", "_1", "_1_7"]), ("", &["1", "19", "1_9", "1.5", "1_0.5", "1.5_5", "1e5", "1E+5", "1.5e-1_0", "0.5", "0e1"])];
    for (p, ds) in digits {
        if p.len() == 2 {
            for t in ["", "_", "_1", "g", " ", ";", ".", "é", "-", "r", "i"] {
                v.push((format!("{p}{t}"), p.len(), E::None));
            }
        }
        for d in ds.iter() {
            for t in ["", "_", "_1", "z", " 1", ";", ")", "é", "]", "+1", "\n"] {
                v.push((format!("{p}{d}_{t}"), p.len() + d.len() + 1, E::Trail(b'_')));
            }
            if p.ends_with(['o', 'O', '0']) {
                for t in ["8", "9", "87", "91", "8_1", "_8"] {
                    v.push((format!("{p}{d}{t}"), p.len() + d.len() + t.len(), E::Octal));
                }
            }
        }
    }
    for (s, n) in [("08", 2), ("09", 2), ("0_8", 3), ("0o8", 3), ("0O9", 3), ("0_9_1", 5)] {
        v.push((s.to_string(), n, E::Octal));
    }
    for (s, n, c) in [("1e+", 3, b'+'), ("1e-", 3, b'-'), ("1E+", 3, b'+'), ("1.5e-", 5, b'-'), ("1e+x", 3, b'+'), ("1e- 1", 3, b'-'), ("1_0e+", 5, b'+'), ("0e+", 3, b'+'), ("1_.5", 3, b'_'), ("1_e5", 2, b'_'), ("1.5_e5", 4, b'_'), ("0_", 2, b'_'), ("0__1", 2, b'_')] {
        v.push((s.to_string(), n, E::Trail(c)));
    }
    for (s, n) in [("1.2.3", 3), ("1e5.3", 3), ("1.5e5.3", 5), ("00.5", 2), ("01.5", 2), ("0x1.5", 3), ("0b1.0", 3), ("1_0.5.6", 5), ("017.8", 3), ("1e1.1e", 3)] {
        v.push((s.to_string(), n, E::Frac));
    }
    const T: [&str; 5] = ["", "\n", ")", ";b", " # c\n"];
    let pr = pres(th);
    fam(format!("{} malformed numbers", v.len()), 0, move |c, ctx| {
        let (t, n, e) = &v[c.choose(v.len())];
        let sign = ["", "-", "+"][c.choose(3)];
        let pre = PRE[c.choose(pr)];
        let z = T[c.choose(T.len())];
        if pre == "x ? " || pre == "!" && !sign.is_empty() {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{pre}{sign}{t}{z}");
        let p = pre.len();
        let b = p + sign.len() + n;
        match e {
            E::None => first(ctx, &s, Some((p, b + 1, false, &|m| matches!(m, D::NumericLiteralWithoutDigits {})))),
            E::Octal => first(ctx, &s, Some((p, b, false, &|m| matches!(m, D::InvalidOctalDigit {})))),
            E::Trail(ch) => first(ctx, &s, Some((p, b, false, &|m| matches!(m, D::TrailingCharInNumber { c } if c == ch)))),
            E::Frac => {
                let q = b + 1 + t[*n + 1..].bytes().take_while(|c| c.is_ascii_digit()).count().min(1);
                first(ctx, &s, Some((b, q.max(b + 2), false, &|m| matches!(m, D::FractionAfterNumeric {}))))
            }
        }
    })
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Hex,
    Uni,
    UniOpen,
    Large,
    Surrogate,
    Esc,
    Many,
}
fn is_x(x: X, m: &D) -> bool {
    match x {
        X::Hex => matches!(m, D::InvalidHexEscape {}),
        X::Uni => matches!(m, D::InvalidUnicodeEscape {}),
        X::UniOpen => matches!(m, D::UnterminatedUnicodeEscape {}),
        X::Large => matches!(m, D::TooLargeUnicodeCodepoint {}),
        X::Surrogate => matches!(m, D::InvalidUnicodeCodepoint {}),
        X::Esc => matches!(m, D::InvalidEscapeCharacter {}),
        X::Many => matches!(m, D::MultipleCodepointAtSingleChar {}),
    }
}
/// malformed escapes
fn escapes(th: bool) -> Family {
    // the escape, what is wrong, where
    const E: &[(&str, X, usize, usize)] = &[
        ("\\xg", X::Hex, 0, 2), ("\\x~", X::Hex, 0, 2), ("\\x\\x61", X::Hex, 0, 2), ("\\uz", X::Uni, 2, 3), ("\\u1z", X::Uni, 3, 4), ("\\u12z", X::Uni, 4, 5), ("\\u123z", X::Uni, 5, 6), ("\\u12~4", X::Uni, 4, 5), ("\\u{z}", X::Uni, 3, 4), ("\\u{12z}", X::Uni, 5, 6), ("\\u{61 z}", X::Uni, 6, 7),
        ("\\u{110000}", X::Large, 3, 9), ("\\u{200000}", X::Large, 3, 9), ("\\u{ffffff}", X::Large, 3, 9), ("\\u{61 110000}", X::Large, 6, 12), ("\\u{ 110000 }", X::Large, 4, 10), ("\\u{d800}", X::Surrogate, 3, 7), ("\\u{dfff}", X::Surrogate, 3, 7), ("\\ud800", X::Surrogate, 2, 6), ("\\udbff", X::Surrogate, 2, 6), ("\\uDC00", X::Surrogate, 2, 6), ("\\u{61 d900}", X::Surrogate, 6, 10),
        ("\\Cx", X::Esc, 0, 3), ("\\C+a", X::Esc, 0, 3), ("\\Ma", X::Esc, 0, 3), ("\\M+a", X::Esc, 0, 3), ("\\M-\\u0061", X::Esc, 0, 5), ("\\C-\\u0061", X::Esc, 0, 5), ("\\c\\u0061", X::Esc, 0, 4), ("\\M-\\C+a", X::Esc, 0, 6), ("\\C-\\Ma", X::Esc, 0, 6), ("\\M-\\xg", X::Hex, 0, 6),
    ];
    const L: &[(&str, &str, u8)] = &[("\"", "\"", 0), ("`", "`", 0), ("%(", ")", 0), ("%Q[", "]", 0), ("%W[", "]", 0), ("%I(", ")", 0), (":\"", "\"", 0), ("/", "/", 1), ("%r(", ")", 1), ("<<A\n", "\nA\n", 0), ("<<~A\n  ", "\nA\n", 0), ("<<-\"A\"\n", "\n A\n", 0), ("?", "", 2), ("%x!", "!", 0), ("\"a\" \"", "\"", 0), ("'", "'", 3), ("%q(", ")", 3), ("%w(", ")", 3), ("<<'A'\n", "\nA\n", 3), (":'", "'", 3)];
    let pr = pres(th);
    fam("malformed escapes in every kind of literal", 0, move |c, ctx| {
        let (e, x, a, b) = E[c.choose(E.len())];
        let (o, z, kind) = L[c.choose(L.len())];
        let t = ["", "a", "é ", "#{b}", "\\n"][c.choose(5)];
        let u = ["", "a", " é", "#{b}", "\\u0061"][c.choose(5)];
        let pre = PRE[c.choose(pr)];
        if kind == 2 && (!t.is_empty() || !u.is_empty()) || o == "/" && (pre == "foo " || pre == "x ? " || t.starts_with(' ')) || o == "?" && pre == "x ? " {
            ctx.outcome("out of model");
            return;
        }
        if kind == 3 {
            // taken literally
            if !matches!(pre, "" | "a = " | "x + " | "foo " | "# é\n" | "é = 1; ") {
                ctx.outcome("out of model");
                return;
            }
            let s = format!("{pre}{o}{t}{e}{u}{z}");
            return first(ctx, &s, None);
        }
        let s = format!("{pre}{o}{t}{e}{u}{z}");
        let p = pre.len() + o.len() + t.len();
        // a character literal is blamed as a whole
        let p0 = if kind == 2 && matches!(x, X::Hex | X::Esc) { p - 1 } else { p + a };
        first(ctx, &s, Some((p0, p + b, x != X::Esc && !(x == X::Hex && e.len() > 3), &|m| is_x(x, m))));
    })
}
/// escapes cut off by the end of the source
fn cut_escapes(th: bool) -> Family {
    const E: &[(&str, X, usize, usize)] = &[("\\x", X::Hex, 0, 2), ("\\u", X::Uni, 2, 2), ("\\u1", X::Uni, 3, 3), ("\\u123", X::Uni, 5, 5), ("\\C", X::Esc, 0, 2), ("\\C-", X::Esc, 0, 3), ("\\M", X::Esc, 0, 2), ("\\M-", X::Esc, 0, 3), ("\\c", X::Esc, 0, 2), ("\\M-\\C-", X::Esc, 0, 6), ("\\c\\M-", X::Esc, 0, 5)];
    const O: [&str; 10] = ["\"", "`", "%(", "%Q[", ":\"", "%W[", "%I(", "%x!", "/", "%r("];
    let pr = pres(th);
    fam("escapes cut off by the end of the source", 0, move |c, ctx| {
        let (e, x, a, b) = E[c.choose(E.len())];
        let o = O[c.choose(O.len())];
        let t = ["", "a", "é ", "#{b}", "\\n"][c.choose(5)];
        let pre = PRE[c.choose(pr)];
        if o == "/" && (pre == "foo " || pre == "x ? ") {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{pre}{o}{t}{e}");
        let p = pre.len() + o.len() + t.len();
        first(ctx, &s, Some((p + a, p + b, false, &|m| is_x(x, m))));
    })
}
/// what may follow a question mark
fn chars(th: bool) -> Family {
    const E: &[(&str, X, usize, usize)] = &[("?\\u{61 62}", X::Many, 0, 10), ("?\\u{61 62 63}", X::Many, 0, 13), ("?\\u{e9 61}", X::Many, 0, 10), ("?\\x", X::Hex, 0, 3), ("?\\u", X::Uni, 0, 3), ("?\\u12", X::Uni, 0, 5), ("?\\M", X::Esc, 0, 3), ("?\\C-", X::Esc, 0, 4), ("?\\", X::Esc, 0, 2), ("?\\M-\\C", X::Esc, 0, 6), ("?\\u{61", X::UniOpen, 0, 6)];
    let pr = pres(th);
    fam("malformed character literals", 0, move |c, ctx| {
        let k = c.choose(E.len() + 1);
        let pre = PRE[c.choose(pr)];
        if pre == "x ? " {
            ctx.outcome("out of model");
            return;
        }
        if k == E.len() {
            let s = format!("{pre}?");
            return first(ctx, &s, Some((pre.len(), s.len(), true, &|m| matches!(m, D::IncompleteCharacterSyntax {}))));
        }
        let (e, x, a, b) = E[k];
        // only at the end of the source
        let s = format!("{pre}{e}");
        first(ctx, &s, Some((pre.len() + a, pre.len() + b, false, &|m| is_x(x, m))));
    })
}
/// option letters of regexps
fn options(n: usize, th: bool) -> Family {
    const A: &[u8] = b"imxounesqzIXfa";
    const R: [(&str, &str); 5] = [("/a", "/"), ("%r(a", ")"), ("/", "/"), ("/a#{b}c", "/"), ("%r!é\n", "!")];
    let pr = pres(th);
    fam(format!("every regexp option list of up to {n} letters"), 0, move |c, ctx| {
        let k = c.choose(n + 1);
        let w: Vec<u8> = (0..k).map(|_| A[c.choose(A.len())]).collect();
        let (o, z) = R[c.choose(R.len())];
        let pre = PRE[if k > 2 { 0 } else { c.choose(pr) }];
        let unknown: String = w.iter().filter(|b| !b"imxounes".contains(b)).map(|b| *b as char).collect();
        if unknown.is_empty() && !matches!(pre, "" | "a = " | "x + " | "# é\n" | "é = 1; ") || o.starts_with('/') && (pre == "foo " || pre == "x ? ") {
            ctx.outcome("out of model");
            return;
        }
        let w = String::from_utf8(w).unwrap();
        let s = format!("{pre}{o}{z}{w}\n");
        let p = pre.len() + o.len();
        if unknown.is_empty() {
            return first(ctx, &s, None);
        }
        first(ctx, &s, Some((p, p + z.len() + w.len(), true, &|m| matches!(m, D::UnknownRegexOptions { options } if *options == unknown))));
    })
}
/// percent literals of no known kind
fn percents(th: bool) -> Family {
    const KNOWN: &[u8] = b"QqWwIixrs";
    let pr = pres(th);
    fam("every letter and digit after a percent sign, and what follows it", 0, move |c, ctx| {
        let k = c.choose(66);
        if k >= 62 {
            let w = ["é", "日", "😀", "Ω"][k - 62];
            let t = ["", "(a)", "a", w, "a日", "\n"][c.choose(6)];
            let pre = PRE[c.choose(pr)];
            let s = format!("{pre}%{w}{t}");
            return first(ctx, &s, Some((pre.len(), pre.len() + 1 + w.len(), true, &|m| matches!(m, D::UnknownTypeOfPercentString {}))));
        }
        let b = (0x30u8..0x7b).filter(|b| b.is_ascii_alphanumeric()).nth(k).unwrap();
        let t = ["", "(a)", "[a", " ", "1", "a", "é", "\n"][c.choose(8)];
        let pre = PRE[c.choose(pr)];
        let p = pre.len();
        // after a name with a space before it, a letter directly after begins a literal too
        let ch = b as char;
        let s = format!("{pre}%{ch}{t}");
        if !KNOWN.contains(&b) && !t.is_empty() {
            return first(ctx, &s, Some((p, p + 2, true, &|m| matches!(m, D::UnknownTypeOfPercentString {}))));
        }
        match t {
            "" => first(ctx, &s, Some((p, p + 2, true, &|m| matches!(m, D::UnterminatedQuotedString {})))),
            "1" | "a" | "é" => first(ctx, &s, Some((p, p + 2, true, &|m| matches!(m, D::UnknownTypeOfPercentString {})))),
            _ => ctx.outcome("out of model"),
        }
    })
}
/// variable names that are none
fn names(th: bool) -> Family {
    const NEXT: &[&str] = &["", " ", "\n", ";", ")", "]", "}", "+", "-", "*", "(", "[", "{", ".", ",", "=", "<", ">", "!", "?", "\"", "'", "%", "^", "&", "|", "~", "#", "1", "2", "9", "0", "5a", ":", "\t", "\\", "/", "`"];
    let pr = pres(th);
    fam("variable signs without a name", 0, move |c, ctx| {
        let v = ["@", "@@", "$", "$-", ":@", ":@@", ":$"][c.choose(7)];
        let t = NEXT[c.choose(NEXT.len())];
        let pre = PRE[c.choose(pr)];
        let s = format!("{pre}{v}{t}");
        let d = t.bytes().next().unwrap_or(0);
        let p = pre.len() + usize::from(v.starts_with(':'));
        let n = v.len() - usize::from(v.starts_with(':'));
        match v.trim_start_matches(':') {
            "@" if d.is_ascii_digit() => first(ctx, &s, Some((p, p + n + t.len(), false, &|m| matches!(m, D::InvalidIvarName { c } if *c == d)))),
            "@@" if d.is_ascii_digit() => first(ctx, &s, Some((p, p + n + t.len(), false, &|m| matches!(m, D::InvalidCvarName { c } if *c == d)))),
            "@" => first(ctx, &s, Some((p, p + n, true, &|m| matches!(m, D::IvarWithoutId {})))),
            "@@" => first(ctx, &s, Some((p, p + n, true, &|m| matches!(m, D::CvarWithoutId {})))),
            "$" if d == 0 || d.is_ascii_whitespace() => first(ctx, &s, Some((p, p + n + t.len(), false, &|m| matches!(m, D::GvarWithoutId {})))),
            "$" if b")]}(%^|#[{".contains(&d) => first(ctx, &s, Some((p, p + 2, true, &|m| matches!(m, D::InvalidGvarName { c } if *c == d)))),
            "$-" if !d.is_ascii_alphanumeric() => first(ctx, &s, Some((p, p + 2, true, &|m| matches!(m, D::InvalidGvarName { .. })))),
            _ => ctx.outcome("out of model"),
        }
    })
}
/// bytes that begin nothing
fn stray(th: bool) -> Family {
    let pr = pres(th);
    fam("bytes that cannot stand outside literals", 0, move |c, ctx| {
        let b = (1u8..0x20).chain([0x7f]).filter(|b| !matches!(b, 4 | 9..=13 | 26)).nth(c.choose(25)).unwrap();
        let pre = PRE[c.choose(pr)];
        let t = ["", "a", "\n", "é", "\"", "1"][c.choose(6)];
        let s = format!("{pre}{}{t}", b as char);
        first(ctx, &s, Some((pre.len(), pre.len() + 1, true, &|m| matches!(m, D::InvalidChar { c } if *c == b))));
    })
}
/// embedded documents that are never ended
fn documents() -> Family {
    const PREL: [&str; 8] = ["", "a\n", "def m\n", "# c\n", "\n", "=begin\n=end\n", "foo(\n", "a +\r\n"];
    const L: [&str; 8] = ["text\n", " =end\n", "=ende\n", "=begin\n", "\n", "__END__\n", "é\r\n", "=en"];
    fam("embedded documents without an end", 0, move |c, ctx| {
        let pre = PREL[c.choose(PREL.len())];
        let h = ["=begin\n", "=begin x\n", "=begin\tx\n", "=begin\r\n", "=begin"][c.choose(5)];
        let k = c.choose(4);
        let mut s = format!("{pre}{h}");
        for _ in 0..k {
            s.push_str(L[c.choose(L.len())]);
        }
        if h == "=begin" && k > 0 {
            ctx.outcome("out of model");
            return;
        }
        first(ctx, &s, Some((pre.len(), pre.len() + h.trim_end().len(), false, &|m| matches!(m, D::EmbeddedDocumentMeetsEof {}))));
    })
}
/// the first token that cannot continue the program
fn unexpected(th: bool) -> Family {
    const OPERAND: &[(&str, &str)] = &[
        (")", "tRPAREN"), ("]", "tRBRACK"), ("}", "tSTRING_DEND"), ("end", "kEND"), ("then", "kTHEN"), (",", "tCOMMA"), ("=>", "tASSOC"), ("=", "tEQL"), ("&&", "tANDOP"), ("==", "tEQ"), ("===", "tEQQ"), ("rescue", "kRESCUE"), ("else", "kELSE"), ("elsif", "kELSIF"), ("when", "kWHEN"), ("in", "kIN"), ("ensure", "kENSURE"), (".", "tDOT"), ("&.", "tANDDOT"), ("<", "tLT"), (">", "tGT"), ("<=", "tLEQ"), (">=", "tGEQ"), ("<=>", "tCMP"), ("!~", "tNMATCH"), ("!=", "tNEQ"), ("=~", "tMATCH"), ("^", "tCARET"), (">>", "tRSHFT"), ("+=", "tOP_ASGN"), ("**=", "tOP_ASGN"), ("||=", "tOP_ASGN"), ("&&=", "tOP_ASGN"), ("<<=", "tOP_ASGN"), ("and", "kAND"), ("or", "kOR"), (";", "tSEMI"), ("", "END_OF_INPUT"),
    ];
    const WANTS: &[&str] = &["a = ", "x + ", "x && ", "x and ", "!", "not ", "(1 + ", "[1 + ", "x[1 + ", "{ k => ", "foo(1 + ", "a.b = ", "a[1] ||= ", "x ? y : ", "class C < ", "foo 1 + ", "def m\n1 * ", "\"a#{1 - ", "foo { 1 | ", "a, b = ", "x if ", "x rescue ", "-> { 1 ** ", "def m = ", "case x\nwhen 1 - ", "x..y == ", "é = ", "# c\n1 <\n", "foo(a,\n1 -\n", "for a in ", "x while ", "x until 1 + ", "alias a b\n1 + ", "x unless ", "$a = ", "@a += ", "%w[a] + ", "<<A + \nt\nA\n", "1 +\r\n", "def m(a = 1 + ", "->(a = ", "foo do |a = ", "begin\nx = ", "x &.y = ", "K::L = "];
    const AFTER: &[(&str, &str)] = &[
        ("2", "tINTEGER"), ("2.5", "tFLOAT"), ("2r", "tRATIONAL"), ("2i", "tIMAGINARY"), ("a", "tIDENTIFIER"), ("A", "tCONSTANT"), ("a?", "tFID"), ("a!", "tFID"), ("\"s\"", "tSTRING_BEG"), ("'s'", "tSTRING_BEG"), ("`x`", "tXSTRING_BEG"), ("@a", "tIVAR"), ("@@a", "tCVAR"), ("$a", "tGVAR"), ("$1", "tNTH_REF"), ("$&", "tBACK_REF"), ("def", "kDEF"), ("class", "kCLASS"), ("module", "kMODULE"), ("nil", "kNIL"), ("self", "kSELF"), ("true", "kTRUE"), ("false", "kFALSE"), ("__FILE__", "k__FILE__"), ("__LINE__", "k__LINE__"), ("__ENCODING__", "k__ENCODING__"), ("->", "tLAMBDA"), ("!", "tBANG"), ("~", "tTILDE"), ("begin", "kBEGIN"), ("case", "kCASE"), ("for", "kFOR"), ("alias", "kALIAS"), ("undef", "kUNDEF"), ("yield", "kYIELD"), ("return", "kRETURN"), ("break", "kBREAK"), ("next", "kNEXT"), ("redo", "kREDO"), ("retry", "kRETRY"), ("super", "kSUPER"), ("not", "kNOT"), ("defined?", "kDEFINED"), ("BEGIN", "klBEGIN"), ("END", "klEND"),
    ];
    const HAS: &[&str] = &["1 ", "(1 ", "a = 1 ", "foo(1 ", "[x, 1 ", "{ k: 1 ", "\"#{1 ", "def m\n1 ", "foo { 1 ", "x + 1 ", "foo 1 ", "x if 1 ", "return 1 ", "nil ", "self ", "[] ", "(1) ", "\"s\".foo() ", "foo[1] ", "{k: 1}; 2 ", "@a ", ":a ", "a.b(1) ", "/a/ ", "'a'.b() ", "%w[a] ", "x = y = 1 ", "1.5 ", "def m; end ", "begin end ", "$a ", "-> { } ", "<<A + 1 \nt\nA\n", "foo() "];
    const Z: [&str; 4] = [" x", "", "\n", " (y"];
    let _ = th;
    fam("the first token that cannot continue the program", 0, move |c, ctx| {
        let wants = c.choose(2) == 0;
        let (pre, t, name) = if wants {
            let (t, n) = OPERAND[c.choose(OPERAND.len())];
            (WANTS[c.choose(WANTS.len())], t, n)
        } else {
            let (t, n) = AFTER[c.choose(AFTER.len())];
            (HAS[c.choose(HAS.len())], t, n)
        };
        let z = Z[c.choose(Z.len())];
        if t.is_empty() && !z.is_empty() || pre.starts_with("<<A + 1") {
            ctx.outcome("out of model");
            return;
        }
        // these belong to what stands before
        if matches!((pre, t), ("!", "=~" | "=" | "==" | "===" | "=>") | ("-> { 1 ** " | "foo { 1 | " | "{ k => ", "}") | ("not ", "rescue")) || pre == "<<A + \nt\nA\n" && t.is_empty() {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{pre}{t}{z}");
        let p = pre.len();
        let n = if name.ends_with("STRING_BEG") { 1 } else { t.len() };
        first(ctx, &s, Some((p, p + n, true, &|m| matches!(m, D::UnexpectedToken { token_name } if token_name == name))));
    })
}
/// faults far into the source
fn far(th: bool) -> Family {
    const F: &[(&str, usize, usize)] = &[("\"abc", 4, 4), ("%w[a", 4, 4), ("/a", 2, 2), ("<<A\nb", 2, 3), ("0x", 0, 2), ("1_", 1, 2), ("019", 0, 3), ("@", 0, 1), ("@@1", 0, 3), ("$(", 0, 2), ("\"\\xg\"", 1, 3), ("\"\\u{110000}\"", 4, 10), ("?", 0, 1), ("%a(", 0, 2), ("/a/z", 2, 4), ("1 2", 2, 3), ("x + )", 4, 5), ("=begin\n", 0, 6), ("\x01", 0, 1)];
    const U: [&str; 6] = ["a\n", "# é\n", "\"b\"\r\n", "foo(1) { |b| }; ", "<<B\nt\nB\n", "é = 1\n"];
    let sizes: &'static [usize] = if th { &[1, 2, 126, 127, 128, 255, 256, 257, 1023, 4095, 4096, 8192, 16384, 32768, 65535, 65536] } else { &[1, 127, 128, 255, 256, 257, 4096, 16384] };
    fam("faults far into the source", 0, move |c, ctx| {
        let (f, a, b) = F[c.choose(F.len())];
        let u = U[c.choose(U.len())];
        let n = sizes[c.choose(sizes.len())];
        if f.starts_with("=begin") && !u.ends_with('\n') {
            ctx.outcome("out of model");
            return;
        }
        let pre = u.repeat(n);
        let alone = parse(f.as_bytes());
        let want = alone.diagnostics.iter().find(|d| d.level == ErrorLevel::Error).map(|d| d.message.clone());
        let s = format!("{pre}{f}");
        first(ctx, &s, Some((pre.len() + a, pre.len() + b, true, &|m| Some(m) == want.as_ref())));
    })
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P30",
        rule: "Each execution is a program that is valid up to one malformed or unterminated literal, drawn from an enumeration of faults (never closed, malformed number, escape, character, name, option, percent kind, stray byte, misplaced token) in every kind of literal, behind every enumerated prefix; the first error must be of the kind that names the fault and stand at the fault.",
        assumptions: &["only the first error is judged; what is reported after a fault is not"],
        families: |th| vec![
            unterminated(if th { 3 } else { 2 }, th),
            open_interp(th),
            heredocs(if th { 3 } else { 2 }, th),
            heredoc_ids(th),
            numbers(th),
            escapes(th),
            cut_escapes(th),
            chars(th),
            options(if th { 5 } else { 4 }, th),
            percents(th),
            names(th),
            stray(th),
            documents(),
            unexpected(th),
            far(th),
        ],
    }]
}
