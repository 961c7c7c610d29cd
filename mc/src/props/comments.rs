//! P11: encoding declarations and decoders. P12: comments and magic comments.
use super::*;
use crate::g::Triv;
use crate::n::l;
use crate::oracle::*;
use lib_ruby_parser::source::{CommentType, Decoder, DecoderResult, InputError, MagicCommentKind};
use lib_ruby_parser::{DiagnosticMessage, ErrorLevel, Loc, Parser, ParserOptions, ParserResult};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Default)]
struct Doc {
    s: Vec<u8>,
    comments: Vec<(Loc, CommentType)>,
    magic: Vec<(MagicCommentKind, Loc, Loc)>,
    /// the declared encoding and where its name is written
    enc: Option<(String, Loc)>,
    top: bool,
}
const KEYS: &[(&str, MagicCommentKind)] = &[
    ("coding", MagicCommentKind::Encoding),
    ("encoding", MagicCommentKind::Encoding),
    ("frozen_string_literal", MagicCommentKind::FrozenStringLiteral),
    ("frozen-string-literal", MagicCommentKind::FrozenStringLiteral),
    ("warn_indent", MagicCommentKind::WarnIndent),
    ("shareable_constant_value", MagicCommentKind::ShareableConstantValue),
    ("Encoding", MagicCommentKind::Encoding),
    ("FROZEN-string_Literal", MagicCommentKind::FrozenStringLiteral),
    ("warn-indent", MagicCommentKind::WarnIndent),
    ("shareable-constant-value", MagicCommentKind::ShareableConstantValue),
];
const ENCS: &[&str] = &["x", "utf-8", "euc-jp", "UTF-8", "ascii-8bit", "BINARY", "Utf-8", "utf8", "us-ascii", "ASCII-8BIT", "binary", "utf-8-mac", "e.1_j"];
fn native(e: &str) -> bool {
    ["utf-8", "ascii-8bit", "binary"].contains(&e.to_ascii_lowercase().as_str())
}
impl Doc {
    fn put(&mut self, s: &str) -> Loc {
        let a = self.s.len();
        self.s.extend_from_slice(s.as_bytes());
        l(a, self.s.len())
    }
    fn pair(&mut self, c: &mut Chooser, key: (&str, MagicCommentKind), val: &str) {
        let k = self.put(key.0);
        self.put(["", " ", "\t"][c.dev(3)]);
        self.put(":");
        self.put([" ", "", "  "][c.dev(3)]);
        let q = c.dev(2) == 1;
        if q {
            self.put("\"");
        }
        let v = self.put(val);
        if q {
            self.put("\"");
        }
        if key.1 == MagicCommentKind::Encoding && self.top {
            self.enc = Some((val.to_string(), v));
        }
        self.magic.push((key.1, k, v));
    }
    /// a comment that is, or looks like, a magic comment; without its line end
    fn magic_comment(&mut self, c: &mut Chooser) {
        self.put("#");
        let k = c.choose(KEYS.len() + 1);
        if k == KEYS.len() {
            // not magic comments at all, at the top or elsewhere
            self.put([
                "", " a", "- ruby -", " -*- ruby -*-", " encodings: x", " -*- mode: ruby -*-", " x: y", "frozen_string_literal true", " frozen_string_literal = true", " frozen_string_literals: x",
                " a warn_indent: true", " warn_indent: true a", " -*- warn_indent: true", " warn_indent:", " -*- warn_indent -*-", ": true", " en: x",
            ][c.choose(17)]);
            return;
        }
        let key = KEYS[k].clone();
        let val = if key.1 == MagicCommentKind::Encoding { ENCS[c.choose(ENCS.len())] } else { ["true", "false", "literal", "x-y_z"][c.dev(4)] };
        if c.choose(2) == 0 {
            self.put([" ", "", "\t ", ": "][c.dev(4)]);
            self.pair(c, key, val);
            self.put(["", " ", "\t "][c.dev(3)]);
        } else {
            self.put([" ", "", " a ", " - * "][c.dev(4)]);
            self.put("-*-");
            self.put([" ", "", " mode: ruby; ", "; ", " x "][c.dev(5)]);
            self.pair(c, key, val);
            match c.dev(5) {
                1 => {
                    self.put(";");
                }
                2 => {
                    self.put("; ");
                    self.pair(c, KEYS[2].clone(), "true");
                }
                3 => {
                    self.put(" ; a: b");
                }
                4 => {
                    self.put(";");
                    self.pair(c, KEYS[8].clone(), "x");
                }
                _ => {}
            }
            // `-` is part of a value, so a bare one needs a space before the marker
            self.put(" ");
            self.put("-*-");
            self.put(["", " ", " coding", " x: y"][c.dev(4)]);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// P11

const BOM: &[u8] = b"\xef\xbb\xbf";
fn latin1(b: &[u8]) -> Vec<u8> {
    b.iter().flat_map(|c| (*c as char).to_string().into_bytes()).collect()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum D {
    None,
    Same,
    Grow,
    Shrink,
    Unsupported,
    Failing,
    Empty,
    FirstLines,
    Append,
    Tail,
}
const DS: &[D] = &[D::Same, D::None, D::Grow, D::Shrink, D::Unsupported, D::Failing, D::Empty, D::FirstLines, D::Append, D::Tail];
impl D {
    fn run(self, b: Vec<u8>, keep: usize) -> Result<Vec<u8>, InputError> {
        Ok(match self {
            D::None | D::Same => b,
            // a byte order mark is kept as it is
            D::Grow if b.starts_with(BOM) => [BOM, &latin1(&b[3..])].concat(),
            D::Grow => latin1(&b),
            D::Shrink if b.starts_with(BOM) => [BOM, &b[3..].iter().copied().filter(|c| *c < 0x80).collect::<Vec<u8>>()].concat(),
            D::Shrink => b.into_iter().filter(|c| *c < 0x80).collect(),
            D::Unsupported => return Err(InputError::UnsupportedEncoding("u".into())),
            D::Failing => return Err(InputError::DecodingError("f".into())),
            D::Empty => vec![],
            D::FirstLines => b[..keep].to_vec(),
            D::Append => [&b[..], b"\nzz = 1\nzz\n"].concat(),
            D::Tail => [&b[..keep], b"\nq"].concat(),
        })
    }
    /// the lines up to the declaration come out with the same meaning
    fn comparable(self) -> bool {
        !matches!(self, D::None | D::Unsupported | D::Failing | D::Empty)
    }
}
type Log = Rc<RefCell<Vec<(String, Vec<u8>)>>>;
fn with_decoder(s: &[u8], d: D, keep: usize, name: &str) -> (ParserResult, Vec<(String, Vec<u8>)>) {
    let log: Log = Default::default();
    let lg = log.clone();
    let decoder = if d == D::None {
        None
    } else {
        Some(Decoder::new(Box::new(move |e, b| {
            lg.borrow_mut().push((e, b.clone()));
            match d.run(b, keep) {
                Ok(b) => DecoderResult::Ok(b),
                Err(e) => DecoderResult::Err(e),
            }
        })))
    };
    let r = Parser::new(s.to_vec(), ParserOptions { buffer_name: name.into(), decoder, record_tokens: true }).do_parse();
    let calls = log.borrow().clone();
    (r, calls)
}
fn facts(r: &ParserResult) -> String {
    format!("{:?}|{:?}|{:?}|{:?}|{:?}", r.ast, r.diagnostics, r.comments, r.magic_comments, r.tokens)
}
const BODIES: &[&[u8]] = &[b"x = '\xe9'\nx", b"", b"a\n# c \xe9\n:b", b"# coding: y\nb", b"<<A\n\xe9\nA\nz", b"\xe9 = 1; \xe9"];
fn encodings(c: &mut Chooser, ctx: &mut Ctx) {
    let mut doc = Doc::default();
    if c.dev(2) == 1 {
        doc.s.extend_from_slice(b"\xef\xbb\xbf");
    }
    let nl = ["\n", "\r\n"][c.dev(2)];
    let shebang = c.dev(4);
    if shebang > 0 {
        doc.s.extend_from_slice([&b"#!/usr/bin/ruby"[..], b"#!", b"#!a\xe9"][shebang - 1]);
        doc.put(nl);
    }
    // where the comment stands
    let place = c.dev(6);
    doc.top = place < 3;
    match place {
        0 => {}
        1 => {
            doc.put("  ");
        }
        2 => {
            doc.put("\t");
        }
        3 => {
            doc.put(nl);
        }
        4 => {
            doc.put("# a");
            doc.put(nl);
        }
        _ => {
            doc.put("a ");
        }
    }
    doc.magic_comment(c);
    let keep = doc.s.len();
    let b = c.dev(BODIES.len() + 1);
    if b < BODIES.len() {
        doc.put(nl);
        doc.s.extend_from_slice(BODIES[b]);
    }
    // a byte order mark is not followed by a shebang in the sense of this check
    if doc.s.starts_with(b"\xef\xbb\xbf") && shebang > 0 {
        ctx.outcome("out of model");
        return;
    }
    let d = DS[c.dev(DS.len())];
    let key: Vec<u8> = [&doc.s[..], format!("\n# decoder {d:?}").as_bytes()].concat();
    if !ctx.begin(&key) {
        return;
    }
    let (r, calls) = with_decoder(&doc.s, d, keep, "n.rb");
    let want_calls = match &doc.enc {
        Some((e, _)) if !native(e) && d != D::None => vec![(e.clone(), doc.s.clone())],
        _ => vec![],
    };
    if calls != want_calls {
        ctx.fail(format!("decoder called with {calls:?}, expected {want_calls:?}"));
        return;
    }
    if r.input.name != "n.rb" {
        ctx.fail("name of the input".into());
    }
    let decode = matches!(&doc.enc, Some((e, _)) if !native(e));
    if !decode {
        let (r2, _) = with_decoder(&doc.s, D::None, keep, "n.rb");
        if facts(&r) != facts(&r2) || r.input.bytes != doc.s {
            ctx.fail(format!("a decoder that is not called changes the result: {} instead of {}", facts(&r), facts(&r2)));
        }
        if r.diagnostics.iter().any(|d| matches!(d.message, DiagnosticMessage::EncodingError { .. })) {
            ctx.fail(format!("encoding error: {}", diag_str(&r.diagnostics)));
        }
        ctx.outcome("no decoding");
    } else {
        let (e, vl) = doc.enc.clone().unwrap();
        match if d == D::None { Err(InputError::UnsupportedEncoding(e.clone())) } else { d.run(doc.s.clone(), keep) } {
            Err(_) => {
                if !r.diagnostics.iter().any(|d| d.level == ErrorLevel::Error && matches!(d.message, DiagnosticMessage::EncodingError { .. }) && d.loc == vl) {
                    ctx.fail(format!("no encoding error at {}..{}: {}", vl.begin, vl.end, diag_str(&r.diagnostics)));
                }
                if r.input.bytes != doc.s {
                    ctx.fail("after a failed decoding the input handed back is not the source".into());
                }
                ctx.outcome("decoding failed and was reported");
            }
            Ok(bytes) => {
                if r.input.bytes != bytes {
                    ctx.fail(format!("input handed back: {:?}, decoded: {:?}", r.input.bytes, bytes));
                }
                if r.diagnostics.iter().any(|d| matches!(d.message, DiagnosticMessage::EncodingError { .. })) {
                    ctx.fail(format!("encoding error: {}", diag_str(&r.diagnostics)));
                }
                if d.comparable() {
                    let (r2, _) = with_decoder(&bytes, D::Same, keep, "n.rb");
                    if facts(&r) != facts(&r2) {
                        ctx.fail(format!("decoding gives {}, but the decoded bytes give {}", facts(&r), facts(&r2)));
                    }
                    // and an independent look at the decoded program: the variable assigned to
                    if d == D::Grow && b == 0 {
                        let want = "[Lvasgn(Lvasgn { name: \"x\", value: Some(Str(Str { value: Bytes { raw: [195, 169] }";
                        if !format!("{:?}", r.ast).contains(want) {
                            ctx.fail(format!("the decoded text is not what was parsed: {:?}", r.ast));
                        }
                    }
                }
                ctx.outcome("decoded");
            }
        }
    }
    ctx.end();
    ctx.nontrivial();
}

/// what may stand on the line before an encoding comment: white space only
const BEFORE_WS: &[&str] = &[" ", "\t", "\x0c", "\x0b"];
const BEFORE_CODE: &[&str] = &[
    ";", ";;", "()", "[]", "{}", "''", "\"\"", ":a", "1", "a", "A", "_", "$a", "@a", "a;", "a()", "(a)", "%w[]", "``", "//", "?a", "->{}", "!a", "-1", "+a", "~a", "*a = b", "::A", "..1", "a?", "a!", "\u{e9}", "nil", "__FILE__", "begin;", "(", "[", "{",
    "a(", "def a", "class A", "a +", "a =", "a.", "a,", "if a", "BEGIN {", "<<A", "\"#{",
];
fn before(c: &mut Chooser, ctx: &mut Ctx) {
    let shebang = ["", "#!/usr/bin/ruby\n"][c.choose(2)];
    let mut top = true;
    let mut pre = String::new();
    for _ in 0..c.choose(4) {
        let k = c.choose(BEFORE_WS.len() + BEFORE_CODE.len());
        if k < BEFORE_WS.len() {
            pre.push_str(BEFORE_WS[k]);
        } else if top {
            pre.push_str(BEFORE_CODE[k - BEFORE_WS.len()]);
            pre.push(' ');
            top = false;
        } else {
            ctx.outcome("out of model");
            return;
        }
    }
    let comment = ["# encoding: koi8-r", "#coding: koi8-r", "# -*- coding: koi8-r -*-"][c.choose(3)];
    let s = format!("{shebang}{pre}{comment}\nz\n");
    if !ctx.begin(s.as_bytes()) {
        return;
    }
    let (r, calls) = with_decoder(s.as_bytes(), D::Same, 0, "n.rb");
    let (r2, _) = with_decoder(s.as_bytes(), D::None, 0, "n.rb");
    ctx.end();
    let want = if top { vec![("koi8-r".to_string(), s.as_bytes().to_vec())] } else { vec![] };
    if calls != want {
        ctx.fail(format!("decoder called {} times, expected {}", calls.len(), want.len()));
        return;
    }
    let reported = r2.diagnostics.iter().any(|d| matches!(d.message, DiagnosticMessage::EncodingError { .. }));
    if reported != top {
        ctx.fail(format!("without a decoder the encoding is {}reported: {}", if reported { "" } else { "not " }, diag_str(&r2.diagnostics)));
        return;
    }
    if !top && facts(&r) != facts(&r2) {
        ctx.fail("a decoder that is not called changes the result".into());
    }
    ctx.nontrivial();
    ctx.outcome(if top { "honoured" } else { "an ordinary comment" });
}

// ---------------------------------------------------------------------------------------------
// P12

fn check_magic(ctx: &mut Ctx, r: &ParserResult, want: &[(MagicCommentKind, Loc, Loc)]) {
    let got: Vec<_> = r.magic_comments.iter().map(|m| (m.kind.clone(), m.key_l, m.value_l)).collect();
    if got != want {
        ctx.fail(format!("magic comments differ: expected {want:?}, got {got:?}"));
    }
}
fn judge(ctx: &mut Ctx, d: &Doc) {
    if !ctx.begin(&d.s) {
        return;
    }
    let (r, _) = with_decoder(&d.s, D::Same, 0, "x");
    ctx.end();
    if errors(&r) > 0 {
        ctx.fail(format!("rejected: {}", diag_str(&r.diagnostics)));
        return;
    }
    check_comments(ctx, &r, &d.comments);
    check_magic(ctx, &r, &d.magic);
    ctx.nontrivial();
    ctx.outcome("comments as expected");
}
/// Programs with their comments marked: \x01 line comment starts (it ends after the next line
/// end), \x03..\x04 embedded document.
const ITEMS: &[&str] = &[
    "a", "a \x01# c", "\x01# c", "\x01#", "  \x01# c # d", "", "\x03=begin\nx # y\n=end\x04", "\x03=begin z\n=endx\n =end\n# q\n\n=end w\x04", "\"# no\"", "\"#{a \x01# }\n}\"", "%w[# a]", "/#/", "?#", ":\"# a\"", "%(#\n#)",
    "x = <<A\n# no\n#{a \x01# c\n}\nA", "<<'A'\n#{# no\n=begin\nA", "f( \x01# c\n1)", "[1, \x01# c\n \x01# d\n 2]", "a\n \x01# c\n .b", "x = \x01# c\n\n 1", "a \\\n\x01# c", "`#`", "$a; @a\x01# c", "a; \x01# c; d",
    "def m() \x01# c\n\x01# d\nend", "{ a: \x01# c\n1 }", "case a \x01# c\n\x01# d\nwhen b \x01# e\n  c\nend", "<<~A \x01# c\n  # no\nA", "<<A + <<B \x01# c\n#\nA\n# #{a}\nB", "foo do \x01# c\n\x03=begin\n=end\n\x04end", "->(x \x01# c\n) {}", "a ? \x01# c\nb : \x01# d\nc", "\x01# \u{e9} \u{3042}", "\x01#c\tx\\", "\x01#=begin", "a =begin\n1\nend",
    "/a#{b \x01# c\n}/x", "%q{#{} # }", "\x01# \"", "'\n# no\n'", "class A < B \x01# c\nend", "\x01# __END__",
];
fn item(d: &mut Doc, text: &str, nl: &str, last: bool) {
    // returns with every comment closed, the line end after the item included
    let mut open: Option<(usize, CommentType)> = None;
    let full = if last { text.to_string() } else { format!("{text}\n") };
    let mut just_closed_doc = false;
    for ch in full.chars() {
        match ch {
            '\x01' => open = Some((d.s.len(), CommentType::Inline)),
            '\x03' => open = Some((d.s.len(), CommentType::Document)),
            '\x04' => just_closed_doc = true,
            '\n' => {
                d.put(nl);
                if just_closed_doc || matches!(open, Some((_, CommentType::Inline))) {
                    let (a, k) = open.take().unwrap();
                    d.comments.push((l(a, d.s.len()), k));
                    just_closed_doc = false;
                }
            }
            c => {
                if just_closed_doc {
                    // the marker stood after the line end of =end
                    let (a, k) = open.take().unwrap();
                    d.comments.push((l(a, d.s.len()), k));
                    just_closed_doc = false;
                }
                d.put(&c.to_string());
            }
        }
    }
    if let Some((a, k)) = open {
        d.comments.push((l(a, d.s.len()), k));
    }
}
/// Reference reader of the text of a comment (after `#`): the pairs in it that are magic comments,
/// as (kind, key, value) ranges within `t`; None for the spelling left out of the model, a quoted
/// value that is not closed on its line, or is cut short right after a backslash.
fn magic_in(t: &str) -> Option<Vec<(MagicCommentKind, (usize, usize), (usize, usize))>> {
    let find = |from: usize| t[from..].find("-*-").map(|p| p + from);
    let (lo, hi, marked) = match find(0) {
        Some(a) => match find(a + 3) {
            Some(b) => (a + 3, b, true),
            None => return Some(vec![]),
        },
        None => (0, t.len(), false),
    };
    let b = t.as_bytes();
    let blank = |p: usize| b[p].is_ascii_whitespace() || b[p] == 0x0b;
    let punct = |p: usize| b"'\":;".contains(&b[p]);
    let mut v = vec![];
    let mut p = lo;
    while p < hi {
        while p < hi && (punct(p) || blank(p)) {
            p += 1;
        }
        let key = p;
        while p < hi && !punct(p) && !blank(p) {
            p += 1;
        }
        let key = (key, p);
        while p < hi && blank(p) {
            p += 1;
        }
        if p == hi {
            break;
        }
        if b[p] != b':' {
            if marked {
                continue;
            }
            return Some(vec![]);
        }
        p += 1;
        while p < hi && blank(p) {
            p += 1;
        }
        if p == hi {
            break;
        }
        let val;
        if b[p] == b'"' {
            let from = p + 1;
            p = from;
            while p < hi && b[p] != b'"' {
                p += if b[p] == b'\\' { 2 } else { 1 };
            }
            if p > hi || p == hi && (!marked || b[hi - 1] == b'\\') {
                return None;
            }
            val = (from, p);
            p = (p + 1).min(hi);
        } else {
            let from = p;
            while p < hi && b[p] != b'"' && b[p] != b';' && !blank(p) {
                p += 1;
            }
            val = (from, p);
        }
        while p < hi && (blank(p) || marked && b[p] == b';') {
            p += 1;
        }
        if !marked && p < hi {
            return Some(vec![]);
        }
        let name = t[key.0..key.1].to_ascii_lowercase().replace('-', "_");
        let kind = match name.as_str() {
            "coding" | "encoding" => MagicCommentKind::Encoding,
            "frozen_string_literal" => MagicCommentKind::FrozenStringLiteral,
            "shareable_constant_value" => MagicCommentKind::ShareableConstantValue,
            "warn_indent" => MagicCommentKind::WarnIndent,
            _ => continue,
        };
        v.push((kind, key, val));
    }
    Some(v)
}
const PIECES: &[&str] = &["-*-", " ", ";", ":", "\"", "\\", "'", "warn_indent", "Coding", "shareable-constant_value", "x", "true", "=", ",", "*", "-", "\u{e9}", "\t"];
const FRAMES: &[(&str, &str)] = &[("", ""), ("-*-", "-*-"), ("warn_indent: \"", ""), ("-*- frozen-string-literal: \"", " -*-"), ("warn_indent:", ""), ("-*-coding:", ";warn_indent:x-*-")];
fn pieces(c: &mut Chooser, ctx: &mut Ctx, n: usize) {
    let top = c.choose(2) == 0;
    let end = ["\n", "", "\r\n"][c.choose(3)];
    let (a, z) = FRAMES[c.choose(FRAMES.len())];
    let mut t = a.to_string();
    for _ in 0..c.choose(n + 1) {
        t.push_str(PIECES[c.choose(PIECES.len())]);
    }
    t.push_str(z);
    let Some(want) = magic_in(&t) else {
        ctx.outcome("out of model");
        return;
    };
    let mut d = Doc::default();
    if !top {
        d.put("a ");
    }
    let h = d.put("#");
    let w = d.put(&t);
    let e = d.put(end);
    d.comments.push((l(h.begin, e.end), CommentType::Inline));
    for (k, key, val) in want {
        d.magic.push((k, l(w.begin + key.0, w.begin + key.1), l(w.begin + val.0, w.begin + val.1)));
    }
    judge(ctx, &d);
}
/// Lines inside and around embedded documents, against a reference reader of lines: a document runs
/// from a line that starts with the word `=begin` to the end of the next one that starts with the
/// word `=end`; a word ends with white space, the end of the input, or one of the bytes that end it.
const DOC_LINES: &[&str] = &["=begin", "=end", "a", "# c", "", "=begin x", "=begin\tx", "=end x", "=end\t", " =end", "=endx", "=begin\u{b}", "=end\u{c}# c", "=begin\0", "=end\0", "=end\u{4}x", "=begin\u{1a}", "=en", "=begin =end", "\t", "__END__", "\"=begin\"", "a # =end"];
fn documents(c: &mut Chooser, ctx: &mut Ctx, n: usize) {
    let nl = ["\n", "\r\n"][c.choose(2)];
    let k = c.choose(n) + 1;
    let last = c.choose(2) == 1;
    let mut d = Doc::default();
    let mut doc: Option<usize> = None;
    let word = |line: &str, w: &str| line.starts_with(w) && line[w.len()..].bytes().next().map_or(true, |b| b" \t\x0b\x0c\r\n\0\x04\x1a".contains(&b));
    for i in 0..k {
        let t = DOC_LINES[c.choose(DOC_LINES.len())];
        let a = d.put(t);
        let e = if i + 1 == k && !last { a } else { d.put(nl) };
        if let Some(from) = doc {
            if word(t, "=end") {
                d.comments.push((l(from, e.end), CommentType::Document));
                doc = None;
            }
        } else if word(t, "=begin") {
            doc = Some(a.begin);
        } else if t.starts_with('=') || t.starts_with(" =") {
            // not a program
            ctx.outcome("out of model");
            return;
        } else if let Some(p) = t.find('#') {
            d.comments.push((l(a.begin + p, e.end), CommentType::Inline));
        } else if t == "__END__" {
            for _ in i + 1..k {
                d.put(["=begin\n", "# c\n"][c.choose(2)]);
            }
            break;
        }
    }
    if doc.is_some() {
        if ctx.begin(&d.s) {
            let (r, _) = with_decoder(&d.s, D::Same, 0, "x");
            ctx.end();
            if !r.diagnostics.iter().any(|d| d.level == ErrorLevel::Error && matches!(d.message, DiagnosticMessage::EmbeddedDocumentMeetsEof { .. })) {
                ctx.fail(format!("a document that is not closed is not reported: {}", diag_str(&r.diagnostics)));
            }
            ctx.outcome("open document reported");
        }
        return;
    }
    judge(ctx, &d);
}
fn p12(th: bool) -> Vec<Family> {
    let mut v = vec![];
    let n = if th { 4 } else { 3 };
    v.push(fam(format!("sequences of {n} commented pieces"), 0, move |c, ctx| {
        let nl = ["\n", "\r\n"][c.choose(2)];
        let k = c.choose(n) + 1;
        let end = c.choose(3);
        let mut d = Doc::default();
        if end == 2 {
            d.s.extend_from_slice(b"\xef\xbb\xbf");
        }
        for i in 0..k {
            let t = ITEMS[c.choose(ITEMS.len())];
            item(&mut d, t, nl, i + 1 == k && end == 0);
        }
        if end == 1 {
            d.put("__END__");
            d.put(nl);
            d.put("# no\n=begin\n");
        }
        judge(ctx, &d);
    }));
    v.push(fam("magic comments everywhere", if th { 4 } else { 3 }, move |c, ctx| {
        let mut d = Doc::default();
        let nl = ["\n", "\r\n"][c.dev(2)];
        if c.dev(2) == 1 {
            d.s.extend_from_slice(b"\xef\xbb\xbf");
        }
        // what comes before: nothing, other comments, code
        let pre = ["", "#!x", "\x01# a", "a", "\n", "\x03=begin\n# coding: x\n=end\n\x04a", "\"# coding: x\n#{a\n}\"", "<<A\n# frozen_string_literal: true\nA", "%w[# warn_indent: true\n]", "/# coding: x/", "?#"];
        let k = c.dev(pre.len());
        if k > 0 {
            if k == 1 {
                let a = d.put("#!x");
                let z = d.put(nl);
                d.comments.push((l(a.begin, z.end), CommentType::Inline));
            } else {
                item(&mut d, pre[k], nl, false);
            }
        }
        d.put(["", "  ", "b ", "b; ", "f( ", "[ ", "x = ", "\"#{ "][{
            let q = c.dev(8);
            q
        }]);
        let tail = match d.s.last() {
            Some(b' ') => d.s.iter().rposition(|x| *x != b' ').map(|p| d.s[p]),
            _ => None,
        };
        let a = d.s.len();
        d.magic_comment(c);
        d.put(nl);
        d.comments.push((l(a, d.s.len()), CommentType::Inline));
        // a second one straight after
        if c.dev(2) == 1 {
            let a = d.s.len();
            d.magic_comment(c);
            d.put(nl);
            d.comments.push((l(a, d.s.len()), CommentType::Inline));
        }
        d.put(match tail {
            Some(b'(') => "1)",
            Some(b'[') => "1]",
            Some(b'=') => "1",
            Some(b'{') => "1}\"",
            _ => "",
        });
        judge(ctx, &d);
    }));
    let n = if th { 5 } else { 4 };
    v.push(fam(format!("documents: up to {} lines out of {}, against a reference reader", n + 1, DOC_LINES.len()), 0, move |c, ctx| documents(c, ctx, n + 1)));
    v.push(fam(format!("comments of up to {n} pieces of magic comment syntax, in 6 frames, against a reference reader"), 0, move |c, ctx| pieces(c, ctx, n)));
    v.push(fam("sizes: n comments, comments of n characters, after n spaces, documents of n lines (n up to 65537)", 0, move |c, ctx| {
        let ls = super::sizes::lens(65537);
        let n = ls[c.choose(ls.len())];
        let mut d = Doc::default();
        match c.choose(5) {
            0 => {
                for _ in 0..n.min(4097) {
                    let a = d.put("# a\n");
                    d.comments.push((a, CommentType::Inline));
                }
            }
            1 => {
                let a = d.put(&format!("#{}\n", "a".repeat(n)));
                d.comments.push((a, CommentType::Inline));
            }
            2 => {
                d.put(&format!("x{}", " ".repeat(n)));
                let a = d.put("# a\n");
                d.comments.push((a, CommentType::Inline));
            }
            3 => {
                let a = d.put(&format!("=begin\n{}=end\n", "a\n".repeat(n)));
                d.comments.push((a, CommentType::Document));
            }
            _ => {
                d.put(&"\n".repeat(n));
                let a = d.put("# a");
                d.comments.push((a, CommentType::Inline));
            }
        }
        judge(ctx, &d);
    }));
    v.extend(super::tree::fams(&super::tree::all_cons(), if th { 3 } else { 2 }, 2, Triv::Comments));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P11", rule: "every bounded combination of byte order mark, shebang, position, magic comment spelling, encoding name, body and decoder behaviour (absent, failing, keeping, growing, shrinking, truncating or extending the text): the decoder is called exactly when and as the declaration says, failures are reported at the declared name, and the result equals that of parsing the decoded bytes", assumptions: &["comments that only Ruby's loose `coding[:=]` search would recognise are outside: this library does not act on them"], families: |th| vec![fam_nd("declarations, positions and decoders", if th { 5 } else { 4 }, encodings), fam_nd("what stands before the comment on its line", 0, before)] },
        Prop { id: "P12", rule: "every bounded sequence of program pieces with and without comments, every spelling of every magic comment at every position, and every construct of the reference grammar with comments at its line breaks: the reported comments and magic comments are exactly those written", assumptions: super::tree::GEN_ASSUME, families: p12 },
    ]
}
