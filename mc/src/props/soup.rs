//! P01 (totality), P02 (locations), P04 (tokens): invariants over results of arbitrary input.
use super::*;
use crate::g::*;
use crate::meta::{self, F};
use crate::n::*;
use crate::oracle::*;
use lib_ruby_parser::source::CommentType;
use lib_ruby_parser::{Parser, ParserOptions, ParserResult};

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Total,
    Locs,
    Toks,
    /// the lexer used on its own
    Lex,
}

/// Does the text consist of nothing but trivia (so that having no tree is right)?
pub fn is_blank(s: &[u8]) -> bool {
    let mut i = if s.starts_with(b"\xef\xbb\xbf") { 3 } else { 0 };
    let mut bol = true;
    while i < s.len() {
        if bol {
            if s[i..].starts_with(b"=begin") && s.get(i + 6).map_or(true, |c| c.is_ascii_whitespace() || *c == 0x0b || *c == 0) {
                // runs to the line that starts with =end
                let mut k = i;
                loop {
                    match s[k..].iter().position(|&c| c == b'\n') {
                        None => return false,
                        Some(p) => k += p + 1,
                    }
                    if s[k..].starts_with(b"=end") && s.get(k + 4).map_or(true, |c| c.is_ascii_whitespace() || *c == 0x0b || *c == 0 || *c == 4 || *c == 26) {
                        break;
                    }
                }
                i = s[k..].iter().position(|&c| c == b'\n').map_or(s.len(), |p| k + p + 1);
                continue;
            }
            if s[i..].starts_with(b"__END__") {
                let r = &s[i + 7..];
                if r.is_empty() || r.starts_with(b"\n") || r.starts_with(b"\r\n") {
                    return true;
                }
            }
        }
        bol = false;
        match s[i] {
            b'\n' => {
                bol = true;
                i += 1
            }
            b' ' | b'\t' | b'\r' | 0x0b | 0x0c | b';' => i += 1,
            b'\\' if s[i + 1..].starts_with(b"\n") => {
                bol = true;
                i += 2
            }
            b'\\' if s[i + 1..].starts_with(b"\r\n") => {
                bol = true;
                i += 3
            }
            b'#' => i = s[i..].iter().position(|&c| c == b'\n').map_or(s.len(), |p| i + p),
            0 | 4 | 26 => return true,
            _ => return false,
        }
    }
    true
}

fn total(ctx: &mut Ctx, r: &ParserResult) {
    if r.ast.is_none() && errors(r) == 0 && !is_blank(&r.input.bytes) {
        ctx.fail(format!("no tree and no error; diagnostics: {}", diag_str(&r.diagnostics)));
    }
    for d in &r.diagnostics {
        let _ = d.render(&r.input);
    }
    ctx.nontrivial();
    ctx.outcome(if errors(r) > 0 { "with errors" } else if r.ast.is_none() { "blank" } else { "accepted" });
}

// ------------------------------------------------------------------------------------ P02
struct Locs<'a> {
    len: usize,
    src: &'a [u8],
    bad: Option<String>,
}
fn is_heredoc(n: &Node) -> bool {
    matches!(n, Node::Heredoc(_) | Node::XHeredoc(_))
}
impl<'a> Locs<'a> {
    fn err(&mut self, m: String) {
        if self.bad.is_none() {
            self.bad = Some(m);
        }
    }
    fn inb(&mut self, what: &str, l: Loc) {
        if l.begin > l.end || l.end > self.len {
            self.err(format!("{what} {}..{} out of bounds (source has {} bytes)", l.begin, l.end, self.len));
        }
    }
    /// `limit`: the ranges inside which this node may lie
    fn node(&mut self, n: &Node, parent: &str) {
        let t = meta::type_name(n);
        let me = e(n);
        self.inb(&format!("{parent}/{t} range"), me);
        let mut kids: Vec<(&'static str, &Node)> = vec![];
        let mut parts: Vec<(&'static str, Loc)> = vec![];
        meta::visit(n, &mut |k, f| match f {
            F::Loc(l) => {
                if k != "expression_l" {
                    parts.push((k, *l))
                }
            }
            F::OptLoc(Some(l)) => parts.push((k, *l)),
            F::N(c) | F::OptN(Some(c)) => kids.push((k, c)),
            F::Ns(v) => v.iter().for_each(|c| kids.push((k, c))),
            _ => {}
        });
        for (k, p) in &parts {
            self.inb(&format!("{parent}/{t}.{k}"), *p);
            let hd = is_heredoc(n) && (*k == "heredoc_body_l" || *k == "heredoc_end_l");
            // the separator after the header of an empty clause comes after the clause
            if *k == "begin_l" && matches!(n, Node::When(When { body: None, .. }) | Node::InPattern(InPattern { body: None, .. })) && p.begin >= me.end {
                continue;
            }
            if !hd && (p.begin < me.begin || p.end > me.end) {
                self.err(format!("{parent}/{t}.{k} {}..{} is outside the node's range {}..{}", p.begin, p.end, me.begin, me.end));
            }
        }
        let hd = is_heredoc(n);
        for (k, c) in &kids {
            let r = e(c);
            if !hd && (r.begin < me.begin || r.end > me.end) {
                self.err(format!("{parent}/{t}.{k} ({}) {}..{} is outside its parent's range {}..{}", meta::type_name(c), r.begin, r.end, me.begin, me.end));
            }
            self.node(c, t);
        }
        // siblings do not overlap
        let mut rs: Vec<(Loc, &'static str, &Node)> = kids.iter().map(|(k, c)| (e(c), *k, *c)).collect();
        rs.sort_by_key(|(l, _, _)| (l.begin, l.end));
        for w in rs.windows(2) {
            if w[0].0.end > w[1].0.begin {
                // `{a:}`: key and value are the same text
                if matches!(n, Node::Pair(_)) && w[0].0.begin == w[1].0.begin && w[0].0.end <= w[1].0.end {
                    continue;
                }
                self.err(format!("{parent}/{t}: children {} {}..{} and {} {}..{} overlap", w[0].1, w[0].0.begin, w[0].0.end, w[1].1, w[1].0.begin, w[1].0.end));
            }
        }
        let _ = self.src;
    }
}
fn locs(ctx: &mut Ctx, r: &ParserResult) {
    let mut l = Locs { len: r.input.bytes.len(), src: &r.input.bytes, bad: None };
    for d in &r.diagnostics {
        l.inb("diagnostic", d.loc);
    }
    for t in &r.tokens {
        l.inb("token", t.loc);
    }
    for c in &r.comments {
        l.inb("comment", c.location);
    }
    for c in &r.magic_comments {
        l.inb("magic comment key", c.key_l);
        l.inb("magic comment value", c.value_l);
    }
    if let Some(t) = &r.ast {
        l.node(t, "");
    }
    if let Some(m) = l.bad {
        let er = if errors(r) > 0 { " [input with errors]" } else { "" };
        ctx.fail(format!("{m}{er}"));
    }
    ctx.nontrivial();
    ctx.outcome(if errors(r) > 0 { "with errors" } else { "accepted" });
}

// ------------------------------------------------------------------------------------ P04
/// tokens whose value is a decoded or synthesized text
fn verbatim(name: &str) -> bool {
    !matches!(name, "tSTRING_CONTENT" | "tCHAR" | "tNL" | "tSTRING_END" | "tLABEL_END" | "tSPACE" | "tSTRING_BEG" | "tXSTRING_BEG" | "tREGEXP_END" | "tWORDS_BEG" | "tQWORDS_BEG" | "tSYMBOLS_BEG" | "tQSYMBOLS_BEG" | "tREGEXP_BEG" | "tSYMBEG" | "EOF")
}
/// a piece of source between two tokens must be trivia
fn gap_ok(s: &[u8], from: usize, to: usize) -> bool {
    let mut i = from;
    if i == 0 && s.starts_with(b"\xef\xbb\xbf") {
        i = 3;
    }
    while i < to {
        let bol = i == 0 || s[i - 1] == b'\n' || (i == 3 && s.starts_with(b"\xef\xbb\xbf"));
        if bol && s[i..].starts_with(b"=begin") {
            let mut k = i;
            loop {
                match s[k..].iter().position(|&c| c == b'\n') {
                    None => return false,
                    Some(p) => k += p + 1,
                }
                if s[k..].starts_with(b"=end") && s.get(k + 4).map_or(true, |c| c.is_ascii_whitespace() || *c == 0x0b || *c == 0 || *c == 4 || *c == 26) {
                    break;
                }
            }
            i = s[k..].iter().position(|&c| c == b'\n').map_or(s.len(), |p| k + p + 1);
            continue;
        }
        if bol && s[i..].starts_with(b"__END__") {
            return true;
        }
        match s[i] {
            b' ' | b'\t' | b'\r' | 0x0b | 0x0c | b'\n' => i += 1,
            b'\\' if s[i + 1..].starts_with(b"\n") => i += 2,
            b'\\' if s[i + 1..].starts_with(b"\r\n") => i += 3,
            b'#' => i = s[i..].iter().position(|&c| c == b'\n').map_or(s.len(), |p| i + p),
            0 | 4 | 26 => return true,
            _ => return false,
        }
    }
    true
}
/// can a token of this kind be spelled like this?
fn kind_ok(n: &str, t: &[u8]) -> bool {
    let Ok(t) = std::str::from_utf8(t) else { return true };
    let first = t.chars().next().unwrap_or(' ');
    if let Some(k) = n.strip_prefix('k') {
        return match k {
            "lBEGIN" => t == "BEGIN",
            "lEND" => t == "END",
            "DEFINED" => t == "defined?",
            _ if k.starts_with("__") => t == k,
            _ => {
                let k = k.strip_suffix("_MOD").or(k.strip_suffix("_COND")).or(k.strip_suffix("_BLOCK")).or(k.strip_suffix("_LAMBDA")).unwrap_or(k);
                t == k.to_ascii_lowercase()
            }
        };
    }
    let num = t.strip_prefix('+').unwrap_or(t).starts_with(|c: char| c.is_ascii_digit());
    let any = |l: &[&str]| l.contains(&t);
    match n {
        "tIDENTIFIER" => t.ends_with('=') || (first.is_lowercase() || first == '_' || !first.is_ascii()) && !t.ends_with(['?', '!']),
        "tFID" => t.ends_with(['?', '!']),
        "tCONSTANT" => first.is_uppercase() && !t.ends_with(['?', '!']),
        "tLABEL" => t.ends_with(':') && (first.is_alphabetic() || first == '_' || !first.is_ascii()),
        "tGVAR" => first == '$' && t.len() > 1,
        "tNTH_REF" => first == '$' && t.len() > 1 && t[1..].bytes().all(|c| c.is_ascii_digit()) && !t.starts_with("$0"),
        "tBACK_REF" => any(&["$&", "$`", "$'", "$+"]),
        "tCVAR" => t.starts_with("@@") && t.len() > 2,
        "tIVAR" => first == '@' && t.len() > 1 && !t.starts_with("@@"),
        "tINTEGER" => num && !t.ends_with(['r', 'i']) && (!t.contains('.')),
        "tFLOAT" => num && !t.ends_with(['r', 'i']) && t.contains(['.', 'e', 'E']),
        "tRATIONAL" => num && t.ends_with('r'),
        "tIMAGINARY" => num && t.ends_with('i'),
        "tCHAR" => first == '?' && t.len() > 1,
        "tDOT" => t == ".",
        "tUPLUS" => any(&["+", "+@"]),
        "tUMINUS" => any(&["-", "-@"]),
        "tUMINUS_NUM" | "tMINUS" => t == "-",
        "tPLUS" => t == "+",
        "tPOW" | "tDSTAR" => t == "**",
        "tSTAR" | "tSTAR2" => t == "*",
        "tCMP" => t == "<=>",
        "tEQ" => t == "==",
        "tEQQ" => t == "===",
        "tNEQ" => t == "!=",
        "tGEQ" => t == ">=",
        "tLEQ" => t == "<=",
        "tANDOP" => t == "&&",
        "tOROP" => t == "||",
        "tMATCH" => t == "=~",
        "tNMATCH" => t == "!~",
        "tDOT2" | "tBDOT2" => t == "..",
        "tDOT3" | "tBDOT3" => t == "...",
        "tAREF" => t == "[]",
        "tASET" => t == "[]=",
        "tLSHFT" => t == "<<",
        "tRSHFT" => t == ">>",
        "tANDDOT" => t == "&.",
        "tCOLON2" | "tCOLON3" => t == "::",
        "tOP_ASGN" => t.len() > 1 && t.ends_with('=') && any(&["+=", "-=", "*=", "/=", "%=", "**=", "&=", "|=", "^=", "<<=", ">>=", "&&=", "||="]),
        "tASSOC" => t == "=>",
        "tLPAREN" | "tLPAREN_ARG" | "tLPAREN2" => t == "(",
        "tRPAREN" => t == ")",
        "tLBRACK" | "tLBRACK2" => t == "[",
        "tRBRACK" => t == "]",
        "tLBRACE" | "tLBRACE_ARG" | "tLCURLY" | "tLAMBEG" => t == "{",
        "tRCURLY" | "tSTRING_DEND" => t == "}",
        "tAMPER" | "tAMPER2" => t == "&",
        "tLAMBDA" => t == "->",
        "tSYMBEG" => first == ':' || t.starts_with("%s"),
        "tXSTRING_BEG" => t.starts_with('`') || t.starts_with("%x") || t.starts_with("<<"),
        "tREGEXP_BEG" => t == "/" || t.starts_with("%r"),
        "tWORDS_BEG" => t.starts_with("%W"),
        "tQWORDS_BEG" => t.starts_with("%w"),
        "tSYMBOLS_BEG" => t.starts_with("%I"),
        "tQSYMBOLS_BEG" => t.starts_with("%i"),
        "tSTRING_DBEG" => t == "#{",
        "tSTRING_DVAR" => t == "#",
        "tCOMMA" => t == ",",
        "tEQL" => t == "=",
        "tPIPE" => t == "|",
        "tGT" => t == ">",
        "tLT" => t == "<",
        "tBACK_REF2" => t == "`",
        "tCARET" => t == "^",
        "tSEMI" => t == ";",
        "tDIVIDE" => t == "/",
        "tPERCENT" => t == "%",
        "tTILDE" => any(&["~", "~@"]),
        "tBANG" => any(&["!", "!@"]),
        "tEH" => t == "?",
        "tCOLON" => t == ":",
        "tSTRING_BEG" | "tSTRING_CONTENT" | "tSTRING_END" | "tLABEL_END" | "tREGEXP_END" | "tNL" | "tSPACE" => true,
        _ => false,
    }
}
fn toks(ctx: &mut Ctx, r: &ParserResult, src: &[u8]) {
    let s = &r.input.bytes[..];
    let mut bad = None;
    let has_hd = s.windows(2).any(|w| w == b"<<");
    let mut cov = 0usize;
    for t in &r.tokens {
        let n = t.token_name();
        if t.loc.begin > t.loc.end || t.loc.end > s.len() {
            bad = Some(format!("token {t:?} out of bounds"));
            break;
        }
        if n == "EOF" {
            if !std::ptr::eq(t, r.tokens.last().unwrap()) {
                bad = Some(format!("end of input is followed by more tokens: {:?}", r.tokens));
            }
            break;
        }
        let text = &s[t.loc.begin..t.loc.end];
        let fine = errors(r) > 0 || match n {
            // the name without its colon
            "tLABEL" => text.split_last().map_or(false, |(c, name)| *c == b':' && name == &t.as_bytes()[..]),
            _ => !verbatim(n) || t.as_bytes()[..] == *text,
        };
        if !fine {
            bad = Some(format!("token {t:?} does not carry the text at its location ({:?})", String::from_utf8_lossy(text)));
            break;
        }
        if errors(r) == 0 && !kind_ok(n, text) {
            bad = Some(format!("token {t:?} is not one of that kind ({:?})", String::from_utf8_lossy(text)));
            break;
        }
        if has_hd {
            continue;
        }
        if t.loc.begin < cov {
            bad = Some(format!("token {t:?} starts before the end ({cov}) of the previous one"));
            break;
        }
        if errors(r) == 0 && !gap_ok(s, cov, t.loc.begin) {
            bad = Some(format!("text {:?} before token {t:?} belongs to no token", String::from_utf8_lossy(&s[cov..t.loc.begin])));
            break;
        }
        // a newline that ends a bare label may stand on the comment before it
        cov = if n == "tNL" && text == b"#" { t.loc.begin } else { t.loc.end };
    }
    if bad.is_none() && !has_hd && errors(r) == 0 && !gap_ok(s, cov, s.len()) {
        bad = Some(format!("text {:?} after the last token belongs to no token", String::from_utf8_lossy(&s[cov..])));
    }
    if bad.is_none() {
        // recording off: no tokens, nothing else changes
        let q = parse(src);
        if !q.tokens.is_empty() {
            bad = Some("tokens recorded although recording is off".into());
        } else if q.ast != r.ast || q.diagnostics != r.diagnostics || q.comments != r.comments || q.magic_comments != r.magic_comments {
            bad = Some("result depends on token recording".into());
        }
    }
    if let Some(m) = bad {
        ctx.fail(m);
    }
    ctx.nontrivial();
    ctx.outcome(if errors(r) > 0 { "with errors" } else { "accepted" });
}

pub fn judge(ctx: &mut Ctx, src: &[u8], w: Which) {
    if !ctx.begin(src) {
        return;
    }
    if w == Which::Lex {
        let n = lib_ruby_parser::Lexer::new(src.to_vec(), "(lexer)", None).tokenize_until_eof().len();
        ctx.nontrivial();
        ctx.outcome(if n == 0 { "no tokens" } else { "tokens" });
        ctx.end();
        return;
    }
    let r = if w == Which::Total { parse(src) } else { parse_tok(src) };
    match w {
        Which::Total => total(ctx, &r),
        Which::Locs => locs(ctx, &r),
        Which::Toks => toks(ctx, &r, src),
        Which::Lex => {}
    }
    drop(r);
    ctx.end();
}

pub const WIDE: &[&[u8]] = &[
    b"a", b"1", b" ", b"\n", b";", b",", b".", b"&.", b"::", b":", b"=", b"=>", b"==", b"+", b"-", b"*", b"**", b"&", b"|", b"||", b"!", b"?", b"<", b"<<", b"<<~A\n", b"A\n", b"..", b"...", b"->", b"(", b")", b"[",
    b"]", b"{", b"}", b"\"", b"'", b"`", b"/", b"%w[", b"%", b"#", b"#{", b"\\", b"@", b"$", "é".as_bytes(), b"A", b"a:", b"if ", b"end", b" do ", b"def ", b"class ", b"begin ", b"rescue ", b" in ", b"case ", b"when ",
    b"not ", b"while ", b" then ", b"else ", b"\xff", b"\0", b"\n__END__\n", b"\n=begin\n", b"\n=end\n", b"0x", b"_1", b"&&", b"self", b"alias ", b"undef ", b"BEGIN", b"yield ", b"return ", b"super ", b"nil", b"\r\n",
    b"for ", b"+=", b"||=", b"elsif ", b"ensure ", b"unless ", b"until ", b"module ", b"and ", b"defined? ", b"%i[", b"%(", b"\\u{", b"<<'A'\n", b"<<-\"A\"", b"=~", b"<=>", b"~", b"^", b"1.", b"1e", b"1r", b"&.=", b"\t", b"\x04", b"break ", b"redo", b"retry", b"next ", b"\xef\xbb\xbf", b"# encoding: x\n", b"__FILE__", b"**nil", b"|a|", b"a=", b"?a",
];
pub const CORE: &[&[u8]] = &[
    b"a", b"1", b" ", b"\n", b",", b".", b"::", b":", b"=", b"=>", b"*", b"**", b"&", b"|", b"!", b"?", b"<<~A\n", b"A\n", b"...", b"->", b"(", b")", b"[", b"]", b"{", b"}", b"\"", b"/", b"%w[", b"#{", b"\\", b"@", b"A", b"a:",
    b"if ", b"end", b" do ", b"def ", b"class ", b"rescue ", b" in ", b"case ", b"-", b"_1", b"\xff", b"alias ", b"for ", b"nil",
];
pub const MINI: &[&[u8]] = &[b"a", b"1", b" ", b"\n", b",", b".", b":", b"=", b"*", b"&", b"|", b"(", b")", b"[", b"{", b"}", b"\"", b"->", b"end", b"A", b"<<A", b"#{"];

/// text contexts: what is enumerated goes in the middle
pub const CTX: &[(&[u8], &[u8])] = &[
    (b"\"", b"\""), (b"'", b"'"), (b"`", b"`"), (b"%w[", b"]"), (b"%W[", b"]"), (b"%i[", b"]"), (b"%I(", b")"), (b"%q(", b")"), (b"%(", b")"), (b"/", b"/"), (b"%r{", b"}i"), (b"<<~A\n", b"\nA\n"), (b"<<-'A'\n", b"\nA\n"), (b"<<A\n", b"\nA\n"), (b"<<`A`\n", b"\nA\n"),
    (b"?", b""), (b":\"", b"\""), (b":", b""), (b"\"#{", b"}\""), (b"{\"", b"\": 1}"), (b"a{|", b"|}"), (b"def a(", b")end"), (b"def ", b"\nend"), (b"->(", b"){}"), (b"case a\nin ", b"\nend"), (b"a in ", b""), (b"a => ", b""),
    (b"alias ", b" b"), (b"undef ", b""), (b"a ", b""), (b"a.", b""), (b"a(", b")"), (b"a[", b"]"), (b"{", b"}"), (b"[", b"]"), (b"class ", b"\nend"), (b"module ", b";end"), (b"class << ", b";end"), (b"for ", b" in a do end"), (b"while ", b" do end"), (b"begin\n", b"\nend"),
    (b"begin\nrescue ", b"\nend"), (b"return ", b""), (b"a, ", b" = 1"), (b"a = ", b""), (b"a += ", b""), (b"(", b") = 1"), (b"if ", b"\nend"), (b"defined? ", b""), (b"not ", b""), (b"BEGIN {", b"}"), (b"END {", b"}"), (b"=begin\n", b"\n=end\n"), (b"# ", b"\na"), (b"#", b""), (b"a\n__END__", b""),
    (b"\\u", b""), (b"\"\\", b"\""), (b"\"\\u", b"\""), (b"\"\\M-", b"\""), (b"'\\", b"'"), (b"0", b""), (b"1_", b""), (b"$", b""), (b"@", b""), (b"@@", b""), (b"%", b""), (b"<<", b"\nA\n"), (b"<<~", b"\nA\n"), (b"<<-", b""), (b"def a = ", b""), (b"a ? ", b" : b"), (b"a ?", b""), (b"", b" do |x| end"), (b"", b" {}"), (b"", b" if a"),
    (b"# -*- ", b" -*-\na"), (b"# coding: ", b"\na"), (b"#!\n# ", b"\na"), (b"-> a; ", b" {}"), (b"a {|a; ", b"|}"), (b"def a(b, ", b") = 1"), (b"yield(", b")"), (b"super ", b""), (b"a&.", b" = 1"), (b"a::", b" = 1"), (b"p <<~A, <<~B\n", b"\nA\nB\n"), (b"{a: ", b"}"), (b"{**", b"}"), (b"case\nwhen ", b"\nend"), (b"case a\nin {", b"}\nend"), (b"case a\nin [", b"]\nend"), (b"case a\nin A(", b")\nend"),
    (b"case a\nin {\"", b"\":}\nend"), (b"a in \"", b"\": 1"), (b"#{", b"}"), (b"def self.", b"; end"), (b"a.b do |", b"|\nend"), (b"case a\nin b if ", b"\nend"), (b"a => ^(", b")"),
];

fn seqs(name: &str, alpha: &'static [&'static [u8]], n: usize, w: Which) -> Family {
    fam_nd(format!("{name}: all sequences of {n} of {} lexemes", alpha.len()), 0, move |c, ctx| {
        let mut s = vec![];
        for _ in 0..n {
            s.extend_from_slice(alpha[c.choose(alpha.len())]);
        }
        judge(ctx, &s, w);
    })
}
fn in_ctx(alpha: &'static [&'static [u8]], n: usize, w: Which) -> Family {
    fam_nd(format!("contexts: {} contexts x all sequences of {n} of {} lexemes", CTX.len(), alpha.len()), 0, move |c, ctx| {
        let (p, q) = CTX[c.choose(CTX.len())];
        let mut s = p.to_vec();
        for _ in 0..n {
            s.extend_from_slice(alpha[c.choose(alpha.len())]);
        }
        // with and without the closing part
        if c.choose(2) == 0 {
            s.extend_from_slice(q);
        }
        judge(ctx, &s, w);
    })
}
/// a context in a context (in a context)
fn ctx_in_ctx(deep: bool, w: Which) -> Family {
    const SHORT: &[&[u8]] = &[b"", b"a"];
    let alpha = if deep { SHORT } else { WIDE };
    fam_nd(format!("contexts nested {}: {} contexts x {} lexemes", if deep { "three deep" } else { "two deep" }, CTX.len(), alpha.len()), 0, move |c, ctx| {
        let mut s = vec![];
        let mut close: Vec<&[u8]> = vec![];
        for _ in 0..if deep { 3 } else { 2 } {
            let (p, q) = CTX[c.choose(CTX.len())];
            s.extend_from_slice(p);
            close.push(q);
        }
        s.extend_from_slice(alpha[c.choose(alpha.len())]);
        for q in close.into_iter().rev() {
            s.extend_from_slice(q);
        }
        judge(ctx, &s, w);
    })
}
fn bytes_fam(n: usize, w: Which) -> Family {
    fam_nd(format!("bytes: all byte strings of length {n}"), 0, move |c, ctx| {
        let s: Vec<u8> = (0..n).map(|_| c.choose(256) as u8).collect();
        judge(ctx, &s, w);
    })
}
fn bytes_ctx(n: usize, w: Which) -> Family {
    fam_nd(format!("bytes in contexts: {} contexts x all byte strings of length {n}", CTX.len()), 0, move |c, ctx| {
        let (p, q) = CTX[c.choose(CTX.len())];
        let mut s = p.to_vec();
        for _ in 0..n {
            s.push(c.choose(256) as u8);
        }
        s.extend_from_slice(q);
        judge(ctx, &s, w);
    })
}
const INS: &[&[u8]] = &[b"", b"\n", b" ", b"(", b")", b"end", b"\"", b"{", b"}", b",", b"*", b"&", b"=", b".", b":", b"|", b"do ", b"1", b"a", b"#", b"\\", b"\xff", b"if ", b"]", b"[", b"\0"];
/// every program of the reference grammar within K, damaged at every byte: truncated there, one byte
/// deleted, or one lexeme inserted
fn damage(k: u32, depth: i32, w: Which) -> Family {
    fam(format!("damage: grammar programs (depth {depth}) x every byte x truncate/delete/{} insertions", INS.len()), k, move |c, ctx| {
        let cons = super::tree::all_cons();
        let i = c.choose(cons.len());
        let s = {
            let mut g = G::new(c);
            g.rich = 2;
            g.depth = depth;
            (cons[i].1)(&mut g);
            g.s
        };
        for p in 0..=s.len() {
            judge(ctx, &s[..p], w);
            if p < s.len() {
                let mut d = s.clone();
                d.remove(p);
                judge(ctx, &d, w);
            }
            for ins in INS {
                let mut d = s[..p].to_vec();
                d.extend_from_slice(ins);
                d.extend_from_slice(&s[p..]);
                judge(ctx, &d, w);
            }
        }
    })
}
/// well-formed programs
fn grammar(k: u32, depth: i32, triv: Triv, w: Which) -> Family {
    fam(format!("grammar: programs of the reference grammar, depth {depth}{}", if triv == Triv::Off { "" } else { ", layout" }), k, move |c, ctx| {
        let cons = super::tree::all_cons();
        let i = c.choose(cons.len());
        let s = {
            let mut g = G::new(c);
            g.rich = 2;
            g.depth = depth;
            g.triv = triv;
            (cons[i].1)(&mut g);
            g.s
        };
        judge(ctx, &s, w);
    })
}
/// one pattern repeated: a^n b a^m for growing n
fn scale(w: Which) -> Family {
    const N: &[usize] = &[10, 100, 1000, 2000];
    fam_nd("scale: opener^n filler closer^m".to_string(), 0, move |c, ctx| {
        const P: &[(&[u8], &[u8], &[u8])] = &[
            (b"(", b"a", b")"), (b"[", b"1", b"]"), (b"{a: ", b"1", b"}"), (b"a(", b"1", b")"), (b"if a\n", b"b", b"\nend"), (b"def a\n", b"b", b"\nend"), (b"class A\n", b"b", b"\nend"), (b"a {", b"b", b"}"), (b"a do\n", b"b", b"\nend"), (b"-> {", b"b", b"}"),
            (b"\"#{", b"a", b"}\""), (b"!", b"a", b""), (b"- ", b"a", b""), (b"not ", b"a", b""), (b"a = ", b"1", b""), (b"a + ", b"1", b""), (b"a ** ", b"1", b""), (b"a ? ", b"b", b" : c"), (b"", b"a", b".b"), (b"", b"a", b"[1]"), (b"", b"a", b"\n"), (b"", b"a", b" + b"), (b"*", b"a", b", b"), (b"begin\n", b"a", b"\nrescue\nend"),
            (b"case a\nin [", b"b", b"]\nend"), (b"case a\nwhen ", b"b", b"\nend"), (b"a b, ", b"c", b""), (b"'a' ", b"'b'", b""), (b"<<A + ", b"1\n", b"A\n"), (b"while a do ", b"b", b" end"), (b"# c\n", b"a", b""), (b"\\\n", b"a", b""), (b"(", b"", b""), (b"", b"", b")"), (b"[", b"", b""), (b"a {", b"", b""), (b"\"#{", b"", b""), (b"def a;", b"", b""), (b"a.b ", b"", b""), (b"%w[a ", b"", b"]"), (b"a, ", b"b", b" = 1"), (b"_", b"", b""), (b"1_0", b"", b""), (b"\n", b"", b""), (b" ", b"", b""), (b"a: ", b"1", b""), (b"((", b"a, b", b")) = 1"), (b"p(->(a = ", b"1", b") {})"),
        ];
        let (a, f, z) = P[c.choose(P.len())];
        let n = N[c.choose(N.len())];
        let d = c.choose(3);
        let m = [n, n - 1, n + 1][d];
        let mut s = a.repeat(n);
        s.extend_from_slice(f);
        s.extend(z.repeat(m));
        judge(ctx, &s, w);
    })
}

fn common(th: bool, w: Which) -> Vec<Family> {
    let mut v = vec![seqs("wide", WIDE, 1, w), seqs("wide", WIDE, 2, w), seqs("wide", WIDE, 3, w), seqs("core", CORE, 4, w), seqs("mini", MINI, 5, w), in_ctx(WIDE, 1, w), in_ctx(WIDE, 2, w), in_ctx(MINI, 3, w), ctx_in_ctx(false, w), ctx_in_ctx(true, w), bytes_fam(1, w), bytes_fam(2, w), bytes_fam(3, w), bytes_ctx(1, w), grammar(2, 2, Triv::Off, w), grammar(2, 1, Triv::On, w), damage(1, 2, w), scale(w)];
    if th {
        v.push(bytes_ctx(2, w));
        v.push(in_ctx(CORE, 3, w));
        v.push(damage(2, 1, w));
        v.push(seqs("wide", WIDE, 4, w));
        v.push(seqs("mini", MINI, 6, w));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", rule: "Every sequence of lexemes / bytes within the stated lengths, alone and inside every text context, and every grammar program damaged at every byte, is parsed (a part of them also by the lexer on its own); the parser must return, and must report an error whenever there is no tree for non-blank text. Every input is non-trivial.", assumptions: &["a parse that takes over 20 s counts as endless", "nesting is bounded by the scale family (2,000 levels)"], families: |th| {
            let mut v = common(th, Which::Total);
            let w = Which::Lex;
            for mut f in [seqs("wide", WIDE, 2, w), seqs("wide", WIDE, 3, w), in_ctx(WIDE, 1, w), in_ctx(WIDE, 2, w), bytes_fam(1, w), bytes_fam(2, w)] {
                f.name = format!("lexer on its own, {}", f.name);
                v.push(f);
            }
            v
        } },
        Prop { id: "P02", rule: "Same input space as P01; every location in tree, diagnostics, tokens and comments is checked for bounds, containment in its node, containment of children and overlap of siblings. Every input is non-trivial.", assumptions: &[], families: |th| common(th, Which::Locs) },
        Prop { id: "P04", rule: "Same input space as P01; every token is checked for bounds, order, text and gaps, and the result is compared with a parse without recording. Every input is non-trivial.", assumptions: &["order and gaps are checked on inputs without heredocs only (heredoc bodies are read out of source order)"], families: |th| common(th, Which::Toks) },
    ]
}
#[allow(unused)]
fn _unused(_: CommentType, _: Parser, _: ParserOptions) {}
