//! P07 (string-like literals) and P27 (regular expressions): a reader of Ruby's literal rules that
//! is independent of the implementation, run over every content within the stated bounds.
use super::*;
use crate::n::*;
use crate::oracle::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sh {
    Str,
    Sym,
    Xstr,
    Words,
    Syms,
    Regexp,
    Label,
}
#[derive(Clone, Copy)]
pub struct Kind {
    pub pre: &'static str,
    pub open: &'static str,
    /// the opening character when delimiters nest
    pub nest: Option<u8>,
    pub close: u8,
    pub post: &'static str,
    pub expand: bool,
    pub sh: Sh,
}
impl Kind {
    pub fn words(&self) -> bool {
        matches!(self.sh, Sh::Words | Sh::Syms)
    }
}
const fn k(pre: &'static str, open: &'static str, nest: Option<u8>, close: u8, post: &'static str, expand: bool, sh: Sh) -> Kind {
    Kind { pre, open, nest, close, post, expand, sh }
}
pub fn kinds() -> Vec<Kind> {
    let mut v = vec![
        k("", "\"", None, b'"', "", true, Sh::Str),
        k("", "'", None, b'\'', "", false, Sh::Str),
        k("", "`", None, b'`', "", true, Sh::Xstr),
        k("", ":\"", None, b'"', "", true, Sh::Sym),
        k("", ":'", None, b'\'', "", false, Sh::Sym),
        k("a(", "\"", None, b'"', ": 1)", true, Sh::Label),
        k("a(", "'", None, b'\'', ": 1)", false, Sh::Label),
    ];
    macro_rules! pc {
        ($l:literal, $ex:expr, $sh:expr) => {
            v.push(k("", concat!("%", $l, "("), Some(b'('), b')', "", $ex, $sh));
            v.push(k("", concat!("%", $l, "["), Some(b'['), b']', "", $ex, $sh));
            v.push(k("", concat!("%", $l, "{"), Some(b'{'), b'}', "", $ex, $sh));
            v.push(k("", concat!("%", $l, "<"), Some(b'<'), b'>', "", $ex, $sh));
            v.push(k("", concat!("%", $l, "|"), None, b'|', "", $ex, $sh));
            v.push(k("", concat!("%", $l, "\""), None, b'"', "", $ex, $sh));
            v.push(k("", concat!("%", $l, "/"), None, b'/', "", $ex, $sh));
            v.push(k("", concat!("%", $l, "-"), None, b'-', "", $ex, $sh));
        };
    }
    pc!("", true, Sh::Str);
    pc!("Q", true, Sh::Str);
    pc!("q", false, Sh::Str);
    pc!("w", false, Sh::Words);
    pc!("W", true, Sh::Words);
    pc!("i", false, Sh::Syms);
    pc!("I", true, Sh::Syms);
    pc!("x", true, Sh::Xstr);
    pc!("s", false, Sh::Sym);
    v
}
fn re_kinds() -> Vec<Kind> {
    vec![
        k("", "/", None, b'/', "", true, Sh::Regexp),
        k("", "%r(", Some(b'('), b')', "", true, Sh::Regexp),
        k("", "%r[", Some(b'['), b']', "", true, Sh::Regexp),
        k("", "%r{", Some(b'{'), b'}', "", true, Sh::Regexp),
        k("", "%r<", Some(b'<'), b'>', "", true, Sh::Regexp),
        k("", "%r|", None, b'|', "", true, Sh::Regexp),
        k("", "%r!", None, b'!', "", true, Sh::Regexp),
        k("", "%r+", None, b'+', "", true, Sh::Regexp),
        k("", "%r-", None, b'-', "", true, Sh::Regexp),
        k("", "%r\"", None, b'"', "", true, Sh::Regexp),
    ]
}

// ---------------------------------------------------------------------------- the reference reader
#[derive(Debug)]
pub enum Part {
    T(Vec<u8>, Loc),
    I(Node),
}
pub enum Out {
    /// the words (one, for literals that are not lists) and the position of the closing delimiter
    Ok(Vec<Vec<Part>>, usize),
    Err,
    Skip,
}
pub enum Esc {
    /// the byte denoted and the position after it
    B(u8, usize),
    Err,
    Skip,
}
fn sp(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\n' | 0x0b | 0x0c | b'\r')
}
pub fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80
}
/// a single-byte escape; `p` is just after the backslash; flags: 1 control seen, 2 meta seen
pub fn escape(s: &[u8], p: usize, flags: u8) -> Esc {
    let Some(&c) = s.get(p) else { return Esc::Err };
    let one = |b| Esc::B(b, p + 1);
    match c {
        b'n' => one(10),
        b't' => one(9),
        b'r' => one(13),
        b'f' => one(12),
        b'v' => one(11),
        b'a' => one(7),
        b'e' => one(27),
        b'b' => one(8),
        b's' => one(32),
        b'0'..=b'7' => {
            let (mut v, mut q) = (0u32, p);
            while q < p + 3 && q < s.len() && (b'0'..=b'7').contains(&s[q]) {
                v = v * 8 + (s[q] - b'0') as u32;
                q += 1;
            }
            Esc::B(v as u8, q)
        }
        b'x' => {
            let (mut v, mut q) = (0u32, p + 1);
            while q < p + 3 && q < s.len() && s[q].is_ascii_hexdigit() {
                v = v * 16 + (s[q] as char).to_digit(16).unwrap();
                q += 1;
            }
            if q == p + 1 { Esc::Err } else { Esc::B(v as u8, q) }
        }
        b'M' | b'C' | b'c' => {
            let meta = c == b'M';
            let mut q = p + 1;
            if c != b'c' {
                if s.get(q) != Some(&b'-') {
                    return Esc::Err;
                }
                q += 1;
            }
            if flags & (if meta { 2 } else { 1 }) != 0 {
                return Esc::Err;
            }
            let Some(&d) = s.get(q) else { return Esc::Err };
            let r = match d {
                b'\\' => {
                    if matches!(s.get(q + 1), Some(b'u' | b'U')) {
                        return Esc::Err;
                    }
                    if matches!(s.get(q + 1), Some(&x) if x >= 0x80 || x == b'\n' || x == b'\r') {
                        return Esc::Skip;
                    }
                    escape(s, q + 1, flags | if meta { 2 } else { 1 })
                }
                b'?' if !meta => return Esc::B(0x7f, q + 1),
                d if d >= 0x80 => return Esc::Err,
                // Ruby warns about these; line ends are left out of the model
                b'\n' | b'\r' => return Esc::Skip,
                b' ' | b'\t' | 11 | 12 => Esc::B(d, q + 1),
                d if d < 32 || d == 127 => return Esc::Skip,
                d => Esc::B(d, q + 1),
            };
            match r {
                Esc::B(b, q) => Esc::B(if meta { b | 0x80 } else { b & 0x9f }, q),
                o => o,
            }
        }
        c => one(c),
    }
}
/// `\u` escapes; `p` is just after the `u`. Code points, their canonical spelling, position after.
pub fn unicode(s: &[u8], p: usize) -> Result<(Vec<char>, Vec<u8>, usize), Out> {
    if s.get(p) == Some(&b'{') {
        let mut q = p + 1;
        let mut v = vec![];
        let mut text = b"{".to_vec();
        loop {
            let mut last = None;
            while let Some(&c) = s.get(q) {
                if c == b'\n' {
                    return Err(Out::Err);
                }
                if !sp(c) {
                    break;
                }
                last = Some(c);
                q += 1;
            }
            match s.get(q) {
                None => return Err(Out::Err),
                Some(b'}') => {
                    text.push(b'}');
                    // an empty list is left out of the model
                    return if v.is_empty() { Err(Out::Skip) } else { Ok((v, text, q + 1)) };
                }
                _ => {}
            }
            let a = q;
            while q < s.len() && s[q].is_ascii_hexdigit() {
                q += 1;
            }
            if q == a || q - a > 6 {
                return Err(Out::Err);
            }
            let n = u32::from_str_radix(std::str::from_utf8(&s[a..q]).unwrap(), 16).unwrap();
            let Some(c) = char::from_u32(n) else { return Err(Out::Err) };
            if let (Some(x), false) = (last, v.is_empty()) {
                text.push(x);
            } else if !v.is_empty() {
                return Err(Out::Err);
            }
            text.extend_from_slice(&s[a..q]);
            v.push(c);
        }
    }
    let mut q = p;
    while q < s.len() && q < p + 4 && s[q].is_ascii_hexdigit() {
        q += 1;
    }
    if q - p < 4 {
        return Err(Out::Err);
    }
    let n = u32::from_str_radix(std::str::from_utf8(&s[p..q]).unwrap(), 16).unwrap();
    match char::from_u32(n) {
        Some(c) => Ok((vec![c], s[p..q].to_vec(), q)),
        None => Err(Out::Err),
    }
}
/// what follows `#` at `p`: an interpolation and the position after it
pub fn interp(s: &[u8], p: usize) -> Result<Option<(Node, usize)>, Out> {
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    match at(p) {
        b'{' => {
            let r = &s[p + 1..];
            let bl = l(p - 1, p + 1);
            let e1 = |st: Vec<Node>, q: usize| Ok(Some((begin(st, bl, l(q, q + 1)), q + 1)));
            if r.starts_with(b"}") {
                return e1(vec![], p + 1);
            }
            if r.starts_with(b"b}") {
                return e1(vec![ident_send("b", l(p + 1, p + 2))], p + 2);
            }
            if r.starts_with(b"\"}\"}") {
                return e1(vec![str_(b"}", Some(l(p + 1, p + 2)), Some(l(p + 3, p + 4)), l(p + 1, p + 4))], p + 4);
            }
            if r.starts_with(b"{}}") {
                return e1(vec![hash(vec![], Some(l(p + 1, p + 2)), Some(l(p + 2, p + 3)))], p + 3);
            }
            Err(Out::Skip)
        }
        b'@' => {
            let q = if at(p + 1) == b'@' { p + 2 } else { p + 1 };
            if !(at(q) >= 0x80 || at(q) == b'_' || at(q).is_ascii_alphabetic()) {
                return Ok(None);
            }
            let mut z = q;
            while idc(at(z)) {
                z += 1;
            }
            let name = String::from_utf8(s[p..z].to_vec()).unwrap();
            let el = l(p, z);
            Ok(Some((if q == p + 2 { Node::Cvar(Cvar { name, expression_l: el }) } else { Node::Ivar(Ivar { name, expression_l: el }) }, z)))
        }
        b'$' => {
            let c = at(p + 1);
            let gv = |z: usize| Ok(Some((Node::Gvar(Gvar { name: String::from_utf8(s[p..z].to_vec()).unwrap(), expression_l: l(p, z) }), z)));
            match c {
                b'-' => {
                    if at(p + 2) >= 0x80 {
                        return Err(Out::Skip);
                    }
                    // a digit does not start a name here
                    if at(p + 2) == b'_' || at(p + 2).is_ascii_alphabetic() {
                        return gv(p + 3);
                    }
                    Ok(None)
                }
                b'1'..=b'9' => {
                    let mut z = p + 1;
                    while at(z).is_ascii_digit() {
                        z += 1;
                    }
                    let n = String::from_utf8(s[p + 1..z].to_vec()).unwrap();
                    Ok(Some((Node::NthRef(NthRef { name: n, expression_l: l(p, z) }), z)))
                }
                b'0' => {
                    if idc(at(p + 2)) {
                        return Err(Out::Skip);
                    }
                    gv(p + 2)
                }
                b'&' | b'`' | b'\'' | b'+' => Ok(Some((Node::BackRef(BackRef { name: String::from_utf8(s[p..p + 2].to_vec()).unwrap(), expression_l: l(p, p + 2) }), p + 2))),
                b'~' | b'*' | b'$' | b'?' | b'!' | b'@' | b'/' | b'\\' | b';' | b',' | b'.' | b'=' | b':' | b'<' | b'>' | b'"' => gv(p + 2),
                c if c == b'_' || c >= 0x80 || c.is_ascii_alphabetic() => {
                    let mut z = p + 1;
                    while idc(at(z)) {
                        z += 1;
                    }
                    gv(z)
                }
                _ => Ok(None),
            }
        }
        _ => Ok(None),
    }
}
#[derive(Default)]
pub struct Acc {
    words: Vec<Vec<Part>>,
    cur: Vec<Part>,
    text: Vec<u8>,
    from: usize,
}
impl Acc {
    fn flush(&mut self, at: usize) {
        if at > self.from {
            self.cur.push(Part::T(std::mem::take(&mut self.text), l(self.from, at)));
        }
    }
    fn word(&mut self) {
        if !self.cur.is_empty() {
            self.words.push(std::mem::take(&mut self.cur));
        }
    }
}
/// read the literal whose opening delimiter ends at `p`
pub fn read(s: &[u8], p: usize, k: &Kind) -> Out {
    let mut a = Acc { from: p, ..Default::default() };
    let mut p = p;
    let mut nest = 0;
    let re = k.sh == Sh::Regexp;
    loop {
        let Some(&c) = s.get(p) else { return Out::Err };
        if Some(c) == k.nest {
            nest += 1;
            a.text.push(c);
            p += 1;
            continue;
        }
        if c == k.close {
            if nest == 0 {
                a.flush(p);
                a.word();
                if !k.words() {
                    if a.words.is_empty() {
                        a.words.push(vec![]);
                    }
                }
                return Out::Ok(a.words, p);
            }
            nest -= 1;
            a.text.push(c);
            p += 1;
            continue;
        }
        if k.words() && sp(c) {
            a.flush(p);
            a.word();
            p += 1;
            a.from = p;
            continue;
        }
        if c == b'#' && k.expand {
            match interp(s, p + 1) {
                Err(o) => return o,
                Ok(Some((n, q))) => {
                    a.flush(p);
                    a.cur.push(Part::I(n));
                    p = q;
                    a.from = p;
                    continue;
                }
                Ok(None) => {}
            }
        }
        if c == b'\\' {
            let mut q = p + 1;
            let Some(&d) = s.get(q) else { return Out::Err };
            // a carriage return before a line feed is part of the line end
            let nl = d == b'\n' || d == b'\r' && s.get(q + 1) == Some(&b'\n');
            if d == b'\r' && nl {
                q += 1;
            }
            if nl {
                if k.words() {
                    a.text.push(b'\n');
                } else if !k.expand {
                    a.text.extend_from_slice(b"\\\n");
                }
                p = q + 1;
                continue;
            }
            if !k.expand {
                if d == b'\\' || d == k.close || Some(d) == k.nest || k.words() && sp(d) {
                    a.text.push(d);
                } else {
                    a.text.extend_from_slice(&[b'\\', d]);
                }
                p = q + 1;
                continue;
            }
            if d == b'u' {
                match unicode(s, q + 1) {
                    Err(o) => return o,
                    Ok((v, t, z)) => {
                        if re {
                            a.text.extend_from_slice(b"\\u");
                            a.text.extend_from_slice(&t);
                        } else {
                            for c in v {
                                a.text.extend_from_slice(c.to_string().as_bytes());
                            }
                        }
                        p = z;
                        continue;
                    }
                }
            }
            if re {
                match d {
                    b'c' | b'C' | b'M' => match escape(s, q, 0) {
                        Esc::B(b, z) => {
                            a.text.extend_from_slice(format!("\\x{b:02X}").as_bytes());
                            p = z;
                        }
                        Esc::Err => return Out::Err,
                        Esc::Skip => return Out::Skip,
                    },
                    b'x' | b'0'..=b'7' => match escape(s, q, 0) {
                        Esc::B(_, z) => {
                            a.text.extend_from_slice(&s[p..z]);
                            p = z;
                        }
                        _ => return Out::Err,
                    },
                    // an escaped delimiter that means nothing to a regexp loses its backslash
                    d if d == k.close && !b"$*+.?^|)]}>".contains(&d) => {
                        a.text.push(d);
                        p = q + 1;
                    }
                    d => {
                        a.text.extend_from_slice(&[b'\\', d]);
                        p = q + 1;
                    }
                }
                continue;
            }
            if k.words() && sp(d) {
                a.text.push(d);
                p = q + 1;
                continue;
            }
            match escape(s, q, 0) {
                Esc::B(b, z) => {
                    a.text.push(b);
                    p = z;
                }
                Esc::Err => return Out::Err,
                Esc::Skip => return Out::Skip,
            }
            continue;
        }
        if c == b'\r' && s.get(p + 1) == Some(&b'\n') {
            p += 1;
            continue;
        }
        a.text.push(c);
        p += 1;
    }
}

// ---------------------------------------------------------------------------- comparison
/// parts of a literal, adjacent texts joined and empty ones dropped
pub fn norm(v: Vec<Part>) -> Vec<Part> {
    let mut o: Vec<Part> = vec![];
    for p in v {
        match (o.last_mut(), p) {
            (Some(Part::T(a, al)), Part::T(b, bl)) => {
                a.extend_from_slice(&b);
                al.end = bl.end;
            }
            (_, p) => o.push(p),
        }
    }
    o.retain(|p| !matches!(p, Part::T(t, _) if t.is_empty()));
    o
}
/// parts found in a node
fn found(n: &Node) -> Option<(Vec<Part>, Option<Loc>, Option<Loc>, Loc)> {
    let inner = |b: Option<Loc>, e: Option<Loc>, x: Loc| l(b.map_or(x.begin, |b| b.end), e.map_or(x.end, |e| e.begin));
    let parts = |v: &[Node]| {
        v.iter()
            .map(|n| match n {
                Node::Str(s) if s.begin_l.is_none() && s.end_l.is_none() => Part::T(s.value.as_raw().clone(), s.expression_l),
                o => Part::I(o.clone()),
            })
            .collect::<Vec<_>>()
    };
    Some(match n {
        Node::Str(s) => (vec![Part::T(s.value.as_raw().clone(), inner(s.begin_l, s.end_l, s.expression_l))], s.begin_l, s.end_l, s.expression_l),
        Node::Sym(s) => (vec![Part::T(s.name.as_raw().clone(), inner(s.begin_l, s.end_l, s.expression_l))], s.begin_l, s.end_l, s.expression_l),
        Node::Dstr(s) => (parts(&s.parts), s.begin_l, s.end_l, s.expression_l),
        Node::Dsym(s) => (parts(&s.parts), s.begin_l, s.end_l, s.expression_l),
        Node::Xstr(s) => (parts(&s.parts), Some(s.begin_l), Some(s.end_l), s.expression_l),
        Node::Regexp(s) => (parts(&s.parts), Some(s.begin_l), Some(s.end_l), s.expression_l),
        _ => return None,
    })
}
pub fn same_parts(exp: &[Part], got: &[Part]) -> Result<(), String> {
    let show = |v: &[Part]| {
        v.iter()
            .map(|p| match p {
                Part::T(t, x) => format!("text {:?} at {}..{}", String::from_utf8_lossy(t), x.begin, x.end),
                Part::I(n) => format!("{} at {}..{}", crate::meta::type_name(n), e(n).begin, e(n).end),
            })
            .collect::<Vec<_>>()
            .join(", ")
    };
    let ok = exp.len() == got.len()
        && exp.iter().zip(got).all(|(a, b)| match (a, b) {
            (Part::T(a, x), Part::T(b, y)) => a == b && x == y,
            (Part::I(a), Part::I(b)) => diff_opt(Some(a), Some(b)).is_none(),
            _ => false,
        });
    if ok { Ok(()) } else { Err(format!("expected [{}], got [{}]", show(exp), show(got))) }
}
/// compares one literal node; `None` for a location means it must be absent
fn same(n: &Node, sh: Sh, exp: Vec<Part>, bl: Option<Loc>, el: Option<Loc>, x: Loc, plain: bool) -> Result<(), String> {
    let exp = norm(exp);
    let ty = match (n, sh) {
        (Node::Str(_), Sh::Str) | (Node::Sym(_), Sh::Sym | Sh::Label) | (Node::Xstr(_), Sh::Xstr) | (Node::Regexp(_), Sh::Regexp) => true,
        (Node::Dstr(_), Sh::Str) => !plain,
        // Ruby has no plain empty symbol literal
        (Node::Dsym(_), Sh::Sym | Sh::Label) => !plain || exp.is_empty(),
        _ => false,
    };
    if !ty {
        return Err(format!("expected {sh:?}, got {}", crate::meta::type_name(n)));
    }
    let (got, gb, ge, gx) = found(n).unwrap();
    same_parts(&exp, &norm(got))?;
    if (gb, ge, gx) != (bl, el, x) {
        return Err(format!("delimiters: expected {bl:?} {el:?} {x:?}, got {gb:?} {ge:?} {gx:?}"));
    }
    Ok(())
}
fn has_interp(v: &[Part]) -> bool {
    v.iter().any(|p| matches!(p, Part::I(_)))
}
fn bad_sym(v: &[Part]) -> bool {
    !has_interp(v) && v.iter().any(|p| matches!(p, Part::T(t, _) if std::str::from_utf8(t).is_err()))
}
fn opt_text(n: &Option<Box<Node>>) -> Option<(Option<String>, Loc)> {
    match n.as_deref() {
        Some(Node::RegOpt(o)) => Some((o.options.clone(), o.expression_l)),
        _ => None,
    }
}
/// `k.pre k.open content close opts k.post \n z \n`
pub fn judge(ctx: &mut Ctx, k: &Kind, content: &[u8], ropts: &str) {
    let mut s = vec![];
    s.extend_from_slice(k.pre.as_bytes());
    let a = s.len();
    s.extend_from_slice(k.open.as_bytes());
    let b = s.len();
    s.extend_from_slice(content);
    let c = s.len();
    s.push(k.close);
    s.extend_from_slice(ropts.as_bytes());
    s.extend_from_slice(k.post.as_bytes());
    let tail = s.len();
    s.extend_from_slice(b"\nz\n");
    let bad_opt = ropts.bytes().any(|c| !b"imxounes".contains(&c));
    match read(&s, b, k) {
        Out::Skip => {
            ctx.outcome("out of model");
        }
        Out::Err => expect_error(ctx, &s),
        Out::Ok(_, end) if end != c => {
            ctx.outcome("out of model");
        }
        Out::Ok(words, _) => {
            if bad_opt || matches!(k.sh, Sh::Sym | Sh::Syms | Sh::Label) && words.iter().any(|w| bad_sym(w)) {
                return expect_error(ctx, &s);
            }
            if !ctx.begin(&s) {
                return;
            }
            let r = parse(&s);
            ctx.end();
            if errors(&r) > 0 {
                ctx.fail(format!("valid literal rejected: {}", diag_str(&r.diagnostics)));
                return;
            }
            // statement and `z`
            let lit = match r.ast.as_deref() {
                Some(Node::Begin(Begin { statements, begin_l: None, end_l: None, .. })) if statements.len() == 2 && diff_opt(Some(&ident_send("z", l(tail + 1, tail + 2))), Some(&statements[1])).is_none() => &statements[0],
                t => {
                    ctx.fail(format!("expected the literal and `z`, got {t:?}"));
                    return;
                }
            };
            let plain = !content.contains(&b'#');
            let res = (|| -> Result<(), String> {
                let (bl, el) = (l(a, b), l(c, c + 1));
                match k.sh {
                    Sh::Str | Sh::Sym | Sh::Xstr => same(lit, k.sh, words.into_iter().next().unwrap(), Some(bl), Some(el), l(a, c + 1), plain),
                    Sh::Regexp => {
                        let Node::Regexp(re) = lit else { return Err(format!("expected a regexp, got {}", crate::meta::type_name(lit))) };
                        let mut o: Vec<char> = ropts.chars().collect();
                        o.sort();
                        o.dedup();
                        let o: String = o.into_iter().collect();
                        let got = opt_text(&re.options);
                        let want_l = l(c + 1, c + 1 + ropts.len());
                        match &got {
                            Some((t, _)) if t.as_deref().unwrap_or("") != o => return Err(format!("options: expected {o:?}, got {t:?}")),
                            Some((_, x)) if *x != want_l => return Err(format!("options at {x:?}, expected {want_l:?}")),
                            None if !o.is_empty() => return Err("options missing".into()),
                            _ => {}
                        }
                        same(lit, k.sh, words.into_iter().next().unwrap(), Some(bl), Some(el), l(a, c + 1 + ropts.len()), plain)
                    }
                    Sh::Words | Sh::Syms => {
                        let Node::Array(arr) = lit else { return Err(format!("expected an array, got {}", crate::meta::type_name(lit))) };
                        if (arr.begin_l, arr.end_l, arr.expression_l) != (Some(bl), Some(el), l(a, c + 1)) {
                            return Err(format!("delimiters {:?} {:?} {:?}", arr.begin_l, arr.end_l, arr.expression_l));
                        }
                        if arr.elements.len() != words.len() {
                            return Err(format!("expected {} words, got {}", words.len(), arr.elements.len()));
                        }
                        for (w, n) in words.into_iter().zip(&arr.elements) {
                            let f = match (&w[0], &w[w.len() - 1]) {
                                (f, t) => l(part_l(f).begin, part_l(t).end),
                            };
                            let el = if let Part::I(n) = &w[w.len() - 1] { e(n).end } else { f.end };
                            let fl = match &w[0] {
                                Part::I(n) => e(n).begin,
                                _ => f.begin,
                            };
                            let sh = if k.sh == Sh::Words { Sh::Str } else { Sh::Sym };
                            same(n, sh, w, None, None, l(fl, el), plain)?;
                        }
                        Ok(())
                    }
                    Sh::Label => {
                        let Node::Send(sd) = lit else { return Err("expected a call".into()) };
                        let [Node::Kwargs(kw)] = &sd.args[..] else { return Err("expected keyword arguments".into()) };
                        let [Node::Pair(p)] = &kw.pairs[..] else { return Err("expected a pair".into()) };
                        if p.operator_l != l(c + 1, c + 2) {
                            return Err(format!("colon at {:?}", p.operator_l));
                        }
                        same(&p.key, k.sh, words.into_iter().next().unwrap(), Some(bl), Some(el), l(a, c + 1), plain)
                    }
                }
            })();
            if let Err(d) = res {
                ctx.fail(d);
                return;
            }
            ctx.nontrivial();
            ctx.outcome("accepted as expected");
        }
    }
}
fn part_l(p: &Part) -> Loc {
    match p {
        Part::T(_, x) => *x,
        Part::I(n) => e(n),
    }
}

// ---------------------------------------------------------------------------- what is enumerated
/// structure: delimiters, white space, interpolation, escapes of a few
const STRUCT: [&str; 22] = ["a", " ", "\n", "\r\n", "\\", "OPEN", "CLOSE", "#", "{", "}", "#{b}", "#@a", "#$a", "#$", "@", "#{}", "#@@a", "é", "n", "1", "#{\"}\"}", "#{{}}"];
/// the spelling of escapes
const ESCS: [&str; 30] = ["\\", "x", "u", "{", "}", "C-", "M-", "c", "C", "M", "-", "0", "1", "7", "8", "f", "A", "g", " ", "?", "n", "10ffff", "110000", "d800", "41", "00", "\t", "é", "\r", "\n"];
fn lexeme(k: &Kind, x: &'static str) -> Vec<u8> {
    match x {
        "OPEN" => match k.nest {
            Some(c) => vec![c],
            None => b"\"'`"[..].iter().copied().filter(|c| *c != k.close).take(1).collect(),
        },
        "CLOSE" => vec![k.close],
        x => x.as_bytes().to_vec(),
    }
}
fn structure(name: &str, ks: Vec<Kind>, n: usize) -> Family {
    let nk = ks.len();
    fam(format!("{name}: {nk} literal forms x every content of {n} of {} lexemes", STRUCT.len()), 0, move |c, ctx| {
        let k = &ks[c.choose(nk)];
        let mut t = vec![];
        for _ in 0..n {
            t.extend_from_slice(&lexeme(k, STRUCT[c.choose(STRUCT.len())]));
        }
        judge(ctx, k, &t, "");
    })
}
fn escapes(name: &str, ks: Vec<Kind>, n: usize) -> Family {
    let nk = ks.len();
    fam(format!("{name}: {nk} literal forms x a backslash and every {n} of {} escape parts", ESCS.len()), 0, move |c, ctx| {
        let k = &ks[c.choose(nk)];
        let mut t = b"\\".to_vec();
        for _ in 0..n {
            t.extend_from_slice(ESCS[c.choose(ESCS.len())].as_bytes());
        }
        judge(ctx, k, &t, "");
    })
}
/// `\` and any ASCII character or a few others, with any neighbours
fn every_byte(name: &str, ks: Vec<Kind>) -> Family {
    let nk = ks.len();
    fam(format!("{name}: {nk} literal forms x every escaped and unescaped character, with neighbours"), 0, move |c, ctx| {
        let k = &ks[c.choose(nk)];
        let mut t = vec![];
        t.extend_from_slice(["", "a", "#{b}"][c.choose(3)].as_bytes());
        let pre: &[u8] = [&b""[..], b"\\", b"\\\\", b"\\M-", b"\\C-", b"\\M-\\C-", b"#", b"#$", b"#@"][c.choose(9)];
        t.extend_from_slice(pre);
        let b = c.choose(131);
        match b {
            128 => t.extend_from_slice("é".as_bytes()),
            129 => t.extend_from_slice("日".as_bytes()),
            130 => t.extend_from_slice("😀".as_bytes()),
            b => t.push(b as u8),
        }
        t.extend_from_slice(["", "1", "#{b}", " a"][c.choose(4)].as_bytes());
        judge(ctx, k, &t, "");
    })
}
/// variables interpolated without braces: what is one, and where it ends
pub fn dvars(n: usize) -> Family {
    const AL: [&str; 16] = ["$", "@", "-", "a", "A", "1", "0", "_", "é", "~", "&", "?", "#", "=", "{", " "];
    let mut ks = sel(|k| matches!(k.open, "\"" | "%W(" | "`" | ":\"" | "%I{" | "%Q("));
    ks.extend(re_kinds().into_iter().take(2));
    let nk = ks.len();
    fam(format!("interpolation without braces: {nk} literal forms x `#$` or `#@` and every {n} of {} pieces", AL.len()), 0, move |c, ctx| {
        let k = &ks[c.choose(nk)];
        let mut t = b"#".to_vec();
        t.extend_from_slice(["$", "@"][c.choose(2)].as_bytes());
        for _ in 0..n {
            t.extend_from_slice(AL[c.choose(AL.len())].as_bytes());
        }
        judge(ctx, k, &t, "");
    })
}
/// `#$` and `#@` followed by every character, then by one more piece
pub fn dvar_chars() -> Family {
    const Z: [&str; 12] = ["", "a", "0", "1", "9", "_", "é", "-", " ", "=", "$", "#"];
    let mut al: Vec<String> = (0x20u8..0x7f).map(|x| (x as char).to_string()).collect();
    al.extend(["é", "日", "😀", "\\n", "\\u0041", "\\\\"].map(String::from));
    let mut ks = sel(|k| matches!(k.open, "\"" | "%W(" | "`" | ":\"" | "%I{" | "%Q(" | "%("));
    ks.extend(re_kinds().into_iter().take(2));
    let nk = ks.len();
    fam(format!("interpolation without braces: {nk} literal forms x `#$`, `#$-`, `#@` or `#@@` and every character x {} pieces", Z.len()), 0, move |c, ctx| {
        let k = &ks[c.choose(nk)];
        let mut t = ["#$", "#$-", "#@", "#@@"][c.choose(4)].as_bytes().to_vec();
        t.extend_from_slice(al[c.choose(al.len())].as_bytes());
        t.extend_from_slice(Z[c.choose(Z.len())].as_bytes());
        judge(ctx, k, &t, "");
    })
}
fn sel(f: impl Fn(&Kind) -> bool) -> Vec<Kind> {
    kinds().into_iter().filter(|k| f(k)).collect()
}
fn core() -> Vec<Kind> {
    sel(|k| matches!(k.open, "\"" | "'" | "%W(" | "%i[" | "%w<" | "%I{" | "%q{" | "%Q(" | "`" | ":\""))
}

/// character literals
fn chars(n: usize) -> Family {
    fam(format!("character literals: every {n} of {} parts after the question mark", ESCS.len() + 4), 0, move |c, ctx| {
        let mut s = b"?".to_vec();
        for _ in 0..n {
            let i = c.choose(ESCS.len() + 4);
            s.extend_from_slice(if i < 4 { ["a", "_", "\"", "+"][i] } else { ESCS[i - 4] }.as_bytes());
        }
        let end = s.len();
        s.extend_from_slice(b"\nz\n");
        char_lit(ctx, &s, end);
    })
}
fn char_lit(ctx: &mut Ctx, s: &[u8], end: usize) {
    let ch = s[1];
    let r: Result<(Vec<u8>, usize), bool> = if sp(ch) {
        Err(false)
    } else if ch == b'\\' {
        if s[2] == b'u' {
            match unicode(s, 3) {
                Ok((v, _, z)) if v.len() == 1 => Ok((v[0].to_string().into_bytes(), z)),
                Ok(_) | Err(Out::Err) => Err(false),
                _ => Err(true),
            }
        } else if s[2] >= 0x80 {
            let n = utf8_len(s[2]);
            Ok((s[2..2 + n].to_vec(), 2 + n))
        } else if s[2] == b'\n' || s[2] == b'\r' {
            Err(true)
        } else {
            match escape(s, 2, 0) {
                Esc::B(b, z) => Ok((vec![b], z)),
                Esc::Err => Err(false),
                Esc::Skip => Err(true),
            }
        }
    } else if ch >= 0x80 {
        let n = utf8_len(ch);
        Ok((s[1..1 + n].to_vec(), 1 + n))
    } else if (ch.is_ascii_alphanumeric() || ch == b'_') && idc(s[2]) {
        Err(false)
    } else {
        Ok((vec![ch], 2))
    };
    match r {
        Err(true) => ctx.outcome("out of model"),
        Err(false) => expect_error(ctx, s),
        Ok((_, z)) if z != end => ctx.outcome("out of model"),
        Ok((v, z)) => {
            if !ctx.begin(s) {
                return;
            }
            let r = parse(s);
            ctx.end();
            let want = compstmt(vec![str_(&v, Some(l(0, 1)), None, l(0, z)), ident_send("z", l(z + 1, z + 2))]);
            if errors(&r) > 0 {
                ctx.fail(format!("valid literal rejected: {}", diag_str(&r.diagnostics)));
            } else if let Some(d) = diff_opt(want.as_ref(), r.ast.as_deref()) {
                ctx.fail(format!("tree differs: {d}"));
            }
            ctx.nontrivial();
            ctx.outcome("accepted as expected");
        }
    }
}
fn utf8_len(c: u8) -> usize {
    match c {
        0xf0.. => 4,
        0xe0.. => 3,
        _ => 2,
    }
}

/// neighbouring literals are one string
fn adjacent(n: usize) -> Family {
    const L: [(&str, usize, usize, &[u8]); 9] = [("\"a\"", 1, 1, b"a"), ("'b'", 1, 1, b"b"), ("%q(c)", 3, 1, b"c"), ("\"\"", 1, 1, b""), ("\"\\n\"", 1, 1, b"\n"), ("%(d)", 2, 1, b"d"), ("\"#{b}\"", 1, 1, b"#"), ("\"x#{b}y\"", 1, 1, b"#"), ("?e", 1, 0, b"e")];
    const J: [&str; 5] = [" ", "", "\\\n", "\t \\\r\n ", "  "];
    fam_nd(format!("adjacent literals: all sequences of {n}, joined in every way"), 0, move |c, ctx| {
        let mut s: Vec<u8> = vec![];
        let mut nodes = vec![];
        for i in 0..n {
            let k = c.choose(if i == 0 { 9 } else { 8 });
            let join = if i > 0 { J[c.choose(5)] } else { "" };
            let (t, bl, el, v) = L[k];
            if i > 0 && join.is_empty() && t.starts_with('%') {
                ctx.outcome("out of model");
                return;
            }
            // without a space `%q` would be the modulo operator
            if t.starts_with('%') && i > 0 {
                ctx.outcome("out of model");
                return;
            }
            s.extend_from_slice(join.as_bytes());
            let a = s.len();
            s.extend_from_slice(t.as_bytes());
            let z = s.len();
            let (b1, e1) = (Some(l(a, a + bl)), if el > 0 { Some(l(z - 1, z)) } else { None });
            nodes.push(if k == 6 || k == 7 {
                let o = if k == 7 { 1 } else { 0 };
                let p = a + 1 + o;
                let mut parts = vec![];
                if o == 1 {
                    parts.push(str_(b"x", None, None, l(a + 1, a + 2)));
                }
                parts.push(begin(vec![ident_send("b", l(p + 2, p + 3))], l(p, p + 2), l(p + 3, p + 4)));
                if o == 1 {
                    parts.push(str_(b"y", None, None, l(p + 4, p + 5)));
                }
                Node::Dstr(Dstr { parts, begin_l: b1, end_l: e1, expression_l: l(a, z) })
            } else {
                str_(v, b1, e1, l(a, z))
            });
        }
        s.push(b'\n');
        let want = if nodes.len() == 1 {
            nodes.pop()
        } else {
            let el = je(&nodes[0], &nodes[nodes.len() - 1]);
            Some(Node::Dstr(Dstr { parts: nodes, begin_l: None, end_l: None, expression_l: el }))
        };
        expect_src(ctx, &s, want, None);
    })
}
/// option letters
fn options(n: usize) -> Family {
    const O: [&str; 14] = ["", "i", "m", "x", "o", "u", "n", "e", "s", "z", "a", "I", "M", "X"];
    fam(format!("regexp options: every sequence of {n} letters, all delimiters"), 0, move |c, ctx| {
        let ks = re_kinds();
        let k = &ks[c.choose(ks.len())];
        let body = ["", "a", "#{b}"][c.choose(3)];
        let mut o = String::new();
        for _ in 0..n {
            o.push_str(O[c.choose(O.len())]);
        }
        judge(ctx, k, body.as_bytes(), &o);
    })
}
/// is a slash division or the start of a regexp
fn slash() -> Family {
    // what stands before, and what Ruby does: v value (division), b expression start (regexp),
    // c possible command call (depends on the white space)
    const PRE: &[(&str, char)] = &[
        ("1", 'v'), ("1.5", 'v'), ("x = 1; x", 'v'), ("@x", 'v'), ("$x", 'v'), ("@@x", 'v'), (":x", 'v'), ("\"s\"", 'v'), ("'s'", 'v'), ("?s", 'v'), ("(1)", 'v'), ("[1]", 'v'), ("m[1]", 'v'), ("m()", 'v'), ("m { 1 }", 'v'), ("m do 1 end", 'v'), ("nil", 'v'), ("self", 'v'), ("true", 'v'), ("__FILE__", 'v'), ("begin; 1; end", 'v'), ("%w(a)", 'v'), ("/s/", 'v'), ("$1", 'v'), ("1r", 'v'), ("1i", 'v'), ("-> { }", 'v'), ("`s`", 'v'), ("{}", 'v'),
        ("m", 'c'), ("m.n", 'c'), ("m&.n", 'c'), ("K", 'c'), ("m::n", 'c'), ("m.K", 'c'), ("m!", 'c'), ("m?", 'c'), ("m.class", 'c'), ("yield", 'c'), ("super", 'c'),
        ("", 'b'), ("1 +", 'b'), ("x =", 'b'), ("x +=", 'b'), ("m(", '('), ("[", '['), ("!", 'b'), ("not", 'k'), ("1 and", 'b'), ("1 or", 'b'), ("1 &&", 'b'), ("1 ||", 'b'), ("1 ?", '?'), ("return", 'b'), ("if 1 then", 'e'), ("1 if", 'b'), ("1 while", 'b'), ("(", '('), ("m a,", 'b'), ("1;", 'b'), ("m a:", 'b'), ("m :a =>", 'b'), ("1 ==", 'b'), ("1 =~", 'b'), ("begin;", 'e'), ("m {", '}'), ("m { |a|", '}'), ("\"#{", '"'), ("defined?", 'k'), ("case; when 1 then", 'e'), ("1..", 'b'), ("x = y =", 'b'), ("1 unless", 'b'), ("1 rescue", 'b'), ("else_ =", 'b'), ("->(a =", 'l'), ("m &", 'b'), ("m *", 'b'), ("1 <<", 'b'), ("~", 'b'), ("-", 'b'),
    ];
    fam_nd(format!("slash: {} contexts x all spacings", PRE.len()), 0, |c, ctx| {
        let (p, k) = PRE[c.choose(PRE.len())];
        let (lsp, rsp) = (c.choose(2) == 1, c.choose(2) == 1);
        // read as a regexp: body `d/`, read as a division: operand `d`
        let re = match k {
            'v' => false,
            'c' | 'k' => lsp && !rsp,
            _ => true,
        };
        let mut s = p.to_string();
        let need = p.ends_with(|c: char| c.is_ascii_alphanumeric()) && k != 'v' && k != 'c' && k != 'k';
        if lsp || need {
            s.push(' ');
        }
        let at = s.len();
        s.push('/');
        if rsp {
            s.push(' ');
        }
        s.push('d');
        if re {
            s.push('/');
        }
        s.push_str(match k {
            '(' => ")",
            '[' => "]",
            '?' => " : 2",
            'e' => "; end",
            '}' => "}",
            '"' => "}\"",
            'l' => ") { }",
            _ => "",
        });
        s.push('\n');
        if k == 'k' && !re {
            return expect_error(ctx, s.as_bytes());
        }
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let r = parse(s.as_bytes());
        ctx.end();
        if errors(&r) > 0 {
            ctx.fail(format!("valid program rejected (expected {}): {}", if re { "a regexp" } else { "a division" }, diag_str(&r.diagnostics)));
            return;
        }
        let mut hit = false;
        fn walk(n: &Node, f: &mut dyn FnMut(&Node)) {
            f(n);
            crate::meta::visit(n, &mut |_, x| match x {
                crate::meta::F::N(c) | crate::meta::F::OptN(Some(c)) => walk(c, f),
                crate::meta::F::Ns(v) => v.iter().for_each(|c| walk(c, f)),
                _ => {}
            });
        }
        if let Some(t) = &r.ast {
            walk(t, &mut |n| match n {
                Node::Regexp(x) if re => hit |= x.begin_l == l(at, at + 1),
                Node::Send(x) if !re => hit |= x.method_name == "/" && x.selector_l == Some(l(at, at + 1)),
                _ => {}
            });
        }
        if !hit {
            ctx.fail(format!("the slash at {at} should be {}", if re { "a regexp" } else { "a division" }));
        }
        ctx.nontrivial();
        ctx.outcome("accepted as expected");
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P07",
            rule: "Each execution is one literal form with one content assembled from the lexeme alphabet; an independent reader of Ruby's literal rules says whether it is well formed and which bytes and interpolations it holds, and the parser must return exactly those, at their places, or an error.",
            assumptions: &["source text is valid UTF-8; contents whose literal ends early or that hold other interpolated code than the stated ones are left out"],
            families: |th| {
                let mut v = vec![];
                for n in 0..=2 {
                    v.push(structure("structure", kinds(), n));
                    v.push(escapes("escapes", sel(|k| matches!(k.open, "\"" | "'" | "%W(" | "%w[" | ":\"" | "%I[" | "`" | "%q{" | "%i<")), n));
                }
                v.push(structure("structure", kinds(), 3));
                v.push(structure("structure", kinds(), 4));
                v.push(escapes("escapes", sel(|k| matches!(k.open, "\"" | "%W(" | ":\"" | "`")), 3));
                v.push(escapes("escapes", sel(|k| k.open == "\"" && k.pre.is_empty()), 4));
                v.push(every_byte("characters", kinds()));
                for n in 1..=if th { 5 } else { 4 } {
                    v.push(chars(n));
                }
                for n in 1..=if th { 5 } else { 4 } {
                    v.push(adjacent(n));
                }
                if th {
                    v.push(structure("structure, core forms", core(), 5));
                    v.push(structure("structure, double quotes", sel(|k| k.open == "\"" && k.pre.is_empty()), 6));
                    v.push(escapes("escapes", sel(|k| k.open == "\"" && k.pre.is_empty()), 5));
                }
                v
            },
        },
        Prop {
            id: "P27",
            rule: "Each execution is one regular expression form with one content and option list assembled from the lexeme alphabets, judged by an independent reader of Ruby's rules; and one context before a slash, with every spacing, judged by Ruby's rule for division versus regexp.",
            assumptions: &["built without the onig feature, so patterns themselves are not compiled"],
            families: |th| {
                let mut v = vec![];
                for n in 0..=3 {
                    v.push(structure("structure", re_kinds(), n));
                    v.push(escapes("escapes", re_kinds(), n));
                }
                v.push(structure("structure", re_kinds(), 4));
                v.push(every_byte("characters", re_kinds()));
                for n in 0..=4 {
                    v.push(options(n));
                }
                v.push(slash());
                if th {
                    v.push(structure("structure", re_kinds().into_iter().take(3).collect(), 5));
                    v.push(escapes("escapes", re_kinds(), 4));
                    v.push(options(5));
                }
                v
            },
        },
    ]
}
