//! P09: numeric literals, decided by an independent reader of the little language
//! number | identifier | unary and binary + - | calls with a dot | ranges.
use super::*;
use crate::n::*;
use crate::oracle::*;

#[derive(Debug)]
enum Bad {
    /// Ruby rejects the text
    Error,
    /// the little language does not say
    Unknown,
}
struct R<'a> {
    s: &'a [u8],
    p: usize,
}
fn digits(s: &[u8], mut p: usize, ok: fn(u8) -> bool) -> Result<usize, Bad> {
    // one or more digits with single separators between them
    if !s.get(p).map_or(false, |c| ok(*c)) {
        return Err(Bad::Error);
    }
    loop {
        while s.get(p).map_or(false, |c| ok(*c)) {
            p += 1;
        }
        if s.get(p) == Some(&b'_') {
            if !s.get(p + 1).map_or(false, |c| ok(*c)) {
                return Err(Bad::Error);
            }
            p += 1;
        } else {
            return Ok(p);
        }
    }
}
fn dec(c: u8) -> bool {
    c.is_ascii_digit()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Int,
    Float,
    Rational,
    Complex,
}
/// An unsigned literal starting at `p`: its end and kind.
fn literal(s: &[u8], p: usize) -> Result<(usize, Kind), Bad> {
    let mut kind = Kind::Int;
    let mut exp = false;
    let mut q = p;
    let c1 = s.get(p + 1).copied().unwrap_or(0);
    let pre = match c1 {
        b'x' | b'X' => Some((p + 2, (|c: u8| c.is_ascii_hexdigit()) as fn(u8) -> bool)),
        b'b' | b'B' => Some((p + 2, (|c| c == b'0' || c == b'1') as fn(u8) -> bool)),
        b'o' | b'O' => Some((p + 2, (|c| (b'0'..=b'7').contains(&c)) as fn(u8) -> bool)),
        b'd' | b'D' => Some((p + 2, dec as fn(u8) -> bool)),
        b'0'..=b'9' => Some((p + 1, (|c| (b'0'..=b'7').contains(&c)) as fn(u8) -> bool)),
        b'_' => Some((p + 2, (|c| (b'0'..=b'7').contains(&c)) as fn(u8) -> bool)),
        _ => None,
    };
    if let (b'0', Some((a, ok))) = (s[p], pre) {
        q = digits(s, a, ok)?;
        // a digit that does not belong to the base
        if s.get(q).map_or(false, |c| c.is_ascii_digit()) {
            return Err(Bad::Error);
        }
    } else {
        q = digits(s, q, dec)?;
        if s.get(q) == Some(&b'.') && s.get(q + 1).map_or(false, |c| dec(*c)) {
            q = digits(s, q + 1, dec)?;
            kind = Kind::Float;
        }
        if matches!(s.get(q), Some(b'e' | b'E')) {
            let d = if matches!(s.get(q + 1), Some(b'+' | b'-')) { q + 2 } else { q + 1 };
            if s.get(d).map_or(false, |c| dec(*c)) {
                q = digits(s, d, dec)?;
                kind = Kind::Float;
                exp = true;
            } else {
                // 1e, 1e+ and 1ea: nothing that may follow a number
                return Err(Bad::Error);
            }
        }
    }
    if s[q..].starts_with(b"if") && !s.get(q + 2).map_or(false, |c| c.is_ascii_alphanumeric() || *c == b'_' || *c >= 128) {
        // a modifier directly after the number
        return Err(Bad::Unknown);
    }
    if s.get(q) == Some(&b'r') && !exp {
        q += 1;
        kind = Kind::Rational;
    }
    if s.get(q) == Some(&b'i') {
        q += 1;
        kind = Kind::Complex;
    }
    // a name glued to a number
    if s.get(q).map_or(false, |c| c.is_ascii_alphanumeric() || *c == b'_' || *c >= 128) {
        return Err(Bad::Error);
    }
    // a second fraction, or one on a number that has none
    if s.get(q) == Some(&b'.') && s.get(q + 1).map_or(false, |c| dec(*c)) {
        return Err(Bad::Error);
    }
    Ok((q, kind))
}
fn num_node(k: Kind, value: &[u8], op: Option<Loc>, el: Loc) -> Node {
    let value = String::from_utf8(value.to_vec()).unwrap();
    match k {
        Kind::Int => Node::Int(Int { value, operator_l: op, expression_l: el }),
        Kind::Float => Node::Float(Float { value, operator_l: op, expression_l: el }),
        Kind::Rational => Node::Rational(Rational { value, operator_l: op, expression_l: el }),
        Kind::Complex => Node::Complex(Complex { value, operator_l: op, expression_l: el }),
    }
}
impl<'a> R<'a> {
    fn at(&self, i: usize) -> u8 {
        self.s.get(self.p + i).copied().unwrap_or(0)
    }
    fn eof(&self) -> bool {
        self.p >= self.s.len()
    }
    fn word(&mut self) -> (String, Loc) {
        let a = self.p;
        while self.at(0).is_ascii_alphanumeric() || self.at(0) == b'_' {
            self.p += 1;
        }
        (String::from_utf8(self.s[a..self.p].to_vec()).unwrap(), l(a, self.p))
    }
    fn primary(&mut self) -> Result<Node, Bad> {
        let c = self.at(0);
        let mut n;
        if c.is_ascii_digit() {
            let a = self.p;
            let (q, k) = literal(self.s, a)?;
            self.p = q;
            n = num_node(k, &self.s[a..q], None, l(a, q));
        } else if (c == b'+' || c == b'-') && self.at(1).is_ascii_digit() {
            let a = self.p;
            let (q, k) = literal(self.s, a + 1)?;
            self.p = q;
            let op = if c == b'-' { Some(l(a, a + 1)) } else { None };
            n = num_node(k, &self.s[a..q], op, l(a, q));
        } else if c.is_ascii_alphabetic() || c == b'_' {
            let (w, x) = self.word();
            if w == "if" {
                return Err(Bad::Unknown);
            }
            n = if c.is_ascii_uppercase() { konst(&w, x) } else { ident_send(&w, x) };
        } else {
            return Err(Bad::Error);
        }
        while self.at(0) == b'.' && self.at(1) != b'.' {
            let d = l(self.p, self.p + 1);
            self.p += 1;
            if !(self.at(0).is_ascii_alphabetic() || self.at(0) == b'_') {
                // operators may be called with a dot; a digit or the end may not follow
                return Err(if matches!(self.at(0), b'+' | b'-') { Bad::Unknown } else { Bad::Error });
            }
            let (w, x) = self.word();
            n = mcall(n, d, false, &w, Some(x), None, vec![], None);
        }
        Ok(n)
    }
    fn unary(&mut self) -> Result<Node, Bad> {
        let c = self.at(0);
        if (c == b'+' || c == b'-') && !self.at(1).is_ascii_digit() {
            let o = l(self.p, self.p + 1);
            self.p += 1;
            if self.at(0) == b'.' {
                return Err(Bad::Unknown);
            }
            let v = self.unary()?;
            return Ok(unop(if c == b'+' { "+@" } else { "-@" }, o, v));
        }
        self.primary()
    }
    fn sum(&mut self) -> Result<Node, Bad> {
        let mut n = self.unary()?;
        while matches!(self.at(0), b'+' | b'-') {
            let o = l(self.p, self.p + 1);
            let op = if self.at(0) == b'+' { "+" } else { "-" };
            self.p += 1;
            if self.at(0) == b'.' {
                return Err(Bad::Unknown);
            }
            let r = self.unary()?;
            n = binop(n, op, o, r);
        }
        Ok(n)
    }
    fn program(&mut self) -> Result<Node, Bad> {
        let n = self.sum()?;
        if self.eof() {
            return Ok(n);
        }
        if self.at(0) == b'.' && self.at(1) == b'.' {
            let k = if self.at(2) == b'.' { 3 } else { 2 };
            let o = l(self.p, self.p + k);
            self.p += k;
            let (left, right) = if self.eof() {
                (Some(b(n)), None)
            } else if self.at(0) == b'.' && self.at(1) == b'.' {
                // a beginless range as the end of a range: decided by P05
                return Err(Bad::Unknown);
            } else {
                let r = self.sum()?;
                (Some(b(n)), Some(b(r)))
            };
            if !self.eof() {
                return Err(Bad::Error);
            }
            let begin = e(left.as_ref().unwrap()).begin;
            let end = right.as_ref().map_or(o.end, |r| e(r).end);
            let x = l(begin, end);
            return Ok(if k == 2 { Node::Irange(Irange { left, right, operator_l: o, expression_l: x }) } else { Node::Erange(Erange { left, right, operator_l: o, expression_l: x }) });
        }
        Err(Bad::Error)
    }
}

fn judge(ctx: &mut Ctx, s: &[u8]) {
    let v = R { s, p: 0 }.program();
    match v {
        Err(Bad::Unknown) => ctx.outcome("out of model"),
        Err(Bad::Error) => expect_error(ctx, s),
        Ok(n) => {
            if !ctx.begin(s) {
                return;
            }
            let r = parse(s);
            ctx.end();
            if let Some(d) = diff_opt(Some(&n), r.ast.as_deref()) {
                ctx.fail(format!("tree differs: {d} (diagnostics: {})", diag_str(&r.diagnostics)));
            } else if errors(&r) > 0 {
                ctx.fail(format!("well-formed literal rejected: {}", diag_str(&r.diagnostics)));
            }
            ctx.nontrivial();
            ctx.outcome("accepted as expected");
        }
    }
}
fn strings(first: &'static [u8], alpha: &'static [u8], n: usize) -> Family {
    fam_nd(format!("numbers: all strings of length {n} over {:?}, first of {:?}", String::from_utf8_lossy(alpha), String::from_utf8_lossy(first)), 0, move |c, ctx| {
        let mut s = vec![first[c.choose(first.len())]];
        for _ in 1..n {
            s.push(alpha[c.choose(alpha.len())]);
        }
        judge(ctx, &s);
    })
}
const PRE: &[&[u8]] = &[b"0x", b"0X", b"0b", b"0B", b"0o", b"0O", b"0d", b"0D", b"0", b"0_", b"1", b"9_", b"1.", b"0.", b"1e", b"1E-", b"0.1e+", b"7.5", b"1__", b"12345678901234567890"];
fn prefixed(n: usize) -> Family {
    const A: &[u8] = b"0179_.aefgGriE";
    fam_nd(format!("numbers: sign x {} prefixes x all strings of length {n} over {:?}", PRE.len(), String::from_utf8_lossy(A)), 0, move |c, ctx| {
        let mut s = [&b""[..], b"-", b"+"][c.choose(3)].to_vec();
        s.extend_from_slice(PRE[c.choose(PRE.len())]);
        for _ in 0..n {
            s.push(A[c.choose(A.len())]);
        }
        judge(ctx, &s);
    })
}
/// A literal in contexts where what follows matters: the number must end where it ends.
fn follow() -> Family {
    const LIT: &[(&str, Kind)] = &[
        ("0", Kind::Int), ("1", Kind::Int), ("1_0", Kind::Int), ("0x1f", Kind::Int), ("0b10", Kind::Int), ("0o17", Kind::Int), ("017", Kind::Int), ("0d19", Kind::Int), ("0_7", Kind::Int), ("1.5", Kind::Float), ("1e5", Kind::Float), ("1.5e-3", Kind::Float), ("0e1", Kind::Float), ("0.1", Kind::Float),
        ("1r", Kind::Rational), ("1.5r", Kind::Rational), ("1i", Kind::Complex), ("1ri", Kind::Complex), ("1.5ri", Kind::Complex), ("1e5i", Kind::Complex), ("0r", Kind::Rational), ("0i", Kind::Complex), ("0x1r", Kind::Rational), ("0b1i", Kind::Complex), ("0o7ri", Kind::Complex), ("017i", Kind::Complex),
    ];
    const AFTER: &[&[u8]] = &[b"", b"\n", b" ", b";", b"\r\n", b"#c", b"\t\n", b" # e5\n", b"\n.1", b"\n__END__\n9", b"\x04", b"\x1a", b"\0", b"\\\n"];
    fam_nd("numbers: every literal kind followed by every kind of end".to_string(), 0, |c, ctx| {
        let sign = c.choose(3);
        let (t, k) = LIT[c.choose(LIT.len())];
        let a = AFTER[c.choose(AFTER.len())];
        let ind = [&b""[..], b" ", b"\n", b"\xef\xbb\xbf"][c.choose(4)];
        let mut s = ind.to_vec();
        s.extend_from_slice([&b""[..], b"-", b"+"][sign]);
        s.extend_from_slice(t.as_bytes());
        let end = s.len();
        s.extend_from_slice(a);
        if a == b"\n.1" {
            expect_error(ctx, &s);
            return;
        }
        let st = ind.len();
        let n = num_node(k, &s[st..end].to_vec(), if sign == 1 { Some(l(st, st + 1)) } else { None }, l(st, end));
        expect_src(ctx, &s, Some(n), None);
    })
}
/// two literals joined by an operator or separator
fn pairs() -> Family {
    const LIT: &[&str] = &["0", "7", "1_0", "0xf", "0b1", "017", "1.5", "1e5", "1r", "1i", "1.5ri", "0e1", "0d9"];
    const OPS: &[&str] = &["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "==", "<", ">", "<=", ">=", "<=>", "===", "!="];
    fam_nd("numbers: pairs of literals around every operator, glued and spaced".to_string(), 0, |c, ctx| {
        let a = LIT[c.choose(LIT.len())];
        let z = LIT[c.choose(LIT.len())];
        let op = OPS[c.choose(OPS.len())];
        let sp = [["", ""], [" ", " "], ["", " "], ["", "\n"]][c.choose(4)];
        let neg = c.choose(2) == 1;
        let mut s: Vec<u8> = vec![];
        let kind = |t: &str| literal(t.as_bytes(), 0).unwrap().1;
        s.extend_from_slice(a.as_bytes());
        let x = num_node(kind(a), a.as_bytes(), None, l(0, a.len()));
        s.extend_from_slice(sp[0].as_bytes());
        let o = l(s.len(), s.len() + op.len());
        s.extend_from_slice(op.as_bytes());
        s.extend_from_slice(sp[1].as_bytes());
        let p = s.len();
        if neg {
            s.push(b'-');
        }
        s.extend_from_slice(z.as_bytes());
        let y = num_node(kind(z), &s[p..].to_vec(), if neg { Some(l(p, p + 1)) } else { None }, l(p, s.len()));
        expect_src(ctx, &s, Some(binop(x, op, o, y)), None);
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P09",
        rule: "Every string within the stated lengths over the numeric alphabet is parsed; a reader of the language of numbers, identifiers, signs, dots and ranges, written from Ruby's documentation, says which tree it has or that it is an error. Inputs the reader has no opinion on (operators called with a dot) are counted as out of model and not run.",
        assumptions: &["letters other than those in the alphabets behave like them"],
        families: |th| {
            const F: &[u8] = b"0189-+";
            const A: &[u8] = b"0178_.eExbria-+";
            let mut v: Vec<Family> = (1..=if th { 7 } else { 6 }).map(|n| strings(F, A, n)).collect();
            for n in 0..=if th { 5 } else { 4 } {
                v.push(prefixed(n));
            }
            v.push(follow());
            v.push(pairs());
            v
        },
    }]
}
