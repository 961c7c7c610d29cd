//! P08: heredocs, judged by a line-oriented reader of Ruby's rules.
use super::lit::{escape, interp, same_parts, unicode, Esc, Out, Part};
use super::*;
use crate::meta::{self, F};
use crate::n::*;
use crate::oracle::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ind {
    Plain,
    Dash,
    Squiggly,
}
#[derive(Clone, Copy)]
pub struct Doc {
    ind: Ind,
    /// 0 for a bare identifier
    quote: u8,
    id: &'static str,
}
impl Doc {
    fn opener(&self) -> String {
        let i = match self.ind {
            Ind::Plain => "",
            Ind::Dash => "-",
            Ind::Squiggly => "~",
        };
        let q = if self.quote == 0 { String::new() } else { (self.quote as char).to_string() };
        format!("<<{i}{q}{}{q}", self.id)
    }
    fn expand(&self) -> bool {
        self.quote != b'\''
    }
}
/// one run of text without a line start inside it, except at its beginning
struct Seg {
    text: Vec<u8>,
    at: Loc,
    bol: bool,
    /// columns of indentation, none for a line of white space only
    indent: Option<usize>,
    /// bytes of indentation taken away
    cut: usize,
}
enum Piece {
    T(Seg),
    I(Node),
}
pub struct Body {
    pieces: Vec<Piece>,
    /// where the terminator line starts, the end of the terminator, and of its line
    start: usize,
    end: usize,
    next: usize,
}
fn cols(s: &[u8]) -> (usize, usize) {
    let (mut col, mut i) = (0, 0);
    while i < s.len() {
        match s[i] {
            b' ' => col += 1,
            b'\t' => col = (col / 8 + 1) * 8,
            _ => break,
        }
        i += 1;
    }
    (col, i)
}
/// read the body that starts at `p`
fn read(s: &[u8], p: usize, d: &Doc) -> Result<Body, Out> {
    let mut p = p;
    let mut pieces = vec![];
    let mut cont = false;
    loop {
        // a line starts here
        if p >= s.len() {
            return Err(Out::Err);
        }
        let eol = s[p..].iter().position(|c| *c == b'\n').map_or(s.len(), |i| p + i);
        let last = if eol < s.len() && eol > p && s[eol - 1] == b'\r' { eol - 1 } else { eol };
        let next = (eol + 1).min(s.len());
        if !cont {
            let mut t = p;
            if d.ind != Ind::Plain {
                while t < last && matches!(s[t], b' ' | b'\t' | 11 | 12 | b'\r') {
                    t += 1;
                }
            }
            if &s[t..last] == d.id.as_bytes() {
                return Ok(Body { pieces, start: p, end: last, next });
            }
        }
        cont = false;
        let (col, n) = cols(&s[p..last]);
        let indent = if p + n == last { None } else { Some(col) };
        let mut seg = Seg { text: vec![], at: l(p, p), bol: true, indent, cut: 0 };
        if !d.expand() {
            if eol == s.len() {
                return Err(Out::Err);
            }
            seg.text.extend_from_slice(&s[p..last]);
            seg.text.push(b'\n');
            seg.at.end = next;
            pieces.push(Piece::T(seg));
            p = next;
            continue;
        }
        let end_seg = |seg: &mut Seg, pieces: &mut Vec<Piece>, at: usize| {
            let x = std::mem::replace(seg, Seg { text: vec![], at: l(at, at), bol: false, indent: None, cut: 0 });
            if at > x.at.begin || x.bol && x.indent.is_some() {
                pieces.push(Piece::T(Seg { at: l(x.at.begin, at), ..x }));
            }
        };
        loop {
            let Some(&c) = s.get(p) else { return Err(Out::Err) };
            if c == b'\n' || c == b'\r' && s.get(p + 1) == Some(&b'\n') {
                p += if c == b'\n' { 1 } else { 2 };
                seg.text.push(b'\n');
                end_seg(&mut seg, &mut pieces, p);
                break;
            }
            if c == b'#' {
                if let Some((n, q)) = interp(s, p + 1)? {
                    end_seg(&mut seg, &mut pieces, p);
                    pieces.push(Piece::I(n));
                    p = q;
                    seg.at = l(p, p);
                    continue;
                }
            }
            if c == b'\\' {
                let Some(&e) = s.get(p + 1) else { return Err(Out::Err) };
                if e == b'\n' || e == b'\r' && s.get(p + 2) == Some(&b'\n') {
                    p += if e == b'\n' { 2 } else { 3 };
                    end_seg(&mut seg, &mut pieces, p);
                    cont = true;
                    break;
                }
                if e == b'u' {
                    let (v, _, z) = unicode(s, p + 2)?;
                    for c in v {
                        seg.text.extend_from_slice(c.to_string().as_bytes());
                    }
                    p = z;
                    continue;
                }
                match escape(s, p + 1, 0) {
                    Esc::B(b, z) => {
                        seg.text.push(b);
                        p = z;
                    }
                    Esc::Err => return Err(Out::Err),
                    Esc::Skip => return Err(Out::Skip),
                }
                continue;
            }
            seg.text.push(c);
            p += 1;
        }
    }
}
/// remove the common indentation
fn dedent(b: &mut Body) {
    let width = b.pieces.iter().filter_map(|p| if let Piece::T(Seg { bol: true, indent, .. }) = p { *indent } else { None }).min().unwrap_or(usize::MAX);
    for p in &mut b.pieces {
        let Piece::T(s) = p else { continue };
        if !s.bol {
            continue;
        }
        let (mut col, mut i) = (0, 0);
        while i < s.text.len() && col < width {
            match s.text[i] {
                b' ' => col += 1,
                b'\t' => {
                    let n = (col / 8 + 1) * 8;
                    if n > width {
                        break;
                    }
                    col = n;
                }
                _ => break,
            }
            i += 1;
        }
        s.text.drain(..i);
        s.cut = i;
    }
}
/// expected runs: text, the places it may start, the places it may end
enum Run {
    T(Vec<u8>, Vec<usize>, Vec<usize>),
    I(Node),
}
fn runs(b: Body) -> Vec<Run> {
    let mut o: Vec<Run> = vec![];
    for p in b.pieces {
        match (o.last_mut(), p) {
            (Some(Run::T(t, f, e)), Piece::T(s)) => {
                // lines that come out empty may or may not be represented
                if t.is_empty() {
                    f.push(s.at.begin);
                    f.push(s.at.begin + s.cut);
                }
                if !s.text.is_empty() {
                    e.clear();
                }
                e.push(s.at.end);
                t.extend_from_slice(&s.text);
            }
            (_, Piece::T(s)) => o.push(Run::T(s.text, vec![s.at.begin, s.at.begin + s.cut], vec![s.at.end])),
            (_, Piece::I(n)) => o.push(Run::I(n)),
        }
    }
    o.retain(|r| !matches!(r, Run::T(t, _, _) if t.is_empty()));
    o
}
fn check_doc(n: &Node, d: &Doc, at: Loc, s: &[u8], body: usize) -> Result<usize, String> {
    let mut b = match read(s, body, d) {
        Ok(b) => b,
        Err(_) => return Err("HARNESS: body".into()),
    };
    if d.ind == Ind::Squiggly {
        dedent(&mut b);
    }
    let (parts, bl, el, x, back) = match n {
        Node::Heredoc(h) => (&h.parts, h.heredoc_body_l, h.heredoc_end_l, h.expression_l, false),
        Node::XHeredoc(h) => (&h.parts, h.heredoc_body_l, h.heredoc_end_l, h.expression_l, true),
        n => return Err(format!("expected a heredoc, got {}", meta::type_name(n))),
    };
    if back != (d.quote == b'`') {
        return Err("wrong kind of heredoc".into());
    }
    if x != at {
        return Err(format!("opener at {}..{}, expected {}..{}", x.begin, x.end, at.begin, at.end));
    }
    let want_e = l(b.start, b.end);
    if el != want_e {
        return Err(format!("terminator at {}..{}, expected {}..{}", el.begin, el.end, want_e.begin, want_e.end));
    }
    let want_b = if b.start == body { want_e } else { l(body, b.start) };
    if bl != want_b {
        return Err(format!("body at {}..{}, expected {}..{}", bl.begin, bl.end, want_b.begin, want_b.end));
    }
    let next = b.next;
    // only texts that come out empty have no fixed place
    let mut got = vec![];
    for p in parts {
        match (got.last_mut(), p) {
            (Some(Part::T(t, y)), Node::Str(s)) if s.begin_l.is_none() => {
                t.extend_from_slice(s.value.as_raw());
                y.end = s.expression_l.end;
            }
            (_, Node::Str(s)) if s.begin_l.is_none() => got.push(Part::T(s.value.as_raw().clone(), s.expression_l)),
            (_, n) => got.push(Part::I(n.clone())),
        }
    }
    got.retain(|p| !matches!(p, Part::T(t, _) if t.is_empty()));
    let exp = runs(b);
    let exp: Vec<Part> = exp
        .into_iter()
        .enumerate()
        .map(|(i, r)| match r {
            Run::I(n) => Part::I(n),
            Run::T(t, f, e) => {
                let mut x = l(f[0], *e.last().unwrap());
                if let Some(Part::T(_, y)) = got.get(i) {
                    if f.contains(&y.begin) {
                        x.begin = y.begin;
                    }
                    if e.contains(&y.end) {
                        x.end = y.end;
                    }
                }
                Part::T(t, x)
            }
        })
        .collect();
    same_parts(&exp, &got)?;
    Ok(next)
}

// ---------------------------------------------------------------------------- single heredocs
/// opener NL body TERMINATOR-LINE NL z
fn judge(ctx: &mut Ctx, d: &Doc, nl: &str, body: &[u8], term: &str, tail: &str) {
    let mut s = d.opener().into_bytes();
    let at = l(0, s.len());
    s.extend_from_slice(nl.as_bytes());
    let bs = s.len();
    s.extend_from_slice(body);
    let ts = s.len();
    s.extend_from_slice(term.as_bytes());
    s.extend_from_slice(tail.as_bytes());
    let r = read(&s, bs, d);
    match &r {
        Err(Out::Skip) => return ctx.outcome("out of model"),
        Err(_) => return expect_error(ctx, &s),
        Ok(b) if b.start != ts => return ctx.outcome("out of model"),
        _ => {}
    }
    if !ctx.begin(&s) {
        return;
    }
    let r = parse(&s);
    ctx.end();
    if errors(&r) > 0 {
        ctx.fail(format!("valid heredoc rejected: {}", diag_str(&r.diagnostics)));
        return;
    }
    let doc = match (r.ast.as_deref(), tail.contains('z')) {
        (Some(Node::Begin(Begin { statements, begin_l: None, .. })), true) if statements.len() == 2 => {
            let p = s.iter().rposition(|c| *c == b'z').unwrap();
            if diff_opt(Some(&ident_send("z", l(p, p + 1))), Some(&statements[1])).is_some() {
                ctx.fail(format!("statement after the heredoc: {:?}", statements[1]));
                return;
            }
            &statements[0]
        }
        (Some(t), false) => t,
        (t, _) => {
            ctx.fail(format!("expected a heredoc and `z`, got {t:?}"));
            return;
        }
    };
    if let Err(d) = check_doc(doc, d, at, &s, bs) {
        ctx.fail(d);
        return;
    }
    ctx.nontrivial();
    ctx.outcome("accepted as expected");
}
const DOCS: [Doc; 16] = [
    Doc { ind: Ind::Plain, quote: 0, id: "A" },
    Doc { ind: Ind::Dash, quote: 0, id: "A" },
    Doc { ind: Ind::Squiggly, quote: 0, id: "A" },
    Doc { ind: Ind::Plain, quote: b'\'', id: "A" },
    Doc { ind: Ind::Dash, quote: b'\'', id: "A" },
    Doc { ind: Ind::Squiggly, quote: b'\'', id: "A" },
    Doc { ind: Ind::Plain, quote: b'"', id: "A" },
    Doc { ind: Ind::Dash, quote: b'"', id: "A" },
    Doc { ind: Ind::Squiggly, quote: b'"', id: "A" },
    Doc { ind: Ind::Plain, quote: b'`', id: "A" },
    Doc { ind: Ind::Dash, quote: b'`', id: "A" },
    Doc { ind: Ind::Squiggly, quote: b'`', id: "A" },
    Doc { ind: Ind::Squiggly, quote: b'"', id: "A b" },
    Doc { ind: Ind::Plain, quote: b'\'', id: "#{A}" },
    Doc { ind: Ind::Dash, quote: 0, id: "é_1" },
    Doc { ind: Ind::Plain, quote: b'"', id: "x " },
];
const LEX: [&str; 19] = ["x", "\n", " ", "  ", "\t", "ID", "\\", "#{b}", "\r\n", "#@a", "\\n", "#", "\\\n", "é", "\"", "#$", "{", "\\\r\n", "\\x20"];
fn bodies(n: usize, nd: usize) -> Family {
    fam(format!("heredocs: {nd} forms x every body of {n} of {} lexemes x line ends x terminator layouts", LEX.len()), 0, move |c, ctx| {
        let d = DOCS[c.choose(nd)];
        let nl = ["\n", "\r\n"][c.choose(2)];
        let mut t = vec![];
        for _ in 0..n {
            match LEX[c.choose(LEX.len())] {
                "ID" => t.extend_from_slice(d.id.as_bytes()),
                x => t.extend_from_slice(x.as_bytes()),
            }
        }
        if n > 0 {
            t.extend_from_slice(nl.as_bytes());
        }
        let pre = ["", "  ", "\t", " \x0c"][c.choose(4)];
        let term = format!("{pre}{}", d.id);
        let tail = match c.choose(3) {
            0 => format!("{nl}z{nl}"),
            1 => String::new(),
            _ => nl.to_string(),
        };
        judge(ctx, &d, nl, &t, &term, &tail);
    })
}
/// near misses of the terminator line
fn near(n: usize, nd: usize) -> Family {
    const X: [&str; 11] = ["ID", "x", "\n", " ", "\r", "\r\n", "\x0b", "\x0c", "\t", "'", "_"];
    fam(format!("heredocs: {nd} forms x every body of {n} of {} lexemes that look like a terminator line", X.len()), 0, move |c, ctx| {
        let d = DOCS[c.choose(nd)];
        let nl = ["\n", "\r\n"][c.choose(2)];
        let mut t = vec![];
        for _ in 0..n {
            match X[c.choose(X.len())] {
                "ID" => t.extend_from_slice(d.id.as_bytes()),
                x => t.extend_from_slice(x.as_bytes()),
            }
        }
        t.extend_from_slice(nl.as_bytes());
        let term = format!("{}{}", ["", " \x0b"][c.choose(2)], d.id);
        judge(ctx, &d, nl, &t, &term, &format!("{nl}z{nl}"));
    })
}
/// identifiers of every spelling
fn idents() -> Family {
    const IDS: [&str; 20] = ["A", "a", "_", "_1", "a1", "end", "if", "é", "あ", "Ab_c9", "EOS", "__END__", "A B", " A", "A ", "-A", "1", "a.b", "#", "~A"];
    fam("heredocs: every identifier spelling x form x quote x look-alike lines in the body".to_string(), 0, |c, ctx| {
        let k = c.choose(IDS.len());
        let quote = [b'"', b'\'', b'`', 0][c.choose(if k < 12 { 4 } else { 3 })];
        let d = Doc { ind: [Ind::Plain, Ind::Dash, Ind::Squiggly][c.choose(3)], quote, id: IDS[k] };
        let nl = ["\n", "\r\n"][c.choose(2)];
        let a = d.id;
        let line = match c.choose(9) {
            0 => String::new(),
            1 => format!("{a}x{nl}"),
            2 => format!("x{a}{nl}"),
            3 => format!("{a} {nl}"),
            4 => format!("{a}.b{nl}"),
            5 => format!("{a}{a}{nl}"),
            6 => format!("\"{a}\"{nl}"),
            7 => format!("{}{nl}", a.to_lowercase().to_uppercase().chars().rev().collect::<String>() + "Q"),
            _ => format!("x{nl}{nl}"),
        };
        judge(ctx, &d, nl, line.as_bytes(), a, &format!("{nl}z{nl}"));
    })
}
fn indentation(n: usize, full: bool) -> Family {
    const IN: [&str; 10] = ["", " ", "  ", "\t", "    ", " \t", "\t ", "        ", "\t\t", "          \t "];
    const RE: [&str; 12] = ["x", "", "#{b}", "#{b}  y", "\\tx", "#@a\tx", "\\  x", "x\\", "é", "\\", "#", "x #{b}\ty#{b}"];
    let (ni, nr) = if full { (IN.len(), RE.len()) } else { (7, 8) };
    fam(format!("squiggly heredocs: every body of {n} lines out of {ni} indentations x {nr} rests"), 0, move |c, ctx| {
        let d = [DOCS[2], DOCS[5], DOCS[8], DOCS[11]][c.choose(if full { 4 } else { 2 })];
        let nl = ["\n", "\r\n"][c.choose(2)];
        let mut t = vec![];
        for _ in 0..n {
            t.extend_from_slice(IN[c.choose(ni)].as_bytes());
            t.extend_from_slice(RE[c.choose(nr)].as_bytes());
            t.extend_from_slice(nl.as_bytes());
        }
        judge(ctx, &d, nl, &t, "  A", &format!("{nl}z{nl}"));
    })
}

// ---------------------------------------------------------------------------- placement
/// `@` is a heredoc, `~` a place where the line ends (pending bodies follow)
const PLACES: &[&str] = &[
    "@~", "x = @~", "foo(@)~", "foo @~", "foo(@, 1)~", "foo(1, @).bar~", "@.foo~", "@ + 1~", "1 + @~", "[@, 1]~", "[1, @].a~", "{ a: @, b: 1 }~", "foo a: @~", "foo(@) { |x| x }~", "foo @ do |x|~x~end~", "foo(@,~  1)~", "[@,~ 1,~ 2]~", "x = [~ @,~ 1]~", "@ if a~", "if @~  1~end~", "return @~", "foo(\"a\", @)~", "@ \"a\"~", "@ \\~\"a\"~", "\"#{@}\"~", "\"#{@}a#{1}\"~", "\"a#{@~}b\"~", "foo(@) # c~", "@; 1~", "1; @~2~", "x, y = @, 1~", "x ||= @~", "x[@] = 1~", "a ? @ : 1~", "->(x = @) { x }~", "def m(x = @)~  x~end~", "foo @ rescue 1~", "@ == /a/~", "puts @~# c~x~", "case @~when 1 then 2~end~", "while @ do 1 end~", "foo(@) +~  1~", "foo(@)~  .bar~", "not @~", "!@~", "%w(a b) + [@]~", "foo(@, \"x~y\")~", "foo @, <<Z~zz~Z~", "alias_ @~=begin~d~=end~x~", "@~__END__~@",
    "@ + @~", "foo(@, @)~", "foo @, @~", "[@, [@]]~", "@.a(@)~", "{ a: @, b: @ }~", "x = @; y = @~", "foo(@,~  @)~", "foo(@) { @ }~", "\"#{@}#{@}\"~", "@ ? @ : 1~", "@ if @~", "foo(@,~@,~1)~", "@~@~", "foo(@, a do~x~end, @)~", "@ \"#{@}\"~",
    "foo(@, @, @)~", "@ + @.a(@)~", "[@,~@, @]~", "foo @, a: @ do~@~end~",
];
struct Layout {
    s: Vec<u8>,
    plain: Vec<u8>,
    docs: Vec<(usize, Loc, usize)>, // which form, opener, body start
    cuts: Vec<(usize, usize)>,
}
fn placement(n: usize, forms: &'static [usize], bodies: &'static [&'static str]) -> Family {
    let v: Vec<&'static str> = PLACES.iter().copied().filter(|p| p.matches('@').count() == n || n == 1 && p.contains("__END__")).collect();
    fam(format!("placement: {} programs with {n} heredocs x {} forms x {} bodies each x line ends", v.len(), forms.len(), bodies.len()), 0, move |c, ctx| {
        let t = v[c.choose(v.len())];
        let nl = ["\n", "\r\n"][c.choose(2)];
        let mut y = Layout { s: vec![], plain: vec![], docs: vec![], cuts: vec![] };
        let mut pending: Vec<(usize, usize)> = vec![];
        let mut data = false;
        for ch in t.chars() {
            match ch {
                '@' if data => y.s.push(b'@'),
                '@' => {
                    let f = forms[c.choose(forms.len())];
                    let a = y.s.len();
                    let o = DOCS[f].opener();
                    y.s.extend_from_slice(o.as_bytes());
                    let q = if DOCS[f].quote == b'`' { b'`' } else { b'"' };
                    y.plain.push(q);
                    y.plain.resize(y.plain.len() + o.len() - 2, b'_');
                    y.plain.push(q);
                    pending.push((y.docs.len(), c.choose(bodies.len())));
                    y.docs.push((f, l(a, a + o.len()), 0));
                }
                '~' => {
                    y.s.extend_from_slice(nl.as_bytes());
                    y.plain.extend_from_slice(nl.as_bytes());
                    if y.s.ends_with(format!("__END__{nl}").as_bytes()) {
                        data = true;
                    }
                    for (i, b) in std::mem::take(&mut pending) {
                        let a = y.s.len();
                        y.docs[i].2 = a;
                        let d = DOCS[y.docs[i].0];
                        y.s.extend_from_slice(bodies[b].replace('\n', nl).as_bytes());
                        if d.ind != Ind::Plain {
                            y.s.extend_from_slice(b" \t");
                        }
                        y.s.extend_from_slice(d.id.as_bytes());
                        y.s.extend_from_slice(nl.as_bytes());
                        y.cuts.push((a, y.s.len()));
                    }
                }
                ch => {
                    y.s.extend_from_slice(ch.to_string().as_bytes());
                    if !data {
                        y.plain.extend_from_slice(ch.to_string().as_bytes());
                    }
                }
            }
        }
        for (f, _, b) in &y.docs {
            if !matches!(read(&y.s, *b, &DOCS[*f]), Ok(z) if y.cuts.contains(&(*b, z.next))) {
                return ctx.outcome("out of model");
            }
        }
        let q = parse(&y.plain);
        if errors(&q) > 0 {
            // a command literal has no neighbours
            if !y.plain.contains(&b'`') {
                if ctx.begin(&y.plain) {
                    ctx.fail(format!("valid program rejected: {}", diag_str(&q.diagnostics)));
                }
                return;
            }
            return expect_error(ctx, &y.s);
        }
        if !ctx.begin(&y.s) {
            return;
        }
        let r = parse(&y.s);
        ctx.end();
        if errors(&r) > 0 {
            ctx.fail(format!("valid program rejected: {}", diag_str(&r.diagnostics)));
            return;
        }
        let (Some(a), Some(b)) = (&r.ast, &q.ast) else {
            ctx.fail("no tree".into());
            return;
        };
        let mut seen = 0;
        if let Err(d) = like(b, a, &y, &mut seen) {
            ctx.fail(d);
            return;
        }
        if seen != y.docs.len() {
            ctx.fail(format!("{seen} heredocs in the tree, {} in the source", y.docs.len()));
            return;
        }
        // comments
        let map = |p: usize| y.map(p);
        let ca: Vec<_> = r.comments.iter().map(|c| (map(c.location.begin), map(c.location.end))).collect();
        let cb: Vec<_> = q.comments.iter().map(|c| (c.location.begin, c.location.end)).collect();
        if ca != cb {
            ctx.fail(format!("comments differ: {ca:?}, expected {cb:?}"));
            return;
        }
        ctx.nontrivial();
        ctx.outcome("accepted as expected");
    })
}
impl Layout {
    fn map(&self, p: usize) -> usize {
        p - self.cuts.iter().map(|(a, b)| if p >= *b { b - a } else { 0 }).sum::<usize>()
    }
}
/// the tree with heredocs `a` is the tree with simple strings `b`, bodies cut out
fn like(b: &Node, a: &Node, y: &Layout, seen: &mut usize) -> Result<(), String> {
    if let Node::Heredoc(_) | Node::XHeredoc(_) = a {
        let x = e(a);
        if let Some((f, at, body)) = y.docs.iter().find(|d| d.1 == x) {
            match b {
                Node::Str(_) | Node::Xstr(_) if e(b) == l(y.map(x.begin), y.map(x.end)) => {}
                b => return Err(format!("heredoc stands for {}", meta::type_name(b))),
            }
            *seen += 1;
            check_doc(a, &DOCS[*f], *at, &y.s, *body)?;
            return Ok(());
        }
        return match b {
            Node::Heredoc(_) => Ok(()),
            _ => Err(format!("heredoc at {}..{}, where none opens", x.begin, x.end)),
        };
    }
    if meta::type_name(a) != meta::type_name(b) {
        return Err(format!("expected {}, got {}", meta::type_name(b), meta::type_name(a)));
    }
    let (mut fa, mut fb) = (vec![], vec![]);
    meta::visit(a, &mut |k, f| fa.push((k, f)));
    meta::visit(b, &mut |k, f| fb.push((k, f)));
    let m = |x: &Loc| l(y.map(x.begin), y.map(x.end));
    for ((k, x), (_, z)) in fa.iter().zip(&fb) {
        let ok = match (x, z) {
            (F::N(p), F::N(q)) | (F::OptN(Some(p)), F::OptN(Some(q))) => {
                like(q, p, y, seen)?;
                true
            }
            (F::OptN(None), F::OptN(None)) => true,
            (F::Ns(p), F::Ns(q)) => {
                for (p, q) in p.iter().zip(q.iter()) {
                    like(q, p, y, seen)?;
                }
                p.len() == q.len()
            }
            (F::Loc(p), F::Loc(q)) => m(p) == **q,
            (F::OptLoc(p), F::OptLoc(q)) => p.map(m) == q.copied(),
            (F::S(p), F::S(q)) => p == q,
            (F::OptS(p), F::OptS(q)) => p == q,
            (F::B(p), F::B(q)) => p == q,
            (F::U(p), F::U(q)) => p == q,
            _ => false,
        };
        if !ok {
            return Err(format!("{}.{k} differs from the same program with simple strings", meta::type_name(a)));
        }
    }
    Ok(())
}
/// heredocs inside heredocs, and in strings that go on after the body
fn nested() -> Family {
    const K: [usize; 4] = [0, 1, 2, 8];
    fam("heredoc in a heredoc's interpolation: every pair of forms".to_string(), 0, |c, ctx| {
        let (o, i) = (DOCS[K[c.choose(4)]], Doc { id: "B", ..DOCS[K[c.choose(4)]] });
        let nl = ["\n", "\r\n"][c.choose(2)];
        let pre = ["", "  ", "x "][c.choose(3)];
        let post = ["", " y", "#{b}"][c.choose(3)];
        let ib = ["", "i\n", "  i\n    j\n", "A\n", "#{b}\n"][c.choose(5)].replace('\n', nl);
        let after = ["", "k\n", "  k\n", "    k\n"][c.choose(4)].replace('\n', nl);
        let cont = c.choose(2) == 1; // the interpolation goes on after the inner body
        let mut s = o.opener().into_bytes();
        let at = l(0, s.len());
        s.extend_from_slice(nl.as_bytes());
        let ob = s.len();
        s.extend_from_slice(pre.as_bytes());
        let ia = s.len();
        s.extend_from_slice(b"#{");
        let iat = l(s.len(), s.len() + i.opener().len());
        s.extend_from_slice(i.opener().as_bytes());
        let mut close = 0;
        if !cont {
            close = s.len();
            s.push(b'}');
            s.extend_from_slice(post.as_bytes());
        }
        s.extend_from_slice(nl.as_bytes());
        let line_end = s.len();
        let ibs = s.len();
        s.extend_from_slice(ib.as_bytes());
        s.extend_from_slice(b"B");
        s.extend_from_slice(nl.as_bytes());
        let resume = s.len();
        if cont {
            close = s.len();
            s.push(b'}');
            s.extend_from_slice(post.as_bytes());
            s.extend_from_slice(nl.as_bytes());
        }
        let a2 = s.len();
        s.extend_from_slice(after.as_bytes());
        let ts = s.len();
        s.extend_from_slice(b"A");
        let te = s.len();
        s.extend_from_slice(nl.as_bytes());
        s.extend_from_slice(b"z");
        s.extend_from_slice(nl.as_bytes());
        if !ctx.begin(&s) {
            return;
        }
        let r = parse(&s);
        ctx.end();
        if errors(&r) > 0 {
            ctx.fail(format!("valid program rejected: {}", diag_str(&r.diagnostics)));
            return;
        }
        let st = match r.ast.as_deref() {
            Some(Node::Begin(Begin { statements, begin_l: None, .. })) if statements.len() == 2 => statements,
            t => {
                ctx.fail(format!("expected two statements, got {t:?}"));
                return;
            }
        };
        let Node::Heredoc(h) = &st[0] else {
            ctx.fail("not a heredoc".into());
            return;
        };
        let res = (|| -> Result<(), String> {
            if h.expression_l != at || h.heredoc_end_l != l(ts, te) || h.heredoc_body_l != l(ob, if cont || !after.is_empty() { ts } else { line_end }) {
                return Err(format!("outer heredoc at {:?} {:?} {:?}", h.expression_l, h.heredoc_body_l, h.heredoc_end_l));
            }
            // the outer text: pre | inner | post NL | after
            let pos = h.parts.iter().position(|p| matches!(p, Node::Begin(b) if b.begin_l == Some(l(ia, ia + 2)))).ok_or("interpolation not found")?;
            let Node::Begin(bg) = &h.parts[pos] else { unreachable!() };
            if bg.end_l != Some(l(close, close + 1)) || bg.statements.len() != 1 {
                return Err(format!("interpolation {:?} {} statements", bg.end_l, bg.statements.len()));
            }
            check_doc(&bg.statements[0], &i, iat, &s, ibs)?;
            let text = |v: &[Node]| -> Vec<u8> {
                v.iter()
                    .flat_map(|n| match n {
                        Node::Str(s) => s.value.as_raw().clone(),
                        _ => b"<b>".to_vec(),
                    })
                    .collect()
            };
            let mut width = usize::MAX;
            let lines = [pre, after.trim_end_matches(['\n', '\r'])];
            for (k, x) in lines.iter().enumerate() {
                if k == 1 && x.is_empty() {
                    continue;
                }
                width = width.min(cols(x.as_bytes()).0);
            }
            let cut = |x: &str| -> String { if o.ind == Ind::Squiggly { x[width.min(x.len() - x.trim_start_matches(' ').len())..].to_string() } else { x.to_string() } };
            let before = text(&h.parts[..pos]);
            if before != cut(pre).as_bytes() {
                return Err(format!("text before: {:?}", String::from_utf8_lossy(&before)));
            }
            let rest = text(&h.parts[pos + 1..]);
            let want = format!("{}\n{}", post.replace("#{b}", "<b>"), cut(&after.replace("\r\n", "\n")));
            if rest != want.as_bytes() {
                return Err(format!("text after: {:?}, expected {want:?}", String::from_utf8_lossy(&rest)));
            }
            let _ = (resume, a2);
            Ok(())
        })();
        if let Err(d) = res {
            ctx.fail(d);
            return;
        }
        ctx.nontrivial();
        ctx.outcome("accepted as expected");
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P08",
        rule: "Each execution is a program with one or more heredocs whose forms, bodies, line ends and terminator layouts are enumerated; a line-oriented reader of Ruby's rules gives the exact text, interpolations and places, and the code around must parse as with simple strings in their place.",
        assumptions: &["source text is valid UTF-8; interpolated code is one of the stated forms; bodies in which the terminator comes early are left out"],
        families: |th| {
            let mut v = vec![];
            for n in 0..=3 {
                v.push(bodies(n, DOCS.len()));
            }
            v.push(bodies(4, 6));
            v.push(idents());
            for n in 1..=if th { 5 } else { 4 } {
                v.push(near(n, 9));
            }
            for n in 1..=2 {
                v.push(indentation(n, true));
            }
            v.push(indentation(3, false));
            const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
            const B: &[&str] = &["", "a\n", "  a\n    b\n", "#{b}\n", "a\\\n  b\n"];
            v.push(placement(1, ALL, B));
            v.push(placement(2, &[0, 2, 4, 8, 9], B));
            v.push(placement(3, &[0, 2, 5], &["", "a\n", "  a\n\n   #{b}\n"]));
            v.push(nested());
            if th {
                v.push(bodies(4, DOCS.len()));
                v.push(bodies(5, 3));
                v.push(indentation(3, true));
                v.push(placement(2, ALL, B));
                v.push(placement(3, &[0, 1, 2, 5, 9], B));
            }
            v.extend(super::slots::families("P08", th));
            v
        },
    }]
}
