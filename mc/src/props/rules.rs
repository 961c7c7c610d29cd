//! P15: constructs used where Ruby forbids them. A small model of the enclosing contexts (method,
//! class body, block, forwarding parameters) decides for every construct in every stack of
//! contexts whether it is an error, which one, and where.
use super::*;
use crate::n::*;
use crate::oracle::*;
use lib_ruby_parser::{DiagnosticMessage as D, ErrorLevel};

/// `Some((message, from, to))`: the first error is this one, at exactly that range; `None`: no error.
fn judge(ctx: &mut Ctx, s: &str, exp: Option<(D, usize, usize)>) {
    judge_f(ctx, s, exp.map(|(m, a, b)| (a, b, true, move |x: &D| *x == m)));
}
fn judge_f<F: Fn(&D) -> bool>(ctx: &mut Ctx, s: &str, exp: Option<(usize, usize, bool, F)>) {
    if !ctx.begin(s.as_bytes()) {
        return;
    }
    let r = parse(s.as_bytes());
    ctx.end();
    let first = r.diagnostics.iter().find(|d| d.level == ErrorLevel::Error);
    match (exp, first) {
        (None, None) => ctx.outcome("accepted as expected"),
        (None, Some(_)) => {
            ctx.fail(format!("rejected: {}", diag_str(&r.diagnostics)));
            return;
        }
        (Some((a, b, exact, f)), d) => {
            let ok = d.map_or(false, |d| f(&d.message) && if exact { (d.loc.begin, d.loc.end) == (a, b) } else { d.loc.begin >= a && d.loc.end <= b });
            if !ok {
                ctx.fail(format!("expected a different error at {a}..{b}, got: {}", diag_str(&r.diagnostics)));
                return;
            }
            ctx.outcome("rejected as expected");
        }
    }
    ctx.nontrivial();
}

#[derive(Clone, Copy, Default)]
struct St {
    def: bool,
    class: bool,
    blk: bool,
    nested: bool,
    fwd: bool,
    anon: bool,
    yielded: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum K {
    /// method body; parameters declare `...` / `&`
    Def(bool, bool),
    /// parameter default of a method
    DefArg,
    Class,
    Sclass,
    /// transparent, but part of a class definition
    Super,
    Blk,
    Same,
    End,
    Begin,
}
fn step(k: K, s: St) -> Option<St> {
    let mut n = St { nested: true, ..s };
    match k {
        K::Def(f, a) => {
            n = St { def: true, nested: true, fwd: f, anon: a, ..St::default() };
            n.class = s.class;
        }
        K::DefArg => {
            n = St { def: true, nested: true, class: s.class, ..St::default() };
        }
        K::Class => {
            if s.def {
                return None;
            }
            n = St { class: true, nested: true, ..St::default() };
        }
        K::Super => {
            if s.def {
                return None;
            }
        }
        K::Sclass => n = St { nested: true, ..St::default() },
        K::Blk => n.blk = true,
        K::Same => {}
        K::End => {}
        K::Begin => {
            if s.nested {
                return None;
            }
            n.nested = false;
        }
    }
    Some(n)
}
type Fr = (&'static str, &'static str, K);
/// the contexts that matter
const FR: &[Fr] = &[
    ("def m\n", "\nend", K::Def(false, false)),
    ("class C\n", "\nend", K::Class),
    ("class << self\n", "\nend", K::Sclass),
    ("foo {\n", "\n}", K::Blk),
    ("begin\n", "\nend", K::Same),
    ("module M\n", "\nend", K::Class),
    ("-> {\n", "\n}", K::Blk),
    ("def self.m\n", "\nend", K::Def(false, false)),
    ("foo do\n", "\nend", K::Blk),
    ("def m(...)\n", "\nend", K::Def(true, false)),
    ("def m(&)\n", "\nend", K::Def(false, true)),
    ("def m = begin\n", "\nend", K::Def(false, false)),
    ("def m(q = (\n", "\n1))\nend", K::DefArg),
    ("class C < (\n", "\n1)\nend", K::Super),
    ("class << (\n", "\n1)\nend", K::Same),
    ("def (begin\n", "\n1\nend).m\nend", K::Same),
    ("END {\n", "\n}", K::End),
    ("BEGIN {\n", "\n}", K::Begin),
    ("if x\n", "\nend", K::Same),
    ("->(q = (\n", "\n1)) {}", K::Blk),
    ("x = (\n", "\n1)", K::Same),
    ("\"#{\n", "\n}\"", K::Same),
    ("for i in x\n", "\nend", K::Same),
];
/// more of them, for shallower stacks
const FR2: &[Fr] = &[
    ("def m(a, ...)\n", "\nend", K::Def(true, false)),
    ("def self.m(...)\n", "\nend", K::Def(true, false)),
    ("def m(a, *b, c:, **d, &)\n", "\nend", K::Def(false, true)),
    ("def self.m &;", "\nend", K::Def(false, true)),
    ("def m(a, *b, c: 1, **d, &e) = (\n", "\n1)", K::Def(false, false)),
    ("def self.m() = begin\n", "\nend", K::Def(false, false)),
    ("def self.m(q: (\n", "\n1))\nend", K::DefArg),
    ("def m q = (\n", "\n1)\nend", K::DefArg),
    ("private def m\n", "\nend", K::Def(false, false)),
    ("def m\n", "\nrescue\nend", K::Def(false, false)),
    ("def m\nrescue\n", "\nend", K::Def(false, false)),
    ("def m\nrescue => e\nelse\n", "\nensure\nend", K::Def(false, false)),
    ("def m\nensure\n", "\nend", K::Def(false, false)),
    ("class C\nrescue\n", "\nend", K::Class),
    ("class C < D\n", "\nend", K::Class),
    ("class C::D\n", "\nend", K::Class),
    ("module ::M\n", "\nend", K::Class),
    ("module M\nensure\n", "\nend", K::Class),
    ("foo { |a|\n", "\n}", K::Blk),
    ("foo a do |b; c|\n", "\nend", K::Blk),
    ("foo do\nrescue\n", "\nend", K::Blk),
    ("->(a) {\n", "\n}", K::Blk),
    ("-> a, b do\n", "\nend", K::Blk),
    ("super {\n", "\n}", K::Blk),
    ("super() do\n", "\nend", K::Blk),
    ("x.y z do\n", "\nend", K::Blk),
    ("foo { |q = (\n", "\n1)| }", K::Blk),
    ("foo do |q: (\n", "\n1)|\nend", K::Blk),
    ("begin\nrescue\n", "\nend", K::Same),
    ("begin\nrescue => e\nelse\n", "\nend", K::Same),
    ("begin\nensure\n", "\nend", K::Same),
    ("begin\n", "\nend while x", K::Same),
    ("unless x\nelse\n", "\nend", K::Same),
    ("if x\nelsif y\n", "\nend", K::Same),
    ("while x\n", "\nend", K::Same),
    ("until x do\n", "\nend", K::Same),
    ("case x\nwhen y\n", "\nend", K::Same),
    ("case x\nin y\n", "\nend", K::Same),
    ("case\nwhen y\nelse\n", "\nend", K::Same),
    ("(", "\n)", K::Same),
    ("if (\n", "\n1)\nend", K::Same),
    ("while (\n", "\n1)\nend", K::Same),
    ("case (\n", "\n1)\nwhen 1\nend", K::Same),
    ("[(\n", "\n1)]", K::Same),
    ("{a: (\n", "\n1)}", K::Same),
    ("foo((\n", "\n1))", K::Same),
    ("foo(&(\n", "\n1))", K::Same),
    ("x[(\n", "\n1)]", K::Same),
    ("x += (\n", "\n1)", K::Same),
    ("x, y = (\n", "\n1)", K::Same),
    ("y ? (\n", "\n1) : 2", K::Same),
    ("!(\n", "\n1)", K::Same),
    ("`#{\n", "\n}`", K::Same),
    ("/#{\n", "\n}/", K::Same),
    (":\"#{\n", "\n}\"", K::Same),
    ("%W[#{\n", "\n}]", K::Same),
    ("<<A\n#{\n", "\n}\nA\n", K::Same),
    ("defined? [(\n", "\n1)]", K::Same),
];
/// fragment, relative range, verdict
enum W {
    InDef(D),
    ClassBody,
    NotTop,
    NoFwd,
    NoAnon,
    Always(D),
    Never,
    WarnDef,
}
fn frags() -> Vec<(&'static str, usize, usize, W)> {
    use W::*;
    let dyn_ = || D::DynamicConstantAssignment {};
    let mut v = vec![
        ("K = 1", 0, 1, InDef(dyn_())),
        ("return", 0, 6, ClassBody),
        ("class D; end", 0, 5, InDef(D::ClassDefinitionInMethodBody {})),
        ("module D; end", 0, 6, InDef(D::ModuleDefinitionInMethodBody {})),
        ("BEGIN { }", 0, 5, NotTop),
        ("foo(...)", 4, 7, NoFwd),
        ("foo(&)", 4, 5, NoAnon),
        ("END { }", 0, 3, WarnDef),
        ("class << self; end", 0, 0, Never),
        ("def n; end", 0, 0, Never),
        ("K::L = 1", 0, 4, InDef(dyn_())),
        ("::K = 1", 0, 3, InDef(dyn_())),
        ("x.y::K = 1", 0, 6, InDef(dyn_())),
        ("K = foo 1", 0, 1, InDef(dyn_())),
        ("K ||= 1", 0, 1, InDef(dyn_())),
        ("K &&= foo 1", 0, 1, InDef(dyn_())),
        ("K += 1", 0, 1, InDef(dyn_())),
        ("K = 1, 2", 0, 1, InDef(dyn_())),
        ("K, x = 1, 2", 0, 1, InDef(dyn_())),
        ("x, K = y", 3, 4, InDef(dyn_())),
        ("x, (K, z) = y", 4, 5, InDef(dyn_())),
        ("x, *K = y", 4, 5, InDef(dyn_())),
        ("*x, K = y", 4, 5, InDef(dyn_())),
        ("x, K::L = y", 3, 7, InDef(dyn_())),
        ("x, ::K = y", 3, 6, InDef(dyn_())),
        ("for K in x\nend", 4, 5, InDef(dyn_())),
        ("for x, K in y\nend", 7, 8, InDef(dyn_())),
        ("begin; rescue => K; end", 17, 18, InDef(dyn_())),
        ("begin; rescue E => K::L; end", 19, 23, InDef(dyn_())),
        ("foo(K = 1)", 4, 5, InDef(dyn_())),
        ("K = 1 rescue 2", 0, 1, InDef(dyn_())),
        ("K = 1 if x", 0, 1, InDef(dyn_())),
        ("x = K = 1", 4, 5, InDef(dyn_())),
        ("class D < E\nend", 0, 5, InDef(D::ClassDefinitionInMethodBody {})),
        ("class D::E\nend", 0, 5, InDef(D::ClassDefinitionInMethodBody {})),
        ("module ::D; x; end", 0, 6, InDef(D::ModuleDefinitionInMethodBody {})),
        ("return 1", 0, 6, ClassBody),
        ("return if x", 0, 6, ClassBody),
        ("x or return 2, 3", 5, 11, ClassBody),
        ("x && return", 5, 11, ClassBody),
        ("x rescue return", 9, 15, ClassBody),
        ("BEGIN { x }", 0, 5, NotTop),
        ("foo(1, ...)", 7, 10, NoFwd),
        ("x.foo(...)", 6, 9, NoFwd),
        ("super(...)", 6, 9, NoFwd),
        ("foo(1, &)", 7, 8, NoAnon),
        ("x.foo(*y, &)", 10, 11, NoAnon),
        ("alias $a $1", 9, 11, Always(D::AliasNthRef {})),
        ("alias $a $b", 0, 0, Never),
        ("alias $a $&", 0, 0, Never),
        ("alias a b", 0, 0, Never),
        ("undef a, b", 0, 0, Never),
        ("def a=(v) = 1", 4, 6, Always(D::EndlessSetterDefinition {})),
        ("def self.a=(v) = 1", 9, 11, Always(D::EndlessSetterDefinition {})),
        ("def a=(v) = foo 1", 4, 6, Always(D::EndlessSetterDefinition {})),
        ("def self.a=(v) = foo 1", 9, 11, Always(D::EndlessSetterDefinition {})),
        ("def a=(v); end", 0, 0, Never),
        ("def self.a=(v); end", 0, 0, Never),
        ("def ==(v) = 1", 0, 0, Never),
        ("def !=(v) = 1", 0, 0, Never),
        ("def self.<=(v) = 1", 0, 0, Never),
        ("def ===(v) = 1", 0, 0, Never),
        ("def a(v = 1) = v", 0, 0, Never),
        ("def a? = 1", 0, 0, Never),
        ("yield(&x)", 0, 5, Always(D::BlockGivenToYield {})),
        ("yield 1, &x", 0, 5, Always(D::BlockGivenToYield {})),
        ("foo(&x) { }", 4, 6, Always(D::BlockAndBlockArgGiven {})),
        ("foo(1, &x) do end", 7, 9, Always(D::BlockAndBlockArgGiven {})),
        ("foo 1, &x do end", 7, 9, Always(D::BlockAndBlockArgGiven {})),
        ("y.foo(&x) { }", 6, 8, Always(D::BlockAndBlockArgGiven {})),
        ("y&.foo &x do end", 7, 9, Always(D::BlockAndBlockArgGiven {})),
        ("super(&x) { }", 6, 8, Always(D::BlockAndBlockArgGiven {})),
        ("foo(&x)", 0, 0, Never),
        ("foo(x) { }", 0, 0, Never),
        ("foo(x { }, &y)", 0, 0, Never),
        ("foo(&x.y { })", 0, 0, Never),
        ("def (1).a; end", 5, 6, Always(D::SingletonLiteral {})),
        ("def (1.0).a; end", 5, 8, Always(D::SingletonLiteral {})),
        ("def ('x').a; end", 5, 8, Always(D::SingletonLiteral {})),
        ("def (\"x#{y}\").a; end", 5, 12, Always(D::SingletonLiteral {})),
        ("def (:x).a; end", 5, 7, Always(D::SingletonLiteral {})),
        ("def (:\"x#{y}\").a; end", 5, 13, Always(D::SingletonLiteral {})),
        ("def ([x]).a; end", 5, 8, Always(D::SingletonLiteral {})),
        ("def (/x/).a; end", 5, 8, Always(D::SingletonLiteral {})),
        ("def (x).a; end", 0, 0, Never),
        ("def (x.y).a; end", 0, 0, Never),
        ("def (nil).a; end", 0, 0, Never),
        ("def K.a; end", 0, 0, Never),
        ("def @x.a; end", 0, 0, Never),
        ("def nil.a; end", 0, 0, Never),
        ("class d; end", 6, 7, Always(D::ClassOrModuleNameMustBeConstant {})),
        ("module d; end", 7, 8, Always(D::ClassOrModuleNameMustBeConstant {})),
        ("x&.a, y = z", 1, 3, Always(D::CsendInsideMasgn {})),
        ("x, y&.a = z", 4, 6, Always(D::CsendInsideMasgn {})),
        ("x, *y&.a = z", 5, 7, Always(D::CsendInsideMasgn {})),
        ("x, (y&.a, w) = z", 5, 7, Always(D::CsendInsideMasgn {})),
        ("x.a, y::b = z", 0, 0, Never),
        ("x&.a = z", 0, 0, Never),
        ("x&.a += z", 0, 0, Never),
        ("begin; x; else; y; end", 10, 14, Always(D::ElseWithoutRescue {})),
        ("begin; x; else; y; ensure; z; end", 10, 14, Always(D::ElseWithoutRescue {})),
        ("def n; x; else; y; end", 10, 14, Always(D::ElseWithoutRescue {})),
        ("begin; x; rescue; y; else; z; end", 0, 0, Never),
        ("foo(**x, *y)", 9, 10, Always(D::UnexpectedToken { token_name: "tSTAR".into() })),
        ("@1", 0, 2, Always(D::InvalidIvarName { c: b'1' })),
        ("@@1", 0, 3, Always(D::InvalidCvarName { c: b'1' })),
    ];
    v.retain(|f| !f.0.contains("**x, *y"));
    v
}
fn frag_count() -> usize {
    frags().len()
}
fn contexts(depth: usize, big: bool, few: bool) -> Family {
    let nf = if few { 10 } else { frag_count() };
    let fr: Vec<Fr> = if big { FR.iter().chain(FR2).copied().collect() } else { FR.to_vec() };
    fam(format!("{nf} constructs inside every stack of exactly {depth} of {} contexts", fr.len()), 0, move |c, ctx| {
        let f = c.choose(nf);
        let mut st = St::default();
        let (mut o, mut cl) = (String::new(), String::new());
        for _ in 0..depth {
            let x = fr[c.choose(fr.len())];
            match step(x.2, st) {
                Some(n) => st = n,
                None => {
                    ctx.outcome("out of model");
                    return;
                }
            }
            o.push_str(x.0);
            cl.insert_str(0, x.1);
        }
        let all = frags();
        let (t, a, b, w) = &all[f];
        let (t, a, b) = (*t, *a + o.len(), *b + o.len());
        let src = format!("{o}{t}{cl}");
        let exp = match w {
            W::InDef(m) => st.def.then(|| m.clone()),
            W::ClassBody => (st.class && !st.def && !st.blk).then(|| D::InvalidReturnInClassOrModuleBody {}),
            W::NotTop => st.nested.then(|| D::BeginNotAtTopLevel {}),
            W::NoFwd => (!st.fwd).then(|| D::UnexpectedToken { token_name: "tBDOT3".into() }),
            W::NoAnon => {
                if st.fwd && !st.anon {
                    ctx.outcome("out of model");
                    return;
                }
                (!st.anon).then(|| D::NoAnonymousBlockarg {})
            }
            W::Always(m) => Some(m.clone()),
            W::Never => None,
            W::WarnDef => {
                warned(ctx, &src, st.def, a, b);
                return;
            }
        };
        judge(ctx, &src, exp.map(|m| (m, a, b)));
    })
}
fn warned(ctx: &mut Ctx, s: &str, want: bool, a: usize, b: usize) {
    if !ctx.begin(s.as_bytes()) {
        return;
    }
    let r = parse(s.as_bytes());
    ctx.end();
    let n = r.diagnostics.iter().filter(|d| d.message == D::EndInMethod {} && d.level == ErrorLevel::Warning && (d.loc.begin, d.loc.end) == (a, b)).count();
    if n != want as usize || errors(&r) > 0 {
        ctx.fail(format!("expected {} warning about END at {a}..{b}, got: {}", want as usize, diag_str(&r.diagnostics)));
        return;
    }
    ctx.nontrivial();
    ctx.outcome("warned as expected");
}
/// what may not be assigned to, and the message
fn targets() -> Vec<(&'static str, Option<D>)> {
    let cs = |n: &str| Some(D::CantSetVariable { var_name: n.into() });
    let np = |n: &str| Some(D::ReservedForNumparam { numparam: n.into() });
    vec![
        ("self", Some(D::CantAssignToSelf {})),
        ("nil", Some(D::CantAssignToNil {})),
        ("true", Some(D::CantAssignToTrue {})),
        ("false", Some(D::CantAssignToFalse {})),
        ("__FILE__", Some(D::CantAssignToFile {})),
        ("__LINE__", Some(D::CantAssignToLine {})),
        ("__ENCODING__", Some(D::CantAssignToEncoding {})),
        ("$1", cs("$1")),
        ("$9", cs("$9")),
        ("$12", cs("$12")),
        ("$&", cs("$&")),
        ("$`", cs("$`")),
        ("$'", cs("$'")),
        ("$+", cs("$+")),
        ("_1", np("_1")),
        ("_2", np("_2")),
        ("_9", np("_9")),
        ("_0", None),
        ("_10", None),
        ("_", None),
        ("_a", None),
        ("_1a", None),
        ("a1", None),
        ("$0", None),
        ("$_", None),
        ("$~", None),
        ("$a", None),
        ("$-w", None),
        ("$01", None),
        ("@_1", None),
        ("@a", None),
        ("@@a", None),
        ("a", None),
        ("é", None),
        ("K", None),
        ("K::L", None),
        ("::K", None),
        ("nil.a", None),
        ("self.b", None),
        ("self[0]", None),
        ("nil[0]", None),
        ("$1.a", None),
        ("_1.b", None),
    ]
}
fn asgn_targets(ctxs: usize) -> Family {
    const F: [(&str, &str); 37] = [
        ("", " = 1"),
        ("", " += 1"),
        ("", " ||= 1"),
        ("", " &&= foo 1"),
        ("", " **= foo 1"),
        ("", " = foo 1"),
        ("", " = 1, 2"),
        ("", " = *x"),
        ("", " = x = 1"),
        ("", " = 1 rescue 2"),
        ("", " += 1 rescue 2"),
        ("", " = 1 if x"),
        ("x = ", " = 1"),
        ("x = ", " ||= 1"),
        ("x += ", " = 1"),
        ("foo(", " = 1)"),
        ("foo ", " = 1"),
        ("(", " = 1)"),
        ("[", " += 1]"),
        ("if ", " = 1\nend"),
        ("", ", x = y"),
        ("", ", = y"),
        ("x, ", " = y"),
        ("x, (", ", z) = y"),
        ("(x, ", "), z = y"),
        ("((", ", z), x), w = y"),
        ("*", " = y"),
        ("x, *", " = y"),
        ("x, *", ", z = y"),
        ("*x, ", " = y"),
        ("x = z, ", " = y"),
        ("for ", " in x\nend"),
        ("for x, ", " in y\nend"),
        ("for x, (", ", *z) in y\nend"),
        ("begin\nrescue => ", "\nend"),
        ("begin\nrescue E, F => ", " then x\nend"),
        ("foo { |;v| ", " = 1 }"),
    ];
    const C: [(&str, &str); 8] = [("", ""), ("foo {\n", "\n}"), ("class C\n", "\nend"), ("-> do\n", "\nend"), ("x if (", ")"), ("foo { _3; ", "\n}"), ("foo { _3; [1, (", "\n)] }"), ("foo { _3; bar { |x|\n", "\n} }")];
    fam(format!("assignment to every kind of target in {} forms and {ctxs} contexts", F.len()), 0, move |c, ctx| {
        let t = targets();
        let (n, m) = &t[c.choose(t.len())];
        let (a, b) = F[c.choose(F.len())];
        let k = c.choose(ctxs);
        let (o, e) = C[k];
        // a single target inside an index or comma list
        if a == "x = z, " || (n.contains("::") && a.starts_with("foo {")) {
            ctx.outcome("out of model");
            return;
        }
        // these have a name before the target which is read, not assigned
        if (k >= 5 || a.starts_with("foo {")) && n.starts_with("_1.") || (*n == "::K" && b.contains("foo 1") && b != " = foo 1") {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{o}{a}{n}{b}{e}");
        let p = o.len() + a.len();
        let own = (k == 5 || k == 6) && !a.starts_with("foo {");
        let m = match m {
            Some(D::ReservedForNumparam { numparam }) if own => Some(D::CantAssignToNumparam { numparam: numparam.clone() }),
            m => m.clone(),
        };
        judge(ctx, &s, m.map(|m| (m, p, p + n.len())));
    })
}

/// parameter names
fn param_names() -> Family {
    const N: [&str; 16] = ["K", "@a", "$a", "@@a", "_1", "_9", "_0", "_", "a", "é", "_10", "É", "$1", "K1", "@é", "a1"];
    // (before, after, kind): r = ordinary, l = label, s = after an operator
    const I: [(&str, &str, char); 18] = [
        ("", "", 'r'),
        ("b, ", "", 'r'),
        ("", ", b", 'r'),
        ("*b, ", "", 'r'),
        ("b = 1, ", "", 'r'),
        ("b = 1, *c, ", ", d: 1", 'r'),
        ("", " = 1", 'o'),
        ("b, ", " = 1, c", 'o'),
        ("(", ", b)", 'm'),
        ("b, (c, (*d, ", "))", 'm'),
        ("", ":", 'l'),
        ("", ": 1", 'l'),
        ("b, c: 2, ", ": 1, **d", 'l'),
        ("*", "", 's'),
        ("b, *", ", c", 's'),
        ("**", "", 's'),
        ("b: 1, **", ", &c", 's'),
        ("&", "", 's'),
    ];
    const F: [(&str, &str, bool); 12] = [
        ("def m(", "); end", false),
        ("def m ", "\nend", false),
        ("def self.m(", ")\nend", false),
        ("def m(", ") = 1", false),
        ("foo { |", "| }", true),
        ("foo do |", "|\nend", true),
        ("->(", ") { }", true),
        ("-> ", " { }", true),
        ("-> ", " do end", true),
        ("foo x { |", "; z| }", true),
        ("->(", "; z) { }", true),
        ("bar { _1 = 1 if false; foo { |", "| } }", true),
    ];
    fam(format!("{} parameter names in {} places of {} kinds of parameter lists", N.len(), I.len(), F.len() - 1), 0, move |c, ctx| {
        let n = N[c.choose(N.len())];
        let (a, b, k) = I[c.choose(I.len())];
        let (o, e, blk) = F[c.choose(F.len() - 1)];
        let up = n.starts_with(|c: char| c.is_uppercase());
        let sig = n.starts_with(['@', '$']);
        // `-> a: {` and `def m a:\n` read on
        if k == 'l' && b == ":" && (o == "-> " || o == "def m ") {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{o}{a}{n}{b}{e}");
        let p = o.len() + a.len();
        let q = p + n.len();
        let msg = if up {
            Some(D::ConstArgument {})
        } else if n.starts_with("@@") {
            Some(D::CvarArgument {})
        } else if n.starts_with('@') {
            Some(D::IvarArgument {})
        } else if n.starts_with('$') {
            Some(D::GvarArgument {})
        } else if n == "_1" || n == "_9" {
            Some(D::ReservedForNumparam { numparam: n.into() })
        } else {
            None
        };
        let _ = blk;
        if n == "$1" || (k == 's' && (sig || up)) || (k == 'l' && sig) {
            // not a name at all: some error there
            judge_f(ctx, &s, Some((p, s.len(), false, |_: &D| true)));
            return;
        }
        // a label's location includes its colon
        match msg {
            Some(m) if k == 'l' => judge_f(ctx, &s, Some((p, q + 1, false, move |x: &D| *x == m))),
            m => judge(ctx, &s, m.map(|m| (m, p, q))),
        }
    })
}

/// trees of blocks with numbered parameters
struct NpScope {
    dynamic: bool,
    ordinary: bool,
    max: usize,
    inner: bool,
}
struct Np {
    few: bool,
    s: String,
    sc: Vec<NpScope>,
    err: Option<(Vec<D>, usize, usize)>,
}
impl Np {
    fn t(&mut self, x: &str) -> Loc {
        let a = self.s.len();
        self.s.push_str(x);
        l(a, a + x.len())
    }
    fn fail(&mut self, m: Vec<D>, x: Loc) {
        if self.err.is_none() {
            self.err = Some((m, x.begin, x.end));
        }
    }
    fn used_around(&self) -> bool {
        let n = self.sc.len();
        self.sc[n - 1].inner || self.sc[..n - 1].iter().rev().take_while(|s| s.dynamic).any(|s| s.max > 0)
    }
    fn use_(&mut self, n: usize) -> Node {
        let name = format!("_{n}");
        let x = self.t(&name);
        if !(1..=9).contains(&n) || !self.sc.last().unwrap().dynamic {
            return ident_send(&name, x);
        }
        let around = self.used_around();
        let top = self.sc.last_mut().unwrap();
        let mut m = vec![];
        if top.ordinary {
            m.push(D::OrdinaryParamDefined {});
        }
        if around {
            m.push(D::NumparamUsed {});
        }
        top.max = top.max.max(n);
        if !m.is_empty() {
            self.fail(m, x);
        }
        lvar(&name, x)
    }
    fn push(&mut self, dynamic: bool, ordinary: bool) {
        self.sc.push(NpScope { dynamic, ordinary, max: 0, inner: false });
    }
    fn pop(&mut self) -> usize {
        let s = self.sc.pop().unwrap();
        if s.dynamic && (s.max > 0 || s.inner) {
            self.sc.last_mut().unwrap().inner = true;
        }
        s.max
    }
    fn body(&mut self, c: &mut Chooser, d: u32) -> Option<Node> {
        let mut v = vec![];
        while c.dev(2) == 1 {
            self.t(";");
            let n = self.item(c, d);
            v.push(n);
        }
        self.t(";");
        compstmt(v)
    }
    fn item(&mut self, c: &mut Chooser, d: u32) -> Node {
        let k = if self.few {
            [0, 1, 6, 9, 8, 15][c.choose(if d == 0 { 2 } else { 6 })]
        } else {
            c.choose(if d == 0 { 6 } else { 18 })
        };
        match k {
            0 => self.use_(1),
            1 => self.use_(2),
            2 => {
                let o = self.t("\"");
                let a = self.t("#{");
                let u = self.use_(1);
                let b = self.t("}");
                let cl = self.t("\"");
                Node::Dstr(Dstr { parts: vec![begin(vec![u], a, b)], begin_l: Some(o), end_l: Some(cl), expression_l: j(o, cl) })
            }
            3 => {
                let n = [0, 9, 10][c.choose(3)];
                self.use_(n)
            }
            4 => {
                let o = self.t("[");
                let u = self.use_(3);
                let cl = self.t("]");
                array(vec![u], Some(o), Some(cl))
            }
            5 => {
                let x = self.t("_1");
                self.t(" = 0");
                let top = self.sc.last().unwrap();
                let m = if top.dynamic && top.max > 0 { D::CantAssignToNumparam { numparam: "_1".into() } } else { D::ReservedForNumparam { numparam: "_1".into() } };
                self.fail(vec![m], x);
                int("0", x)
            }
            6..=14 => {
                // blocks
                let (call, ob, cb, p) = match k {
                    6 => ("foo", "{", "}", ""),
                    7 => ("foo", "do", "end", ""),
                    8 => ("->", "{", "}", ""),
                    9 => ("foo", "{", "}", "|a|"),
                    10 => ("foo", "{", "}", "||"),
                    11 => ("foo", "do", "end", "|;a|"),
                    12 => ("->", "{", "}", "(a)"),
                    13 => ("->", "do", "end", "()"),
                    _ => ("->", "do", "end", ""),
                };
                let x = self.t(call);
                let lam = call == "->";
                let recv = if lam { Node::Lambda(Lambda { expression_l: x }) } else { ident_send("foo", x) };
                let arg = |n: &str, x: Loc| Node::Arg(Arg { name: n.into(), expression_l: x });
                let mut args = None;
                if lam && !p.is_empty() {
                    let o = self.t("(");
                    let v = if p == "(a)" { vec![arg("a", self.t("a"))] } else { vec![] };
                    let cl = self.t(")");
                    args = Some(Node::Args(Args { args: v, expression_l: j(o, cl), begin_l: Some(o), end_l: Some(cl) }));
                }
                self.t(" ");
                let bl = self.t(ob);
                if !lam && !p.is_empty() {
                    let o = self.t("|");
                    let v = match p {
                        "|a|" => {
                            let x = self.t("a");
                            vec![Node::Procarg0(Procarg0 { args: vec![arg("a", x)], begin_l: None, end_l: None, expression_l: x })]
                        }
                        "|;a|" => {
                            self.t(";");
                            let x = self.t("a");
                            vec![Node::Shadowarg(Shadowarg { name: "a".into(), expression_l: x })]
                        }
                        _ => vec![],
                    };
                    let cl = self.t("|");
                    args = Some(Node::Args(Args { args: v, expression_l: j(o, cl), begin_l: Some(o), end_l: Some(cl) }));
                }
                self.push(true, !p.is_empty());
                let bd = self.body(c, d - 1);
                let m = self.pop();
                let el = self.t(cb);
                if m > 0 {
                    let expression_l = j(e(&recv), el);
                    Node::Numblock(Numblock { call: b(recv), numargs: m as u8, body: b(bd.unwrap_or_else(|| int("0", bl))), begin_l: bl, end_l: el, expression_l })
                } else {
                    block(recv, args, bd, bl, el)
                }
            }
            15 => {
                let kw = self.t("def");
                self.t(" ");
                let nl = self.t("m");
                self.push(false, false);
                let bd = self.body(c, d - 1);
                self.pop();
                let el = self.t("end");
                Node::Def(Def { name: "m".into(), args: None, body: ob(bd), keyword_l: kw, name_l: nl, end_l: Some(el), assignment_l: None, expression_l: j(kw, el) })
            }
            16 => {
                let kw = self.t("class");
                self.t(" ");
                let op = self.t("<<");
                self.t(" ");
                let sl = self.t("self");
                self.push(false, false);
                let bd = self.body(c, d - 1);
                self.pop();
                let el = self.t("end");
                Node::SClass(SClass { expr: b(Node::Self_(Self_ { expression_l: sl })), body: ob(bd), keyword_l: kw, operator_l: op, end_l: el, expression_l: j(kw, el) })
            }
            _ => {
                let kw = self.t("begin");
                let bd = self.body(c, d - 1);
                let el = self.t("end");
                kwbegin(kw, bd, el)
            }
        }
    }
}
fn numparams(depth: u32, budget: u32, few: bool) -> Family {
    fam(format!("numbered parameters in all trees of up to {budget} blocks, methods and uses, nested to depth {depth}{}", if few { ", fewer kinds" } else { "" }), budget, move |c, ctx| {
        let mut g = Np { few, s: String::new(), sc: vec![], err: None };
        g.push(false, false);
        let first = g.item(c, depth);
        let mut v = vec![first];
        while c.dev(2) == 1 {
            g.t(";");
            let n = g.item(c, depth);
            v.push(n);
        }
        match g.err.take() {
            None => expect_src(ctx, g.s.as_bytes(), compstmt(v), None),
            Some((m, a, b)) => judge_f(ctx, &g.s, Some((a, b, true, move |x: &D| m.contains(x)))),
        }
    })
}

const VOID: &[(&str, bool)] = &[
    ("(return)", true),
    ("(break 1)", true),
    ("(return; 1)", false),
    ("(return if x)", false),
    ("(if x; return; else; break; end)", true),
    ("(if x; return; else; 1; end)", false),
    ("(next)", true),
    ("(redo)", true),
    ("(retry)", true),
    ("(return 1, *x)", true),
    ("(1; return)", true),
    ("(x\nbreak)", true),
    ("((next))", true),
    ("begin return end", true),
    ("begin; 1; next 2; end", true),
    ("begin; next 2; 1; end", false),
    ("if x then return else next end", true),
    ("if x then 1 else next end", false),
    ("if x then return end", false),
    ("(if x; else; return; end)", false),
    ("(unless x; return; else; break; end)", true),
    ("(unless x; return; end)", false),
    ("(unless x; 1; else; return; end)", false),
    ("(if x; return; elsif y; break; else; next; end)", true),
    ("(if x; return; elsif y; break; end)", false),
    ("(if x; return; elsif y; 1; else; next; end)", false),
    ("(x ? return : break)", true),
    ("(x ? return : 1)", false),
    ("(x ? 1 : return)", false),
    ("(return unless x)", false),
    ("(x && return)", false),
    ("(x or return 1)", false),
    ("()", false),
    ("begin; return; rescue; 1; end", false),
    ("begin; return; ensure; x; end", false),
    ("case x; when 1; return; else; return; end", false),
    ("(while x; return; end)", false),
    ("(def m; return; end)", false),
    ("(-> { return })", false),
    ("(foo { next })", false),
    ("(x = 1; return)", true),
    ("(return rescue 1)", false),
];
const VALUE: &[(&str, &str)] = &[
    ("x = ", ""),
    ("foo(", ")"),
    ("@x = ", ""),
    ("@@x = ", ""),
    ("$x = ", ""),
    ("K = ", ""),
    ("K::L = ", ""),
    ("::K = ", ""),
    ("x.y = ", ""),
    ("x&.y = ", ""),
    ("x[1] = ", ""),
    ("x = y = ", ""),
    ("x += ", ""),
    ("x ||= ", ""),
    ("x &&= ", ""),
    ("@x += ", ""),
    ("x.y += ", ""),
    ("x::y += ", ""),
    ("x&.y ||= ", ""),
    ("x[0] ||= ", ""),
    ("K ||= ", ""),
    ("K::L ||= ", ""),
    ("x, y = ", ""),
    ("x = *", ""),
    ("x = 1, ", ""),
    ("x = 1, *", ""),
    ("x, y = 1, ", ""),
    ("x = ", ", 1"),
    ("x, y = ", ", 1"),
    ("x = ", " rescue 1"),
    ("x += ", " rescue 1"),
    ("x = ", " if y"),
    ("x = foo ", ""),
    ("foo ", ""),
    ("foo(1, ", ")"),
    ("foo 1, ", ""),
    ("foo(", ", 1)"),
    ("foo(*", ")"),
    ("foo(**", ")"),
    ("foo(&", ")"),
    ("foo(1, *", ")"),
    ("foo(1, &", ")"),
    ("foo(a: ", ")"),
    ("foo(", " => 1)"),
    ("foo(1 => ", ")"),
    ("foo(\"a\": ", ")"),
    ("foo a: ", ""),
    ("foo.bar(", ")"),
    ("foo.bar ", ""),
    ("foo&.bar(", ")"),
    ("foo::bar(", ")"),
    ("foo.(", ")"),
    ("[", "]"),
    ("[1, ", "]"),
    ("[*", "]"),
    ("[1 => ", "]"),
    ("x({a: ", "})"),
    ("x({", " => 1})"),
    ("x({**", "})"),
    ("x[", "]"),
    ("x[1, ", "]"),
    ("x[", "] = 1"),
    ("x[", "] += 1"),
    ("yield ", ""),
    ("yield(", ")"),
    ("super(", ")"),
    ("super ", ""),
    ("foo(", ") { }"),
    ("foo ", " do end"),
    ("return ", ""),
    ("break ", ""),
    ("next ", ""),
    ("return 1, ", ""),
    ("return *", ""),
    ("", ".foo"),
    ("", "&.foo"),
    ("", "::foo"),
    ("", "::K"),
    ("", "[1]"),
    ("", ".foo = 1"),
    ("", "&.foo = 1"),
    ("", "[1] = 2"),
    ("", ".foo += 1"),
    ("", "[1] += 1"),
    ("", "::K = 1"),
    ("", ".()"),
    ("", ".foo 1"),
    ("", ".foo { }"),
    ("", ".foo, x = 1"),
    ("x, *", ".foo = 1"),
    ("x, ", "[0] = 1"),
    ("x, ", "::K = 1"),
    ("for ", ".x in y\nend"),
    ("begin; rescue => ", ".x; end"),
    ("", " + 1"),
    ("1 + ", ""),
    ("1 - ", " * 2"),
    ("-", ""),
    ("+", ""),
    ("~", ""),
    ("!", ""),
    ("not ", ""),
    ("", " == 1"),
    ("1 != ", ""),
    ("", " != 1"),
    ("", " === 1"),
    ("1 <=> ", ""),
    ("", " <=> 1"),
    ("", " ** 2"),
    ("2 ** ", ""),
    ("", " =~ 1"),
    ("1 =~ ", ""),
    ("", " !~ 1"),
    ("1 !~ ", ""),
    ("", " < 1"),
    ("1 >= ", ""),
    ("", " << 1"),
    ("1 >> ", ""),
    ("", " & 1"),
    ("1 | ", ""),
    ("", " ^ 1"),
    ("", " % 1"),
    ("1 / ", ""),
    ("(", "..1)"),
    ("(1..", ")"),
    ("(", "...1)"),
    ("(1...", ")"),
    ("(", "..)"),
    ("(", "...)"),
    ("(..", ")"),
    ("(...", ")"),
    ("", " && 1"),
    ("", " || 1"),
    ("", " and 1"),
    ("", " or 1"),
    ("", " ? 1 : 2"),
    ("if ", "; end"),
    ("unless ", "; end"),
    ("while ", "; end"),
    ("until ", "; end"),
    ("case ", "; when 1; end"),
    ("case ", "; in 1; end"),
    ("case x; when ", "; end"),
    ("case x; when 1, ", " then 1; end"),
    ("case x; when *", "; end"),
    ("case; when ", "; end"),
    ("x if ", ""),
    ("x unless ", ""),
    ("x while ", ""),
    ("x until ", ""),
    ("if x; elsif ", "; end"),
    ("for x in ", "; end"),
    ("class C < ", "; end"),
    ("begin; rescue ", "; end"),
    ("begin; rescue E, ", "; end"),
    ("begin; rescue *", "; end"),
    ("def m(a = ", "); end"),
    ("def m(a: ", "); end"),
    ("->(a = ", ") {}"),
    ("->(a: ", ") {}"),
    ("foo { |a = ", "| }"),
    ("foo { |a: ", "| }"),
    ("", " => a"),
    ("", " in a"),
    ("x in ^(", ")"),
    ("foo((", "))"),
    ("x = (1; ", ")"),
    ("x = begin; 1; ", "; end"),
];
const NOVALUE: &[(&str, &str)] = &[
    ("", ""),
    ("(", ")"),
    ("", "; 1"),
    ("1; ", ""),
    ("", " if x"),
    ("", " while x"),
    ("", " rescue 1"),
    ("x rescue ", ""),
    ("foo { ", " }"),
    ("-> { ", " }"),
    ("foo do ", "; end"),
    ("def m; ", "; end"),
    ("begin; ", "; end"),
    ("begin; 1; rescue; ", "; end"),
    ("begin; 1; ensure; ", "; end"),
    ("if x; ", "; end"),
    ("if x; 1; else; ", "; end"),
    ("while x; ", "; end"),
    ("case x; when 1; ", "; end"),
    ("case x; in 1; ", "; end"),
    ("for x in y; ", "; end"),
    ("END { ", " }"),
    ("BEGIN { ", " }"),
    ("class << self; ", "; end"),
    ("1 && ", ""),
    ("1 || ", ""),
    ("1 and ", ""),
    ("1 or ", ""),
    ("x ? ", " : 1"),
    ("x ? 1 : ", ""),
    ("\"#{", "}\""),
    ("/#{", "}/"),
    ("`#{", "}`"),
    (":\"#{", "}\""),
    ("x = (", "; 1)"),
    ("foo(-> { ", " })"),
    ("foo(bar { ", " })"),
];
fn voids(ctxs: usize, nv: usize) -> Family {
    const C: [(&str, &str); 6] = [("", ""), ("foo {\n", "\n}"), ("def m\n", "\nend"), ("x = [(", ";1)]"), ("\"#{", "}\""), ("if x\n", "\nend")];
    let nv = nv.min(VOID.len());
    fam(format!("{nv} jumps in {} value positions and {} others, in {ctxs} contexts", VALUE.len(), NOVALUE.len()), 0, move |c, ctx| {
        let (v, void) = VOID[c.choose(nv)];
        let k = c.choose(VALUE.len() + NOVALUE.len());
        let val = k < VALUE.len();
        let (a, b) = if val { VALUE[k] } else { NOVALUE[k - VALUE.len()] };
        let (o, e) = C[c.choose(ctxs)];
        if (a.contains("BEGIN {") && !o.is_empty()) || (o.starts_with("def") && (a.contains("K = ") || a.contains("L = ") || a.contains("K ||= ") || a.contains("L ||= ") || b.contains("::K = ") || a.starts_with("class C") || a.starts_with("::K"))) {
            ctx.outcome("out of model");
            return;
        }
        // `not ()` and an empty pin are something else
        if v == "()" && (a == "not " || a == "x in ^(") {
            ctx.outcome("out of model");
            return;
        }
        // a parenthesised first argument after a space holds one statement; `if` there is a modifier
        let cmd = a.ends_with("foo ") || matches!(a, "foo.bar " | "super " | "yield " | "not ");
        if (matches!(a, "return " | "next " | "break " | "begin; rescue ") && v.starts_with("if")) || cmd && (v.starts_with("if") || v.contains(';') || v.contains('\n')) {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{o}{a}{v}{b}{e}");
        let p = o.len() + a.len();
        judge_f(ctx, &s, (val && void).then(|| (p, p + v.len(), false, |x: &D| *x == D::VoidValueExpression {})));
    })
}
/// `x = return` and the like, without parentheses
fn bare_voids() -> Family {
    const V: [&str; 9] = ["return", "break", "next", "redo", "retry", "return 1", "break 1, 2", "next *x", "return foo 1"];
    // before, after, whether a value is wanted, whether a command may stand there, whether a bare word may
    const A: &[(&str, &str, bool)] = &[
        ("x = ", "", true), ("x += ", "", true), ("x.y = ", "", true), ("x[0] ||= ", "", true), ("x, y = ", "", true), ("K = ", "", true), ("x and ", "", false), ("x or ", "", false), ("x && ", "", false), ("x || ", "", false), ("", "", false), ("x; ", "", false), ("x rescue ", "", false), ("not ", "", true),
        ("x.y += ", "", true), ("x&.y = ", "", true), ("x&.y ||= ", "", true), ("x::y = ", "", true), ("x::y &&= ", "", true), ("x::K = ", "", true), ("::K = ", "", true), ("@x = ", "", true), ("$x -= ", "", true), ("@@x ||= ", "", true), ("x = y = ", "", true), ("x += y = ", "", true), ("x = y += ", "", true), ("(x, y), z = ", "", true), ("*x, y = ", "", true), ("x, = ", "", true), ("x[0] = ", "", true), ("x.K = ", "", true),
        ("x = ", " rescue y", true), ("x += ", " rescue y", true), ("x.y = ", " rescue z", true), ("x[0] ||= ", " rescue y", true), ("x.y += ", " rescue z", true), ("x&.y = ", " rescue z", true), ("x::y += ", " rescue z", true), ("K = ", " rescue y", true), ("x = y = ", " rescue z", true), ("@x ||= ", " rescue z", true),
        ("x = ", " if y", true), ("x += ", " while y", true), ("x, y = ", " unless z", true), ("x = ", " and y", true), ("x += ", "\ny", true), ("(x = ", ")", true), ("foo { x = ", " }", true), ("if x = ", "\nend", true), ("foo (x = ", ")", true),
        ("", " rescue x", false), ("", " if x", false), ("", " and x", true), ("", " or x", true), ("x if y and ", "", false), ("foo { ", " }", false), ("(", ")", false), ("x ? y : (", ")", false), ("begin; ", "; end while x", false), ("if x then ", " end", false), ("-> { ", " }", false), ("def m = (", ")", false),
        ("foo ", "", true), ("foo.bar ", "", true), ("foo::bar ", "", true), ("foo(", ")", true), ("foo.bar(", ")", true), ("super ", "", true), ("return ", "", true), ("x = foo ", "", true), ("x += foo ", " rescue y", true), ("x, y = foo ", "", true), ("foo bar ", "", true),
    ];
    fam("jumps without parentheses after assignments and logical operators, and as arguments", 0, move |c, ctx| {
        let v = V[c.choose(V.len())];
        let (a, b, val) = A[c.choose(A.len())];
        let arg = a.ends_with("foo ") || a.ends_with("bar ") || a.ends_with("foo(") || a.ends_with("bar(") || a == "super " || a == "return ";
        // with arguments they are commands, which only some positions take
        if v.contains(' ') && matches!(a, "x && " | "x || ") || arg && (!v.contains(' ') || v.contains(',') || v.contains("foo")) {
            ctx.outcome("out of model");
            return;
        }
        let s = format!("{a}{v}{b}");
        judge_f(ctx, &s, val.then(|| (a.len(), a.len() + v.len(), false, |x: &D| *x == D::VoidValueExpression {})));
    })
}
/// the default of a parameter refers to the parameter itself
fn circular() -> Family {
    // `~` stands for the parameters; whether a default must be a primary
    const H: [(&str, bool); 14] = [
        ("def m(~); end", false), ("def m ~\nend", false), ("def o.m(~); 1; end", false), ("def m(~) = 1", false), ("def self.m(~) = 1", false), ("def m(~) = (1) rescue 2", false), ("foo { |~| 1 }", true), ("foo do |~| end", true), ("->(~) {}", false), ("->(~) do end", false), ("-> ~ {}", false), ("foo bar { |~| }", true), ("def m\ndef n(~)\nend\nend", false), ("def m(~) = puts 1", false),
    ];
    // `1` and `2` stand for the two defaults, of `a` and `b`
    const P: [&str; 8] = ["a = @1", "a: @1", "z, a = @1", "a = @1, b = @2", "a: @1, b: @2", "a = @1, *r, y, b: @2, **k", "(z, w), a = @1, &k", "a = @1, b: @2"];
    // `$` stands for a name; whether the form is a primary; whether it carries braces
    const D: [(&str, bool, bool); 35] = [
        ("(def n = foo 1 rescue 2; $)", true, false), ("(def o.n = foo 1 rescue 2; $)", true, false), ("(def n = 1 rescue 2; $)", true, false), ("(def o.n = 1 rescue 2; $)", true, false), ("(def o.n(q = 1) = 1; $)", true, false), ("$", true, false), ("($)", true, false), ("[1, $]", true, false), ("{k: $}", true, true), ("$ + 1", false, false), ("$.foo", true, false), ("\"#{$}\"", true, true), ("foo($)", true, false), ("!$", false, false), ("c ? $ : 1", false, false), ("(x = $)", true, false), ("if c then $ end", true, false), ("(def n; end; $)", true, false), ("(def n(a = 1); end; $)", true, false), ("(def n(b = 1) = 2; $)", true, false), ("(def o.n(b:) end; $)", true, false), ("(def o.n(a) = 1; $)", true, false), ("(def n = foo 1; $)", true, false), ("([]; $)", true, false), ("(class << o; 1; end; $)", true, false), ("(class << o; def n(a = 1) end; end; $)", true, false), ("foo { $ }", true, true), ("$ => {q:}", false, true), ("$[0]", true, false), ("begin; $; end", true, false), ("($; 1)", true, false), ("%W[#{$}]", true, true), ("(o.m = $)", true, false), ("defined?($)", true, false), ("(def o.n = foo 1; $)", true, false),
    ];
    const FREE: [&str; 18] = [
        "1", "a()", "self.a", ":a", "@a", "foo.a", "a?", "A", "foo.a 1", "(a = 1)", "(def n; a; end)", "(def n(c = a); end)", "(def o.n(c: a) = a)", "(class << o; a; end)", "\"a\"", "[:a, foo.a]", "(def a; end)", "{a: 1}",
    ];
    const INNER: [&str; 5] = ["(def n(q = $) end)", "(def n(z, q: $) = 1)", "(def o.n(q = [$]); end; 1)", "(def o.n(q: $) = foo 1)", "(def n(q = (def n(y = 1) end; $)) end)"];
    const X: [&str; 5] = ["a", "b", "z", "u", "r"];
    fam("defaults that do and do not refer to their own parameter", 0, move |c, ctx| {
        let (h, prim) = H[c.choose(H.len())];
        let p = P[c.choose(P.len())];
        let mut want: Vec<(usize, usize)> = vec![];
        let mut s = String::new();
        let two = p.contains("@2");
        // in the lists with two, one of them is plain
        let first = !two || c.choose(2) == 0;
        let mut ok = true;
        let (pre, post) = h.split_once('~').unwrap();
        s.push_str(pre);
        let mut rest = p;
        while let Some(i) = rest.find('@') {
            s.push_str(&rest[..i]);
            let own = if rest.as_bytes()[i + 1] == b'1' { "a" } else { "b" };
            rest = &rest[i + 2..];
            let full = first == (own == "a");
            let k = if full { c.choose(3) } else { 0 };
            let (d, x, cur, primary, braces) = match k {
                0 if full => {
                    let (d, p, b) = D[c.choose(D.len())];
                    (d, X[c.choose(X.len())], own, p, b)
                }
                0 => (["$", "[1, $]"][c.choose(2)], ["a", "b"][c.choose(2)], own, true, false),
                1 => {
                    let d = FREE[c.choose(FREE.len())];
                    (d, "", own, d != "foo.a 1", d.contains('{'))
                }
                _ => (INNER[c.choose(INNER.len())], ["q", "a", "z"][c.choose(3)], "q", true, false),
            };
            ok &= (primary || !prim) && !(braces && h.starts_with("-> ")) && d != "foo.a 1" && d != "$ => {q:}" && !(p.starts_with('(') && (h.starts_with("-> ") || h.starts_with("def m ~")));
            match d.split_once('$') {
                Some((l, r)) => {
                    s.push_str(l);
                    if x == cur {
                        want.push((s.len(), s.len() + x.len()));
                    }
                    s.push_str(x);
                    s.push_str(r);
                }
                None => s.push_str(d),
            }
        }
        s.push_str(rest);
        s.push_str(post);
        if !ok {
            ctx.outcome("out of model");
            return;
        }
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let r = parse(s.as_bytes());
        ctx.end();
        let mut got: Vec<(usize, usize)> = vec![];
        for d in r.diagnostics.iter().filter(|d| d.level == ErrorLevel::Error) {
            if !matches!(d.message, D::CircularArgumentReference { .. }) {
                ctx.fail(format!("rejected for another reason: {}", diag_str(&r.diagnostics)));
                return;
            }
            got.push((d.loc.begin, d.loc.end));
        }
        if got != want {
            ctx.fail(format!("expected circular references at {want:?}, got: {}", diag_str(&r.diagnostics)));
            return;
        }
        ctx.outcome(if want.is_empty() { "accepted as expected" } else { "rejected as expected" });
        ctx.nontrivial();
    })
}
/// a setter may not have an endless body, whatever the form of that body
fn endless_setters() -> Family {
    const N: [(&str, bool); 22] = [("a=", false), ("A=", false), ("é=", false), ("a_1=", false), ("[]=", false), ("if=", false), ("end=", false), ("a", true), ("A", true), ("a?", true), ("a!", true), ("==", true), ("===", true), (">=", true), ("<=", true), ("!=", true), ("[]", true), ("=~", true), ("<=>", true), ("+", true), ("nil=", false), ("_=", false)];
    const R: [&str; 6] = ["", "self.", "o.", "K.", "(o).", "@o."];
    const B: [&str; 10] = ["b", "b rescue c", "foo b", "foo b rescue c", "foo.bar b", "foo.bar b rescue c", "(b; c)", "b + 1", "foo(b) { |d| d }", "super b"];
    const W: [(&str, &str, bool); 10] = [("", "", true), ("class C\n", "\nend", true), ("foo { ", " }", true), ("x; ", "\ny", true), ("def m\n", "\nend", true), ("(", ")", true), ("private ", "", false), ("x = ", "", false), ("foo(", ")", false), ("if x then ", " end", true)];
    fam("endless methods of every name and body, setters among them", 0, move |c, ctx| {
        let (n, ok) = N[c.choose(N.len())];
        let r = R[c.choose(R.len())];
        let b = B[c.choose(B.len())];
        let (o, z, stmt) = W[c.choose(W.len())];
        let params = ["(b)", "(b, *c)", "()"][c.choose(3)];
        // a command is the body of a statement only; the parameter is read as a variable, a rescue outside belongs to others
        if !stmt && (b.contains(" b") || b.contains("rescue")) && b != "foo(b) { |d| d }" {
            ctx.outcome("out of model");
            return;
        }
        let pre = format!("{o}def {r}");
        let s = format!("{pre}{n}{params} = {b}{z}");
        judge(ctx, &s, if ok { None } else { Some((D::EndlessSetterDefinition {}, pre.len(), pre.len() + n.len())) });
    })
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P15",
        rule: "Each execution is one construct placed inside one stack of contexts; a model of Ruby's context rules (in a method, class body, block; forwarding parameters declared) says whether it must be rejected, with which message and at which range, or accepted. Assignment targets, parameter names, numbered parameters in trees of blocks and void values in value positions are enumerated the same way.",
        assumptions: &["assignment to a scoped constant with an operator inside a method is not judged", "`&` forwarding in a method that declares only `...` is not judged"],
        families: |th| {
            let mut v = vec![contexts(0, false, false), contexts(1, true, false), contexts(2, true, false), contexts(3, false, true)];
            v.push(asgn_targets(8));
            v.push(param_names());
            v.push(numparams(3, if th { 4 } else { 3 }, false));
            v.push(numparams(4, if th { 6 } else { 5 }, true));
            v.push(voids(6, VOID.len()));
            v.push(bare_voids());
            v.push(circular());
            v.push(endless_setters());
            v.push(super::params::duplicates());
            v.push(super::params::far_duplicates());
            v.extend(super::patterns::misuse());
            if th {
                v.push(contexts(3, true, true));
                v.push(contexts(3, false, false));
                v.push(contexts(4, false, true));
            }
            v
        },
    }]
}
