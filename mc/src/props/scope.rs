//! P06 (local variables) and P25 (the public scope table).
use super::*;
use crate::chooser::Chooser;
use crate::meta::{self, F};
use crate::n::*;
use crate::oracle::*;
use lib_ruby_parser::{Parser, StaticEnvironment};
use std::collections::HashMap;

// ---------------------------------------------------------------------------- the model
/// A scope sees its own names and, when it is a closure, those of the scopes around it.
#[derive(Default)]
struct Model {
    s: Vec<(bool, Vec<&'static str>)>,
}
impl Model {
    fn new() -> Self {
        Model { s: vec![(false, vec![])] }
    }
    fn declare(&mut self, n: &'static str) {
        self.s.last_mut().unwrap().1.push(n)
    }
    fn sees(&self, n: &str) -> bool {
        for (closure, v) in self.s.iter().rev() {
            if v.contains(&n) {
                return true;
            }
            if !closure {
                return false;
            }
        }
        false
    }
}

// ---------------------------------------------------------------------------- programs
struct Prog {
    s: Vec<u8>,
    m: Model,
    /// positions of bare identifiers and whether they are variables
    uses: Vec<(Loc, &'static str, bool)>,
    def: Vec<bool>,
    skip: bool,
    nm: [&'static str; 2],
}
impl Prog {
    fn text(&mut self, t: &str) {
        self.s.extend_from_slice(t.as_bytes());
    }
    fn usage(&mut self, n: &'static str) {
        let a = self.s.len();
        self.text(n);
        let v = self.m.sees(n);
        self.uses.push((l(a, self.s.len()), n, v));
    }
    /// Templates: `@` use of the name, `=x` spelled `!` declares the name here, `%` emits the other
    /// name as a use, `?` declares the other name, `<` opens a closure, `[` opens a fresh scope, `>`
    /// closes, `~` the body. Escaped with a backslash when meant literally.
    fn run(&mut self, t: &str, name: &'static str, other: &'static str, body: &mut dyn FnMut(&mut Prog)) {
        let mut it = t.chars();
        let mut late = None;
        let def = t.starts_with("def ");
        let cls = t.starts_with("class ") || t.starts_with("module ");
        // Ruby has no class bodies (singleton ones aside) or constant assignments in methods
        if *self.def.last().unwrap() && (cls && !t.starts_with("class <<") || t.starts_with("X = ")) {
            self.skip = true;
        }
        if def || cls {
            self.def.push(def);
        }
        while let Some(c) = it.next() {
            match c {
                // rest of a line with a heredoc: it is read after the body
                '¡' => {
                    self.text(", ");
                    self.usage(name);
                    late = Some(self.uses.len() - 1);
                    self.text("\n");
                }
                '@' => self.usage(name),
                '%' => self.usage(other),
                '!' => {
                    self.text(name);
                    self.m.declare(name);
                }
                '?' => {
                    self.text(other);
                    self.m.declare(other);
                }
                '«' => self.m.s.push((true, vec![])),
                '‹' => self.m.s.push((false, vec![])),
                '»' => {
                    self.m.s.pop();
                }
                '~' => body(self),
                '\\' => {
                    let c = it.next().unwrap();
                    self.s.extend_from_slice(c.to_string().as_bytes());
                }
                c => self.s.extend_from_slice(c.to_string().as_bytes()),
            }
        }
        if let Some(i) = late {
            self.uses[i].2 = self.m.sees(name);
        }
        if def || cls {
            self.def.pop();
        }
    }
}
/// things that declare (or seem to declare) a name
const ITEMS: &[&str] = &[
    "! = 1\n", "! = @\n", "! = %\n", "! += 1\n", "! ||= @\n", "! &&= 1\n", "!, ? = 1, 2\n", "!, ? = @, %\n", "*! = 1\n", "a, *! = 1\n", "(!, a), ? = @\n", "!, self.a = 1\n", "@[0], ! = @\n",
    "for ! in @ do @ end\n", "for !, ? in % do @ end\n", "begin\n@\nrescue @ => !\n@\nend\n", "1 => !\n", "1 in !\n", "@ => [!, *?]\n", "@ in \\{!:}\n", "1 => \\{a: !, **?}\n", "1 => A(!)\n", "1 => A[!:]\n", "1 => Integer => !\n", "1 => [*, !, *]\n", "1 => [[!], \\{a: [?]}]\n", "1 => \\{\"!\":}\n",
    "case @\nin ! if @\n@\nend\n", "case 1\nin A\n%\nin !\n@\nend\n", "@ if (! = 1)\n", "@ while ! = 1\n", "if ! = @\n@\nelse\n@\nend\n", "@ and ! = @\n", "foo(! = 1, @)\n", "[@, ! = 1, @]\n", "\"#\\{@}#\\{! = 1}#\\{@}\"\n", "foo(a: (! = 1), b: @)\n", "@ \\? (! = 1) : @\n", "! = ? = @ + %\n", "(! = 1) rescue @\n", "! = 1 rescue @\n", "foo ! = @\n", "defined\\?(! = @)\n", "<<A\n#\\{! = @}\nA\n", "foo <<~A¡  #\\{! = 1}\nA\n",
    // these declare nothing
    "self.x = @\n", "@[0] = @\n", "@.a = 1\n", "\\@x = @\n", "$x = @\n", "X = @\n", "foo(x: @)\n", ":x\n", "foo.x\n", "x()\n", "x(1)\n", "x { }\n", "x \\{ |a| a }\n", "alias x y\n", "undef x\n", "@ == @\n", "@ -1\n", "@ [1]\n", "foo((@ *%))\n", "\\{x: @}\n", "\\{@:}\n", "foo(@:)\n", "foo(&@)\n", "foo(*@)\n", "foo(**@)\n", "@&.a\n", "@::A\n", "@ ||@\n", "\\@x = 1\n\\@\\@x = 1\n", "\\@x, $y = @\n", "x:: y\n", "alias $x $y\n", "\\%w[x y]\n", 
];
/// things that open a scope
const SCOPES: &[&str] = &[
    "foo \\{\n«~»}\n", "foo do\n«~»end\n", "foo \\{ «|!|\n~»}\n", "foo \\{ «|a; !|\n~»}\n", "foo \\{ «|a = @, ! = %|\n~»}\n", "foo \\{ «|*!, **?|\n~»}\n", "foo \\{ «|(!, a), &?|\n~»}\n", "foo \\{ «|!: 1, ?: @|\n~»}\n", "foo(@) do «|!|\n~»end\n", "-> \\{\n«~»}\n", "->«(!) \\{\n~»}\n", "->« ! do\n~»end\n", "->«(a; !) \\{\n~»}\n", "->«(a = @, *!) \\{\n~»}\n",
    "def m\n‹~»end\n", "def m‹(!)\n~»end\n", "def m‹(a = @, !: 1)\n~»end\n", "def m‹ !, *?\n~»end\n", "def m‹(&!)\n~»end\n", "def m‹(!, (?, a))\n~»end\n", "def m‹(!, ? = @)\n~»end\n", "def self.m\n‹~»end\n", "def @.m\n‹~»end\n", "def m‹(!) = foo(@, %)»\n", "def m‹ = foo(@)»\n", "def self.m‹(! = 1) = @»\n", "def x\n‹~»end\n", "def y‹(!)\n~»end\n", "def self.x=‹(!)\n~»end\n",
    "class K\n‹~»end\n", "class K < @\n‹~»end\n", "module M\n‹~»end\n", "class << @\n‹~»end\n", "class << self\n‹~»end\n",
    // no scope of their own
    "begin\n~end\n", "if @\n~end\n", "while @\n~end\n", "case @\nwhen %\n~end\n", "(\n~)\n", "begin\n~ensure\n@\nend\n", "for a in @\n~end\n", "unless @\n1\nelse\n~end\n", "foo((\n~))\n", "[begin\n~end]\n", "END \\{\n~}\n", "\"#\\{\n~}\"\n", "foo bar \\{\n«~»}\n", "foo bar do\n«~»end\n", "super \\{\n«~»}\n", "a.b \\{\n«~»}.c do\n«@\n»end\n", "foo \\{ «|a = (! = 1)|\n~»}\n",
];
const CORE_I: &[&str] = &["! = 1\n", "! ||= @\n", "1 => \\{!:}\n", "(!, ?), a = 1\n", "@ if (! = 1)\n", "for ! in @ do % end\n"];
const CORE_S: &[&str] = &["foo \\{\n«~»}\n", "foo do «|!|\n~»end\n", "foo \\{ «|a; !|\n~»}\n", "->«(a = @, *!) \\{\n~»}\n", "def m\n‹~»end\n", "def m‹(!, ?: @)\n~»end\n", "class K\n‹~»end\n", "class << @\n‹~»end\n", "begin\n~end\n", "\"#\\{\n~}\"\n"];
type Lex = (&'static [&'static str], &'static [&'static str]);
const FULL: Lex = (ITEMS, SCOPES);
const CORE: Lex = (CORE_I, CORE_S);
/// pairs of names that something other than equality might confuse
const NAME_PAIRS: &[[&str; 2]] = &[
    ["_", "_x"], ["_x", "_y"], ["é", "è"], ["日", "日本"], ["aB", "ab"], ["aBC", "aBc"], ["x1", "x"], ["x", "x_"], ["iff", "end_"], ["_1x", "_10"], ["self_", "nil_"], ["in_", "do_"], ["x2", "x02"], ["__x", "_x"], ["éa", "aé"], ["p", "q"], ["foo1", "bar1"],
    ["abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyy"], ["forward_args", "anonymous_blockarg"], ["begin_", "éX"],
];

fn body(c: &mut Chooser, p: &mut Prog, left: &mut usize, top: bool, x: Lex) {
    while *left > 0 {
        let n = x.0.len() + x.1.len();
        // the top level always has all the items; a body may stop early
        let k = if top { c.choose(n) } else {
            let k = c.choose(n + 1);
            if k == 0 {
                break;
            }
            k - 1
        };
        *left -= 1;
        let i = c.choose(2);
        let (name, other) = (p.nm[i], p.nm[1 - i]);
        if k < x.0.len() {
            p.run(x.0[k], name, other, &mut |_| {});
        } else {
            p.run(x.1[k - x.0.len()], name, other, &mut |p| {
                p.usage(p.nm[0]);
                p.text("\n");
                body(c, p, left, false, x);
                p.usage(p.nm[1]);
                p.text("\n");
            });
        }
        p.usage(p.nm[0]);
        p.text("\n");
        p.usage(p.nm[1]);
        p.text("\n");
    }
}
pub fn collect<'a>(n: &'a Node, m: &mut HashMap<(usize, usize), Vec<&'a Node>>) {
    match n {
        Node::Lvar(x) => m.entry((x.expression_l.begin, x.expression_l.end)).or_default().push(n),
        Node::Send(x) => {
            if let Some(s) = x.selector_l {
                m.entry((s.begin, s.end)).or_default().push(n)
            }
        }
        _ => {}
    }
    meta::visit(n, &mut |_, f| match f {
        F::N(c) | F::OptN(Some(c)) => collect(c, m),
        F::Ns(v) => v.iter().for_each(|c| collect(c, m)),
        _ => {}
    });
}
fn judge(ctx: &mut Ctx, p: &Prog, pre: &[&'static str]) {
    let mut key = p.s.clone();
    for v in pre {
        key.extend_from_slice(b" # declared: ");
        key.extend_from_slice(v.as_bytes());
    }
    if !ctx.begin(&key) {
        return;
    }
    let ps = Parser::new(p.s.clone(), opts(false));
    for v in pre {
        ps.static_env.declare(v);
    }
    let r = ps.do_parse();
    ctx.end();
    if errors(&r) > 0 {
        ctx.fail(format!("valid program rejected: {}", diag_str(&r.diagnostics)));
        return;
    }
    let Some(t) = &r.ast else {
        ctx.fail("no tree".into());
        return;
    };
    let mut m = HashMap::new();
    collect(t, &mut m);
    for (x, n, var) in &p.uses {
        let got = m.get(&(x.begin, x.end)).and_then(|v| v.first().copied());
        let ok = match (got, var) {
            (Some(Node::Lvar(v)), true) => v.name == *n,
            (Some(Node::Send(v)), false) => v.method_name == *n && v.recv.is_none(),
            _ => false,
        };
        if !ok {
            ctx.fail(format!("`{n}` at {}..{} should be a {}, but is {}", x.begin, x.end, if *var { "local variable" } else { "method call" }, got.map_or("missing", meta::type_name)));
            return;
        }
    }
    ctx.nontrivial();
    ctx.outcome("accepted as expected");
}
fn programs(n: usize, pre: bool, x: Lex) -> Family {
    fam(format!("scopes: all programs of {n} declarations or scopes out of {}, nested in every way{}", x.0.len() + x.1.len(), if pre { ", every set of names declared beforehand" } else { "" }), 0, move |c, ctx| {
        let mut p = Prog { s: vec![], m: Model::new(), uses: vec![], def: vec![false], skip: false, nm: ["x", "y"] };
        let mut pr = vec![];
        if pre {
            for v in ["x", "y"] {
                if c.choose(2) == 1 {
                    pr.push(v);
                    p.m.declare(v);
                }
            }
        }
        let mut left = n;
        body(c, &mut p, &mut left, true, x);
        if p.skip {
            ctx.outcome("out of model");
            return;
        }
        judge(ctx, &p, &pr);
    })
}

fn named(n: usize, x: Lex) -> Family {
    fam(format!("scopes: {} pairs of similar or unusual names x all programs of {n} declarations or scopes out of {}", NAME_PAIRS.len(), x.0.len() + x.1.len()), 0, move |c, ctx| {
        let mut p = Prog { s: vec![], m: Model::new(), uses: vec![], def: vec![false], skip: false, nm: NAME_PAIRS[c.choose(NAME_PAIRS.len())] };
        let mut left = n;
        body(c, &mut p, &mut left, true, x);
        if p.skip {
            ctx.outcome("out of model");
            return;
        }
        judge(ctx, &p, &[]);
    })
}

// ---------------------------------------------------------------------------- P25
/// names that something other than equality might confuse, through every short sequence of scopes
fn table_names(depth: usize) -> Family {
    const N: [&str; 18] = ["a", "A", "ab", "b", "a1", "_", "__", "é", "e\u{301}", "日本", "FORWARD", "FORWARD_", "forward_args", "", " a", "a ", "a\0", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"];
    fam_nd(format!("scope table: every pair of {} names x all sequences of {depth} openings, closings and declarations", N.len()), 0, move |c, ctx| {
        let (x, y) = (N[c.choose(N.len())], N[c.choose(N.len())]);
        let env = StaticEnvironment::new();
        let mut m = Model::new();
        let mut log = format!("{x:?} {y:?}: ");
        let mut bad = None;
        for _ in 0..depth {
            match c.choose(if m.s.len() > 1 { 5 } else { 4 }) {
                0 => {
                    env.extend_static();
                    m.s.push((false, vec![]));
                    log.push_str("extend_static ");
                }
                1 => {
                    env.extend_dynamic();
                    m.s.push((true, vec![]));
                    log.push_str("extend_dynamic ");
                }
                4 => {
                    env.unextend();
                    m.s.pop();
                    log.push_str("unextend ");
                }
                k => {
                    let n = if k == 2 { x } else { y };
                    env.declare(n);
                    m.declare(n);
                    log.push_str(&format!("declare({n}) "));
                }
            }
            for n in N {
                if env.is_declared(n) != m.sees(n) && bad.is_none() {
                    bad = Some(format!("after {log}: is_declared({n:?}) is {}", env.is_declared(n)));
                }
            }
        }
        if !ctx.begin(log.as_bytes()) {
            return;
        }
        ctx.end();
        if let Some(b) = bad {
            ctx.fail(b);
        }
        ctx.nontrivial();
        ctx.outcome("agrees with the model");
    })
}
/// many scopes, many names
fn table_sizes() -> Family {
    const S: [usize; 14] = [0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 257];
    fam_nd("scope table: n names in each of m scopes, opened and closed in turn".to_string(), 0, |c, ctx| {
        let (n, m) = (S[c.choose(S.len())], S[c.choose(S.len())]);
        let kinds = c.choose(4); // all inheriting, none, alternating, one fresh scope in the middle
        if !ctx.begin(format!("{n} names, {m} scopes, kinds {kinds}").as_bytes()) {
            return;
        }
        let env = StaticEnvironment::new();
        let closure = |i: usize| match kinds {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => i != m / 2,
        };
        let name = |i: usize, k: usize| format!("v{i}_{k}");
        // names of scope i are visible in scope j when all the scopes in between inherit
        let check = |j: usize| -> Option<String> {
            let mut vis = true;
            for i in (0..=m).rev() {
                let seen = i <= j && vis;
                for k in [0, n / 2, n.saturating_sub(1)] {
                    if k < n && env.is_declared(&name(i, k)) != seen {
                        return Some(format!("in scope {j}: {} of scope {i} is {}", name(i, k), if seen { "not declared" } else { "declared" }));
                    }
                }
                if i <= j && i > 0 && !closure(i) {
                    vis = false;
                }
            }
            if env.is_declared(&name(j, n)) {
                return Some(format!("in scope {j}: {} is declared", name(j, n)));
            }
            None
        };
        let mut bad = None;
        for j in 0..=m {
            if j > 0 {
                if closure(j) {
                    env.extend_dynamic()
                } else {
                    env.extend_static()
                }
            }
            for k in 0..n {
                env.declare(&name(j, k));
            }
            bad = bad.or_else(|| check(j));
        }
        for j in (0..m).rev() {
            env.unextend();
            bad = bad.or_else(|| check(j));
        }
        ctx.end();
        if let Some(b) = bad {
            ctx.fail(b);
        }
        ctx.nontrivial();
        ctx.outcome("agrees with the model");
    })
}
const NAMES: [&str; 4] = ["a", "ab", "é", "FORWARD"];
fn table(depth: usize) -> Family {
    fam_nd(format!("scope table: all sequences of {depth} operations"), 0, move |c, ctx| {
        let env = StaticEnvironment::new();
        let alias = env.clone();
        let mut m = Model::new();
        let mut log = String::new();
        let mut bad = None;
        for i in 0..depth {
            let h = if i % 2 == 0 { &env } else { &alias };
            let open = m.s.len() > 1;
            let k = c.choose(if open { 7 } else { 6 });
            match k {
                0 => {
                    h.extend_static();
                    m.s.push((false, vec![]));
                    log.push_str("extend_static ");
                }
                1 => {
                    h.extend_dynamic();
                    m.s.push((true, vec![]));
                    log.push_str("extend_dynamic ");
                }
                6 => {
                    h.unextend();
                    m.s.pop();
                    log.push_str("unextend ");
                }
                k => {
                    h.declare(NAMES[k - 2]);
                    m.declare(NAMES[k - 2]);
                    log.push_str(&format!("declare({}) ", NAMES[k - 2]));
                }
            }
            for h in [&env, &alias] {
                for n in NAMES.iter().chain(&["b", ""]) {
                    if h.is_declared(n) != m.sees(n) && bad.is_none() {
                        bad = Some(format!("after {log}: is_declared({n:?}) is {}", h.is_declared(n)));
                    }
                }
            }
        }
        if !ctx.begin(log.as_bytes()) {
            return;
        }
        ctx.end();
        if let Some(b) = bad {
            ctx.fail(b);
        }
        ctx.nontrivial();
        ctx.outcome("agrees with the model");
    })
}
/// The table seen through programs: forwarding markers follow the same rules as names.
fn forwarding() -> Family {
    // text, opens: does a scope inherit
    const WRAP: &[(&str, &str, bool)] = &[("", "", true), ("foo {", "}", true), ("foo do |a|\n", "\nend", true), ("-> {", "}", true), ("def n;", ";end", false), ("class << self;", ";end", false), ("if a;", ";end", true), ("begin;", ";end", true), ("->(a) do\n", "\nend", true), ("def n(a) = (", ")", false)];
    const PAR: &[(&str, bool, bool)] = &[("(...)", true, true), ("(a, ...)", true, true), ("(&)", false, true), ("(a, b = 1, &)", false, true), ("(a)", false, false), ("(&b)", false, false), ("(*a)", false, false), ("", false, false)];
    const USE: &[(&str, u8)] = &[("g(...)", 1), ("g(1, ...)", 1), ("self.g(...)", 1), ("g(&)", 2), ("g(1, &)", 2), ("g(1)", 0), ("super(...)", 1), ("super(&)", 2)];
    fam_nd("forwarding: every parameter form x two levels of scopes x every use".to_string(), 0, |c, ctx| {
        let (par, fwd, blk) = PAR[c.choose(PAR.len())];
        let a = WRAP[c.choose(WRAP.len())];
        let z = WRAP[c.choose(WRAP.len())];
        let (u, k) = USE[c.choose(USE.len())];
        let after = c.choose(3); // 0: inside; 1: after the method; 2: after the wrapped scopes, in the method
        let s = match after {
            0 => format!("def m{par}\n{}{}{u}{}{}\nend\n", a.0, z.0, z.1, a.1),
            1 => format!("def m{par}\n{}{}nil{}{}\nend\n{u}\n", a.0, z.0, z.1, a.1),
            _ => format!("def m{par}\n{}{}nil{}{}\n{u}\nend\n", a.0, z.0, z.1, a.1),
        };
        let vis = match after {
            0 => a.2 && z.2,
            1 => false,
            _ => true,
        };
        // `...` stands for the block as well
        let ok = match k {
            0 => true,
            1 => fwd && vis,
            _ => blk && vis,
        };
        if k == 2 && fwd {
            ctx.outcome("out of model");
            return;
        }
        if !ok {
            expect_error(ctx, s.as_bytes());
            return;
        }
        if !ctx.begin(s.as_bytes()) {
            return;
        }
        let r = parse(s.as_bytes());
        ctx.end();
        if errors(&r) > 0 {
            ctx.fail(format!("valid program rejected: {}", diag_str(&r.diagnostics)));
        }
        ctx.nontrivial();
        ctx.outcome("accepted as expected");
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P06",
            rule: "Each execution builds a program from declarations and scopes nested in every way within the stated size, tracking in a model which names are visible after every step; every bare identifier of the program must be reported as variable or call as the model says, with no error.",
            assumptions: &["two names are enough: resolution depends on equality of names only"],
            families: |th| {
                let mut v = vec![programs(1, true, FULL), programs(2, false, FULL), programs(2, true, FULL), programs(3, false, CORE), programs(3, true, CORE), programs(4, false, CORE), named(1, FULL), named(2, CORE)];
                if th {
                    v.push(named(2, FULL));
                    v.push(named(3, CORE));
                    v.push(programs(3, false, FULL));
                }
                v.push(super::slots::named_like_local());
                v
            },
        },
        Prop {
            id: "P25",
            rule: "Every operation sequence within the stated depth is executed on the public scope table in lockstep with a stack-of-sets model; after every operation all names are queried. Forwarding markers are exercised through programs.",
            assumptions: &[],
            families: |th| {
                let mut v: Vec<Family> = (1..=if th { 10 } else { 8 }).map(table).collect();
                v.push(table_names(if th { 7 } else { 6 }));
                v.push(table_sizes());
                v.push(forwarding());
                v
            },
        },
    ]
}
