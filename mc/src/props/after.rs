//! What a piece of program means does not depend on the finished piece before it. `X` and `Y` are
//! put one after the other in a context; what is reported for `Y` (its trees, and the diagnostics
//! inside it) must be what is reported when `X` is replaced by a plain name of the same length.
//! `X` declares no variable that `Y` reads, so the two have nothing to do with each other.
use super::*;
use crate::meta::{self, F};
use crate::oracle::*;
use lib_ruby_parser::Node;
use std::sync::Arc;

/// before X, between, after Y
const CTX: &[(&str, &str, &str, bool)] = &[
    // (…, whether X and Y stand in a method)
    ("", "\n", "\n", false),
    ("def m\n", "\n", "\nend\n", true),
    ("class C\n", "\n", "\nend\n", false),
    ("a {\n", "\n", "\n}\n", false),
    ("while (\n", "\n", "\n) do\nend\n", false),
    ("a b, (\n", "\n", "\n) do\nend\n", false),
    ("a b, (\n", "\n), (\n", "\n) do\nend\n", false),
    ("def m(zq = (\n", "\n)) = (\n", "\n)\n", true),
    ("while (\n", "\n) do\n", "\nend\n", false),
    ("a do\n", "\nend.b do\n", "\nend\n", false),
    ("case (\n", "\n)\nin zq if (\n", "\n)\nend\n", false),
    ("\"#{\n", "\n}#{\n", "\n}\"\n", false),
    // thorough
    ("-> {\n", "\n", "\n}\n", false),
    ("class << self\n", "\n", "\nend\n", false),
    ("def self.m\n", "\n", "\nend\n", true),
    ("def m = (\n", "\n", "\n)\n", true),
    ("->(zq = (\n", "\n)) do\n", "\nend\n", false),
    ("a { |zq = (\n", "\n)|\n", "\n}\n", false),
    ("begin\n", "\nrescue\n", "\nend\n", false),
    ("if (\n", "\n)\n", "\nend\n", false),
    ("for zq in (\n", "\n) do\n", "\nend\n", false),
    ("<<A\n#{\n", "\n}\nA\n", "\n", false),
    ("x[(\n", "\n)] = (\n", "\n)\n", false),
    ("class C < (\n", "\n)\n", "\nend\n", false),
    ("a(x: (\n", "\n), **(\n", "\n))\n", false),
    ("{ (\n", "\n) => (\n", "\n) }\n", false),
    ("case\nwhen (\n", "\n) then (\n", "\n)\nend\n", false),
    ("(\n", "\n) ? (\n", "\n) : y\n", false),
    ("p (\n", "\n), (\n", "\n)\n", false),
    ("a (\n", "\n) do\n", "\nend\n", false),
    ("module M\nbegin\n", "\nend while (\n", "\n)\nend\n", false),
    ("zq = (\n", "\n) rescue (\n", "\n)\n", false),
];
const QUICK_CTX: usize = 12;
/// pieces with something to clean up; what they leave behind begins with `zz`
const XS: &[&str] = &[
    "def zz(x) = x", "def zz(x) = p x", "def zz(x) = x rescue x", "def zz(x) = p x rescue x", "def self.zz(x) = x", "def self.zz(x) = p x", "def self.zz(x) = x rescue x", "def self.zz(x) = p x rescue x", "def zz = 1", "def zz() = p 1", "def zz\nend", "def zz(x)\nx\nend", "def zz x\nx\nend", "def zz(x, y = x, *z, w:, v: y, **u, &t)\nend", "def self.zz(x)\nend", "def zz(...)\np(...)\nend", "def zz(&)\np(&)\nend", "def zz(*)\nend", "def zz(**nil)\nend", "def zz x, y: 1, &z\nend",
    "def zz\nrescue\nelse\nensure\nend", "def (x).zz(y)\nend", "def zz(x = (def zy(y) = y), z: (y = 1))\nend",
    "class Zz\nend", "class Zz < Zy\nx = 1\nend", "module Zz\nx = 1\nend", "class << x\ny = 1\nend", "class Zz\ndef x(y) = y\nend", "class << self\ndef x(y)\nend\nend", "class Zz::Zy\nclass << self\nend\nend",
    "zz { |x| x }", "zz { |x, y = x, *z, w: 1, **v, &u; t| x }", "zz do |x|\nx\nend", "zz x do |y| y end", "zz { _1 + _2 }", "zz do _1 end", "-> { _1 }", "->(x) { x }", "-> x, y do x end", "->(x; y) do y end", "-> { }", "-> do -> { _1 } end", "zz { |x| -> { _1 } }", "zz { zz { _1 } }", "zz(-> do end)", "zz -> do end", "zz -> { } do end", "zz (-> x { x }) do end", "zz { |(x, y), (z, *)| }", "zz { || }", "zz { |x,| }", "zz { |;x| }",
    "zz zy do end", "zz zy { } do end", "zz zy(zx do end) do end", "zz [zy do end] do end", "zz.zy zx do end.zw zv do end", "zz zy, (zx do end)", "zz(zy zx)", "zz (zy zx do end)", "super x do end", "yield_ x do end", "zz[zy do end]", "zz zy[zx] do end",
    "while zz do end", "while zz zy do end", "until (zz do end) do end", "while [zz do end] do\nend", "while zz { } do end", "for zz in zy do end", "for zz, (zy, *zx) in zw do end", "while zz\nend", "zz while zy", "begin end while zz", "while -> do end do end", "while zz -> { } do end", "for zz in [zy do end] do end",
    "case zz\nin x: 1\nend", "case zz\nin {x: 1, y: {x: 2}}\nend", "case zz\nin [zx, [zy, *zw]]\nend", "case zz\nin {zx:, y: {zw:}}\nend", "case zz\nin A(x: 1) | B[x: 2]\nend", "case zz\nin zx, zy if zx\nend", "case zz\nin zx:\nzx\nend", "case zz\nin x: 1 then zy\nin x: 2 unless zw\nelse zv\nend", "zz in x: 1", "zz in {x: [zy]}", "zz => {x: 1}", "zz => [zx, *]", "zz => x: 1", "zz in zx:", "zz => zx:", "case zz\nin A(zx:)\nend", "case zz\nin A[zx:]\nend", "case zz\nin A()\nend", "case zz\nin A[]\nend", "case zz\nin A(zx)\nend", "case zz\nin A[zx]\nend", "case zz\nin A(*, zx, *)\nend", "case zz\nin A[*, zx, *]\nend", "case zz\nin [*, zx, *]\nend", "case zz\nin {}\nend", "case zz\nin (A | B)\nend", "case zz\nin ({x: 1})\nend", "case zz\nin {\"x\": 1}\nend", "case zz\nin {**nil}\nend", "case zz\nin {x: 1, **zy}\nend", "case zz\nin x: 1, **nil\nend", "case zz = 1\nin ^zz\nend", "case zz\nwhen x then y\nend", "(zz in x: 1)", "[(zz in x: 1)]", "case zz\nin x: ->(y) { z }\nend", "case zz\nin [zx] => zy\nend", "case zz\nin x: A(y: 1), z: B[y: [{y: 2}]]\nend", "case zz\nin A(x: 1, y: A(x: 2))\nend", "case [(zz in {x: 1})]\nin {x: 1}\nend",
    "zz = 1", "zz, zy = 1", "zz ||= 1", "@zz = zy zx", "zz[zy] += 1", "zz.zy = 1, 2", "zz = *zy", "zz += zy zx rescue zw",
    "zz? ? 1 : 2", "zz ? x : y", "zz(x: 1)", "zz x: 1", "{x: 1}", "{ \"x\": 1 }", "zz(\"x\": 1)", "zz :x, :\"y\"", "alias zz zy", "undef zz, zy", "alias $zz $zy", "defined? zz", "defined?(zz)", "zz.defined?", "not zz", "not(zz)", "!zz zy", "zz && zy", "zz and zy", "zz rescue zy", "zz if zy", "if zz then zy else zx end", "unless zz\nelse\nend", "if zz\nelsif zy\nend", "return_ zz", "begin\nrescue Zz => zz\nensure\nend", "begin; zz; end until zy",
    "\"#{zz}\"", "\"a#{zz do end}b\"", "\"#{zz { |x| x }}\"", "\"#{\"#{zz}\"}\"", "`#{zz}`", "/#{zz}x/", "%w[a b]", "%W[#{zz}]", "%i[a]", "%(#{zz(1)})", ":\"#{zz}\"", "?a", "'a'", "<<Z\na\nZ\n", "<<~Z\n  a#{zz}\n    b\nZ\n", "zz(<<~Z, <<-'Y')\n  #{zz}\nZ\n  b\n  Y\n", "<<~Z.zz do |x|\n  a\nZ\nend", "%q(a(b)c)", "\"\\u{61}\"", "__FILE__", "zz \"#{zy zx do end}\"", "\"#@zz #$zz #@@zz\"",
    "zz[1]", "zz [1]", "zz (1)", "zz -1", "zz *zy", "zz &zy", "zz **zy", "zz /a/", "zz %w[a]", "zz::Zy", "zz::zy 1", "zz&.zy 1", "::Zz", "zz.()", "zz.class", "zz&.if 1", "zz.end", "1..2", "(1..)", "1.zz", "-1.zz", "1r", "$1", "$zz", "@@zz", "self.zz", "zz.zy { }.zx do end", "p((zz; zy))", "()", "[]", "{}", "p {}", "p({})", "(zz;)", "zz;", "zz # zy", "zz \\\n  zy", "zz\n  .zy", "zz ? [1] : {a: 2}", "->{}.()", "END { zz }", "retry_", "zz unless zy while zx",
];
/// pieces that show in what state the parser is
const YS: &[(&str, &str)] = &[
    ("06", "x"), ("06", "x y"), ("06", "x -1"), ("06", "x [y]"), ("06", "x %y"), ("06", "x *y"), ("06", "x &y"), ("06", "x ? y : z"), ("06", "x::y"), ("06", "{x:}"), ("06", "pp x, y, z, w, v, u, t"), ("06", "pp { x + y }"), ("06", "def k; x; end"), ("06", "-> { x }"), ("06", "[x, y, z]"), ("06", "\"#{x}\""), ("06", "x do end"), ("06", "x {}"), ("06", "pp(&x)"), ("06", "x = x"), ("06", "x += y"), ("06", "pp { |x| x }; x"), ("06", "y = 1; x; y"), ("06", "def k(x) = x; x"), ("06", "for i in x do y end"),
    ("15", "Kk = 1"), ("15", "Kk ||= 1"), ("15", "return"), ("15", "return 1"), ("15", "class Kk; end"), ("15", "module Kk; end"), ("15", "BEGIN { }"), ("15", "END { }"), ("15", "pp(...)"), ("15", "pp(&)"), ("15", "pp { _1 }"), ("15", "_1"), ("15", "-> { _1 }"), ("15", "pp { |qq| _1 }"), ("15", "pp { _1; pp { _1 } }"), ("15", "pp { pp { _1 }; _1 }"), ("15", "def k(qq = qq); end"), ("15", "def k(qq: qq); end"), ("15", "pp { |qq = qq| }"), ("15", "->(qq = qq) { }"), ("15", "case 1\nin {k: 1, k: 2}\nend"), ("15", "case 1\nin [v, v]\nend"), ("15", "case 1\nin {k: 1}\nend"), ("15", "case 1\nin [v, w]\nend"), ("15", "break"), ("15", "next"), ("15", "redo"), ("15", "retry"), ("15", "yield"), ("15", "def k(qq, qq); end"), ("15", "def k(qq); end"), ("15", "qq = (return)"), ("15", "def k=(qq) = 1"), ("15", "def k(_1); end"), ("15", "_1 = 1"), ("15", "pp(&qq) { }"), ("15", "1 = 2"), ("15", "nil = 1"), ("15", "$1 = 1"), ("15", "class k; end"), ("15", "alias $k $1"), ("15", "pp { |qq = qq, rr = qq| }"), ("15", "1 in {k: qq, k: rr}"), ("15", "1 => [qq, qq]"), ("15", "begin; else; end"), ("15", "def k(&qq, rr); end"),
    ("16", "pp(k:\n1)"), ("16", "pp k:\nqq do end"), ("16", "{k:\n1}"), ("16", "while qq do end"), ("16", "while qq rr do end"), ("16", "until [qq do end] do end"), ("16", "for i in qq do end"), ("16", "while -> do end do end"), ("16", "begin; end"), ("16", "if qq then rr end"), ("16", "case qq when rr then s end"), ("16", "pp qq do end"), ("16", "pp(qq do end)"), ("16", "while (pp qq do end) do end"), ("16", "{ }"), ("16", "pp { }"), ("16", "-> { }"), ("16", "-> do end"), ("16", "pp -> do end do end"), ("16", "[(qq)]"), ("16", "def k; end"), ("16", "class << qq; end"), ("16", "(qq"), ("16", "[qq"), ("16", "{ qq"), ("16", "qq }"), ("16", "qq )"), ("16", "qq ]"), ("16", "qq end"), ("16", "begin qq"), ("16", "while qq { } do end"), ("16", "\"#{qq}\""), ("16", "\"#{{}}\""), ("16", "\"#{pp { }}\""),
    ("17", "pp qq do end"), ("17", "pp qq { }"), ("17", "pp qq { } do end"), ("17", "pp qq, rr do |s| end"), ("17", "pp.qq rr do end"), ("17", "pp (qq do end)"), ("17", "pp qq do end.rr s do end"), ("17", "pp -> do end"), ("17", "pp -> { } do end"), ("17", "while pp qq do rr s do end end"), ("17", "pp do end"), ("17", "qq = pp rr do end"), ("17", "super qq do end"), ("17", "pp [qq do end] do end"), ("17", "->(qq) do pp rr do end end"), ("17", "until pp do qq do end end"), ("17", "pp qq[rr] do end"), ("17", "pp(qq) do end"), ("17", "return_ pp qq do end"), ("17", "pp \"#{qq rr do end}\" do end"),
    ("18", "pp(k:\n1)"), ("18", "pp k:\n1"), ("18", "{k:\n1}"), ("18", "case 1\nin {k:\n1}\nend"), ("18", "pp(\"k\":\n1)"), ("18", "case 1\nin k: 1\nend"), ("18", "case 1\nin k:\nqq\nend"), ("18", "1 in k: 1"), ("18", "1 => {k: qq}"), ("18", "1 in [qq, *rr]"), ("18", "case 1\nin {k:}\nend"), ("18", "case 1\nin A(k:) | nil\nend"), ("18", "case 1\nin {k: {k: 1}}\nend"), ("18", "case 1\nin [qq] if qq\nend"), ("18", "case 1\nin k: 1, **rr\nend"), ("18", "1 in {k: 1}\n"), ("18", "(1 in k:)"), ("18", "case 1\nin qq, rr\nend"), ("18", "case 1\nin A[k: 1]\nin A[k: 2]\nend"), ("18", "pp(1 => k)"), ("18", "1 in qq and 2 in rr"), ("18", "case 1\nin ^qq\nend"), ("18", "1 => k:"), ("18", "1 in x: 1"), ("18", "case 1\nin {x: 1, y:}\nend"), ("18", "1 => [x, y, z]"),
    ("19", "def k(x:\n1); end"), ("19", "def k(x:\n1, y:\n2) end"), ("19", "pp { |x:\n1| }"), ("19", "->(x:\n1) {}"), ("19", "def k(x, y = 1, *z, w:, v: 2, **u, &t); end"), ("19", "def k x, y = 1\nend"), ("19", "def k x:\nend"), ("19", "def k x:, y: 1\nend"), ("19", "pp { |x, y = 1, *z; w| }"), ("19", "->(x, y: 1; z) { }"), ("19", "-> x, y { }"), ("19", "pp { |x,| }"), ("19", "pp { |(x, y), z| }"), ("19", "pp { || }"), ("19", "pp { _2 }"), ("19", "-> { _1 }"), ("19", "def k(...) pp(...) end"), ("19", "def k(&) pp(&) end"), ("19", "pp { |x = 1 | 2| }"), ("19", "pp { |x:, y: 1| }"), ("19", "def k(*, **nil); end"), ("19", "->(x = -> { _1 }) { }"), ("19", "def k(x = pp { _1 }); end"),
    ("28", "pp -1"), ("28", "pp *qq"), ("28", "pp &qq"), ("28", "pp **qq"), ("28", "pp /qq/"), ("28", "pp (qq), rr"), ("28", "pp [qq]"), ("28", "pp ?qq"), ("28", "pp :: Q"), ("28", "if qq = 1; end"), ("28", "{k: 1, k: 2}"), ("28", "case qq\nwhen 1, 1\nend"), ("28", "if\nqq; end"), ("28", "def k(qq = qq); end"), ("28", "qq..rr if s"), ("28", "if /qq/; end"), ("28", "while 'qq'; end"), ("28", "pp = qq in rr"), ("28", "pp % qq"), ("28", "pp %q"), ("28", "pp <<qq"), ("28", "END { }"), ("28", "1...\n2"), ("28", "/(?<qq>)/ =~ rr"), ("28", "pp(qq rr)"), ("28", "@_1"), ("28", "qq ? rr : s"), ("28", "\"\\q\""), ("28", "if 1..2; end"), ("28", "pp qq.rr *s"), ("28", "0777_"), ("28", "?\\s"),
    ("24", "pp if:\n1"), ("24", "{if:\n1}"), ("24", "k"), ("24", "k: 1"), ("24", "pp k: 1"), ("24", "pp(if: 1)"), ("24", "{if: 1, end: 2}"), ("24", "pp.if"), ("24", "pp.class.end"), ("24", "def if; end"), ("24", "def end=(k); end"), ("24", "alias if end"), ("24", ":if"), ("24", "undef if"), ("24", "qq if rr"), ("24", "if qq then rr end"), ("24", "pp not(qq)"), ("24", "qq ? if_ : end_"), ("24", "pp if: if qq then rr end"), ("24", "do_"), ("24", "qq and rr or not s"), ("24", "qq ?k : l"), ("24", "qq ? k : l"), ("24", "pp k ?l : m"), ("24", "self"), ("24", "__LINE__"), ("24", "qq rescue rr"), ("24", "defined? qq"), ("24", "pp&.then"), ("24", "pp::in"), ("24", "[*qq, do: 1]"), ("24", "def pp(if:, end: 1); end"), ("24", "BEGIN"), ("24", "nil.nil?"), ("24", "Kk: 1"), ("24", "pp Kk: 1"), ("24", "Kk 1"), ("24", "Kk()"), ("24", "k? 1"), ("24", "k! 1"), ("24", "k = 1"), ("24", "k == 1"), ("24", "k=>1"), ("24", "{k=>1}"),
    ("20", "pp(k:\n1)"), ("20", "pp k:\n1"), ("20", "pp(qq, k:\n1, l:\n2)"), ("20", "super k:\n1"), ("20", "pp.qq k:\n1"), ("20", "pp qq"), ("20", "pp(qq, *rr, k: 1, **s, &t)"), ("20", "pp.qq"), ("20", "pp&.qq rr"), ("20", "pp::qq"), ("20", "pp[qq]"), ("20", "pp [qq]"), ("20", "pp (qq)"), ("20", "pp -1"), ("20", "pp.()"), ("20", "pp qq: rr"), ("20", "pp qq => rr"), ("20", "super"), ("20", "super()"), ("20", "yield_ qq"), ("20", "pp.qq = rr"), ("20", "!pp"), ("20", "-pp"), ("20", "pp qq, rr { }"), ("20", "pp\n.qq"),
    ("08", "<<Q\na\nQ\n"), ("08", "<<~Q\n    a\n  b\nQ\n"), ("08", "pp(<<~Q, <<-R)\n  #{s}\n   a\nQ\nb\n  R\n"), ("08", "<<~'Q'\n\ta\n\t\t#{b}\nQ\n"), ("08", "<<~Q\n  a\\\n  b\nQ\n"), ("08", "<<~Q\n  #{<<~R}\n    a\n   b\n  R\n    c\nQ\n"), ("08", "<<Q.r(<<S)\na\nQ\nb\nS\n"), ("08", "<<~Q\n\n  a\n\n    b\nQ\n"), ("08", "<<`Q`\na\nQ\n"), ("08", "pp <<Q do\na\nQ\nend"), ("08", "qq <<R\na\nR\n"), ("08", "qq << R"), ("08", "<<~Q\nQ\n"),
    ("07", "\"a#{qq}b\""), ("07", "'a\\'b'"), ("07", "%w[a b#{qq}]"), ("07", "%W[a b#{qq} c]"), ("07", "\"\\u00e9\\n\""), ("07", "?a"), ("07", ":\"a#{qq}\""), ("07", "`a#{qq}`"), ("07", "%(a(b)c)"), ("07", "\"a\" 'b'"), ("07", "%q{a{b}}"), ("07", "\"#{\"#{qq}\"}\""), ("07", "\"\\\na\""), ("07", "%i[a b]"), ("07", "\"a\nb\""), ("07", "\"#@qq\""),
    ("23", "def k; end"), ("23", "def self.k; end"), ("23", "def k = 1"), ("23", "def k(x) = pp x"), ("23", "class << qq; rr; end"), ("23", "alias k l"), ("23", "undef k, l"), ("23", "def (qq).k; end"), ("23", "def k() end"), ("23", "def +(qq); end"), ("23", "def k?; end"), ("23", "private def k; end"), ("23", "class Kk < Ll; qq; end"), ("23", "module Kk::Ll; end"), ("23", "END { qq }"), ("23", "def k\nq\nrescue\nr\nend"), ("23", "def []=(qq, rr); end"), ("23", "alias $qq $rr"), ("23", "def K.k; end"),
    ("21", "if qq then rr else s end"), ("21", "qq if rr"), ("21", "while qq; rr; end"), ("21", "case qq when rr then s else t end"), ("21", "begin; qq; rescue R => rr; s; else; t; ensure; u; end"), ("21", "for i in qq do rr end"), ("21", "qq ? rr : s"), ("21", "unless qq\nelse rr end"), ("21", "qq and rr"), ("21", "not qq"), ("21", "begin; end while qq"), ("21", "qq rescue rr"), ("21", "break qq"), ("21", "next"), ("21", "redo"), ("21", "return qq"), ("21", "if qq\nelsif rr\nelse\nend"), ("21", "until qq do end"), ("21", "pp (qq if rr)"), ("21", "case\nwhen qq\nend"), ("21", "if qq..rr; end"),
    ("22", "k = 1"), ("22", "k, l = 1, 2"), ("22", "k += 1"), ("22", "k ||= qq rr"), ("22", "k.l = 1"), ("22", "k[1] = 2"), ("22", "*k, l = qq"), ("22", "(k, l), m = qq"), ("22", "@k = 1"), ("22", "$k = 1"), ("22", "k = l = 1"), ("22", "k = *qq"), ("22", "k = 1, 2"), ("22", "k = qq rescue rr"), ("22", "k.l += 1"), ("22", "k&.l = 1"), ("22", "/(?<k>a)/ =~ qq; k"), ("22", "k = qq rr"), ("22", "k, = qq"),
    ("27", "/qq/"), ("27", "/qq#{rr}/im"), ("27", "%r{q{}}x"), ("27", "pp /qq/"), ("27", "qq / rr / s"), ("27", "/[/]/"), ("27", "/\\//o"), ("27", "qq /rr/"), ("27", "%r(qq)"), ("27", "/qq\nr/x"),
    ("26", "{k:\n1}"), ("26", "[k:\n1]"), ("26", "{k:\n1,\n l:\n2}"), ("26", "[qq, *rr]"), ("26", "{k: 1, 'l': 2, **mm}"), ("26", "(qq..rr)"), ("26", "qq...rr"), ("26", "(..qq)"), ("26", "%w[a b]"), ("26", ":k"), ("26", "[k: 1]"), ("26", "{}"), ("26", "[]"), ("26", "{qq => rr}"), ("26", "{k:}"), ("26", "%I[a#{qq}]"), ("26", "(qq..)"), ("26", "{\"k\": 1}"), ("26", "[[], {}]"),
    ("09", "1"), ("09", "-1"), ("09", "pp -1"), ("09", "1.5e3r"), ("09", "0x1f"), ("09", "-1 ** 2"), ("09", "1_000i"), ("09", "qq -1"), ("09", "1..2"), ("09", "qq - 1"), ("09", "0b1"), ("09", "+1.0"),
    ("05", "qq + rr * s"), ("05", "qq ? rr : s ? t : u"), ("05", "!qq == rr"), ("05", "-qq ** rr"), ("05", "qq && rr || s"), ("05", "qq = rr + s rescue t"), ("05", "not qq == rr"), ("05", "qq..rr + s"), ("05", "qq and rr or s"), ("05", "defined? qq && rr"), ("05", "qq <=> rr == s"), ("05", "qq << rr + s"), ("05", "-1.qq"), ("05", "pp qq + rr, s"), ("05", "qq =~ rr && !s"),
    ("29", "@k"), ("29", "@@k"), ("29", "$k"), ("29", "$1"), ("29", "$&"), ("29", "$-w"), ("29", "pp @k, $k"), ("29", "\"#@k #$k\""), ("29", "$!"), ("29", "@k[1]"), ("29", "$~ =~ qq"), ("29", "pp $1"),
    ("30", "0x"), ("30", "08"), ("30", "1_"), ("30", "1.5e+"), ("30", "@"), ("30", "@@1"), ("30", "$("), ("30", "\"\\xg\""), ("30", "\"\\u{110000}\""), ("30", "`\\u12`"), ("30", "%W[\\Cx]"), ("30", "%a(b)"), ("30", "/qq/z"), ("30", "1 2"), ("30", "1 qq"), ("30", "1 nil"), ("30", "qq + )"), ("30", "?\\u{61 62}"), ("30", "\"qq"), ("30", "%w[qq"), ("30", "<<Q\na"), ("30", "<<\"Q\na"), ("30", "pp(1 + ]"), ("30", "qq = end"), ("30", "qq = ]"), ("30", "1.2.3"), ("30", ":@1"), ("30", "\"#{1 2}\""), ("30", "[1 2]"), ("30", "{k: 1 2}"),
];
fn inside<'a>(n: &'a Node, s: usize, e: usize, out: &mut Vec<&'a Node>) {
    let l = n.expression();
    if l.begin >= s && l.end <= e && l.begin < l.end {
        out.push(n);
        return;
    }
    meta::visit(n, &mut |_, f| match f {
        F::N(c) | F::OptN(Some(c)) => inside(c, s, e, out),
        F::Ns(v) => v.iter().for_each(|c| inside(c, s, e, out)),
        _ => {}
    });
}
type View = (usize, Vec<Node>, Vec<String>);
fn view(src: &str, s: usize, e: usize) -> View {
    let r = parse(src.as_bytes());
    let mut v = vec![];
    if let Some(t) = &r.ast {
        inside(t, s, e, &mut v);
    }
    let d = r.diagnostics.iter().filter(|d| d.loc.begin >= s && d.loc.begin <= e).map(|d| format!("{}..{} {:?} {:?}", d.loc.begin, d.loc.end, d.level, d.message)).collect();
    (errors(&r), v.into_iter().cloned().collect(), d)
}
/// in a method Ruby has neither classes nor constants; BEGIN and END are their own matter
fn allowed(x: &str, def: bool) -> bool {
    !(def && (x.contains('=') && x.contains(|c: char| c.is_ascii_uppercase()) && !x.starts_with("case") || x.contains("class Z") || x.contains("class ") || x.contains("module ") || x.contains("END {")))
}
pub fn has(prop: &str) -> bool {
    YS.iter().any(|y| y.0 == &prop[1..])
}
pub fn families(prop: &'static str, th: bool) -> Vec<Family> {
    let mut ys: Vec<String> = YS.iter().filter(|y| y.0 == &prop[1..]).map(|y| y.1.to_string()).collect();
    let own = ys.len();
    ys.extend(super::slots::texts(&prop[1..]));
    let mut xs: Vec<String> = XS.iter().map(|x| x.to_string()).collect();
    let hand = xs.len();
    xs.extend(super::slots::pieces());
    let nc = if th { CTX.len() } else { QUICK_CTX };
    let (xs, ys) = (Arc::new(xs), Arc::new(ys));
    let mut v = vec![];
    for (name, nx, ny, nc) in [("after every finished piece: pieces that show the state, in every context", xs.len(), own, CTX.len()), ("after every finished piece: every piece of the property", if th { xs.len() } else { hand }, ys.len(), nc)] {
        let (xs, ys) = (xs.clone(), ys.clone());
        v.push(fam(name, 0, move |c, ctx| {
            let k = c.choose(nc);
            let x = &xs[c.choose(nx)];
            let y = &ys[c.choose(ny)];
            let (a, b, z, def) = CTX[k];
            // an inner block with numbered parameters rules them out for the outer one
            if !allowed(x, def) || y == "_1" && x.contains("_1") || (a.starts_with("p (") || a.starts_with("a (")) && x.ends_with([';', '\n']) {
                // a single expression in these parentheses
                ctx.outcome("out of model");
                return;
            }
            let src = format!("{a}{x}{b}{y}{z}");
            if !ctx.begin(src.as_bytes()) {
                return;
            }
            let s = a.len() + x.len() + b.len();
            let e = s + y.len();
            let plain = format!("{a}{}{b}{y}{z}", "z".repeat(x.len()));
            let (got, want) = (view(&src, s, e), view(&plain, s, e));
            ctx.end();
            ctx.nontrivial();
            // errors: only the first one is about the text alone
            let n = if want.0 > 0 { 1 } else { usize::MAX };
            if got.2.iter().take(n).ne(want.2.iter().take(n)) {
                ctx.fail(format!("after {x:?} the diagnostics in {y:?} are {:?}, otherwise {:?}", got.2, want.2));
                return;
            }
            if (got.0 > 0) != (want.0 > 0) {
                ctx.fail(format!("after {x:?}, {y:?} is {}, otherwise not", if got.0 > 0 { "rejected" } else { "accepted" }));
                return;
            }
            if want.0 > 0 {
                ctx.outcome("the same error");
                return;
            }
            if got.1.len() != want.1.len() {
                ctx.fail(format!("after {x:?} there are {} trees in {y:?}, otherwise {}", got.1.len(), want.1.len()));
                return;
            }
            for (g, w) in got.1.iter().zip(&want.1) {
                if let Some(d) = diff_opt(Some(w), Some(g)) {
                    ctx.fail(format!("after {x:?} the meaning of {y:?} is another: {d}"));
                    return;
                }
            }
            ctx.outcome(if want.2.is_empty() { "the same" } else { "the same, with diagnostics" });
        }));
    }
    v
}

/// a line end and a semicolon end a statement alike, whatever comes next
const STARTS: &[&str] = &[
    "x", "x y", "x y:\nz", "x(y:\nz)", "{y:\nz}", "..x", "...x", "::X", "::x", "[x]", "(x)", "{x: y}", "{}", "-x", "-1", "+x", "+1", "*x = y", "*x, y = z", "!x", "~x", "->{}", "-> do end", "?x", ":x", ":\"x\"", "\"x\"", "'x'", "`x`", "/x/", "%w[x]", "%(x)", "%r(x)", "<<X\nx\nX", "<<~X\n  x\nX", "@x", "@@x", "$x", "$1", "X", "1", "1.x", "x.y", "x: y", "x = y", "x, y = z", "if x then y end", "unless x\nend", "while x do end", "until x do end", "for x in y do end", "case x when y then z end", "case x\nin y\nend", "begin; end", "def x; end", "class << x; end", "not x", "defined? x", "alias x y", "undef x", "return", "super", "yield_", "self", "nil", "__FILE__", "__LINE__ + 1", "-> { x }", "x do end", "x { }", "x ? y : z", "x[y]", "(x; y)", "((x))", "()", "&x", "&&x", "||x", "|x", "**x", "=x", "==x", "=>x", "<x", ">x", "%x", "%=x", ",x", ")", "]", "}", "end", "then x", "do x", "and x", "or x", "rescue", "ensure", "else", "when x", "in x", "=~x", "!~x", "!=x", "<<x", ">>x", "^x", "/=x", "? x", ": x", ":: x", "__END__ x",
];
pub fn line_ends(th: bool) -> Family {
    const K: &[(&str, &str)] = &[("", "\n"), ("def m\n", "\nend\n"), ("a {\n", "\n}\n"), ("(\n", "\n)\n"), ("a do |b|\n", "\nend\n"), ("begin\n", "\nrescue\nend\n"), ("if a\n", "\nelse\nend\n"), ("\"#{\n", "\n}\"\n"), ("while a do\n", "\nend\n"), ("case a\nwhen b\n", "\nend\n"), ("case a\nin b\n", "\nend\n"), ("a b, (\n", "\n) do\nend\n"), ("class C\n", "\nend\n"), ("-> {\n", "\n}\n")];
    let mut xs: Vec<String> = XS.iter().map(|x| x.to_string()).collect();
    xs.extend(super::slots::pieces());
    xs.retain(|x| !x.contains("<<") && !x.ends_with(';') && x != "zz # zy");
    let nk = if th { K.len() } else { 6 };
    fam("a line end and a semicolon end a statement alike, before everything that can and cannot begin one", 0, move |c, ctx| {
        let (a, z) = K[c.choose(nk)];
        let x = &xs[c.choose(xs.len())];
        let y = STARTS[c.choose(STARTS.len())];
        if !allowed(x, a.starts_with("def")) {
            ctx.outcome("out of model");
            return;
        }
        let src = format!("{a}{x}\n{y}{z}");
        if !ctx.begin(src.as_bytes()) {
            return;
        }
        let other = format!("{a}{x};{y}{z}");
        let (r, o) = (parse(src.as_bytes()), parse(other.as_bytes()));
        ctx.end();
        ctx.nontrivial();
        if (errors(&r) > 0) != (errors(&o) > 0) {
            ctx.fail(format!("with a line end {}, with a semicolon {}", diag_str(&r.diagnostics), diag_str(&o.diagnostics)));
            return;
        }
        if errors(&r) > 0 {
            ctx.outcome("rejected both ways");
            return;
        }
        if let Some(d) = diff_opt(o.ast.as_deref(), r.ast.as_deref()) {
            ctx.fail(format!("the line end changes the meaning: {d}"));
            return;
        }
        ctx.outcome("the same tree");
    })
}
