//! Every construct in every place: what a piece of program means does not depend on where it
//! stands. A *slot* is a construct with a hole (`[@v]`, `if @v then x end`, ...); an *atom* is a
//! construct without one. The tree of an atom inside slots must be the trees of the parts put
//! together: the tree of the slot with the hole's node replaced by the tree of the atom, everything
//! moved by the lengths of the texts. Pairs Ruby's grammar does not allow, or to which it gives a
//! meaning of its own, are excluded by kinds (what a slot accepts) and flags.
use super::*;
use crate::meta::{self, FM};
use crate::n::*;
use crate::oracle::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

// kinds
const P: u16 = 1; // primary
const U: u16 = 2; // prefix operator
const B: u16 = 4; // binary operator
const A: u16 = 8; // other argument: range, assignment, ternary, defined?
const R: u16 = 16; // starts with dots
const C: u16 = 32; // command call
const D: u16 = 64; // command call with a do block
const E: u16 = 128; // and, or, not, one-line pattern
const S: u16 = 256; // statement only
const N: u16 = 512; // endless range
const V: u16 = 1024; // no value
const O: u16 = 0; // only as the outermost construct
const ARG: u16 = P | U | B | A | R;
const EXPR: u16 = ARG | C | D | E;
const STMT: u16 = EXPR | S | N;
const BODY: u16 = STMT | V;

// flags: about the content
const DO: u32 = 1; // a do block not inside brackets
const COND: u32 = 2; // means something else in a condition
const CLS: u32 = 4; // not allowed in a method
const MANY: u32 = 8; // starts with parentheses around none or several statements
const LIT: u32 = 16; // a literal
const BRACE: u32 = 32; // starts with a brace
const DOTS: u32 = 64; // starts with dots
const COLON: u32 = 128; // starts with a colon
const DIGIT: u32 = 256; // starts with a digit
const LABEL: u32 = 512; // would be a label before a colon
const KWB: u32 = 1024; // begin...end
const EQ: u32 = 2048; // starts so that a preceding `=` would be another operator

const MODW: u32 = 4096; // starts with a word that may be a modifier
const PUNCT: u32 = 8192; // ends so that a following `=` would belong to it
const ENDDEF: u32 = 1 << 14; // ends in the body of an endless method
const DOT3: u32 = 1 << 16; // three dots somewhere
const NL: u32 = 1 << 17; // a label at the end of a line
const PURE: u32 = 1 << 18; // a literal and nothing else
const CURLY: u32 = 1 << 19; // a brace or a do somewhere
const TILDE: u32 = 1 << 15; // starts with a tilde

struct Slot {
    p: &'static str,
    q: &'static str,
    acc: u16,
    kind: u16,
    own: u32,
    no: u32,
    want: u32,
    /// the condition flag of the content is also one of the construct
    through: bool,
    bracketed: bool,
    props: &'static str,
}
#[derive(Clone)]
struct Atom {
    text: String,
    kind: u16,
    fl: u32,
    /// atom index, then slot indexes from the inside out
    of: Vec<usize>,
}

/// text, accepted kinds, own kind, flags, properties
/// flags: d no do; c condition; b no leading brace; r no leading dots; m inside a method;
/// l no leading colon; n no leading digit; p one statement in parentheses; k no begin...end;
/// t transparent for conditions; D C X own flags (do, condition, not in methods); q no trailing label
const SLOTS: &[(&str, u16, u16, &str, &str)] = &[
    // collections, ranges, interpolation
    ("(@v)", STMT, P, "t", "26"),
    ("( @v )", STMT, P, "t", "26"),
    ("(\n@v\n)", STMT, P, "t", "26"),
    ("(x; @v)", STMT, P, "ti", "26"),
    ("(@v; x)", STMT, P, "ti", "26"),
    ("[@v]", ARG | N, P, "", "26"),
    ("[ @v ]", ARG | N, P, "", "26"),
    ("[x, @v]", ARG | N, P, "", "26"),
    ("[@v, x]", ARG, P, "", "26"),
    ("[@v,]", ARG, P, "", "26"),
    ("[\n@v\n]", ARG, P, "", "26"),
    ("[*@v]", ARG, P, "r", "26"),
    ("[x, *@v, y]", ARG, P, "r", "26"),
    ("[x: @v]", ARG | N, P, "", "26"),
    ("[x, y: @v]", ARG | N, P, "", "26"),
    ("[**@v]", ARG, P, "r", "26"),
    ("[@v => x]", ARG, P, "", "26"),
    ("[x, @v => y]", ARG, P, "", "26"),
    ("{x: @v}", ARG | N, P, "", "26"),
    ("{x:@v}", ARG | N, P, "l", "26"),
    ("{ x: @v }", ARG | N, P, "", "26"),
    ("{x: @v, y: z}", ARG, P, "", "26"),
    ("{\"x\": @v}", ARG | N, P, "", "26"),
    ("{\"x\":@v}", ARG | N, P, "l", "26"),
    ("{'x': @v, y: z}", ARG, P, "", "26"),
    ("{\"x#{y}\": @v}", ARG, P, "", "26"),
    ("{\"#{@v}\": x}", STMT, P, "", "26"),
    ("{:x => @v}", ARG | N, P, "", "26"),
    ("{:x=>@v}", ARG | N, P, "", "26"),
    ("{@v => x}", ARG, P, "", "26"),
    ("{@v=>x}", P | U | B, P, "o", "26"),
    ("{ @v => x }", ARG, P, "", "26"),
    ("{x => y, @v => z}", ARG, P, "", "26"),
    ("{**@v}", ARG, P, "r", "26"),
    ("{x: y, **@v}", ARG, P, "r", "26"),
    ("{x:\n@v}", ARG | N, P, "", "26"),
    ("(@v..x)", P | U | B, P, "C", "26"),
    ("(@v...x)", P | U | B, P, "C", "26"),
    ("(@v .. x)", P | U | B, P, "C", "26"),
    ("(x..@v)", P | U | B, P, "Cr", "26"),
    ("(x...@v)", P | U | B, P, "Cr", "26"),
    ("(x .. @v)", P | U | B, P, "Cr", "26"),
    ("(..@v)", P | U | B, P, "Cr", "26"),
    ("(...@v)", P | U | B, P, "Cr", "26"),
    ("(@v..)", P | U | B, P, "C", "26"),
    ("(@v...)", P | U | B, P, "C", "26"),
    ("..@v", P | U | B, R, "Cr", "26"),
    ("...@v", P | U | B, R, "Cr", "26"),
    ("@v..", P | U | B, N, "C", "26"),
    ("@v..x", P | U | B, A, "C", "26"),
    ("x...@v", P | U | B, A, "Cr", "26"),
    ("\"#{@v}\"", STMT, P, "L", "26"),
    ("\"x#{@v}\"", STMT, P, "L", "26"),
    ("\"#{@v}x\"", STMT, P, "L", "26"),
    ("\"#{ @v }\"", STMT, P, "L", "26"),
    ("\"#{x}#{@v}\"", STMT, P, "L", "26"),
    ("\"#{x; @v}\"", STMT, P, "L", "26"),
    ("%Q(#{@v})", STMT, P, "L", "26"),
    ("%(x#{@v})", STMT, P, "L", "26"),
    ("%W[#{@v}]", STMT, P, "L", "26"),
    ("%W[x#{@v}y z]", STMT, P, "L", "26"),
    ("%I[#{@v}]", STMT, P, "L", "26"),
    ("%I[x #{@v}y]", STMT, P, "L", "26"),
    (":\"#{@v}\"", STMT, P, "L", "26"),
    (":\"x#{@v}\"", STMT, P, "L", "26"),
    ("`#{@v}`", STMT, P, "L", "26"),
    ("%x(x #{@v})", STMT, P, "L", "26"),
    ("/#{@v}/", STMT, P, "LC", "26"),
    ("/x#{@v}/i", STMT, P, "LC", "26"),
    ("%r{#{@v}}", STMT, P, "LC", "26"),
    ("<<X\n#{@v}\nX\n", STMT, O, "", "26 08"),
    ("<<~X\n  #{@v}\nX\n", STMT, O, "", "26 08"),
    ("w(<<X)\nx#{@v}y\nX\n", STMT, O, "", "26 08"),
    // calls
    ("@v.x", P, P, "", "20"),
    ("@v&.x", P, P, "", "20"),
    ("@v::x", P, P, "", "20"),
    ("@v::X", P, P, "", "20 23"),
    ("@v .x", P, P, "", "20"),
    ("@v\n.x", P, P, "", "20"),
    ("@v.x()", P, P, "", "20"),
    ("@v.x(y)", P, P, "", "20"),
    ("@v.X()", P, P, "", "20"),
    ("@v.()", P, P, "", "20"),
    ("@v.(x)", P, P, "", "20"),
    ("@v::()", P, P, "", "20"),
    ("@v.x { y }", P, P, "", "20"),
    ("@v.x do y end", P, P, "D", "20"),
    ("@v.x y", P, C, "", "20"),
    ("@v&.x y", P, C, "", "20"),
    ("@v::x y", P, C, "", "20"),
    ("@v.x y do z end", P, D, "D", "20"),
    ("@v.class", P, P, "", "20"),
    ("@v.+ x", P, C, "", "20"),
    ("@v[x]", P, P, "", "20"),
    ("@v[]", P, P, "", "20"),
    ("@v[x, y]", P, P, "", "20"),
    ("w(@v)", ARG | N, P, "", "20"),
    ("w( @v )", ARG | N, P, "", "20"),
    ("w(\n@v\n)", ARG | N, P, "", "20"),
    ("w(@v,)", ARG, P, "", "20"),
    ("w(@v, x)", ARG, P, "", "20"),
    ("w(x, @v)", ARG | N, P, "", "20"),
    ("w(*@v)", ARG, P, "r", "20"),
    ("w(**@v)", ARG, P, "r", "20"),
    ("w(&@v)", ARG, P, "r", "20"),
    ("w(x, *@v, y)", ARG, P, "r", "20"),
    ("w(x, **@v)", ARG, P, "r", "20"),
    ("w(x, &@v)", ARG, P, "r", "20"),
    ("w(x: @v)", ARG | N, P, "", "20"),
    ("w(x: @v, y: z)", ARG, P, "", "20"),
    ("w(x, y: @v)", ARG | N, P, "", "20"),
    ("w(:x => @v)", ARG | N, P, "", "20"),
    ("w(@v => x)", ARG, P, "", "20"),
    ("w(\"x\": @v)", ARG | N, P, "", "20"),
    ("x.w(@v)", ARG | N, P, "", "20"),
    ("x&.w(@v)", ARG | N, P, "", "20"),
    ("x::w(@v)", ARG | N, P, "", "20"),
    ("x.(@v)", ARG | N, P, "", "20"),
    ("X(@v)", ARG | N, P, "", "20"),
    ("super(@v)", ARG | N, P, "", "20"),
    ("x[@v]", ARG | N, P, "", "20"),
    ("x[y, @v]", ARG | N, P, "", "20"),
    ("x[*@v]", ARG, P, "r", "20"),
    ("x[y: @v]", ARG | N, P, "", "20"),
    ("x[@v => y]", ARG, P, "", "20"),
    ("w(@v) { x }", ARG | N, P, "", "20 17"),
    ("w(@v) do x end", ARG | N, P, "D", "20 17"),
    ("w(x) { @v }", STMT, P, "", "20 17"),
    ("w @v", ARG | C, C, "dbrpf", "20 17"),
    ("w @v, x", ARG, C, "dbrpf", "20"),
    ("w x, @v", ARG, C, "d", "20"),
    ("w *@v", ARG, C, "dr", "20"),
    ("w **@v", ARG, C, "dr", "20"),
    ("w &@v", ARG, C, "dr", "20"),
    ("w x: @v", ARG, C, "d", "20"),
    ("w x:@v", ARG, C, "dl", "20"),
    ("w x, y: @v", ARG, C, "d", "20"),
    ("w \"x\": @v", ARG, C, "d", "20"),
    ("w :x => @v", ARG, C, "d", "20"),
    ("w @v => x", ARG, C, "dbrpfE", "20"),
    ("x.w @v", ARG | C, C, "dbrpf", "20"),
    ("x&.w @v", ARG, C, "dbrpf", "20"),
    ("x::w @v", ARG, C, "dbrpf", "20"),
    ("super @v", ARG, C, "dbrpf", "20"),
    ("x.w y: @v", ARG, C, "d", "20"),
    ("w @v do x end", ARG, D, "Ddbrpfy", "20 17"),
    ("w x, @v do y end", ARG, D, "Ddy", "20 17"),
    ("w { @v }", STMT, P, "", "20 17"),
    ("w {@v}", STMT, P, "", "20 17"),
    ("w { x; @v }", STMT, P, "", "20 17"),
    ("w { |p| @v }", STMT, P, "", "20 17"),
    ("w { |p|@v }", STMT, P, "", "20"),
    ("w do @v end", STMT, P, "D", "20 17"),
    ("w do |p| @v end", STMT, P, "D", "20 17"),
    ("w do |p|\n@v\nend", STMT, P, "D", "20 17"),
    ("w do\n@v\nrescue X\nend", STMT, P, "D", "20 17"),
    ("w do x\nensure @v\nend", STMT, P, "D", "20 17"),
    ("w x do @v end", STMT, D, "D", "20 17"),
    ("-> { @v }", STMT, P, "u", "20 17"),
    ("->{@v}", STMT, P, "u", "20 17"),
    ("->(p) { @v }", STMT, P, "u", "20 17"),
    ("-> p { @v }", STMT, P, "u", "20 17"),
    ("-> do @v end", STMT, P, "D", "20 17"),
    ("->(p) do @v end", STMT, P, "D", "20 17"),
    ("!@v", P | U, U, "ctv", "20"),
    ("! @v", P | U, U, "ctv", "20"),
    ("-@v", P, U, "n", "20"),
    ("+@v", P, U, "n", "20"),
    ("~@v", P, U, "", "20"),
    ("not @v", EXPR & !E, E, "ctpbf", "20"),
    ("not(@v)", EXPR, P, "ct", "20"),
    ("!(@v)", STMT, U, "ct", "20"),
    ("@v + x", P, B, "", "20"),
    ("@v+x", P, B, "", "20"),
    ("x + @v", P | U, B, "", "20"),
    ("x+@v", P | U, B, "", "20"),
    ("x * @v", P, B, "", "20"),
    ("x ** @v", P, B, "", "20"),
    ("@v == x", P, A, "", "20"),
    ("x == @v", P | U, A, "", "20"),
    ("@v << x", P, B, "", "20"),
    ("x <=> @v", P | U, A, "", "20"),
    ("x =~ @v", P | U, A, "", "20"),
    ("x !~ @v", P | U, A, "", "20"),
    ("@v !~ x", P, A, "", "20"),
    ("x != @v", P | U, A, "", "20"),
    ("@v | x", P, B, "", "20"),
    ("x & @v", P | U, B, "", "20"),
    ("x - @v", P | U, B, "", "20"),
    ("x / @v", P | U, B, "", "20"),
    ("x % @v", P | U, B, "", "20"),
    ("@v % x", P, B, "", "20"),
    ("@v / x", P, B, "", "20"),
    ("@v - x", P, B, "", "20"),
    ("@v * x", P, B, "", "20"),
    ("@v & x", P, B, "", "20"),
    ("@v < x", P, B, "", "20"),
    // control flow
    ("if @v then x end", EXPR, P, "c", "21"),
    ("if @v; x end", EXPR, P, "c", "21"),
    ("if @v\nx\nend", EXPR, P, "c", "21"),
    ("if(@v) then x end", STMT, P, "c", "21"),
    ("if x then @v end", STMT, P, "", "21"),
    ("if x then @v; y end", STMT, P, "", "21"),
    ("if x\n@v\nelse y end", STMT, P, "", "21"),
    ("if x then y else @v end", STMT, P, "", "21"),
    ("if x then y elsif @v then z end", EXPR, P, "c", "21"),
    ("if x then y elsif z then @v end", STMT, P, "", "21"),
    ("if x then y elsif z then w else @v end", STMT, P, "", "21"),
    ("unless @v then x end", EXPR, P, "c", "21"),
    ("unless x then @v end", STMT, P, "", "21"),
    ("unless x then y else @v end", STMT, P, "", "21"),
    ("@v ? x : y", P | B, A, "c", "21"),
    ("x ? @v : y", ARG, A, "r", "21"),
    ("x ? y : @v", ARG, A, "r", "21"),
    ("@x ? @v : @y", ARG, A, "r", "21"),
    ("@v and x", EXPR, E, "t", "21"),
    ("x and @v", EXPR & !E, E, "t", "21"),
    ("@v or x", EXPR, E, "t", "21"),
    ("x or @v", EXPR & !E, E, "t", "21"),
    ("@v && x", P | U | B, A, "t", "21"),
    ("x && @v", P | U | B, A, "tr", "21"),
    ("@v || x", P | U | B, A, "t", "21"),
    ("x || @v", P | U | B, A, "tr", "21"),
    ("while @v do x end", EXPR, P, "ycdD", "21 17"),
    ("while @v; x end", EXPR, P, "cd", "21 17"),
    ("while @v\nx\nend", EXPR, P, "cd", "21 17"),
    ("while (@v) do x end", STMT, P, "cD", "21 17"),
    ("while x do @v end", STMT, P, "D", "21 17"),
    ("while x\n@v\nend", STMT, P, "D", "21 17"),
    ("until @v do x end", EXPR, P, "ycdD", "21 17"),
    ("until x do @v end", STMT, P, "D", "21 17"),
    ("for p in @v do x end", EXPR, P, "ydD", "21 17"),
    ("for p in @v\nx\nend", EXPR, P, "dD", "21 17"),
    ("for p in x do @v end", STMT, P, "D", "21 17"),
    ("for @v.x in y do z end", P, P, "dD", "21"),
    ("case @v when x then y end", EXPR, P, "", "21"),
    ("case @v\nwhen x then y\nend", EXPR, P, "", "21"),
    ("case x when @v then y end", ARG, P, "", "21"),
    ("case x\nwhen @v then y\nend", ARG, P, "", "21"),
    ("case x\nwhen y, @v then z\nend", ARG, P, "", "21"),
    ("case x\nwhen *@v then z\nend", ARG, P, "r", "21"),
    ("case\nwhen @v then x\nend", ARG, P, "", "21"),
    ("case x when y then @v end", STMT, P, "", "21"),
    ("case x\nwhen y\n@v\nend", STMT, P, "", "21"),
    ("case x when y then z else @v end", STMT, P, "", "21"),
    ("begin @v end", STMT, P, "K", "21"),
    ("begin\n@v\nend", STMT, P, "K", "21"),
    ("begin x; @v end", STMT, P, "K", "21"),
    ("begin @v; rescue; x end", STMT, P, "K", "21"),
    ("begin x; rescue @v; y end", ARG, P, "Kf", "21"),
    ("begin x; rescue @v then y end", ARG, P, "Kf", "21"),
    ("begin x; rescue @v => p; y end", ARG, P, "Kf", "21"),
    ("begin x; rescue X, @v; y end", ARG, P, "K", "21"),
    ("begin x; rescue *@v; y end", ARG, P, "Kr", "21"),
    ("begin x; rescue; @v end", STMT, P, "K", "21"),
    ("begin x; rescue then @v end", STMT, P, "K", "21"),
    ("begin x; rescue X => p then @v end", STMT, P, "K", "21"),
    ("begin x; rescue X => @v.y then z end", P, P, "K", "21"),
    ("begin x; rescue; y else @v end", STMT, P, "K", "21"),
    ("begin x; ensure @v end", STMT, P, "K", "21"),
    ("begin @v; ensure x end", STMT, P, "K", "21"),
    ("x if @v", EXPR, S, "c", "21"),
    ("@v if x", STMT & !N, S, "", "21"),
    ("x unless @v", EXPR, S, "c", "21"),
    ("@v unless x", STMT & !N, S, "", "21"),
    ("x while @v", EXPR, S, "cd", "21"),
    ("@v while x", STMT & !N, S, "k", "21"),
    ("x until @v", EXPR, S, "cd", "21"),
    ("@v until x", STMT & !N, S, "k", "21"),
    ("begin @v end while x", STMT, S, "", "21"),
    ("begin x end until @v", EXPR, S, "cd", "21"),
    ("x rescue @v", ARG, S, "", "21"),
    ("@v rescue x", P | U | B | D, S, "", "21"),
    ("p = x rescue @v", ARG, S, "", "21 22"),
    ("defined?(@v)", EXPR, P, "", "21"),
    ("defined? @v", P | U, A, "pbf", "21"),
    ("return @v", ARG, V, "df", "21"),
    ("return x, @v", ARG, V, "d", "21"),
    ("return(@v)", STMT, V, "", "21"),
    ("w { next @v }", ARG, P, "df", "21"),
    ("w { break @v }", ARG, P, "df", "21"),
    ("w { break x, @v }", ARG, P, "d", "21"),
    ("w { next *@v }", ARG, P, "dr", "21"),
    ("x; @v", BODY, O, "", "21"),
    ("@v; x", BODY & !N, O, "", "21"),
    ("@v\nx", BODY & !N, O, "", "21"),
    // assignments
    ("p = @v", ARG, A, "", "22"),
    ("p = @v", N, N, "", "22"),
    ("p = @v", C, S, "", "22"),
    ("p =@v", ARG, A, "e", "22"),
    ("p =@v", C, S, "e", "22"),
    ("p=@v", ARG, A, "e", "22"),
    ("p=@v", C, S, "e", "22"),
    ("p =\n@v", ARG, A, "", "22"),
    ("p =\n@v", C, S, "", "22"),
    ("p = q = @v", ARG, A, "", "22"),
    ("p = @v, x", ARG, S, "", "22"),
    ("p = x, @v", ARG, S, "", "22"),
    ("p = *@v", ARG, S, "r", "22"),
    ("p = x, *@v", ARG, S, "r", "22"),
    ("p, q = @v", ARG | C, S, "M", "22"),
    ("p, q = @v, x", ARG, S, "M", "22"),
    ("p, q = x, @v", ARG, S, "M", "22"),
    ("p, q = *@v", ARG, S, "Mr", "22"),
    ("p, @v.x = y", P, S, "M", "22"),
    ("p, @v[x] = y", P, S, "M", "22"),
    ("p, x[@v] = y", ARG, S, "M", "22"),
    ("p, *@v.x = y", P, S, "Mr", "22"),
    ("p, (q, @v.x) = y", P, S, "M", "22"),
    ("@v.x, p = y", P, S, "M", "22"),
    ("@v[x], p = y", P, S, "M", "22"),
    ("@v::X, p = y", P, S, "MX", "22"),
    ("*@v.x = y", P, S, "M", "22"),
    ("@v.x = y", P, A, "", "22"),
    ("@v&.x = y", P, A, "", "22"),
    ("@v::x = y", P, A, "", "22"),
    ("@v.X = y", P, A, "", "22"),
    ("@v::X = y", P, A, "X", "22"),
    ("@v[x] = y", P, A, "", "22"),
    ("@v[] = y", P, A, "", "22"),
    ("@v.x += y", P, A, "", "22"),
    ("@v&.x ||= y", P, A, "", "22"),
    ("@v[x] &&= y", P, A, "", "22"),
    ("@v::x -= y", P, A, "", "22"),
    ("@v::X ||= y", P, A, "X", "22"),
    ("x.y = @v", ARG, A, "", "22"),
    ("x.y = @v", C, S, "", "22"),
    ("x.y=@v", ARG, A, "e", "22"),
    ("x.y=@v", C, S, "e", "22"),
    ("x&.y = @v", ARG, A, "", "22"),
    ("x[@v] = y", ARG, A, "", "22"),
    ("x[y, @v] = z", ARG, A, "", "22"),
    ("x[*@v] = z", ARG, A, "r", "22"),
    ("x[y] = @v", ARG, A, "", "22"),
    ("x[y]=@v", ARG, A, "e", "22"),
    ("x[@v] += y", ARG, A, "", "22"),
    ("x[y] ||= @v", ARG, A, "", "22"),
    ("x.y += @v", ARG, A, "", "22"),
    ("x.y += @v", C, S, "", "22"),
    ("x.y = z, @v", ARG, S, "", "22"),
    ("p += @v", ARG, A, "", "22"),
    ("p += @v", C, S, "", "22"),
    ("p +=@v", ARG, A, "", "22"),
    ("p ||= @v", ARG, A, "", "22"),
    ("p &&= @v", ARG, A, "", "22"),
    ("p **= @v", ARG, A, "", "22"),
    ("@x = @v", ARG, A, "", "22"),
    ("@x ||= @v", ARG, A, "", "22"),
    ("$x = @v", ARG, A, "", "22"),
    ("@@x = @v", ARG, A, "", "22"),
    ("X = @v", ARG, A, "X", "22"),
    ("::X = @v", ARG, A, "X", "22"),
    ("X::Y = @v", ARG, A, "X", "22"),
    ("X ||= @v", ARG, A, "X", "22"),
    // definitions and bodies
    ("def x; @v; end", STMT, P, "m", "23"),
    ("def x() @v end", STMT, P, "m", "23"),
    ("def x\n@v\nend", STMT, P, "m", "23"),
    ("def x(p) @v end", STMT, P, "m", "23"),
    ("def x p\n@v\nend", STMT, P, "m", "23"),
    ("def x; y; @v; end", STMT, P, "m", "23"),
    ("def x; @v; rescue; y; end", STMT, P, "m", "23"),
    ("def x; y; rescue @v; z; end", ARG, P, "mf", "23"),
    ("def x; y; ensure @v; end", STMT, P, "m", "23"),
    ("def x; y; rescue; z; else @v; end", STMT, P, "m", "23"),
    ("def self.x; @v; end", STMT, P, "m", "23"),
    ("def y.x(p) @v end", STMT, P, "m", "23"),
    ("def (@v).x; end", EXPR, P, "h", "23"),
    ("def (@v)::x() y end", EXPR, P, "h", "23"),
    ("def x() = @v", ARG, A, "mY", "23"),
    ("def x = @v", ARG, A, "mY", "23"),
    ("def x(p) = @v", ARG, A, "mY", "23"),
    ("def self.x = @v", ARG, A, "mY", "23"),
    ("def x() = @v", C, S, "mY", "23"),
    ("def x = y rescue @v", ARG, S, "m", "23"),
    ("class X; @v; end", STMT, P, "X", "23"),
    ("class X\n@v\nend", STMT, P, "X", "23"),
    ("class X < @v; end", EXPR, P, "X", "23"),
    ("class X < @v\nx\nend", EXPR, P, "X", "23"),
    ("class X < Y; @v; end", STMT, P, "X", "23"),
    ("class @v::X; end", P, P, "Xf", "23"),
    ("class X; x; rescue @v; end", ARG, P, "Xf", "23"),
    ("class X; x; ensure @v; end", STMT, P, "X", "23"),
    ("module X; @v; end", STMT, P, "X", "23"),
    ("module X\n@v\nend", STMT, P, "X", "23"),
    ("module @v::X; end", P, P, "X", "23"),
    ("class << @v; end", EXPR, P, "", "23"),
    ("class << @v\nx\nend", EXPR, P, "", "23"),
    ("class << self; @v; end", STMT, P, "", "23"),
    ("BEGIN { @v }", STMT, O, "", "23"),
    ("END { @v }", STMT, S, "m", "23"),
    ("alias :\"#{@v}\" x", STMT, S, "", "23"),
    ("alias x :\"y#{@v}\"", STMT, S, "", "23"),
    ("undef :\"#{@v}\"", STMT, S, "", "23"),
    ("undef x, :\"#{@v}y\"", STMT, S, "", "23"),
    ("x\n@v\n", STMT, O, "", "23"),
    // patterns
    ("case @v; in p then x end", EXPR, P, "j", "18"),
    ("case @v\nin [p, *] then x\nend", EXPR, P, "j", "18"),
    ("case x; in p then @v end", STMT, P, "j", "18"),
    ("case x\nin {p:}\n@v\nend", STMT, P, "j", "18"),
    ("case x; in p if @v then y end", EXPR, P, "cj", "18"),
    ("case x; in p unless @v then y end", EXPR, P, "cj", "18"),
    ("case x\nin [p] if @v\ny\nend", EXPR, P, "cj", "18"),
    ("case x; in p then y else @v end", STMT, P, "j", "18"),
    ("case x; in ^(@v) then y end", EXPR, P, "j", "18"),
    ("case x; in [^(@v), p] then y end", EXPR, P, "j", "18"),
    ("case x; in {p: ^(@v)} then y end", EXPR, P, "j", "18"),
    ("case x; in \"#{@v}\" then y end", STMT, P, "j", "18"),
    ("case x; in [p, \"y#{@v}\"] then z end", STMT, P, "j", "18"),
    ("case x; in /#{@v}/ then z end", STMT, P, "j", "18"),
    ("case x; in :\"#{@v}\" | nil then z end", STMT, P, "j", "18"),
    ("case x; in -> { @v } then z end", STMT, P, "ju", "18"),
    ("@v in p", ARG, E, "j", "18"),
    ("@v in [p, *]", ARG, E, "j", "18"),
    ("@v in {p:}", ARG, E, "j", "18"),
    ("@v => p", ARG, E, "Ej", "18"),
    ("@v => [p, q]", ARG, E, "Ej", "18"),
    ("@v => {p: Integer}", ARG, E, "Ej", "18"),
    ("x in ^(@v)", EXPR, E, "j", "18"),
    ("x => ^(@v)", EXPR, E, "j", "18"),
    ("x in {p: ^(@v)}", EXPR, E, "j", "18"),
    // parameter defaults
    ("def x(p = @v) end", ARG, P, "m", "19"),
    ("def x(p = @v); end", ARG, P, "m", "19"),
    ("def x(p=@v) end", ARG, P, "me", "19"),
    ("def x(p = @v, q) end", ARG, P, "m", "19"),
    ("def x(p, q = @v, *r) end", ARG, P, "m", "19"),
    ("def x(p: @v) end", ARG, P, "m", "19"),
    ("def x(p:@v) end", ARG, P, "ml", "19"),
    ("def x(p: @v, q: y) end", ARG, P, "m", "19"),
    ("def x(p:, q: @v, **r) end", ARG, P, "m", "19"),
    ("def x p = @v\nend", ARG, P, "mj", "19"),
    ("def x p, q = @v\nend", ARG, P, "mj", "19"),
    ("def x p: @v\nend", ARG, P, "mj", "19"),
    ("def x p: @v, q: y\nend", ARG, P, "mj", "19"),
    ("def self.x(p = @v) end", ARG, P, "m", "19"),
    ("def x(p = @v) = y", ARG, A, "mY", "19"),
    ("->(p = @v) { x }", ARG, P, "u", "19"),
    ("->(p: @v) { x }", ARG, P, "u", "19"),
    ("->(p, q = @v, *r) { x }", ARG, P, "u", "19"),
    ("->(p = @v) do x end", ARG, P, "Du", "19"),
    ("-> p = @v { x }", P, P, "dbW", "19"),
    ("-> p: @v { x }", P, P, "dbW", "19"),
    ("w { |p = @v| x }", P, P, "", "19"),
    ("w { |p=@v| x }", P, P, "e", "19"),
    ("w { |p, q = @v| x }", P, P, "", "19"),
    ("w { |p: @v| x }", P, P, "", "19"),
    ("w { |p: @v, q: y| x }", P, P, "", "19"),
    ("w { |p, q: @v, **r| x }", P, P, "", "19"),
    ("w do |p = @v| x end", P, P, "D", "19"),
    ("w do |p: @v| x end", P, P, "D", "19"),
];

/// text, kind, flags: D do block; C condition; X not in methods; M several statements; L literal; K begin...end
const ATOMS: &[(&str, u16, &str)] = &[
    ("a", P, "N"), ("A", P, "N"), ("a?", P, "="), ("a!", P, "="), ("::A", P, ""), ("A::B", P, "N"), ("@a", P, ""), ("@@a", P, ""), ("$a", P, ""), ("$~", P, ""), ("$1", P, ""), ("$&", P, ""),
    ("nil", P, "L"), ("true", P, "L"), ("false", P, "L"), ("self", P, ""), ("__FILE__", P, "L"), ("__LINE__", P, "L"), ("__ENCODING__", P, "L"),
    ("1", P, "L"), ("1.5", P, "L"), ("2r", P, "L"), ("2i", P, "L"), ("0x1f", P, "L"), ("-1", P, "L"), ("-1.5", P, "L"), ("+1", P, "L"),
    ("'a'", P, "LN"), ("\"a\"", P, "LN"), ("\"a#{b}\"", P, "LN"), ("\"#@a\"", P, "LN"), ("\"\"", P, "LN"), ("'a' 'b'", P, "LN"), ("%q(a)", P, "L"), ("%(a)", P, "L"), ("?a", P, "L"), ("\"a\nb\"", P, "LN"),
    (":a", P, "L"), (":a?", P, "L="), (":+", P, "L"), (":[]", P, "L="), (":\"a\"", P, "L"), (":'a b'", P, "L"), (":\"a#{b}\"", P, "L"), ("%s(a)", P, "L"), (":A", P, "L"), (":@a", P, "L"), (":$a", P, "L"), (":if", P, "L"), (":!", P, "L="), (":a=", P, "L="),
    ("`a`", P, "L"), ("%x(a)", P, "L"), ("/a/", P, "LC"), ("/a/i", P, "LC"), ("%r{a}", P, "LC"), ("/a#{b}/", P, "LC"),
    ("[]", P, "L"), ("[a]", P, "L"), ("[a, b]", P, "L"), ("[a, *b]", P, "L"), ("[1, 2]", P, "L"), ("%w[a b]", P, "L"), ("%i[a b]", P, "L"), ("%W[a#{b} c]", P, "L"), ("%w[]", P, "L"), ("[a: b]", P, "L"), ("[[a], b]", P, "L"),
    ("{}", P, "L"), ("{a: b}", P, "L"), ("{a => b}", P, "L"), ("{\"a\": b, **c}", P, "L"), ("{a:}", P, "L"), ("{ a: b }", P, "L"),
    ("(a)", P, ""), ("()", P, "M"), ("(a; b)", P, "M"), ("(m = a)", P, ""), ("(a b)", P, ""), ("(a and b)", P, "c"), ("(1..2)", P, "C"), ("(a if b)", P, ""), ("(a in m)", P, ""),
    ("a()", P, ""), ("a(b)", P, ""), ("a(b, c)", P, ""), ("a(*b, **c, &d)", P, ""), ("a(b: c)", P, ""), ("a(b => c)", P, ""), ("a(&:b)", P, ""), ("A()", P, ""), ("a(b c)", P, ""), ("a[b]", P, ""), ("a[b, c]", P, ""), ("a[]", P, ""), ("a[b: c]", P, ""),
    ("a.b", P, "N"), ("a&.b", P, "N"), ("a::b", P, "N"), ("a.b(c)", P, ""), ("a.b.c", P, "N"), ("a.()", P, ""), ("a.B", P, "N"), ("a.class", P, "N"), ("a.b?", P, "="), ("a.+(b)", P, ""), ("A.b", P, "N"), ("A::b", P, "N"), ("a\n.b", P, "N"), ("a.b[c]", P, ""), ("super", P, "N"), ("super()", P, ""), ("super(a)", P, ""),
    ("a { b }", P, ""), ("a {}", P, ""), ("a { |m| b }", P, ""), ("a { _1 }", P, ""), ("a(b) { c }", P, ""), ("a.b { c }", P, ""), ("a.b { c }.d", P, "N"), ("a do b end", P, "D"), ("a do |m| b end", P, "D"), ("a(b) do c end", P, "D"), ("a.b do c end.d", P, "DN"), ("a { |m, (n, o), *p| }", P, ""), ("a { |m = b| }", P, ""), ("super { a }", P, ""),
    ("-> { a }", P, ""), ("->{}", P, ""), ("->(m) { a }", P, ""), ("-> m { a }", P, ""), ("-> m, n = a { b }", P, ""), ("-> { _1 }", P, ""), ("-> do a end", P, "D"), ("->(m) do a end", P, "D"), ("->(m; n) {}", P, ""),
    ("if a then b end", P, ""), ("if a then b else c end", P, ""), ("if a\nb\nelsif c\nd\nend", P, ""), ("unless a then b end", P, ""), ("while a do b end", P, "D"), ("while a\nb\nend", P, ""), ("until a; b end", P, ""), ("for m in a; b; end", P, ""), ("for m in a do b end", P, "D"), ("case a when b then c end", P, ""), ("case\nwhen a then b\nelse c\nend", P, ""), ("case a; in m then b end", P, ""), ("case a\nin [Integer, *m] if b\nc\nin {n:} then d\nend", P, ""),
    ("begin a end", P, "K"), ("begin\na\nrescue B => m\nb\nensure\nc\nend", P, "K"), ("begin end", P, "K"), ("begin; a; b; end", P, "K"), ("begin a; rescue; end", P, "K"),
    ("def n; end", P, ""), ("def n(m) a end", P, ""), ("def self.n; a; end", P, ""), ("class M; end", P, "X"), ("class M < A; a; end", P, "X"), ("module M; end", P, "X"), ("class << a; b; end", P, ""), ("def n(m = a, *o, k: b, **l, &z) end", P, ""), ("def n(...) a(...) end", P, ""), ("def n m, o = a\nb\nend", P, ""), ("def n = a", A, "Y"), ("def n(m) = a", A, "Y"),
    ("defined?(a)", P, ""), ("not(a)", P, "c"), ("not()", P, ""), ("yield_", P, "N"), ("redo_", P, "N"),
    ("!a", U, ""), ("-a", U, ""), ("+a", U, ""), ("~a", U, ""), ("!!a", U, ""), ("-a.b", U, "N"), ("!a.b?", U, "="),
    ("a + b", B, ""), ("a+b", B, ""), ("a * b + c", B, ""), ("a - 1", B, ""), ("a << b", B, ""), ("a | b", B, ""), ("a ** b", B, ""), ("1 + 2", B, ""), ("a % b", B, ""), ("a / b", B, ""), ("a & b", B, ""), ("a > b", B, ""), ("-2 ** a", B, ""),
    ("a == b", A, ""), ("a != b", A, ""), ("a =~ b", A, ""), ("a <=> b", A, ""), ("a === b", A, ""), ("a && b", A, "c"), ("a || b", A, "c"), ("a ? b : c", A, ""), ("a ? b : c ? d : e", A, ""), ("a..b", A, "C"), ("a...b", A, "C"), ("1..2", A, "C"), ("defined? a", A, ""),
    ("m = a", A, ""), ("m = n = a", A, ""), ("m += a", A, ""), ("m ||= a", A, ""), ("@m = a", A, ""), ("@m &&= a", A, ""), ("$m = a", A, ""), ("a.b = c", A, ""), ("a[b] = c", A, ""), ("a.b += c", A, ""), ("a[b] ||= c", A, ""), ("M = a", A, "X"), ("a&.b = c", A, ""), ("m = a rescue b", A, ""), ("m += a rescue b", A, ""), ("A::M = a", A, "X"), ("::M = a", A, "X"), ("m = {a: b}", A, ""), ("m = [a]", A, ""),
    ("..a", R, "C"), ("...a", R, "C"), ("..1", R, "C"), ("a..", N, "C"), ("1...", N, "C"),
    ("a b", C, ""), ("a b, c", C, ""), ("a.b c", C, ""), ("a *b", C, ""), ("a b: c", C, ""), ("a :b => c", C, ""), ("a b => c", C, ""), ("a &b", C, ""), ("a b c", C, ""), ("a [b]", C, ""), ("a -1", C, ""), ("a (b), c", C, ""), ("a b.c d", C, ""), ("a 'b'", C, ""), ("a :b", C, ""), ("a b { c }", C, ""), ("a -> { b }", C, ""), ("super a", C, ""), ("a b, &c", C, ""), ("a b, if c then d end", C, ""), ("a::b c", C, ""), ("a&.b c", C, ""), ("a /b/", C, ""), ("a !b", C, ""), ("a [], {}", C, ""),
    ("a b do c end", D, "D"), ("a.b c do |m| d end", D, "D"), ("a b do c end.d", D, "D"), ("a b do c end.d e", D, "D"), ("a -> { b } do c end", D, "D"), ("a b do c end.d { e }", D, "D"),
    ("a and b", E, "c"), ("a or b", E, "c"), ("not a", E, "c"), ("a in m", E, ""), ("a => m", E, ""), ("a => {m:}", E, ""), ("a in [Integer => m, *]", E, ""), ("!a b", E, "c"), ("a and b or c", E, "c"), ("a b and c d", E, "c"), ("not a b", E, "c"),
    ("a if b", S, ""), ("a unless b", S, ""), ("a while b", S, ""), ("a until b", S, ""), ("a rescue b", S, ""), ("m, n = a", S, "M"), ("m, n = a, b", S, ""), ("*m, n = a", S, ""), ("(m, n), o = a", S, ""), ("m = a, b", S, ""), ("m = *a", S, ""), ("alias m n", S, ""), ("alias $m $n", S, ""), ("undef m", S, ""), ("undef m, n", S, ""), ("alias :m :n", S, ""), ("a if b unless c", S, ""), ("begin a end while b", S, ""), ("END { a }", S, ""), ("m += a b", S, ""), ("@m = a b", S, ""), ("a b if c d", S, ""), ("m, a.b, c[d] = e", S, ""), ("def n = a b", S, "Y"),
    ("return", V, ""), ("return a", V, ""), ("return a, b", V, ""),
];

fn lead(t: &str, f: u32) -> u32 {
    let mut r = 0;
    let b = t.as_bytes();
    match b[0] {
        b'{' => r |= BRACE,
        b'.' => r |= DOTS,
        b':' => r |= COLON,
        b'0'..=b'9' => r |= DIGIT,
        b'*' | b'&' | b'~' | b'>' | b'=' => r |= EQ,
        _ => {}
    }
    for w in ["if", "unless", "while", "until"] {
        if t.starts_with(w) && !b.get(w.len()).map_or(false, |c| c.is_ascii_alphanumeric()) {
            r |= MODW;
        }
    }
    if b[0] == b'[' || b[0] == b'{' {
        r |= LIT;
    }
    if t.contains("...") {
        r |= DOT3;
    }
    if t.contains("{") || t.contains("do") {
        r |= CURLY;
    }
    if t.contains(":\n") {
        r |= NL;
    }
    if b[0] == b'~' {
        r |= TILDE;
    }
    r | f
}
fn slots() -> Vec<Slot> {
    SLOTS.iter().map(|&(t, acc, kind, fl, props)| {
        let i = t.find("@v").expect("HARNESS: slot without a hole");
        let (p, q) = (&t[..i], &t[i + 2..]);
        let (mut own, mut no, mut want, mut through) = (0, 0, 0, false);
        for c in fl.chars() {
            match c {
                'd' => no |= DO,
                'c' => no |= COND,
                'b' => no |= BRACE,
                'r' => no |= DOTS,
                'm' => no |= CLS,
                'l' => no |= COLON,
                'n' => no |= DIGIT,
                'p' => no |= MANY,
                'k' => no |= KWB,
                'h' => no |= LIT | DOT3,
                'j' => no |= NL,
                'u' => no |= DOT3,
                'f' => no |= MODW,
                'o' => no |= PUNCT,
                'y' => no |= ENDDEF,
                'v' => no |= TILDE,
                'Y' => own |= ENDDEF,
                'e' => no |= EQ,
                'W' => {
                    want |= PURE;
                    no |= CURLY;
                }
                't' => through = true,
                'i' => own |= MANY,
                'D' => own |= DO,
                'C' => own |= COND,
                'X' => own |= CLS,
                'L' => own |= LIT | PURE,
                'K' => own |= KWB,
                'M' => own |= COND,
                'E' => {}
                _ => panic!("HARNESS: flag {c}"),
            }
        }
        let mut depth = 0i32;
        for c in p.chars() {
            depth += match c { '(' | '[' | '{' => 1, ')' | ']' | '}' => -1, _ => 0 };
        }
        Slot { p, q, acc, kind, own, no, want, through, bracketed: depth > 0, props }
    }).collect()
}
fn atoms() -> Vec<Atom> {
    ATOMS.iter().enumerate().map(|(i, &(t, kind, fl))| {
        let mut f = 0;
        for c in fl.chars() {
            match c {
                'D' => f |= DO,
                'C' | 'c' => f |= COND,
                'X' => f |= CLS,
                'M' => f |= MANY,
                'L' => f |= LIT | PURE,
                'K' => f |= KWB,
                'N' => f |= LABEL,
                '=' => f |= PUNCT,
                'Y' => f |= ENDDEF,
                _ => panic!("HARNESS: flag {c}"),
            }
        }
        Atom { text: t.into(), kind, fl: lead(t, f), of: vec![i] }
    }).collect()
}
fn fits(s: &Slot, a: &Atom) -> bool {
    s.acc & a.kind != 0 && s.no & a.fl == 0 && s.want & a.fl == s.want
}
fn put(k: usize, s: &Slot, a: &Atom) -> Atom {
    let text = format!("{}{}{}", s.p, a.text, s.q);
    let mut f = s.own | (a.fl & (CLS | DOT3 | NL | CURLY));
    if !s.bracketed {
        f |= a.fl & DO;
    }
    if s.through {
        f |= a.fl & COND;
    }
    f = if s.p.is_empty() {
        // starts as its content does
        f | (a.fl & (LIT | BRACE | DOTS | COLON | DIGIT | EQ | MANY | MODW | TILDE)) | (a.fl & LABEL)
    } else {
        lead(&text, f)
    };
    if s.q.is_empty() {
        f |= a.fl & (PUNCT | ENDDEF);
    }
    let mut of = a.of.clone();
    of.push(k);
    Atom { text, kind: s.kind, fl: f, of }
}

thread_local! {
    static TREES: RefCell<HashMap<String, Option<Arc<Node>>>> = RefCell::new(HashMap::new());
}
fn tree_of(src: &str) -> Option<Arc<Node>> {
    TREES.with(|t| {
        if let Some(x) = t.borrow().get(src) {
            return x.clone();
        }
        let r = parse(src.as_bytes());
        let x = if errors(&r) == 0 { r.ast.map(|a| Arc::new(*a)) } else { None };
        t.borrow_mut().insert(src.into(), x.clone());
        x
    })
}
fn shift(n: &mut Node, by: usize) {
    meta::visit_mut(n, &mut |_, f| match f {
        FM::Loc(l) => {
            l.begin += by;
            l.end += by;
        }
        FM::N(n) => shift(n, by),
    });
}
/// put `atom` in place of the hole at `at`; everything from the end of the hole moves
fn fill(n: &mut Node, at: usize, len: usize, atom: &Node, done: &mut u32) {
    if let Node::Ivar(v) = &*n {
        if v.name == "@v" && v.expression_l.begin == at {
            *n = atom.clone();
            shift(n, at);
            *done += 1;
            return;
        }
    }
    let mv = |p: &mut usize| {
        if *p >= at + 2 {
            *p = *p - 2 + len;
        }
    };
    meta::visit_mut(n, &mut |_, f| match f {
        FM::Loc(l) => {
            mv(&mut l.begin);
            mv(&mut l.end);
        }
        FM::N(n) => fill(n, at, len, atom, done),
    });
}
fn expected(sl: &[Slot], of: &[usize]) -> Result<(Node, usize), String> {
    let a = ATOMS[of[0]].0;
    let mut n = (*tree_of(a).ok_or_else(|| format!("{a:?} alone is not accepted"))?).clone();
    let mut len = a.len();
    for &k in &of[1..] {
        let s = &sl[k];
        let text = format!("{}@v{}", s.p, s.q);
        let mut t = (*tree_of(&text).ok_or_else(|| format!("{text:?} is not accepted"))?).clone();
        let mut done = 0;
        fill(&mut t, s.p.len(), len, &n, &mut done);
        if done != 1 {
            return Err(format!("in the tree of {text:?} the instance variable occurs {done} times"));
        }
        n = t;
        len += s.p.len() + s.q.len();
    }
    Ok((n, len))
}
fn judge(ctx: &mut Ctx, sl: &[Slot], a: &Atom) {
    if !ctx.begin(a.text.as_bytes()) {
        return;
    }
    let r = parse(a.text.as_bytes());
    let exp = expected(sl, &a.of);
    ctx.end();
    ctx.nontrivial();
    let parts = || {
        let mut v = vec![format!("{:?}", ATOMS[a.of[0]].0)];
        v.extend(a.of[1..].iter().map(|&k| format!("{:?}", format!("{}@v{}", sl[k].p, sl[k].q))));
        v.join(" in ")
    };
    match exp {
        Err(e) => ctx.fail(e),
        Ok((n, _)) => {
            if errors(&r) > 0 {
                ctx.fail(format!("{} is rejected: {}", parts(), diag_str(&r.diagnostics)));
            } else if let Some(d) = diff_opt(Some(&n), r.ast.as_deref()) {
                ctx.fail(format!("{} is not the parts put together: {d}", parts()));
            } else {
                ctx.outcome("the parts put together");
            }
        }
    }
}

/// A definition means the same whether or not a local variable has the name it defines.
pub fn named_like_local() -> Family {
    const DEFS: &[&str] = &[
        "def a; end", "def a() end", "def a(b) b end", "def a (b)\nend", "def a (b) b end", "def a (b, c = 1, *d, e:, f: 2, **g, &h)\nb\nend", "def a b\nend", "def a b, c\nb\nend", "def a *b\nend", "def a &b\nend", "def a b: 1\nend", "def a b:, c: 2\nend", "def a **b\nend", "def a ((b, c), d)\nend",
        "def a = 1", "def a() = 1", "def a(b) = b", "def a (b) = b", "def a(...) x(...) end", "def a (...) x(...) end", "def a\nb\nend", "def a\n(b)\nend", "def a; b; end", "def a() b end",
        "def a=(b) end", "def a= (b)\nend", "def a= b\nend", "def a?(b) end", "def a? (b)\nend", "def a!(b) end", "def a! b\nend",
        "def self.a; end", "def self.a(b) b end", "def self.a (b)\nend", "def self.a b\nend", "def self.a = 1", "def self.a(b) = b", "def self.a=(b) end", "def x.a (b)\nend", "def (x).a (b)\nend", "def X.a (b)\nend", "def self::a (b)\nend", "def @x.a (b)\nend",
        "alias a b", "alias b a", "alias a a", "alias :a b", "alias a :b", "alias a= b", "alias a? a!", "alias $a $b", "undef a", "undef a, b", "undef b, a", "undef :a", "undef a=", "undef a, a, :b",
        "w def a (b)\nend", "w def a b\nend", "w(def a (b)\nend)", "p = def a (b)\nend", "w def a(b) = b", "class X; def a (b)\nend; end", "class << self; def a (b)\nend; end", "module X\ndef a (b)\nend\nend", "begin; def a (b)\nend; end", "if x then def a (b)\nend end", "x { def a (b)\nend }", "x do def a (b)\nend end", "\"#{def a (b)\nend}\"",
        "def b\ndef a (c)\nend\nend", "def a (a)\na\nend", "def a a\na\nend", "def b (a)\nend", "def b a\nend", "def b(a:) end", "def b(*a) end", "def b(&a) end", "def b a: 1\nend", "class A; end", "x.a (1)", "x.a [1]", "x.a -1", "x&.a *b", "x::a /1/", "x.a {b}", "x.a ? 1 : 2", "x.a do end", "x.a %w[b]", "x.a <<A\nb\nA\n", "x.a::B", "x.a = 1", "x.a += 1", "x.a, p = 1", ":a", "{a: 1}", "x a: 1", "x(a: 1)", "%i[a b]", "@a", "$a", "@@a", "\"a\"", "x.a&.b", "x.a!", "x.a?", "x.a(1)", "->(a) { a }", "x { |a| a }", "x { |a = 1, *b| }", "->(a: 1) {}", "x { |; a| }",
    ];
    const FRAMES: &[(&str, &str)] = &[("L = 1\n", ""), ("L = 1; ", ""), ("L = 1;", "; x"), ("x { |L| ", " }"), ("x do |L|\n", "\nend"), ("->(L) { ", " }"), ("for L in x do ", " end"), ("L = 1\nx { ", " }"), ("L ||= 1\n", ""), ("L, p = 1\n", ""), ("p in L\n", ""), ("L = 1\nif x\n", "\nelse y end"), ("L = 1\nbegin\n", "\nend"), ("L = 1\nz = ", "")];
    fam("definitions and names, with and without a local variable of the same name", 0, |c, ctx| {
        let d = DEFS[c.choose(DEFS.len())];
        let (p, q) = FRAMES[c.choose(FRAMES.len())];
        if p.ends_with("z = ") && (d.starts_with("undef") || d.starts_with("alias") || d.contains(", p")) || p.contains("z = ") && d.starts_with("x.a ") && d.contains(" ? ") {
            return;
        }
        let other = format!("{}{d}{q}", p.replace('L', "q"));
        let src = format!("{}{d}{q}", p.replace('L', "a"));
        if !ctx.begin(src.as_bytes()) {
            return;
        }
        let (r, o) = (parse(src.as_bytes()), parse(other.as_bytes()));
        ctx.end();
        ctx.nontrivial();
        if errors(&o) > 0 {
            ctx.fail(format!("{other:?} is rejected: {}", diag_str(&o.diagnostics)));
            return;
        }
        if errors(&r) > 0 {
            ctx.fail(format!("rejected because of the local variable: {}", diag_str(&r.diagnostics)));
            return;
        }
        // the only differences: the frame's variable has another name
        let mut t = o.ast.map(|t| *t);
        if let Some(t) = &mut t {
            rename(t, p.len());
        }
        if let Some(x) = diff_opt(t.as_ref(), r.ast.as_deref()) {
            ctx.fail(format!("means something else because of the local variable: {x}"));
        } else {
            ctx.outcome("the same with and without the variable");
        }
    })
}
/// the frame's variable, declared before `end`
fn rename(n: &mut Node, end: usize) {
    match n {
        Node::Lvasgn(v) if v.name == "q" && v.name_l.end <= end => v.name = "a".into(),
        Node::Arg(v) if v.name == "q" && v.expression_l.end <= end => v.name = "a".into(),
        Node::MatchVar(v) if v.name == "q" && v.name_l.end <= end => v.name = "a".into(),
        _ => {}
    }
    meta::visit_mut(n, &mut |_, f| {
        if let FM::N(n) = f {
            rename(n, end)
        }
    });
}

/// the constructs of a property, as texts
pub fn texts(prop: &str) -> Vec<String> {
    slots().iter().filter(|s| s.kind != O && s.props.split(' ').any(|p| p == prop)).map(|s| format!("{}@v{}", s.p, s.q)).collect()
}
/// all constructs that are finished at the end of their line
pub fn pieces() -> Vec<String> {
    let a = ATOMS.iter().filter(|a| a.1 & (R | N | V) == 0).map(|a| a.0.to_string());
    a.chain(slots().iter().filter(|s| s.kind != O && s.kind & (R | N | V) == 0).map(|s| format!("{}@v{}", s.p, s.q))).collect()
}

/// slots of `prop` outside, all slots in between, all atoms inside
pub fn families(prop: &'static str, th: bool) -> Vec<Family> {
    let sl = Arc::new(slots());
    let ats = Arc::new(atoms());
    let mut comp = vec![];
    for (k, s) in sl.iter().enumerate() {
        if s.kind != O {
            comp.extend(ats.iter().filter(|a| fits(s, a)).map(|a| put(k, s, a)));
        }
    }
    let comp = Arc::new(comp);
    // P03: all of them
    let outer: Vec<usize> = (0..sl.len()).filter(|&k| prop == "P03" || sl[k].props.split(' ').any(|p| p == &prop[1..])).collect();
    let mut v = vec![];
    {
        let (sl, ats, outer) = (sl.clone(), ats.clone(), outer.clone());
        v.push(fam(format!("every construct in every place of {prop}"), 0, move |c, ctx| {
            let k = outer[c.choose(outer.len())];
            let a = &ats[c.choose(ats.len())];
            if fits(&sl[k], a) {
                judge(ctx, &sl, &put(k, &sl[k], a));
            }
        }));
    }
    if prop != "P03" || th {
        let (sl, comp, outer) = (sl.clone(), comp.clone(), outer.clone());
        v.push(fam(format!("every construct of two parts in every place of {prop}"), 0, move |c, ctx| {
            let k = outer[c.choose(outer.len())];
            let a = &comp[c.choose(comp.len())];
            if fits(&sl[k], a) {
                judge(ctx, &sl, &put(k, &sl[k], a));
            }
        }));
    }
    if th && prop != "P03" {
        v.push(fam_nd(format!("every construct of three parts in every place of {prop}"), 0, move |c, ctx| {
            let k = outer[c.choose(outer.len())];
            let j = c.choose(sl.len());
            if sl[j].kind == O || sl[j].kind & sl[k].acc == 0 {
                return;
            }
            let a = &comp[c.choose(comp.len())];
            if fits(&sl[j], a) {
                let b = put(j, &sl[j], a);
                if fits(&sl[k], &b) {
                    judge(ctx, &sl, &put(k, &sl[k], &b));
                }
            }
        }));
    }
    v
}
