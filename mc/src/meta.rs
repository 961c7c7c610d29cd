// generated by tools/gen_node_meta.py
#![allow(unused_variables)]
use lib_ruby_parser::{Node, Loc, Bytes};

pub enum F<'a> { Loc(&'a Loc), OptLoc(Option<&'a Loc>), N(&'a Node), OptN(Option<&'a Node>), Ns(&'a [Node]), S(&'a str), OptS(Option<&'a str>), B(&'a Bytes), U(u8) }
pub enum FM<'a> { Loc(&'a mut Loc), N(&'a mut Node) }
pub fn visit<'a>(node: &'a Node, f: &mut dyn FnMut(&'static str, F<'a>)) {
    match node {
        Node::Alias(n) => { f("to", F::N(&n.to)); f("from", F::N(&n.from)); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::And(n) => { f("lhs", F::N(&n.lhs)); f("rhs", F::N(&n.rhs)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::AndAsgn(n) => { f("recv", F::N(&n.recv)); f("value", F::N(&n.value)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Arg(n) => { f("name", F::S(&n.name)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Args(n) => { f("args", F::Ns(&n.args)); f("expression_l", F::Loc(&n.expression_l)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); }
        Node::Array(n) => { f("elements", F::Ns(&n.elements)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::ArrayPattern(n) => { f("elements", F::Ns(&n.elements)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::ArrayPatternWithTail(n) => { f("elements", F::Ns(&n.elements)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::BackRef(n) => { f("name", F::S(&n.name)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Begin(n) => { f("statements", F::Ns(&n.statements)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Block(n) => { f("call", F::N(&n.call)); f("args", F::OptN(n.args.as_deref())); f("body", F::OptN(n.body.as_deref())); f("begin_l", F::Loc(&n.begin_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::BlockPass(n) => { f("value", F::OptN(n.value.as_deref())); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Blockarg(n) => { f("name", F::OptS(n.name.as_deref())); f("operator_l", F::Loc(&n.operator_l)); f("name_l", F::OptLoc(n.name_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Break(n) => { f("args", F::Ns(&n.args)); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::CSend(n) => { f("recv", F::N(&n.recv)); f("method_name", F::S(&n.method_name)); f("args", F::Ns(&n.args)); f("dot_l", F::Loc(&n.dot_l)); f("selector_l", F::OptLoc(n.selector_l.as_ref())); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Case(n) => { f("expr", F::OptN(n.expr.as_deref())); f("when_bodies", F::Ns(&n.when_bodies)); f("else_body", F::OptN(n.else_body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("else_l", F::OptLoc(n.else_l.as_ref())); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::CaseMatch(n) => { f("expr", F::N(&n.expr)); f("in_bodies", F::Ns(&n.in_bodies)); f("else_body", F::OptN(n.else_body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("else_l", F::OptLoc(n.else_l.as_ref())); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Casgn(n) => { f("scope", F::OptN(n.scope.as_deref())); f("name", F::S(&n.name)); f("value", F::OptN(n.value.as_deref())); f("double_colon_l", F::OptLoc(n.double_colon_l.as_ref())); f("name_l", F::Loc(&n.name_l)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Cbase(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::Class(n) => { f("name", F::N(&n.name)); f("superclass", F::OptN(n.superclass.as_deref())); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Complex(n) => { f("value", F::S(&n.value)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Const(n) => { f("scope", F::OptN(n.scope.as_deref())); f("name", F::S(&n.name)); f("double_colon_l", F::OptLoc(n.double_colon_l.as_ref())); f("name_l", F::Loc(&n.name_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::ConstPattern(n) => { f("const_", F::N(&n.const_)); f("pattern", F::N(&n.pattern)); f("begin_l", F::Loc(&n.begin_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Cvar(n) => { f("name", F::S(&n.name)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Cvasgn(n) => { f("name", F::S(&n.name)); f("value", F::OptN(n.value.as_deref())); f("name_l", F::Loc(&n.name_l)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Def(n) => { f("name", F::S(&n.name)); f("args", F::OptN(n.args.as_deref())); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("name_l", F::Loc(&n.name_l)); f("end_l", F::OptLoc(n.end_l.as_ref())); f("assignment_l", F::OptLoc(n.assignment_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Defined(n) => { f("value", F::N(&n.value)); f("keyword_l", F::Loc(&n.keyword_l)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Defs(n) => { f("definee", F::N(&n.definee)); f("name", F::S(&n.name)); f("args", F::OptN(n.args.as_deref())); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("operator_l", F::Loc(&n.operator_l)); f("name_l", F::Loc(&n.name_l)); f("assignment_l", F::OptLoc(n.assignment_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Dstr(n) => { f("parts", F::Ns(&n.parts)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Dsym(n) => { f("parts", F::Ns(&n.parts)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::EFlipFlop(n) => { f("left", F::OptN(n.left.as_deref())); f("right", F::OptN(n.right.as_deref())); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::EmptyElse(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::Encoding(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::Ensure(n) => { f("body", F::OptN(n.body.as_deref())); f("ensure", F::OptN(n.ensure.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Erange(n) => { f("left", F::OptN(n.left.as_deref())); f("right", F::OptN(n.right.as_deref())); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::False(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::File(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::FindPattern(n) => { f("elements", F::Ns(&n.elements)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Float(n) => { f("value", F::S(&n.value)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::For(n) => { f("iterator", F::N(&n.iterator)); f("iteratee", F::N(&n.iteratee)); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("operator_l", F::Loc(&n.operator_l)); f("begin_l", F::Loc(&n.begin_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::ForwardArg(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::ForwardedArgs(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::Gvar(n) => { f("name", F::S(&n.name)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Gvasgn(n) => { f("name", F::S(&n.name)); f("value", F::OptN(n.value.as_deref())); f("name_l", F::Loc(&n.name_l)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Hash(n) => { f("pairs", F::Ns(&n.pairs)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::HashPattern(n) => { f("elements", F::Ns(&n.elements)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Heredoc(n) => { f("parts", F::Ns(&n.parts)); f("heredoc_body_l", F::Loc(&n.heredoc_body_l)); f("heredoc_end_l", F::Loc(&n.heredoc_end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::IFlipFlop(n) => { f("left", F::OptN(n.left.as_deref())); f("right", F::OptN(n.right.as_deref())); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::If(n) => { f("cond", F::N(&n.cond)); f("if_true", F::OptN(n.if_true.as_deref())); f("if_false", F::OptN(n.if_false.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("begin_l", F::Loc(&n.begin_l)); f("else_l", F::OptLoc(n.else_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::IfGuard(n) => { f("cond", F::N(&n.cond)); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::IfMod(n) => { f("cond", F::N(&n.cond)); f("if_true", F::OptN(n.if_true.as_deref())); f("if_false", F::OptN(n.if_false.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::IfTernary(n) => { f("cond", F::N(&n.cond)); f("if_true", F::N(&n.if_true)); f("if_false", F::N(&n.if_false)); f("question_l", F::Loc(&n.question_l)); f("colon_l", F::Loc(&n.colon_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::InPattern(n) => { f("pattern", F::N(&n.pattern)); f("guard", F::OptN(n.guard.as_deref())); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("begin_l", F::Loc(&n.begin_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Index(n) => { f("recv", F::N(&n.recv)); f("indexes", F::Ns(&n.indexes)); f("begin_l", F::Loc(&n.begin_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::IndexAsgn(n) => { f("recv", F::N(&n.recv)); f("indexes", F::Ns(&n.indexes)); f("value", F::OptN(n.value.as_deref())); f("begin_l", F::Loc(&n.begin_l)); f("end_l", F::Loc(&n.end_l)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Int(n) => { f("value", F::S(&n.value)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Irange(n) => { f("left", F::OptN(n.left.as_deref())); f("right", F::OptN(n.right.as_deref())); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Ivar(n) => { f("name", F::S(&n.name)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Ivasgn(n) => { f("name", F::S(&n.name)); f("value", F::OptN(n.value.as_deref())); f("name_l", F::Loc(&n.name_l)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::KwBegin(n) => { f("statements", F::Ns(&n.statements)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Kwarg(n) => { f("name", F::S(&n.name)); f("name_l", F::Loc(&n.name_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Kwargs(n) => { f("pairs", F::Ns(&n.pairs)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Kwnilarg(n) => { f("name_l", F::Loc(&n.name_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Kwoptarg(n) => { f("name", F::S(&n.name)); f("default", F::N(&n.default)); f("name_l", F::Loc(&n.name_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Kwrestarg(n) => { f("name", F::OptS(n.name.as_deref())); f("operator_l", F::Loc(&n.operator_l)); f("name_l", F::OptLoc(n.name_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Kwsplat(n) => { f("value", F::N(&n.value)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Lambda(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::Line(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::Lvar(n) => { f("name", F::S(&n.name)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Lvasgn(n) => { f("name", F::S(&n.name)); f("value", F::OptN(n.value.as_deref())); f("name_l", F::Loc(&n.name_l)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Masgn(n) => { f("lhs", F::N(&n.lhs)); f("rhs", F::N(&n.rhs)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::MatchAlt(n) => { f("lhs", F::N(&n.lhs)); f("rhs", F::N(&n.rhs)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::MatchAs(n) => { f("value", F::N(&n.value)); f("as_", F::N(&n.as_)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::MatchCurrentLine(n) => { f("re", F::N(&n.re)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::MatchNilPattern(n) => { f("operator_l", F::Loc(&n.operator_l)); f("name_l", F::Loc(&n.name_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::MatchPattern(n) => { f("value", F::N(&n.value)); f("pattern", F::N(&n.pattern)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::MatchPatternP(n) => { f("value", F::N(&n.value)); f("pattern", F::N(&n.pattern)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::MatchRest(n) => { f("name", F::OptN(n.name.as_deref())); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::MatchVar(n) => { f("name", F::S(&n.name)); f("name_l", F::Loc(&n.name_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::MatchWithLvasgn(n) => { f("re", F::N(&n.re)); f("value", F::N(&n.value)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Mlhs(n) => { f("items", F::Ns(&n.items)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Module(n) => { f("name", F::N(&n.name)); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Next(n) => { f("args", F::Ns(&n.args)); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Nil(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::NthRef(n) => { f("name", F::S(&n.name)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Numblock(n) => { f("call", F::N(&n.call)); f("numargs", F::U(n.numargs)); f("body", F::N(&n.body)); f("begin_l", F::Loc(&n.begin_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::OpAsgn(n) => { f("recv", F::N(&n.recv)); f("operator", F::S(&n.operator)); f("value", F::N(&n.value)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Optarg(n) => { f("name", F::S(&n.name)); f("default", F::N(&n.default)); f("name_l", F::Loc(&n.name_l)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Or(n) => { f("lhs", F::N(&n.lhs)); f("rhs", F::N(&n.rhs)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::OrAsgn(n) => { f("recv", F::N(&n.recv)); f("value", F::N(&n.value)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Pair(n) => { f("key", F::N(&n.key)); f("value", F::N(&n.value)); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Pin(n) => { f("var", F::N(&n.var)); f("selector_l", F::Loc(&n.selector_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Postexe(n) => { f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("begin_l", F::Loc(&n.begin_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Preexe(n) => { f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("begin_l", F::Loc(&n.begin_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Procarg0(n) => { f("args", F::Ns(&n.args)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Rational(n) => { f("value", F::S(&n.value)); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Redo(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::RegOpt(n) => { f("options", F::OptS(n.options.as_deref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Regexp(n) => { f("parts", F::Ns(&n.parts)); f("options", F::OptN(n.options.as_deref())); f("begin_l", F::Loc(&n.begin_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Rescue(n) => { f("body", F::OptN(n.body.as_deref())); f("rescue_bodies", F::Ns(&n.rescue_bodies)); f("else_", F::OptN(n.else_.as_deref())); f("else_l", F::OptLoc(n.else_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::RescueBody(n) => { f("exc_list", F::OptN(n.exc_list.as_deref())); f("exc_var", F::OptN(n.exc_var.as_deref())); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("assoc_l", F::OptLoc(n.assoc_l.as_ref())); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Restarg(n) => { f("name", F::OptS(n.name.as_deref())); f("operator_l", F::Loc(&n.operator_l)); f("name_l", F::OptLoc(n.name_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Retry(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::Return(n) => { f("args", F::Ns(&n.args)); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::SClass(n) => { f("expr", F::N(&n.expr)); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("operator_l", F::Loc(&n.operator_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Self_(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::Send(n) => { f("recv", F::OptN(n.recv.as_deref())); f("method_name", F::S(&n.method_name)); f("args", F::Ns(&n.args)); f("dot_l", F::OptLoc(n.dot_l.as_ref())); f("selector_l", F::OptLoc(n.selector_l.as_ref())); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("operator_l", F::OptLoc(n.operator_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Shadowarg(n) => { f("name", F::S(&n.name)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Splat(n) => { f("value", F::OptN(n.value.as_deref())); f("operator_l", F::Loc(&n.operator_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Str(n) => { f("value", F::B(&n.value)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Super(n) => { f("args", F::Ns(&n.args)); f("keyword_l", F::Loc(&n.keyword_l)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Sym(n) => { f("name", F::B(&n.name)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::True(n) => { f("expression_l", F::Loc(&n.expression_l)); }
        Node::Undef(n) => { f("names", F::Ns(&n.names)); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::UnlessGuard(n) => { f("cond", F::N(&n.cond)); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Until(n) => { f("cond", F::N(&n.cond)); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::UntilPost(n) => { f("cond", F::N(&n.cond)); f("body", F::N(&n.body)); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::When(n) => { f("patterns", F::Ns(&n.patterns)); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("begin_l", F::Loc(&n.begin_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::While(n) => { f("cond", F::N(&n.cond)); f("body", F::OptN(n.body.as_deref())); f("keyword_l", F::Loc(&n.keyword_l)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::WhilePost(n) => { f("cond", F::N(&n.cond)); f("body", F::N(&n.body)); f("keyword_l", F::Loc(&n.keyword_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::XHeredoc(n) => { f("parts", F::Ns(&n.parts)); f("heredoc_body_l", F::Loc(&n.heredoc_body_l)); f("heredoc_end_l", F::Loc(&n.heredoc_end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Xstr(n) => { f("parts", F::Ns(&n.parts)); f("begin_l", F::Loc(&n.begin_l)); f("end_l", F::Loc(&n.end_l)); f("expression_l", F::Loc(&n.expression_l)); }
        Node::Yield(n) => { f("args", F::Ns(&n.args)); f("keyword_l", F::Loc(&n.keyword_l)); f("begin_l", F::OptLoc(n.begin_l.as_ref())); f("end_l", F::OptLoc(n.end_l.as_ref())); f("expression_l", F::Loc(&n.expression_l)); }
        Node::ZSuper(n) => { f("expression_l", F::Loc(&n.expression_l)); }
    }
}
pub fn visit_mut(node: &mut Node, f: &mut dyn FnMut(&'static str, FM)) {
    match node {
        Node::Alias(n) => { f("to", FM::N(&mut n.to)); f("from", FM::N(&mut n.from)); f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::And(n) => { f("lhs", FM::N(&mut n.lhs)); f("rhs", FM::N(&mut n.rhs)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::AndAsgn(n) => { f("recv", FM::N(&mut n.recv)); f("value", FM::N(&mut n.value)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Arg(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Args(n) => { for l in n.args.iter_mut() { f("args", FM::N(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } }
        Node::Array(n) => { for l in n.elements.iter_mut() { f("elements", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::ArrayPattern(n) => { for l in n.elements.iter_mut() { f("elements", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::ArrayPatternWithTail(n) => { for l in n.elements.iter_mut() { f("elements", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::BackRef(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Begin(n) => { for l in n.statements.iter_mut() { f("statements", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Block(n) => { f("call", FM::N(&mut n.call)); if let Some(l) = n.args.as_deref_mut() { f("args", FM::N(l)); } if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("begin_l", FM::Loc(&mut n.begin_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::BlockPass(n) => { if let Some(l) = n.value.as_deref_mut() { f("value", FM::N(l)); } f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Blockarg(n) => { f("operator_l", FM::Loc(&mut n.operator_l)); if let Some(l) = n.name_l.as_mut() { f("name_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Break(n) => { for l in n.args.iter_mut() { f("args", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::CSend(n) => { f("recv", FM::N(&mut n.recv)); for l in n.args.iter_mut() { f("args", FM::N(l)); } f("dot_l", FM::Loc(&mut n.dot_l)); if let Some(l) = n.selector_l.as_mut() { f("selector_l", FM::Loc(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Case(n) => { if let Some(l) = n.expr.as_deref_mut() { f("expr", FM::N(l)); } for l in n.when_bodies.iter_mut() { f("when_bodies", FM::N(l)); } if let Some(l) = n.else_body.as_deref_mut() { f("else_body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); if let Some(l) = n.else_l.as_mut() { f("else_l", FM::Loc(l)); } f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::CaseMatch(n) => { f("expr", FM::N(&mut n.expr)); for l in n.in_bodies.iter_mut() { f("in_bodies", FM::N(l)); } if let Some(l) = n.else_body.as_deref_mut() { f("else_body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); if let Some(l) = n.else_l.as_mut() { f("else_l", FM::Loc(l)); } f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Casgn(n) => { if let Some(l) = n.scope.as_deref_mut() { f("scope", FM::N(l)); } if let Some(l) = n.value.as_deref_mut() { f("value", FM::N(l)); } if let Some(l) = n.double_colon_l.as_mut() { f("double_colon_l", FM::Loc(l)); } f("name_l", FM::Loc(&mut n.name_l)); if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Cbase(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Class(n) => { f("name", FM::N(&mut n.name)); if let Some(l) = n.superclass.as_deref_mut() { f("superclass", FM::N(l)); } if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Complex(n) => { if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Const(n) => { if let Some(l) = n.scope.as_deref_mut() { f("scope", FM::N(l)); } if let Some(l) = n.double_colon_l.as_mut() { f("double_colon_l", FM::Loc(l)); } f("name_l", FM::Loc(&mut n.name_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::ConstPattern(n) => { f("const_", FM::N(&mut n.const_)); f("pattern", FM::N(&mut n.pattern)); f("begin_l", FM::Loc(&mut n.begin_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Cvar(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Cvasgn(n) => { if let Some(l) = n.value.as_deref_mut() { f("value", FM::N(l)); } f("name_l", FM::Loc(&mut n.name_l)); if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Def(n) => { if let Some(l) = n.args.as_deref_mut() { f("args", FM::N(l)); } if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("name_l", FM::Loc(&mut n.name_l)); if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } if let Some(l) = n.assignment_l.as_mut() { f("assignment_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Defined(n) => { f("value", FM::N(&mut n.value)); f("keyword_l", FM::Loc(&mut n.keyword_l)); if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Defs(n) => { f("definee", FM::N(&mut n.definee)); if let Some(l) = n.args.as_deref_mut() { f("args", FM::N(l)); } if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("operator_l", FM::Loc(&mut n.operator_l)); f("name_l", FM::Loc(&mut n.name_l)); if let Some(l) = n.assignment_l.as_mut() { f("assignment_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Dstr(n) => { for l in n.parts.iter_mut() { f("parts", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Dsym(n) => { for l in n.parts.iter_mut() { f("parts", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::EFlipFlop(n) => { if let Some(l) = n.left.as_deref_mut() { f("left", FM::N(l)); } if let Some(l) = n.right.as_deref_mut() { f("right", FM::N(l)); } f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::EmptyElse(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Encoding(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Ensure(n) => { if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } if let Some(l) = n.ensure.as_deref_mut() { f("ensure", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Erange(n) => { if let Some(l) = n.left.as_deref_mut() { f("left", FM::N(l)); } if let Some(l) = n.right.as_deref_mut() { f("right", FM::N(l)); } f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::False(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::File(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::FindPattern(n) => { for l in n.elements.iter_mut() { f("elements", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Float(n) => { if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::For(n) => { f("iterator", FM::N(&mut n.iterator)); f("iteratee", FM::N(&mut n.iteratee)); if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("operator_l", FM::Loc(&mut n.operator_l)); f("begin_l", FM::Loc(&mut n.begin_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::ForwardArg(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::ForwardedArgs(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Gvar(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Gvasgn(n) => { if let Some(l) = n.value.as_deref_mut() { f("value", FM::N(l)); } f("name_l", FM::Loc(&mut n.name_l)); if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Hash(n) => { for l in n.pairs.iter_mut() { f("pairs", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::HashPattern(n) => { for l in n.elements.iter_mut() { f("elements", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Heredoc(n) => { for l in n.parts.iter_mut() { f("parts", FM::N(l)); } f("heredoc_body_l", FM::Loc(&mut n.heredoc_body_l)); f("heredoc_end_l", FM::Loc(&mut n.heredoc_end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::IFlipFlop(n) => { if let Some(l) = n.left.as_deref_mut() { f("left", FM::N(l)); } if let Some(l) = n.right.as_deref_mut() { f("right", FM::N(l)); } f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::If(n) => { f("cond", FM::N(&mut n.cond)); if let Some(l) = n.if_true.as_deref_mut() { f("if_true", FM::N(l)); } if let Some(l) = n.if_false.as_deref_mut() { f("if_false", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("begin_l", FM::Loc(&mut n.begin_l)); if let Some(l) = n.else_l.as_mut() { f("else_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::IfGuard(n) => { f("cond", FM::N(&mut n.cond)); f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::IfMod(n) => { f("cond", FM::N(&mut n.cond)); if let Some(l) = n.if_true.as_deref_mut() { f("if_true", FM::N(l)); } if let Some(l) = n.if_false.as_deref_mut() { f("if_false", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::IfTernary(n) => { f("cond", FM::N(&mut n.cond)); f("if_true", FM::N(&mut n.if_true)); f("if_false", FM::N(&mut n.if_false)); f("question_l", FM::Loc(&mut n.question_l)); f("colon_l", FM::Loc(&mut n.colon_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::InPattern(n) => { f("pattern", FM::N(&mut n.pattern)); if let Some(l) = n.guard.as_deref_mut() { f("guard", FM::N(l)); } if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("begin_l", FM::Loc(&mut n.begin_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Index(n) => { f("recv", FM::N(&mut n.recv)); for l in n.indexes.iter_mut() { f("indexes", FM::N(l)); } f("begin_l", FM::Loc(&mut n.begin_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::IndexAsgn(n) => { f("recv", FM::N(&mut n.recv)); for l in n.indexes.iter_mut() { f("indexes", FM::N(l)); } if let Some(l) = n.value.as_deref_mut() { f("value", FM::N(l)); } f("begin_l", FM::Loc(&mut n.begin_l)); f("end_l", FM::Loc(&mut n.end_l)); if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Int(n) => { if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Irange(n) => { if let Some(l) = n.left.as_deref_mut() { f("left", FM::N(l)); } if let Some(l) = n.right.as_deref_mut() { f("right", FM::N(l)); } f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Ivar(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Ivasgn(n) => { if let Some(l) = n.value.as_deref_mut() { f("value", FM::N(l)); } f("name_l", FM::Loc(&mut n.name_l)); if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::KwBegin(n) => { for l in n.statements.iter_mut() { f("statements", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Kwarg(n) => { f("name_l", FM::Loc(&mut n.name_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Kwargs(n) => { for l in n.pairs.iter_mut() { f("pairs", FM::N(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Kwnilarg(n) => { f("name_l", FM::Loc(&mut n.name_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Kwoptarg(n) => { f("default", FM::N(&mut n.default)); f("name_l", FM::Loc(&mut n.name_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Kwrestarg(n) => { f("operator_l", FM::Loc(&mut n.operator_l)); if let Some(l) = n.name_l.as_mut() { f("name_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Kwsplat(n) => { f("value", FM::N(&mut n.value)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Lambda(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Line(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Lvar(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Lvasgn(n) => { if let Some(l) = n.value.as_deref_mut() { f("value", FM::N(l)); } f("name_l", FM::Loc(&mut n.name_l)); if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Masgn(n) => { f("lhs", FM::N(&mut n.lhs)); f("rhs", FM::N(&mut n.rhs)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::MatchAlt(n) => { f("lhs", FM::N(&mut n.lhs)); f("rhs", FM::N(&mut n.rhs)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::MatchAs(n) => { f("value", FM::N(&mut n.value)); f("as_", FM::N(&mut n.as_)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::MatchCurrentLine(n) => { f("re", FM::N(&mut n.re)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::MatchNilPattern(n) => { f("operator_l", FM::Loc(&mut n.operator_l)); f("name_l", FM::Loc(&mut n.name_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::MatchPattern(n) => { f("value", FM::N(&mut n.value)); f("pattern", FM::N(&mut n.pattern)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::MatchPatternP(n) => { f("value", FM::N(&mut n.value)); f("pattern", FM::N(&mut n.pattern)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::MatchRest(n) => { if let Some(l) = n.name.as_deref_mut() { f("name", FM::N(l)); } f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::MatchVar(n) => { f("name_l", FM::Loc(&mut n.name_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::MatchWithLvasgn(n) => { f("re", FM::N(&mut n.re)); f("value", FM::N(&mut n.value)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Mlhs(n) => { for l in n.items.iter_mut() { f("items", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Module(n) => { f("name", FM::N(&mut n.name)); if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Next(n) => { for l in n.args.iter_mut() { f("args", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Nil(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::NthRef(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Numblock(n) => { f("call", FM::N(&mut n.call)); f("body", FM::N(&mut n.body)); f("begin_l", FM::Loc(&mut n.begin_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::OpAsgn(n) => { f("recv", FM::N(&mut n.recv)); f("value", FM::N(&mut n.value)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Optarg(n) => { f("default", FM::N(&mut n.default)); f("name_l", FM::Loc(&mut n.name_l)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Or(n) => { f("lhs", FM::N(&mut n.lhs)); f("rhs", FM::N(&mut n.rhs)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::OrAsgn(n) => { f("recv", FM::N(&mut n.recv)); f("value", FM::N(&mut n.value)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Pair(n) => { f("key", FM::N(&mut n.key)); f("value", FM::N(&mut n.value)); f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Pin(n) => { f("var", FM::N(&mut n.var)); f("selector_l", FM::Loc(&mut n.selector_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Postexe(n) => { if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("begin_l", FM::Loc(&mut n.begin_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Preexe(n) => { if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("begin_l", FM::Loc(&mut n.begin_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Procarg0(n) => { for l in n.args.iter_mut() { f("args", FM::N(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Rational(n) => { if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Redo(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::RegOpt(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Regexp(n) => { for l in n.parts.iter_mut() { f("parts", FM::N(l)); } if let Some(l) = n.options.as_deref_mut() { f("options", FM::N(l)); } f("begin_l", FM::Loc(&mut n.begin_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Rescue(n) => { if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } for l in n.rescue_bodies.iter_mut() { f("rescue_bodies", FM::N(l)); } if let Some(l) = n.else_.as_deref_mut() { f("else_", FM::N(l)); } if let Some(l) = n.else_l.as_mut() { f("else_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::RescueBody(n) => { if let Some(l) = n.exc_list.as_deref_mut() { f("exc_list", FM::N(l)); } if let Some(l) = n.exc_var.as_deref_mut() { f("exc_var", FM::N(l)); } if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); if let Some(l) = n.assoc_l.as_mut() { f("assoc_l", FM::Loc(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Restarg(n) => { f("operator_l", FM::Loc(&mut n.operator_l)); if let Some(l) = n.name_l.as_mut() { f("name_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Retry(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Return(n) => { for l in n.args.iter_mut() { f("args", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::SClass(n) => { f("expr", FM::N(&mut n.expr)); if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("operator_l", FM::Loc(&mut n.operator_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Self_(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Send(n) => { if let Some(l) = n.recv.as_deref_mut() { f("recv", FM::N(l)); } for l in n.args.iter_mut() { f("args", FM::N(l)); } if let Some(l) = n.dot_l.as_mut() { f("dot_l", FM::Loc(l)); } if let Some(l) = n.selector_l.as_mut() { f("selector_l", FM::Loc(l)); } if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } if let Some(l) = n.operator_l.as_mut() { f("operator_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Shadowarg(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Splat(n) => { if let Some(l) = n.value.as_deref_mut() { f("value", FM::N(l)); } f("operator_l", FM::Loc(&mut n.operator_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Str(n) => { if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Super(n) => { for l in n.args.iter_mut() { f("args", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Sym(n) => { if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::True(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Undef(n) => { for l in n.names.iter_mut() { f("names", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::UnlessGuard(n) => { f("cond", FM::N(&mut n.cond)); f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Until(n) => { f("cond", FM::N(&mut n.cond)); if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::UntilPost(n) => { f("cond", FM::N(&mut n.cond)); f("body", FM::N(&mut n.body)); f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::When(n) => { for l in n.patterns.iter_mut() { f("patterns", FM::N(l)); } if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); f("begin_l", FM::Loc(&mut n.begin_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::While(n) => { f("cond", FM::N(&mut n.cond)); if let Some(l) = n.body.as_deref_mut() { f("body", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::WhilePost(n) => { f("cond", FM::N(&mut n.cond)); f("body", FM::N(&mut n.body)); f("keyword_l", FM::Loc(&mut n.keyword_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::XHeredoc(n) => { for l in n.parts.iter_mut() { f("parts", FM::N(l)); } f("heredoc_body_l", FM::Loc(&mut n.heredoc_body_l)); f("heredoc_end_l", FM::Loc(&mut n.heredoc_end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Xstr(n) => { for l in n.parts.iter_mut() { f("parts", FM::N(l)); } f("begin_l", FM::Loc(&mut n.begin_l)); f("end_l", FM::Loc(&mut n.end_l)); f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::Yield(n) => { for l in n.args.iter_mut() { f("args", FM::N(l)); } f("keyword_l", FM::Loc(&mut n.keyword_l)); if let Some(l) = n.begin_l.as_mut() { f("begin_l", FM::Loc(l)); } if let Some(l) = n.end_l.as_mut() { f("end_l", FM::Loc(l)); } f("expression_l", FM::Loc(&mut n.expression_l)); }
        Node::ZSuper(n) => { f("expression_l", FM::Loc(&mut n.expression_l)); }
    }
}
pub fn type_name(node: &Node) -> &'static str {
    match node {
        Node::Alias(_) => "Alias",
        Node::And(_) => "And",
        Node::AndAsgn(_) => "AndAsgn",
        Node::Arg(_) => "Arg",
        Node::Args(_) => "Args",
        Node::Array(_) => "Array",
        Node::ArrayPattern(_) => "ArrayPattern",
        Node::ArrayPatternWithTail(_) => "ArrayPatternWithTail",
        Node::BackRef(_) => "BackRef",
        Node::Begin(_) => "Begin",
        Node::Block(_) => "Block",
        Node::BlockPass(_) => "BlockPass",
        Node::Blockarg(_) => "Blockarg",
        Node::Break(_) => "Break",
        Node::CSend(_) => "CSend",
        Node::Case(_) => "Case",
        Node::CaseMatch(_) => "CaseMatch",
        Node::Casgn(_) => "Casgn",
        Node::Cbase(_) => "Cbase",
        Node::Class(_) => "Class",
        Node::Complex(_) => "Complex",
        Node::Const(_) => "Const",
        Node::ConstPattern(_) => "ConstPattern",
        Node::Cvar(_) => "Cvar",
        Node::Cvasgn(_) => "Cvasgn",
        Node::Def(_) => "Def",
        Node::Defined(_) => "Defined",
        Node::Defs(_) => "Defs",
        Node::Dstr(_) => "Dstr",
        Node::Dsym(_) => "Dsym",
        Node::EFlipFlop(_) => "EFlipFlop",
        Node::EmptyElse(_) => "EmptyElse",
        Node::Encoding(_) => "Encoding",
        Node::Ensure(_) => "Ensure",
        Node::Erange(_) => "Erange",
        Node::False(_) => "False",
        Node::File(_) => "File",
        Node::FindPattern(_) => "FindPattern",
        Node::Float(_) => "Float",
        Node::For(_) => "For",
        Node::ForwardArg(_) => "ForwardArg",
        Node::ForwardedArgs(_) => "ForwardedArgs",
        Node::Gvar(_) => "Gvar",
        Node::Gvasgn(_) => "Gvasgn",
        Node::Hash(_) => "Hash",
        Node::HashPattern(_) => "HashPattern",
        Node::Heredoc(_) => "Heredoc",
        Node::IFlipFlop(_) => "IFlipFlop",
        Node::If(_) => "If",
        Node::IfGuard(_) => "IfGuard",
        Node::IfMod(_) => "IfMod",
        Node::IfTernary(_) => "IfTernary",
        Node::InPattern(_) => "InPattern",
        Node::Index(_) => "Index",
        Node::IndexAsgn(_) => "IndexAsgn",
        Node::Int(_) => "Int",
        Node::Irange(_) => "Irange",
        Node::Ivar(_) => "Ivar",
        Node::Ivasgn(_) => "Ivasgn",
        Node::KwBegin(_) => "KwBegin",
        Node::Kwarg(_) => "Kwarg",
        Node::Kwargs(_) => "Kwargs",
        Node::Kwnilarg(_) => "Kwnilarg",
        Node::Kwoptarg(_) => "Kwoptarg",
        Node::Kwrestarg(_) => "Kwrestarg",
        Node::Kwsplat(_) => "Kwsplat",
        Node::Lambda(_) => "Lambda",
        Node::Line(_) => "Line",
        Node::Lvar(_) => "Lvar",
        Node::Lvasgn(_) => "Lvasgn",
        Node::Masgn(_) => "Masgn",
        Node::MatchAlt(_) => "MatchAlt",
        Node::MatchAs(_) => "MatchAs",
        Node::MatchCurrentLine(_) => "MatchCurrentLine",
        Node::MatchNilPattern(_) => "MatchNilPattern",
        Node::MatchPattern(_) => "MatchPattern",
        Node::MatchPatternP(_) => "MatchPatternP",
        Node::MatchRest(_) => "MatchRest",
        Node::MatchVar(_) => "MatchVar",
        Node::MatchWithLvasgn(_) => "MatchWithLvasgn",
        Node::Mlhs(_) => "Mlhs",
        Node::Module(_) => "Module",
        Node::Next(_) => "Next",
        Node::Nil(_) => "Nil",
        Node::NthRef(_) => "NthRef",
        Node::Numblock(_) => "Numblock",
        Node::OpAsgn(_) => "OpAsgn",
        Node::Optarg(_) => "Optarg",
        Node::Or(_) => "Or",
        Node::OrAsgn(_) => "OrAsgn",
        Node::Pair(_) => "Pair",
        Node::Pin(_) => "Pin",
        Node::Postexe(_) => "Postexe",
        Node::Preexe(_) => "Preexe",
        Node::Procarg0(_) => "Procarg0",
        Node::Rational(_) => "Rational",
        Node::Redo(_) => "Redo",
        Node::RegOpt(_) => "RegOpt",
        Node::Regexp(_) => "Regexp",
        Node::Rescue(_) => "Rescue",
        Node::RescueBody(_) => "RescueBody",
        Node::Restarg(_) => "Restarg",
        Node::Retry(_) => "Retry",
        Node::Return(_) => "Return",
        Node::SClass(_) => "SClass",
        Node::Self_(_) => "Self_",
        Node::Send(_) => "Send",
        Node::Shadowarg(_) => "Shadowarg",
        Node::Splat(_) => "Splat",
        Node::Str(_) => "Str",
        Node::Super(_) => "Super",
        Node::Sym(_) => "Sym",
        Node::True(_) => "True",
        Node::Undef(_) => "Undef",
        Node::UnlessGuard(_) => "UnlessGuard",
        Node::Until(_) => "Until",
        Node::UntilPost(_) => "UntilPost",
        Node::When(_) => "When",
        Node::While(_) => "While",
        Node::WhilePost(_) => "WhilePost",
        Node::XHeredoc(_) => "XHeredoc",
        Node::Xstr(_) => "Xstr",
        Node::Yield(_) => "Yield",
        Node::ZSuper(_) => "ZSuper",
    }
}
