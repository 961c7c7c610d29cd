//! Short constructors for expected nodes.
#![allow(dead_code)]
pub use lib_ruby_parser::nodes::*;
pub use lib_ruby_parser::{Bytes, Loc, Node};

pub fn b(n: Node) -> Box<Node> {
    Box::new(n)
}
pub fn ob(n: Option<Node>) -> Option<Box<Node>> {
    n.map(Box::new)
}
pub fn e(n: &Node) -> Loc {
    *n.expression()
}
pub fn l(begin: usize, end: usize) -> Loc {
    Loc { begin, end }
}
pub fn j(a: Loc, b: Loc) -> Loc {
    Loc { begin: a.begin, end: b.end }
}
pub fn je(a: &Node, b: &Node) -> Loc {
    j(e(a), e(b))
}
pub fn bytes(s: &[u8]) -> Bytes {
    Bytes::new(s.to_vec())
}
pub fn int(v: &str, el: Loc) -> Node {
    Node::Int(Int { value: v.into(), operator_l: None, expression_l: el })
}
pub fn ident_send(name: &str, el: Loc) -> Node {
    Node::Send(Send { recv: None, method_name: name.into(), args: vec![], dot_l: None, selector_l: Some(el), begin_l: None, end_l: None, operator_l: None, expression_l: el })
}
pub fn lvar(name: &str, el: Loc) -> Node {
    Node::Lvar(Lvar { name: name.into(), expression_l: el })
}
pub fn konst(name: &str, el: Loc) -> Node {
    Node::Const(Const { scope: None, name: name.into(), double_colon_l: None, name_l: el, expression_l: el })
}
pub fn fcall(name: &str, nl: Loc, bl: Option<Loc>, args: Vec<Node>, el: Option<Loc>) -> Node {
    let end = el.or_else(|| args.last().map(e)).unwrap_or(nl);
    Node::Send(Send { recv: None, method_name: name.into(), args, dot_l: None, selector_l: Some(nl), begin_l: bl, end_l: el, operator_l: None, expression_l: j(nl, end) })
}
/// method call with receiver; `safe` for `&.`
pub fn mcall(recv: Node, dot: Loc, safe: bool, name: &str, nl: Option<Loc>, bl: Option<Loc>, args: Vec<Node>, el: Option<Loc>) -> Node {
    let end = el.or_else(|| args.last().map(e)).or(nl).unwrap();
    let expression_l = j(e(&recv), end);
    if safe {
        Node::CSend(CSend { recv: b(recv), method_name: name.into(), args, dot_l: dot, selector_l: nl, begin_l: bl, end_l: el, operator_l: None, expression_l })
    } else {
        Node::Send(Send { recv: Some(b(recv)), method_name: name.into(), args, dot_l: Some(dot), selector_l: nl, begin_l: bl, end_l: el, operator_l: None, expression_l })
    }
}
pub fn binop(lhs: Node, op: &str, ol: Loc, rhs: Node) -> Node {
    let expression_l = je(&lhs, &rhs);
    match op {
        "&&" | "and" => Node::And(And { lhs: b(lhs), rhs: b(rhs), operator_l: ol, expression_l }),
        "||" | "or" => Node::Or(Or { lhs: b(lhs), rhs: b(rhs), operator_l: ol, expression_l }),
        ".." => Node::Irange(Irange { left: Some(b(lhs)), right: Some(b(rhs)), operator_l: ol, expression_l }),
        "..." => Node::Erange(Erange { left: Some(b(lhs)), right: Some(b(rhs)), operator_l: ol, expression_l }),
        _ => Node::Send(Send { recv: Some(b(lhs)), method_name: op.into(), args: vec![rhs], dot_l: None, selector_l: Some(ol), begin_l: None, end_l: None, operator_l: None, expression_l }),
    }
}
pub fn unop(name: &str, ol: Loc, v: Node) -> Node {
    let expression_l = j(ol, e(&v));
    Node::Send(Send { recv: Some(b(v)), method_name: name.into(), args: vec![], dot_l: None, selector_l: Some(ol), begin_l: None, end_l: None, operator_l: None, expression_l })
}
pub fn begin(st: Vec<Node>, bl: Loc, el: Loc) -> Node {
    Node::Begin(Begin { statements: st, begin_l: Some(bl), end_l: Some(el), expression_l: j(bl, el) })
}
/// `( body )` where body is a compstmt: a synthesized multi-statement Begin is merged.
pub fn parens(bl: Loc, body: Option<Node>, el: Loc) -> Node {
    match body {
        None => begin(vec![], bl, el),
        Some(Node::Begin(Begin { statements, begin_l: None, end_l: None, .. })) => begin(statements, bl, el),
        Some(Node::Mlhs(mut m)) => {
            m.begin_l = Some(bl);
            m.end_l = Some(el);
            m.expression_l = j(bl, el);
            Node::Mlhs(m)
        }
        Some(x) => begin(vec![x], bl, el),
    }
}
pub fn kwbegin(bl: Loc, body: Option<Node>, el: Loc) -> Node {
    let statements = match body {
        None => vec![],
        Some(Node::Begin(Begin { statements, begin_l: None, end_l: None, .. })) => statements,
        Some(x) => vec![x],
    };
    Node::KwBegin(KwBegin { statements, begin_l: Some(bl), end_l: Some(el), expression_l: j(bl, el) })
}
pub fn compstmt(mut v: Vec<Node>) -> Option<Node> {
    match v.len() {
        0 => None,
        1 => v.pop(),
        _ => {
            let expression_l = je(&v[0], &v[v.len() - 1]);
            Some(Node::Begin(Begin { statements: v, begin_l: None, end_l: None, expression_l }))
        }
    }
}
pub fn array(v: Vec<Node>, bl: Option<Loc>, el: Option<Loc>) -> Node {
    let f = bl.or_else(|| v.first().map(e)).unwrap();
    let t = el.or_else(|| v.last().map(e)).unwrap();
    Node::Array(Array { elements: v, begin_l: bl, end_l: el, expression_l: j(f, t) })
}
pub fn hash(v: Vec<Node>, bl: Option<Loc>, el: Option<Loc>) -> Node {
    let f = bl.or_else(|| v.first().map(e)).unwrap();
    let t = el.or_else(|| v.last().map(e)).unwrap();
    Node::Hash(Hash { pairs: v, begin_l: bl, end_l: el, expression_l: j(f, t) })
}
pub fn kwargs(v: Vec<Node>) -> Node {
    let el = je(&v[0], &v[v.len() - 1]);
    Node::Kwargs(Kwargs { pairs: v, expression_l: el })
}
pub fn splat(ol: Loc, v: Option<Node>) -> Node {
    let expression_l = v.as_ref().map(|v| j(ol, e(v))).unwrap_or(ol);
    Node::Splat(Splat { value: ob(v), operator_l: ol, expression_l })
}
pub fn kwsplat(ol: Loc, v: Node) -> Node {
    let expression_l = j(ol, e(&v));
    Node::Kwsplat(Kwsplat { value: b(v), operator_l: ol, expression_l })
}
pub fn block_pass(ol: Loc, v: Option<Node>) -> Node {
    let expression_l = v.as_ref().map(|v| j(ol, e(v))).unwrap_or(ol);
    Node::BlockPass(BlockPass { value: ob(v), operator_l: ol, expression_l })
}
pub fn pair(k: Node, ol: Loc, v: Node) -> Node {
    let expression_l = je(&k, &v);
    Node::Pair(Pair { key: b(k), value: b(v), operator_l: ol, expression_l })
}
pub fn sym(name: &[u8], bl: Option<Loc>, el: Loc) -> Node {
    Node::Sym(Sym { name: bytes(name), begin_l: bl, end_l: None, expression_l: el })
}
/// `name: value` pair; `nl` is the location of the name without the colon, `cl` of the colon.
pub fn label_pair(name: &str, nl: Loc, cl: Loc, v: Node) -> Node {
    let key = Node::Sym(Sym { name: bytes(name.as_bytes()), begin_l: None, end_l: None, expression_l: nl });
    let expression_l = j(nl, e(&v));
    Node::Pair(Pair { key: b(key), value: b(v), operator_l: cl, expression_l })
}
pub fn str_(v: &[u8], bl: Option<Loc>, el: Option<Loc>, x: Loc) -> Node {
    Node::Str(Str { value: bytes(v), begin_l: bl, end_l: el, expression_l: x })
}
pub fn block(call: Node, args: Option<Node>, body: Option<Node>, bl: Loc, el: Loc) -> Node {
    let expression_l = j(e(&call), el);
    Node::Block(Block { call: b(call), args: ob(args), body: ob(body), begin_l: bl, end_l: el, expression_l })
}
pub fn rescue_mod(body: Node, kw: Loc, v: Node) -> Node {
    let rb_l = j(kw, e(&v));
    let expression_l = j(e(&body), rb_l);
    Node::Rescue(Rescue {
        body: Some(b(body)),
        rescue_bodies: vec![Node::RescueBody(RescueBody { exc_list: None, exc_var: None, body: Some(b(v)), keyword_l: kw, assoc_l: None, begin_l: None, expression_l: rb_l })],
        else_: None,
        else_l: None,
        expression_l,
    })
}
/// Ruby evaluates regexps and ranges in a condition specially.
pub fn cond(n: Node) -> Node {
    match n {
        Node::Begin(mut x) if x.statements.len() == 1 => {
            let s = x.statements.pop().unwrap();
            x.statements.push(cond(s));
            Node::Begin(x)
        }
        Node::And(x) => Node::And(And { lhs: b(cond(*x.lhs)), rhs: b(cond(*x.rhs)), ..x }),
        Node::Or(x) => Node::Or(Or { lhs: b(cond(*x.lhs)), rhs: b(cond(*x.rhs)), ..x }),
        Node::Irange(x) => Node::IFlipFlop(IFlipFlop { left: x.left.map(|v| b(cond(*v))), right: x.right.map(|v| b(cond(*v))), operator_l: x.operator_l, expression_l: x.expression_l }),
        Node::Erange(x) => Node::EFlipFlop(EFlipFlop { left: x.left.map(|v| b(cond(*v))), right: x.right.map(|v| b(cond(*v))), operator_l: x.operator_l, expression_l: x.expression_l }),
        Node::Regexp(x) => {
            let el = x.expression_l;
            Node::MatchCurrentLine(MatchCurrentLine { re: b(Node::Regexp(x)), expression_l: el })
        }
        o => o,
    }
}
/// assignment target with value attached
pub fn asgn(target: Node, ol: Loc, v: Node) -> Node {
    let el = je(&target, &v);
    let (o, v) = (Some(ol), Some(b(v)));
    match target {
        Node::Lvasgn(x) => Node::Lvasgn(Lvasgn { value: v, operator_l: o, expression_l: el, ..x }),
        Node::Ivasgn(x) => Node::Ivasgn(Ivasgn { value: v, operator_l: o, expression_l: el, ..x }),
        Node::Gvasgn(x) => Node::Gvasgn(Gvasgn { value: v, operator_l: o, expression_l: el, ..x }),
        Node::Cvasgn(x) => Node::Cvasgn(Cvasgn { value: v, operator_l: o, expression_l: el, ..x }),
        Node::Casgn(x) => Node::Casgn(Casgn { value: v, operator_l: o, expression_l: el, ..x }),
        Node::IndexAsgn(x) => Node::IndexAsgn(IndexAsgn { value: v, operator_l: o, expression_l: el, ..x }),
        Node::Send(x) => Node::Send(Send { args: vec![*v.unwrap()], operator_l: o, expression_l: el, ..x }),
        Node::CSend(x) => Node::CSend(CSend { args: vec![*v.unwrap()], operator_l: o, expression_l: el, ..x }),
        o => panic!("HARNESS asgn target {o:?}"),
    }
}
pub fn op_asgn(target: Node, op: &str, ol: Loc, v: Node) -> Node {
    let expression_l = je(&target, &v);
    match op {
        "&&" => Node::AndAsgn(AndAsgn { recv: b(target), value: b(v), operator_l: ol, expression_l }),
        "||" => Node::OrAsgn(OrAsgn { recv: b(target), value: b(v), operator_l: ol, expression_l }),
        _ => Node::OpAsgn(OpAsgn { recv: b(target), operator: op.into(), value: b(v), operator_l: ol, expression_l }),
    }
}
pub fn lvasgn(name: &str, nl: Loc) -> Node {
    Node::Lvasgn(Lvasgn { name: name.into(), value: None, name_l: nl, operator_l: None, expression_l: nl })
}
