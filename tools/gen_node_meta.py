#!/usr/bin/env python3
"""Generates mc/src/meta.rs (generic node introspection) from the AST crate's struct definitions."""
import re,glob,os
base=glob.glob(os.path.expanduser('~/.cargo/registry/src/*/lib-ruby-parser-ast-0.55.0/src/nodes/types/*.rs'))
out=["// generated by tools/gen_node_meta.py","#![allow(unused_variables)]","use lib_ruby_parser::{Node, Loc, Bytes};","",
"pub enum F<'a> { Loc(&'a Loc), OptLoc(Option<&'a Loc>), N(&'a Node), OptN(Option<&'a Node>), Ns(&'a [Node]), S(&'a str), OptS(Option<&'a str>), B(&'a Bytes), U(u8) }",
"pub enum FM<'a> { Loc(&'a mut Loc), N(&'a mut Node) }"]
names=[]
vis=[];vm=[];tn=[]
for f in sorted(base):
    t=open(f).read()
    m=re.search(r'pub struct (\w+) \{(.*?)\n\}',t,re.S)
    if not m: continue
    n=m.group(1); v=n
    fs=re.findall(r'pub (\w+): ([^,\n]+),',m.group(2))
    b=[];bm=[]
    for a,ty in fs:
        k={'Loc':f'F::Loc(&n.{a})','Option<Loc>':f'F::OptLoc(n.{a}.as_ref())','Box<Node>':f'F::N(&n.{a})','Option<Box<Node>>':f'F::OptN(n.{a}.as_deref())','Vec<Node>':f'F::Ns(&n.{a})','String':f'F::S(&n.{a})','Option<String>':f'F::OptS(n.{a}.as_deref())','Bytes':f'F::B(&n.{a})','u8':f'F::U(n.{a})'}[ty]
        b.append(f'f("{a}", {k});')
        if ty=='Loc': bm.append(f'f("{a}", FM::Loc(&mut n.{a}));')
        elif ty=='Option<Loc>': bm.append(f'if let Some(l) = n.{a}.as_mut() {{ f("{a}", FM::Loc(l)); }}')
        elif ty=='Box<Node>': bm.append(f'f("{a}", FM::N(&mut n.{a}));')
        elif ty=='Option<Box<Node>>': bm.append(f'if let Some(l) = n.{a}.as_deref_mut() {{ f("{a}", FM::N(l)); }}')
        elif ty=='Vec<Node>': bm.append(f'for l in n.{a}.iter_mut() {{ f("{a}", FM::N(l)); }}')
    vis.append(f'        Node::{v}(n) => {{ {" ".join(b)} }}')
    vm.append(f'        Node::{v}(n) => {{ {" ".join(bm)} }}')
    tn.append(f'        Node::{v}(_) => "{n}",')
out.append("pub fn visit<'a>(node: &'a Node, f: &mut dyn FnMut(&'static str, F<'a>)) {\n    match node {"); out+=vis; out.append("    }\n}")
out.append("pub fn visit_mut(node: &mut Node, f: &mut dyn FnMut(&'static str, FM)) {\n    match node {"); out+=vm; out.append("    }\n}")
out.append("pub fn type_name(node: &Node) -> &'static str {\n    match node {"); out+=tn; out.append("    }\n}")
open('/verif/mc/src/meta.rs','w').write("\n".join(out)+"\n")
