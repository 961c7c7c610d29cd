//! Properties decided by generating programs together with the tree they must parse to.
use super::*;
use crate::g::*;
use crate::n::*;
use crate::oracle::*;

pub type C = for<'a, 'b> fn(&'a mut G<'b>) -> Node;

/// one construct at the top level, its sub-expressions ranging over all constructs
fn one(name: &'static str, budget: u32, depth: i32, triv: Triv, f: C) -> Family {
    let t = match triv { Triv::Off => "", Triv::On => "/layout", Triv::Comments => "/comments" };
    fam(format!("{name}{t}/depth{depth}"), budget, move |c, ctx| {
        let mut g = G::new(c);
        g.rich = 2;
        g.depth = depth;
        g.triv = triv;
        let n = f(&mut g);
        expect(ctx, &g, Some(n));
    })
}
/// one construct inside every kind of surrounding body
pub fn fams(list: &[(&'static str, C)], k: u32, depth: i32, triv: Triv) -> Vec<Family> {
    list.iter().map(|(n, f)| one(n, k, depth, triv, *f)).collect()
}

/// one construct with plain names for sub-expressions, and many optional parts at a time
pub fn wide(list: &[(&'static str, C)], k: u32) -> Vec<Family> {
    list.iter().map(|(n, f)| {
        let f = *f;
        fam(format!("{n}/flat"), k, move |c, ctx| {
            let mut g = G::new(c);
            let n = f(&mut g);
            expect(ctx, &g, Some(n));
        })
    }).collect()
}

const CONTROL: &[(&str, C)] = &[
    ("if", |g| g.c_if()), ("unless", |g| g.c_unless()), ("ternary", |g| g.c_ternary()), ("while", |g| g.c_while()),
    ("case", |g| g.c_case()), ("for", |g| g.c_for()), ("begin", |g| g.c_begin()), ("modifier", |g| g.c_mod()), ("rescue-mod", |g| g.c_rescue_mod()),
];
const REST: &[(&str, C)] = &[
    ("paren", |g| g.c_paren()), ("fcall", |g| g.c_fcall()), ("mcall", |g| g.c_mcall()), ("index", |g| g.c_index()), ("array", |g| g.c_array()), ("hash", |g| g.c_hash()),
    ("block", |g| g.c_block()), ("lambda", |g| g.c_lambda()), ("def", |g| g.c_def()), ("const_path", |g| g.c_const_path()), ("dstr", |g| g.c_dstr()), ("defined", |g| g.c_defined()),
    ("class", |g| g.c_class()), ("module", |g| g.c_module()), ("sclass", |g| g.c_sclass()), ("case_in", |g| g.c_case_in()), ("words", |g| g.c_words()), ("regexp", |g| g.c_regexp()),
    ("not_paren", |g| g.c_not_paren()), ("yield_super", |g| g.c_yield_super()), ("xstr_sym", |g| g.c_xstr_sym()),
    ("asgn", |g| g.c_asgn()), ("op_asgn", |g| g.c_op_asgn()), ("masgn", |g| g.c_masgn()), ("command", |g| g.c_command()), ("alias", |g| g.c_alias()), ("undef", |g| g.c_undef()),
    ("binop", |g| g.c_binop()), ("logic", |g| g.c_logic()), ("match_pattern", |g| g.c_match_pattern()), ("endless_def", |g| g.c_endless_def()), ("unary", |g| g.c_unary()),
    ("cmd_block", |g| g.c_cmd_block()), ("not", |g| g.c_not()), ("range", |g| g.c_range()), ("postexe", |g| g.c_postexe()),
];

fn pick(names: &[&str]) -> Vec<(&'static str, C)> {
    let v: Vec<(&'static str, C)> = CONTROL.iter().chain(REST).filter(|(n, _)| names.contains(n)).copied().collect();
    assert!(v.len() == names.len(), "HARNESS: unknown construct");
    v
}
pub fn all_cons() -> Vec<(&'static str, C)> {
    CONTROL.iter().chain(REST).copied().collect()
}
pub const GEN_RULE: &str = "Each execution resolves every choice point of a reference grammar of Ruby (which construct, which optional parts, which nested constructs, which layout) and emits a program together with the complete tree, with all locations, that Ruby's rules give it. All choice sequences with at most K deviations from the default choice are run (K and nesting depth per family below); the parser's tree must equal the expected one, field by field, with no diagnostics. An input counts as non-trivial when it was parsed and compared to the end.";
pub const GEN_ASSUME: &[&str] = &["the reference grammar in mc/src/cons.rs states Ruby 3.1 behaviour as documented for this parser", "programs needing more than K simultaneous deviations from the default shapes are outside the bound"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P03", rule: GEN_RULE, assumptions: GEN_ASSUME, families: |th| {
            let mut v = fams(&all_cons(), if th { 4 } else { 3 }, 2, Triv::Off);
            v.extend(wide(&all_cons(), if th { 8 } else { 6 }));
            v.extend(super::slots::families("P03", th));
            v
        } },
        Prop { id: "P13", rule: GEN_RULE, assumptions: GEN_ASSUME, families: |th| {
            let mut v = super::layout::families(th);
            if th {
                v.extend(fams(&all_cons(), 3, 2, Triv::On));
                return v;
            }
            v.extend(fams(&all_cons(), 2, 2, Triv::On));
            v.extend(fams(&all_cons(), 3, 1, Triv::On));
            v
        } },
        Prop { id: "P20", rule: GEN_RULE, assumptions: GEN_ASSUME, families: |th| {
            let mut v = fams(&pick(&["fcall", "mcall", "index", "command", "yield_super", "block", "cmd_block", "not", "not_paren", "unary", "binop", "lambda"]), if th { 4 } else { 3 }, 2, Triv::Off);
            v.extend(wide(&pick(&["fcall", "mcall", "index", "command", "yield_super", "block", "cmd_block", "lambda"]), if th { 8 } else { 6 }));
            v.extend(super::calls::arg_families(th));
            v.extend(super::slots::families("P20", th));
            v
        } },
        Prop { id: "P21", rule: GEN_RULE, assumptions: GEN_ASSUME, families: |th| {
            let mut v = fams(CONTROL, if th { 4 } else { 3 }, 2, Triv::Off);
            v.extend(wide(CONTROL, if th { 8 } else { 6 }));
            v.extend(super::calls::cond_families(th));
            v.extend(super::slots::families("P21", th));
            v
        } },
        Prop { id: "P22", rule: GEN_RULE, assumptions: GEN_ASSUME, families: |th| {
            let mut v = fams(&pick(&["asgn", "op_asgn", "masgn"]), if th { 4 } else { 3 }, 2, Triv::Off);
            v.extend(wide(&pick(&["asgn", "op_asgn", "masgn"]), if th { 8 } else { 6 }));
            v.extend(super::calls::cond_families(th));
            v.extend(super::captures::families(th));
            v.extend(super::slots::families("P22", th));
            v
        } },
        Prop { id: "P23", rule: GEN_RULE, assumptions: GEN_ASSUME, families: |th| {
            let mut v = fams(&pick(&["def", "endless_def", "class", "module", "sclass", "alias", "undef", "postexe", "const_path"]), if th { 4 } else { 3 }, 2, Triv::Off);
            v.extend(wide(&pick(&["def", "endless_def", "class", "module", "sclass", "alias", "undef", "postexe", "const_path"]), if th { 8 } else { 6 }));
            v.extend(super::slots::families("P23", th));
            v.push(super::slots::named_like_local());
            v
        } },
        Prop { id: "P26", rule: GEN_RULE, assumptions: GEN_ASSUME, families: |th| {
            let mut v = fams(&pick(&["array", "hash", "range", "words", "xstr_sym", "dstr"]), if th { 4 } else { 3 }, 2, Triv::Off);
            v.extend(wide(&pick(&["array", "hash", "range", "words", "xstr_sym", "dstr"]), if th { 8 } else { 6 }));
            v.extend(super::calls::arg_families(th));
            v.extend(super::calls::word_families(th));
            v.extend(super::slots::families("P26", th));
            v
        } },
        Prop { id: "PX", rule: "dev", assumptions: &[], families: |_| {
            let k = std::env::var("K").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let d = std::env::var("D").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            if let Ok(p) = std::env::var("SLOTS") {
                return super::slots::families(Box::leak(p.into_boxed_str()), false);
            }
            let t = match std::env::var("T").as_deref() { Ok("1") => Triv::On, Ok("2") => Triv::Comments, _ => Triv::Off };
            if d < 0 { return wide(&all_cons(), k); }
            fams(&all_cons(), k, d, t)
        } },
    ]
}
