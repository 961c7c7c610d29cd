//! Which families of executions decide which property.
use crate::chooser::Chooser;
use crate::run::Ctx;

mod after;
pub mod api;
mod bal;
mod blocks;
mod borrow;
pub mod calls;
mod captures;
mod comments;
mod heredoc;
mod layout;
mod lit;
mod num;
mod ops;
mod params;
mod patterns;
mod rules;
mod scope;
mod sizes;
mod slots;
mod soup;
mod tree;
mod vars;
mod malformed;
mod warn;
mod words;

pub struct Family {
    pub name: String,
    pub budget: u32,
    pub dedup: bool,
    pub f: Box<dyn Fn(&mut Chooser, &mut Ctx) + Sync>,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: fn(bool) -> Vec<Family>,
}
impl Prop {
    /// the families that belong to this property alone
    pub fn own(&self, thorough: bool) -> Vec<Family> {
        // cheap enough to explore in full on every change
        let mut v = (self.families)(thorough || matches!(self.id, "P19" | "P24"));
        if self.id == "P19" {
            v.extend(slots::families("P19", thorough));
        }
        if after::has(self.id) {
            v.extend(after::families(self.id, thorough));
        }
        if self.id == "P13" {
            v.push(after::line_ends(thorough));
        }
        if sizes::has(self.id) {
            v.push(sizes::family(self.id));
        }
        v
    }
    pub fn fams(&self, thorough: bool) -> Vec<Family> {
        let mut v = self.own(thorough);
        v.extend(borrow::families(self.id, thorough));
        v
    }
}
pub fn fam(name: impl Into<String>, budget: u32, f: impl Fn(&mut Chooser, &mut Ctx) + Sync + 'static) -> Family {
    Family { name: name.into(), budget, dedup: true, f: Box::new(f) }
}
/// families whose executions are distinct inputs by construction
pub fn fam_nd(name: impl Into<String>, budget: u32, f: impl Fn(&mut Chooser, &mut Ctx) + Sync + 'static) -> Family {
    Family { name: name.into(), budget, dedup: false, f: Box::new(f) }
}
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(tree::props());
    v.extend(comments::props());
    v.extend(api::props());
    v.extend(soup::props());
    v.extend(rules::props());
    v.extend(scope::props());
    v.extend(vars::props());
    v.extend(malformed::props());
    v.extend(warn::props());
    v.extend(words::props());
    v.extend(ops::props());
    v.extend(params::props());
    v.extend(bal::props());
    v.extend(blocks::props());
    v.extend(patterns::props());
    v.extend(num::props());
    v.extend(heredoc::props());
    v.extend(lit::props());
    v.sort_by_key(|p| p.id);
    v
}
pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
