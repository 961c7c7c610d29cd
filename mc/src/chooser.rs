//! Stateless exhaustive exploration: a generator program asks a `Chooser` for every
//! nondeterministic decision; the explorer runs it to completion once per distinct sequence of
//! answers (depth-first), within a bound on the number of deviations from the default answer.

#[derive(Clone, Debug)]
pub struct Pt {
    pub c: u32,
    pub n: u32,
}

pub struct Chooser {
    pub path: Vec<Pt>,
    pub pos: usize,
    base: usize,
    pub max_budget: u32,
    pub budget: u32,
}

impl Chooser {
    pub fn new(max_budget: u32, prefix: Vec<Pt>) -> Self {
        let base = prefix.len();
        Chooser { path: prefix, pos: 0, base, max_budget, budget: max_budget }
    }

    pub fn start(&mut self) {
        self.pos = 0;
        self.budget = self.max_budget;
    }

    /// A free choice: all `n` answers are always explored.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        self.raw(n)
    }

    /// A deviation choice: answer 0 is free, any other costs one unit of the budget.
    #[inline]
    pub fn dev(&mut self, n: usize) -> usize {
        self.devc(n, 1)
    }

    #[inline]
    pub fn devc(&mut self, n: usize, cost: u32) -> usize {
        assert!(n > 0);
        if n == 1 || self.budget < cost {
            return 0;
        }
        let c = self.raw(n);
        if c != 0 {
            self.budget -= cost;
        }
        c
    }

    pub fn flag(&mut self) -> bool {
        self.dev(2) == 1
    }

    fn raw(&mut self, n: usize) -> usize {
        if self.pos < self.path.len() {
            let p = &self.path[self.pos];
            if p.n as usize > n || p.c as usize >= n {
                panic!("HARNESS: divergence while replaying a prefix: {} of {} at {}", p.c, n, self.pos);
            }
            self.pos += 1;
            return p.c as usize;
        }
        self.path.push(Pt { c: 0, n: n as u32 });
        self.pos += 1;
        0
    }

    /// Advance to the next unexplored sequence; false when this subtree is exhausted.
    pub fn next(&mut self) -> bool {
        self.path.truncate(self.pos.max(self.base));
        while self.path.len() > self.base {
            let p = self.path.last_mut().unwrap();
            if p.c + 1 < p.n {
                p.c += 1;
                return true;
            }
            self.path.pop();
        }
        false
    }

    /// Give away the remaining alternatives of the shallowest open choice point.
    pub fn split(&mut self) -> Vec<Vec<Pt>> {
        let end = self.path.len();
        for i in self.base..end {
            if self.path[i].c + 1 < self.path[i].n {
                let mut out = vec![];
                for alt in self.path[i].c + 1..self.path[i].n {
                    let mut v = self.path[..i].to_vec();
                    v.push(Pt { c: alt, n: alt + 1 });
                    out.push(v);
                }
                self.path[i].n = self.path[i].c + 1;
                return out;
            }
        }
        vec![]
    }
}
