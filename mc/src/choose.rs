//! Systematic exploration of choice trees with a bound on the number of deviations.
//!
//! A test body draws every nondeterministic decision from a `Chooser`.  Option 0 is the default.
//! `explore(k, body)` re-executes the body once for every sequence of decisions that takes at most
//! `k` non-default options (stateless search; `free` choices do not count against `k`).

pub struct Chooser {
    trail: Vec<(u32, u32, bool)>,
    pos: usize,
    k: usize,
    used: usize,
}

impl Chooser {
    fn new(k: usize) -> Self {
        Chooser { trail: vec![], pos: 0, k, used: 0 }
    }
    fn draw(&mut self, n: usize, counted: bool) -> usize {
        debug_assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let pick = if self.pos < self.trail.len() {
            assert_eq!(self.trail[self.pos].1, n as u32, "nondeterministic body");
            self.trail[self.pos].0
        } else {
            self.trail.push((0, n as u32, counted));
            0
        };
        self.pos += 1;
        if counted && pick != 0 {
            self.used += 1;
        }
        pick as usize
    }
    /// A decision whose non-default options count as a deviation.
    pub fn choose(&mut self, n: usize) -> usize {
        self.draw(n, true)
    }
    /// A decision explored in full.
    pub fn free(&mut self, n: usize) -> usize {
        self.draw(n, false)
    }
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn deviations(&self) -> usize {
        self.used
    }
    pub fn picks(&self) -> Vec<u32> {
        self.trail[..self.pos].iter().map(|t| t.0).collect()
    }
    fn advance(&mut self) -> bool {
        self.trail.truncate(self.pos);
        loop {
            let Some(&(p, n, c)) = self.trail.last() else { return false };
            let used_before = self.trail[..self.trail.len() - 1].iter().filter(|t| t.2 && t.0 != 0).count();
            if p + 1 < n && (!c || used_before < self.k) {
                self.trail.last_mut().unwrap().0 = p + 1;
                break;
            }
            self.trail.pop();
        }
        self.pos = 0;
        self.used = 0;
        true
    }
}

/// Explores all executions of `body` with at most `k` deviations; returns how many there were.
pub fn explore(k: usize, mut body: impl FnMut(&mut Chooser)) -> u64 {
    let mut c = Chooser::new(k);
    let mut n = 0;
    loop {
        body(&mut c);
        n += 1;
        if !c.advance() {
            return n;
        }
    }
}
