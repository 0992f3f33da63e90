//! Incremental SAT interface (MiniSat) over AIG cones.
use crate::aig::*;
use std::os::raw::c_int;
extern "C" {
    fn ms_new() -> *mut u8;
    fn ms_del(s: *mut u8);
    fn ms_new_var(s: *mut u8) -> c_int;
    fn ms_add(s: *mut u8, l: *const c_int, n: c_int);
    fn ms_solve(s: *mut u8, l: *const c_int, n: c_int, confl: i64) -> c_int;
    fn ms_val(s: *mut u8, v: c_int) -> c_int;
    fn ms_decide(s: *mut u8, v: c_int, b: c_int);
    fn ms_conflicts(s: *mut u8) -> u64;
    fn ms_nvars(s: *mut u8) -> c_int;
    fn ms_random(s: *mut u8, seed: f64);
    fn ms_nclauses(s: *mut u8) -> c_int;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Sat {
    s: *mut u8,
    map: Vec<i32>, // node -> solver var, -1 none
    focus: Option<Vec<c_int>>,
    pub queries: u64,
    pub time: f64,
    pub unknown: u64,
}

impl Drop for Sat {
    fn drop(&mut self) {
        unsafe { ms_del(self.s) }
    }
}

impl Sat {
    pub fn new() -> Self {
        Sat { s: unsafe { ms_new() }, map: vec![], focus: None, queries: 0, time: 0.0, unknown: 0 }
    }
    pub fn randomize(&mut self, seed: u64) {
        unsafe { ms_random(self.s, 91648253.0 + 7919.0 * seed as f64) }
    }
    fn clause(&mut self, l: &[c_int]) {
        unsafe { ms_add(self.s, l.as_ptr(), l.len() as c_int) }
    }
    pub fn lit(&mut self, g: &Aig, l: Lit) -> c_int {
        let n = l >> 1;
        if self.map.len() < g.len() {
            self.map.resize(g.len(), -1);
        }
        if self.map[n as usize] < 0 {
            let mut st = vec![n];
            while let Some(&n) = st.last() {
                if self.map[n as usize] >= 0 {
                    st.pop();
                    continue;
                }
                if n == 0 {
                    let v = self.fresh_var();
                    self.map[0] = v;
                    self.clause(&[v * 2 + 1]);
                    st.pop();
                    continue;
                }
                if g.is_var(n) {
                    self.map[n as usize] = self.fresh_var();
                    st.pop();
                    continue;
                }
                let (a, b) = (g.f0[n as usize], g.f1[n as usize]);
                let (ma, mb) = (self.map[(a >> 1) as usize], self.map[(b >> 1) as usize]);
                if ma < 0 {
                    st.push(a >> 1);
                }
                if mb < 0 {
                    st.push(b >> 1);
                }
                if ma < 0 || mb < 0 {
                    continue;
                }
                let v = self.fresh_var();
                self.map[n as usize] = v;
                let (x, y, z) = (ma * 2 + (a & 1) as i32, mb * 2 + (b & 1) as i32, v * 2);
                if a < b {
                    self.clause(&[z ^ 1, x]);
                    self.clause(&[z ^ 1, y]);
                    self.clause(&[z, x ^ 1, y ^ 1]);
                } else {
                    self.clause(&[z ^ 1, x, y]);
                    self.clause(&[z ^ 1, x ^ 1, y ^ 1]);
                    self.clause(&[z, x ^ 1, y]);
                    self.clause(&[z, x, y ^ 1]);
                }
                st.pop();
            }
        }
        self.map[n as usize] * 2 + (l & 1) as i32
    }
    /// Branch only on variables in the cones of the given literals (None: on all variables). A
    /// satisfiable answer then only covers those cones.
    pub fn focus(&mut self, g: &Aig, lits: Option<&[Lit]>) {
        let new: Option<Vec<c_int>> = lits.map(|l| {
            for &x in l {
                self.lit(g, x);
            }
            crate::sweep::cone_fast(g, l).iter().map(|&n| self.map[n as usize]).collect()
        });
        let nv = unsafe { ms_nvars(self.s) };
        match (&self.focus, &new) {
            (None, _) => (0..nv).for_each(|v| unsafe { ms_decide(self.s, v, 0) }),
            (Some(o), _) => o.iter().for_each(|&v| unsafe { ms_decide(self.s, v, 0) }),
        }
        match &new {
            None => (0..nv).for_each(|v| unsafe { ms_decide(self.s, v, 1) }),
            Some(n) => n.iter().for_each(|&v| unsafe { ms_decide(self.s, v, 1) }),
        }
        self.focus = new;
    }
    fn fresh_var(&mut self) -> c_int {
        let v = unsafe { ms_new_var(self.s) };
        if self.focus.is_some() {
            unsafe { ms_decide(self.s, v, 0) };
        }
        v
    }
    /// Permanently assert a clause of AIG literals.
    pub fn assert_clause(&mut self, g: &Aig, c: &[Lit]) {
        let l: Vec<c_int> = c.iter().map(|&x| self.lit(g, x)).collect();
        self.clause(&l);
    }
    pub fn solve(&mut self, g: &Aig, assume: &[Lit], confl: i64) -> Res {
        if assume.contains(&F) {
            self.queries += 1;
            return Res::Unsat;
        }
        let l: Vec<c_int> = assume.iter().map(|&x| self.lit(g, x)).collect();
        let t = std::time::Instant::now();
        let r = unsafe { ms_solve(self.s, l.as_ptr(), l.len() as c_int, confl) };
        self.queries += 1;
        self.time += t.elapsed().as_secs_f64();
        match r {
            1 => Res::Sat,
            0 => Res::Unsat,
            _ => {
                self.unknown += 1;
                Res::Unknown
            }
        }
    }
    /// Model value of a node known to the solver (unknown nodes read as false).
    pub fn value(&self, n: u32) -> bool {
        let v = self.map.get(n as usize).copied().unwrap_or(-1);
        v >= 0 && unsafe { ms_val(self.s, v) == 1 }
    }
    pub fn stats(&self) -> (u64, i32, i32) {
        unsafe { (ms_conflicts(self.s), ms_nvars(self.s), ms_nclauses(self.s)) }
    }
}
