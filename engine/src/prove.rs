//! Parallel discharge of queries: each literal must be false in every valid input.
use crate::aig::*;
use crate::sat::*;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum Out {
    /// no valid input makes the literal true
    Holds,
    /// values of the input nodes making it true
    Model(std::collections::HashMap<u32, bool>),
    Unknown,
}
#[derive(Default, Debug, Clone)]
pub struct Tally {
    pub queries: u64,
    pub trivial: u64,
    pub secs: f64,
    pub unknown: u64,
    pub conflicts: u64,
}
pub struct Prover<'a> {
    pub g: &'a Aig,
    /// clauses every query may assume
    pub valid: &'a [Vec<Lit>],
    pub threads: usize,
    pub budget: i64,
    /// stop a group at its first counterexample
    pub stop: bool,
    pub verbose: bool,
}
impl<'a> Prover<'a> {
    /// Queries come in groups; a group is handled by one solver. Groups are processed in order.
    pub fn run(&self, groups: &[Vec<Lit>], tally: &mut Tally) -> Vec<Vec<Out>> {
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let (q, tr, un, cf) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
        let secs = Mutex::new(0.0);
        let halt = AtomicBool::new(false);
        let out: Vec<Mutex<Vec<Out>>> = groups.iter().map(|_| Mutex::new(vec![])).collect();
        let t0 = std::time::Instant::now();
        std::thread::scope(|sc| {
            for _ in 0..self.threads.min(groups.len()).max(1) {
                sc.spawn(|| {
                    let mut sat: Option<Sat> = None;
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= groups.len() {
                            break;
                        }
                        let mut res = vec![];
                        for &l in &groups[k] {
                            if halt.load(Ordering::SeqCst) {
                                res.push(Out::Unknown);
                                continue;
                            }
                            if l == F {
                                tr.fetch_add(1, Ordering::SeqCst);
                                res.push(Out::Holds);
                                continue;
                            }
                            let s = sat.get_or_insert_with(|| {
                                let mut s = Sat::new();
                                for c in self.valid {
                                    s.assert_clause(self.g, c);
                                }
                                s
                            });
                            q.fetch_add(1, Ordering::SeqCst);
                            let t1 = std::time::Instant::now();
                            let r = s.solve(self.g, &[l], self.budget);
                            if self.verbose && (t1.elapsed().as_secs_f64() > 2.0 || groups.len() == 1) {
                                eprintln!("slow group {k} {:?} {:.1}s {:?}", r, t1.elapsed().as_secs_f64(), s.stats());
                            }
                            match r {
                                Res::Unsat => {
                                    s.assert_clause(self.g, &[neg(l)]);
                                    res.push(Out::Holds)
                                }
                                Res::Sat => {
                                    let m = (0..self.g.len() as u32).filter(|&n| self.g.is_var(n)).map(|n| (n, s.value(n))).collect();
                                    res.push(Out::Model(m));
                                    if self.stop {
                                        halt.store(true, Ordering::SeqCst);
                                    }
                                }
                                Res::Unknown => {
                                    un.fetch_add(1, Ordering::SeqCst);
                                    res.push(Out::Unknown)
                                }
                            }
                        }
                        *out[k].lock().unwrap() = res;
                        let d = done.fetch_add(1, Ordering::SeqCst) + 1;
                        if self.verbose {
                            eprintln!("{:.1}s group {k} done ({d}/{})", t0.elapsed().as_secs_f64(), groups.len());
                        }
                        // a solver that has collected too much is replaced
                        if let Some(s) = &sat {
                            if s.stats().1 > 1_500_000 {
                                cf.fetch_add(s.stats().0, Ordering::SeqCst);
                                *secs.lock().unwrap() += s.time;
                                sat = None;
                            }
                        }
                    }
                    if let Some(s) = sat {
                        cf.fetch_add(s.stats().0, Ordering::SeqCst);
                        *secs.lock().unwrap() += s.time;
                    }
                });
            }
        });
        tally.queries += q.into_inner();
        tally.trivial += tr.into_inner();
        tally.unknown += un.into_inner();
        tally.conflicts += cf.into_inner();
        tally.secs += secs.into_inner().unwrap();
        out.into_iter().map(|m| m.into_inner().unwrap()).collect()
    }
}
