//! Parallel discharge of proof queries over cofactors. A context holds one circuit and what may be
//! assumed of its inputs; a task fixes some inputs (typically a king's square) and asks, for each of
//! its queries, whether any of the query's literals can be true.
use crate::aig::*;
use crate::cof::Cof;
use crate::sat::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Cx {
    pub g: Aig,
    pub name: String,
    /// clauses every query may assume, the first `nlight` of them with small cones
    pub valid: Vec<Vec<Lit>>,
    pub nlight: usize,
    /// further assumptions, with large cones: no kind has more pieces than a set holds
    pub totals: Vec<Lit>,
    /// inputs on which execution failed: no path condition covers them (counted as a defect by the
    /// check of the property that forbids failing)
    pub lost: Vec<Lit>,
    /// input variables below each light clause
    supp: Vec<Vec<u32>>,
}
impl Cx {
    pub fn new(g: Aig, name: String, valid: Vec<Vec<Lit>>, nlight: usize, totals: Vec<Lit>, lost: Vec<Lit>) -> Cx {
        let supp = valid[..nlight].iter().map(|c| inputs(&g, c)).collect();
        Cx { g, name, valid, nlight, totals, lost, supp }
    }
}
pub fn inputs(g: &Aig, lits: &[Lit]) -> Vec<u32> {
    crate::sweep::cone_fast(g, lits).into_iter().filter(|&n| n > 0 && g.is_var(n)).collect()
}
#[derive(Clone)]
pub struct Query<'a> {
    pub tag: usize,
    pub bad: &'a [Lit],
    /// further inputs fixed for this query
    pub fix: Vec<Lit>,
    /// ask for one literal after the other from the start
    pub each: bool,
}
#[derive(Clone)]
pub struct Task<'a> {
    pub cx: usize,
    pub label: String,
    /// literals taken as true; they must be inputs or negated inputs
    pub fix: Vec<Lit>,
    /// inner literals replaced by true; that they are true is only added when needed
    pub cut: Vec<Lit>,
    /// literals assumed true
    pub hyp: Vec<Lit>,
    pub qs: Vec<Query<'a>>,
}
#[derive(Debug, Clone)]
pub struct Found {
    pub task: usize,
    pub tag: usize,
    /// which of the query's literals are true in the model
    pub which: Vec<usize>,
    pub model: HashMap<u32, bool>,
}
#[derive(Default, Debug, Clone)]
pub struct Tally {
    pub queries: u64,
    pub trivial: u64,
    pub literals: u64,
    pub conflicts: u64,
    pub secs: f64,
    pub refined: u64,
    pub cofactors: u64,
    pub slowest: Vec<(f64, String)>,
}
#[derive(Default)]
pub struct Answer {
    pub tally: Tally,
    pub found: Vec<Found>,
    /// queries that were not decided
    pub undecided: Vec<(usize, usize)>,
}
pub struct Opts {
    pub threads: usize,
    pub chunk: usize,
    pub budget: i64,
    pub deadline: std::time::Instant,
    /// stop at this many counterexamples
    pub max_found: usize,
    /// assume everything from the start
    pub full: bool,
}
/// a cofactor, and possibly a cofactor of part of it
struct Two {
    c: Cof,
    d: Option<Cof>,
}
impl Two {
    fn g(&self) -> &Aig {
        self.d.as_ref().map_or(&self.c.g, |d| &d.g)
    }
    fn gm(&mut self) -> &mut Aig {
        match &mut self.d {
            Some(d) => &mut d.g,
            None => &mut self.c.g,
        }
    }
    fn lit(&mut self, src: &Aig, l: Lit) -> Lit {
        let x = self.c.lit(src, l);
        match &mut self.d {
            Some(d) => d.lit(&self.c.g, x),
            None => x,
        }
    }
    fn lits(&mut self, src: &Aig, l: &[Lit]) -> Vec<Lit> {
        l.iter().map(|&x| self.lit(src, x)).collect()
    }
    /// a literal by its definition, even if it is replaced by a constant
    fn def(&mut self, src: &Aig, l: Lit) -> Lit {
        let n = (l >> 1) as usize;
        if src.is_var(l >> 1) {
            return self.lit(src, l);
        }
        let (a, b) = (self.lit(src, src.f0[n]), self.lit(src, src.f1[n]));
        let g = self.gm();
        (if src.is_and(l >> 1) { g.and(a, b) } else { g.xor(a, b) }) ^ (l & 1)
    }
    fn sources(&self, v: &[u32]) -> Vec<u32> {
        match &self.d {
            Some(d) => self.c.sources(&d.sources(v)),
            None => self.c.sources(v),
        }
    }
    fn back(&self, src: &Aig, val: &dyn Fn(u32) -> bool) -> HashMap<u32, bool> {
        match &self.d {
            Some(d) => {
                let m = d.back(&self.c.g, val);
                self.c.back(src, &|n| m.get(&n).copied().unwrap_or(false))
            }
            None => self.c.back(src, val),
        }
    }
    /// fix further inputs (of the original graph)
    fn sub(&mut self, src: &Aig, fix: &[Lit]) {
        self.d = None;
        let m: HashMap<u32, bool> = fix.iter().map(|&l| self.c.lit(src, l)).filter(|&l| l > 1).map(|l| (l >> 1, l & 1 == 0)).collect();
        self.d = Some(Cof::new(&self.c.g, &m));
    }
}
pub fn run(cxs: &[&Cx], tasks: &[Task], o: &Opts) -> Answer {
    let mut units = vec![];
    let widest = tasks.iter().map(|t| t.qs.len()).max().unwrap_or(0);
    // counterexamples tend to show early in every task: take all tasks' first chunks first
    let mut k = 0;
    while k < widest {
        for (i, t) in tasks.iter().enumerate() {
            if k < t.qs.len() {
                units.push((i, k..(k + o.chunk).min(t.qs.len())));
            }
        }
        k += o.chunk;
    }
    let next = AtomicUsize::new(0);
    let halt = AtomicBool::new(false);
    let ans = Mutex::new(Answer::default());
    std::thread::scope(|sc| {
        for _ in 0..o.threads.max(1) {
            sc.spawn(|| loop {
                let u = next.fetch_add(1, Ordering::SeqCst);
                if u >= units.len() {
                    break;
                }
                let (ti, range) = units[u].clone();
                let t = &tasks[ti];
                if halt.load(Ordering::SeqCst) || std::time::Instant::now() > o.deadline {
                    let mut a = ans.lock().unwrap();
                    for q in &t.qs[range] {
                        a.undecided.push((ti, q.tag));
                    }
                    continue;
                }
                let cx = cxs[t.cx];
                let fix: HashMap<u32, bool> = t.fix.iter().chain(&t.cut).filter(|&&l| l > 1).map(|&l| (l >> 1, l & 1 == 0)).collect();
                let mut c = Two { c: Cof::new(&cx.g, &fix), d: None };
                let hyp0 = c.lits(&cx.g, &t.hyp);
                let mut hyp = hyp0.clone();
                let mut ta = Tally { cofactors: 1, ..Default::default() };
                let (mut found, mut und) = (vec![], vec![]);
                if hyp.contains(&F) {
                    ta.trivial += range.len() as u64;
                    let mut a = ans.lock().unwrap();
                    tadd(&mut a.tally, ta);
                    continue;
                }
                for q in &t.qs[range] {
                    let t1 = std::time::Instant::now();
                    if q.fix.is_empty() {
                        c.d = None;
                        hyp = hyp0.clone();
                    } else {
                        c.sub(&cx.g, &q.fix);
                        hyp = c.lits(&cx.g, &t.hyp);
                        ta.cofactors += 1;
                    }
                    let mut have: std::collections::HashSet<u32> = fix.keys().copied().collect();
                    have.extend(q.fix.iter().map(|l| l >> 1));
                    let lits = c.lits(&cx.g, q.bad);
                    let l = c.gm().or_all(&lits);
                    ta.literals += q.bad.len() as u64;
                    if l == F || hyp.contains(&F) {
                        ta.trivial += 1;
                        continue;
                    }
                    if halt.load(Ordering::SeqCst) {
                        und.push((ti, q.tag));
                        continue;
                    }
                    // a query that takes long is put to the solver piece by piece
                    let mut parts: Vec<Vec<usize>> = vec![(0..lits.len()).filter(|&i| lits[i] != F).collect()];
                    let mut res = Res::Unsat;
                    let mut last = (0, 0, 0);
                    let mut spent = 0.0;
                    while let Some(part) = parts.pop() {
                        let some: Vec<Lit> = part.iter().map(|&i| lits[i]).collect();
                        let l = c.gm().or_all(&some);
                        let mut st = Sat::new();
                        let mut roots = hyp.clone();
                        roots.push(l);
                        let mut have = have.clone();
                        have.extend(c.sources(&inputs(c.g(), &roots)));
                        let load = |st: &mut Sat, c: &mut Two, all: bool| {
                            for (k, cl) in cx.valid.iter().enumerate() {
                                if all || k < cx.nlight && cx.supp[k].iter().all(|v| have.contains(v)) {
                                    let d = c.lits(&cx.g, cl);
                                    if !d.contains(&T) {
                                        st.assert_clause(c.g(), &d);
                                    }
                                }
                            }
                            for &h in &hyp {
                                st.assert_clause(c.g(), &[h]);
                            }
                            if all {
                                for &x in &t.cut {
                                    let d = c.def(&cx.g, x);
                                    if d != T {
                                        st.assert_clause(c.g(), &[d]);
                                    }
                                }
                            }
                        };
                        load(&mut st, &mut c, o.full);
                        ta.queries += 1;
                        let small = if part.len() > 1 { 10_000 } else { 30_000 }.min(o.budget);
                        let mut r = if q.each && part.len() > 1 { Res::Unknown } else { st.solve(c.g(), &[l], small) };
                        if r == Res::Unknown && part.len() > 1 {
                            for &i in &part {
                                ta.queries += 1;
                                if st.solve(c.g(), &[lits[i]], small) != Res::Unsat {
                                    parts.push(vec![i]);
                                }
                            }
                            ta.conflicts += st.stats().0;
                            ta.secs += st.time;
                            spent += st.time;
                            continue;
                        }
                        if !o.full && (r == Res::Sat || r == Res::Unknown) {
                            // everything else that may be assumed
                            ta.refined += 1;
                            ta.queries += 1;
                            load(&mut st, &mut c, true);
                            r = st.solve(c.g(), &[l], if r == Res::Sat { o.budget } else { small });
                        }
                        // searches that take long are started anew with other random choices
                        let mut seed = 1;
                        let mut lim = small * 2;
                        while r == Res::Unknown && lim <= o.budget && std::time::Instant::now() < o.deadline {
                            let mut s2 = Sat::new();
                            s2.randomize(seed);
                            load(&mut s2, &mut c, o.full || seed % 2 == 0);
                            ta.queries += 1;
                            ta.conflicts += st.stats().0;
                            ta.secs += st.time;
                            spent += st.time;
                            r = s2.solve(c.g(), &[l], lim);
                            st = s2;
                            if r == Res::Sat && seed % 2 == 1 && !o.full {
                                load(&mut st, &mut c, true);
                                r = st.solve(c.g(), &[l], lim);
                            }
                            seed += 1;
                            lim = lim * 3 / 2;
                        }
                        if r == Res::Sat {
                            ta.queries += 1;
                            for &x in &cx.totals {
                                let d = c.lit(&cx.g, x);
                                st.assert_clause(c.g(), &[d]);
                            }
                            if !cx.lost.is_empty() && t.cut.is_empty() {
                                let d = c.lits(&cx.g, &cx.lost);
                                let d = c.gm().or_all(&d);
                                st.assert_clause(c.g(), &[neg(d)]);
                            }
                            r = st.solve(c.g(), &[l], o.budget);
                        }
                        ta.conflicts += st.stats().0;
                        ta.secs += st.time;
                        spent += st.time;
                        last = st.stats();
                        match r {
                            Res::Unsat => {}
                            Res::Unknown => res = Res::Unknown,
                            Res::Sat => {
                                let val = |n: u32| st.value(n);
                                let which = part.iter().copied().filter(|&i| crate::sweep::eval(c.g(), lits[i], &val)).collect();
                                found.push(Found { task: ti, tag: q.tag, which, model: c.back(&cx.g, &val) });
                                res = Res::Sat;
                                break;
                            }
                        }
                    }
                    if res == Res::Unknown {
                        und.push((ti, q.tag));
                    }
                    let dt = t1.elapsed().as_secs_f64();
                    if std::env::var("VX_Q").is_ok() {
                        eprintln!("q {} {} {} lits {} {:.3}s solve {:.3}s {:?} {:?}", cx.name, t.label, q.tag, q.bad.len(), dt, spent, last, res);
                    }
                    if dt > 1.0 {
                        ta.slowest.push((dt, format!("{} {} {}", cx.name, t.label, q.tag)));
                    }
                    if o.max_found > 0 && found.len() >= o.max_found {
                        halt.store(true, Ordering::SeqCst);
                    }
                }
                let mut a = ans.lock().unwrap();
                tadd(&mut a.tally, ta);
                a.found.append(&mut found);
                a.undecided.append(&mut und);
                if o.max_found > 0 && a.found.len() >= o.max_found {
                    halt.store(true, Ordering::SeqCst);
                }
            });
        }
    });
    let mut a = ans.into_inner().unwrap();
    a.tally.slowest.sort_by(|x, y| y.0.total_cmp(&x.0));
    a.tally.slowest.truncate(20);
    a
}
pub fn tadd(a: &mut Tally, b: Tally) {
    a.queries += b.queries;
    a.trivial += b.trivial;
    a.literals += b.literals;
    a.conflicts += b.conflicts;
    a.secs += b.secs;
    a.refined += b.refined;
    a.cofactors += b.cofactors;
    a.slowest.extend(b.slowest);
}
