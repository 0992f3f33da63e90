//! Random valid positions and SAT sweeping of memory bits against known literals.
use crate::aig::*;
use crate::pos::*;
use crate::sat::{Res, Sat};
use std::collections::HashMap;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}

/// a random position of the given case satisfying everything except "opponent not in check"
pub fn random_raw(r: &mut Rng, case: &Case) -> Raw {
    let mut x = Raw::empty();
    x.side = case.side as u8 + 1;
    x.ply = 1 + r.next(65533) as u16;
    let dens = 1 + r.next(60);
    let ownp = r.next(101);
    let mut pawns = [[false; 10]; 2];
    for q in 1..82usize {
        if r.next(100) >= dens {
            continue;
        }
        let k = if r.next(5) == 0 { 1 } else { 1 + r.next(14) as usize };
        let c = if r.next(100) < ownp { case.side } else { 1 - case.side };
        if k == 8 || dead(k, q, c) {
            continue;
        }
        if k == 1 {
            let f = file(q) as usize;
            if pawns[c][f] {
                continue;
            }
            pawns[c][f] = true;
        }
        x.board[q - 1] = (k + 16 * c) as u8;
    }
    let own = case.own[r.next(case.own.len() as u64) as usize];
    if own != 0 {
        x.board[own - 1] = (8 + 16 * case.side) as u8;
    }
    let o = match case.opp {
        Some(q) => q,
        None => {
            if r.next(12) == 0 {
                0
            } else {
                1 + r.next(81) as usize
            }
        }
    };
    if o != 0 && o != own {
        x.board[o - 1] = (8 + 16 * (1 - case.side)) as u8;
    }
    // a line piece aimed at a king, with one piece or none between
    for (c, k) in [(case.side, own), (1 - case.side, o)] {
        if k == 0 || r.next(3) == 0 {
            continue;
        }
        let ds = [(1, 1), (1, -1), (-1, 1), (-1, -1), (0, 1), (0, -1), (1, 0), (-1, 0)];
        let d = ds[r.next(8) as usize];
        let mut line = vec![];
        let mut q = k;
        while let Some(n) = crate::spec::add(q, d) {
            line.push(n);
            q = n;
        }
        if line.is_empty() {
            continue;
        }
        let e = r.next(line.len() as u64) as usize;
        let block = if c == case.side && r.next(3) == 0 { usize::MAX } else { r.next(e as u64 + 1) as usize };
        if line[..=e].iter().any(|&q| x.board[q - 1] % 16 == 8) {
            continue;
        }
        for (i, &q) in line[..=e].iter().enumerate() {
            x.board[q - 1] = 0;
            if i == e {
                let bc = [(1, 1), (1, -1), (-1, 1), (-1, -1)].contains(&d);
                let mut ks = if bc { vec![6, 13] } else { vec![7, 14] };
                if d == (0, if c == 0 { -1 } else { 1 }) && !dead(2, q, 1 - c) {
                    ks.push(2);
                }
                let kind = ks[r.next(ks.len() as u64) as usize];
                x.board[q - 1] = (kind + 16 * (1 - c)) as u8;
            } else if i == block {
                let kind = [4, 5, 6, 7, 9, 11, 13, 14][r.next(8) as usize];
                x.board[q - 1] = kind + 16 * r.next(2) as u8;
            }
        }
    }
    for c in 0..2 {
        for k in 0..7 {
            if r.next(2) == 0 {
                x.hands[c][k] = r.next(HMAX[k] as u64 + 1) as u8;
            }
        }
    }
    x
}

pub struct Samples {
    pub w: usize,
    pub vars: HashMap<u32, Vec<u64>>,
    pub raws: Vec<Raw>,
}
/// `n` random valid positions of the case (n a multiple of 64)
pub fn samples(g: &Aig, p: &Pos, seed: u64, n: usize) -> Samples {
    let mut r = Rng(seed);
    let mut out: Vec<(Raw, HashMap<u32, bool>)> = vec![];
    let mut tries = 0;
    while out.len() < n {
        let mut batch = vec![];
        while batch.len() < 64 {
            let x = random_raw(&mut r, &p.case);
            if let Some(a) = p.assign(&x) {
                batch.push((x, a));
            }
        }
        let sim = sim_lits(g, 1, &pack(&batch, 1), &p.valid.iter().flatten().copied().collect::<Vec<_>>());
        let mut ok = !0u64;
        for c in &p.valid {
            let mut v = 0;
            for &l in c {
                v |= sim.get(l)[0];
            }
            ok &= v;
        }
        for (i, b) in batch.into_iter().enumerate() {
            if ok >> i & 1 == 1 && out.len() < n {
                out.push(b);
            }
        }
        tries += 1;
        if tries > 2000 {
            break;
        }
    }
    while out.len() < n && !out.is_empty() {
        let k = out.len() % 7 % out.len();
        let x = out[k].clone();
        out.push(x);
    }
    let w = n / 64;
    let vars = pack(&out, w);
    Samples { w, vars, raws: out.into_iter().map(|x| x.0).collect() }
}
fn pack(b: &[(Raw, HashMap<u32, bool>)], w: usize) -> HashMap<u32, Vec<u64>> {
    let mut m: HashMap<u32, Vec<u64>> = HashMap::new();
    for (i, (_, a)) in b.iter().enumerate() {
        for (&v, &x) in a {
            let e = m.entry(v).or_insert_with(|| vec![0; w]);
            if x {
                e[i / 64] |= 1 << (i % 64);
            }
        }
    }
    m
}
pub struct Sim {
    w: usize,
    idx: HashMap<u32, usize>,
    s: Vec<u64>,
}
impl Sim {
    pub fn get(&self, l: Lit) -> Vec<u64> {
        let i = self.idx[&(l >> 1)] * self.w;
        let m = (l as u64 & 1).wrapping_neg();
        self.s[i..i + self.w].iter().map(|x| x ^ m).collect()
    }
}
/// simulate the cones of the given literals
pub fn sim_lits(g: &Aig, w: usize, vars: &HashMap<u32, Vec<u64>>, lits: &[Lit]) -> Sim {
    let order = cone(g, lits);
    let mut idx = HashMap::with_capacity(order.len());
    let mut s = vec![0u64; order.len() * w];
    for (k, &n) in order.iter().enumerate() {
        idx.insert(n, k);
        if n == 0 {
            continue;
        }
        if g.is_var(n) {
            if let Some(v) = vars.get(&n) {
                s[k * w..k * w + w].copy_from_slice(v);
            }
            continue;
        }
        let (a, b) = (g.f0[n as usize], g.f1[n as usize]);
        let (an, bn) = (idx[&(a >> 1)] * w, idx[&(b >> 1)] * w);
        let (am, bm) = ((a as u64 & 1).wrapping_neg(), (b as u64 & 1).wrapping_neg());
        for j in 0..w {
            s[k * w + j] = if a < b { (s[an + j] ^ am) & (s[bn + j] ^ bm) } else { s[an + j] ^ s[bn + j] ^ am ^ bm };
        }
    }
    Sim { w, idx, s }
}
/// nodes of the cones in topological order
pub fn cone(g: &Aig, lits: &[Lit]) -> Vec<u32> {
    let mut seen = vec![0u64; g.len() / 64 + 1];
    let mut st: Vec<u32> = vec![];
    let mut hi = 0;
    let mark = |seen: &mut Vec<u64>, n: u32| -> bool {
        let (i, b) = ((n / 64) as usize, n % 64);
        if seen[i] >> b & 1 == 1 {
            return false;
        }
        seen[i] |= 1 << b;
        true
    };
    mark(&mut seen, 0);
    for &l in lits {
        if mark(&mut seen, l >> 1) {
            st.push(l >> 1);
        }
    }
    while let Some(n) = st.pop() {
        hi = hi.max(n);
        if n == 0 || g.is_var(n) {
            continue;
        }
        for x in [g.f0[n as usize] >> 1, g.f1[n as usize] >> 1] {
            if mark(&mut seen, x) {
                st.push(x);
            }
        }
    }
    // node numbers are topological
    (0..=hi).filter(|&n| seen[(n / 64) as usize] >> (n % 64) & 1 == 1).collect()
}

/// nodes of the cones, unordered; costs only the size of the cones
pub fn cone_fast(g: &Aig, lits: &[Lit]) -> Vec<u32> {
    let mut seen: std::collections::HashSet<u32> = Default::default();
    let mut st: Vec<u32> = vec![];
    for &l in lits {
        if seen.insert(l >> 1) {
            st.push(l >> 1);
        }
    }
    while let Some(n) = st.pop() {
        if n == 0 || g.is_var(n) {
            continue;
        }
        for x in [g.f0[n as usize] >> 1, g.f1[n as usize] >> 1] {
            if seen.insert(x) {
                st.push(x);
            }
        }
    }
    seen.into_iter().collect()
}
/// Replace each literal by a constant or candidate it provably equals under the solver's clauses.
pub fn sweep(g: &Aig, sat: &mut Sat, smp: &Samples, lits: &[Lit], cands: &[Lit], limit: usize) -> HashMap<Lit, Lit> {
    let mut todo: Vec<Lit> = lits.iter().copied().filter(|&l| l > 1).collect();
    todo.sort();
    todo.dedup();
    let mut all = todo.clone();
    all.extend_from_slice(cands);
    let sim = sim_lits(g, smp.w, &smp.vars, &all);
    let canon = |l: Lit| -> (Vec<u64>, u32) {
        let v = sim.get(l);
        if v[0] & 1 == 1 {
            (v.iter().map(|x| !x).collect(), 1)
        } else {
            (v, 0)
        }
    };
    let mut cls: HashMap<Vec<u64>, Vec<Lit>> = HashMap::new();
    cls.entry(vec![0; smp.w]).or_default().push(F);
    for &c in cands {
        if c > 1 {
            let (v, s) = canon(c);
            cls.entry(v).or_default().push(c ^ s);
        }
    }
    let mut out = HashMap::new();
    let mut cnt = [0; 4];
    for l in todo {
        if cands.contains(&l) || cands.contains(&neg(l)) {
            continue;
        }
        let (v, s) = canon(l);
        let Some(cs) = cls.get(&v) else {
            cnt[0] += 1;
            continue;
        };
        let a = l ^ s;
        if !small_cone(g, l, limit) {
            cnt[1] += 1;
            if std::env::var("VX_VERBOSE").is_ok() && cnt[1] < 40 {
                let c = cone(g, &[l]);
                let vars: std::collections::BTreeSet<&str> = g.names.iter().filter(|x| c.binary_search(&x.0).is_ok()).map(|x| x.1.as_str()).collect();
                eprintln!("large {} nodes {} vars {:?} = {:?}", l, c.len(), vars, g.names.iter().find(|x| x.0 == cs[0] >> 1));
            }
            continue;
        }
        cnt[2] += 1;
        for &c in cs.iter().take(4) {
            if a == c {
                break;
            }
            // a == c ?
            let r1 = sat.solve(g, &[a, neg(c)], 20_000);
            if r1 != Res::Unsat {
                continue;
            }
            let r2 = sat.solve(g, &[neg(a), c], 20_000);
            if r2 == Res::Unsat {
                out.insert(l, c ^ s);
                break;
            }
        }
    }
    if std::env::var("VX_VERBOSE").is_ok() {
        eprintln!("sweep: no class {}, large {}, tried {} proved {}", cnt[0], cnt[1], cnt[2], out.len());
    }
    out
}

fn small_cone(g: &Aig, l: Lit, limit: usize) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![l >> 1];
    while let Some(n) = st.pop() {
        if n == 0 || g.is_var(n) || !seen.insert(n) {
            continue;
        }
        if seen.len() > limit {
            return false;
        }
        st.push(g.f0[n as usize] >> 1);
        st.push(g.f1[n as usize] >> 1);
    }
    true
}

pub fn eval(g: &Aig, l: Lit, val: &dyn Fn(u32) -> bool) -> bool {
    let order = cone(g, &[l]);
    let mut v: HashMap<u32, bool> = HashMap::new();
    for n in order {
        let x = if n == 0 {
            false
        } else if g.is_var(n) {
            val(n)
        } else {
            let (a, b) = (g.f0[n as usize], g.f1[n as usize]);
            let (x, y) = (v[&(a >> 1)] ^ (a & 1 == 1), v[&(b >> 1)] ^ (b & 1 == 1));
            if a < b {
                x & y
            } else {
                x ^ y
            }
        };
        v.insert(n, x);
    }
    v[&(l >> 1)] ^ (l & 1 == 1)
}

/// As `sweep`, for literals with large cones: each candidate equality is decided for every square
/// of the king it is about, in parallel.
pub fn sweep_hints(g: &mut Aig, ps: &Pos, smp: &Samples, lits: &[Lit], hints: &[(Lit, bool)], threads: usize) -> (HashMap<Lit, Lit>, crate::pool::Tally) {
    use crate::pool::*;
    let hs: std::collections::HashSet<Lit> = hints.iter().flat_map(|&(h, _)| [h, neg(h)]).collect();
    let mut todo: Vec<Lit> = lits.iter().copied().filter(|l| *l > 1 && !hs.contains(l)).collect();
    todo.sort();
    todo.dedup();
    let mut all = todo.clone();
    all.extend(hints.iter().map(|x| x.0));
    let mut jobs: Vec<(Lit, Lit, bool)> = vec![];
    {
        let sim = sim_lits(g, smp.w, &smp.vars, &all);
        let canon = |l: Lit| -> (Vec<u64>, u32) {
            let v = sim.get(l);
            if v[0] & 1 == 1 {
                (v.iter().map(|x| !x).collect(), 1)
            } else {
                (v, 0)
            }
        };
        let mut cls: HashMap<Vec<u64>, Vec<(Lit, bool)>> = HashMap::new();
        for &(c, own) in hints {
            let (v, s) = canon(c);
            let e = cls.entry(v).or_default();
            if !e.contains(&(c ^ s, own)) {
                e.push((c ^ s, own));
            }
        }
        for l in todo {
            let (v, s) = canon(l);
            if let Some(cs) = cls.get(&v) {
                for &(c, own) in cs.iter().take(4) {
                    jobs.push((l, c ^ s, own));
                }
            }
        }
    }
    let xs: Vec<[Lit; 1]> = jobs.iter().map(|&(a, b, _)| [g.xor(a, b)]).collect();
    let cx = Cx::new(std::mem::replace(g, Aig::new()), "state".into(), ps.valid.clone(), ps.nlight, vec![], vec![]);
    let mut dead = vec![false; jobs.len()];
    let mut tally = Tally::default();
    // bundles first, then the members of bundles that failed
    let bundles: Vec<(Vec<usize>, Vec<Lit>, bool)> = [true, false].iter().flat_map(|&own| {
        let ix: Vec<usize> = (0..jobs.len()).filter(|&i| jobs[i].2 == own).collect();
        ix.chunks(16).map(|c| (c.to_vec(), c.iter().map(|&i| xs[i][0]).collect::<Vec<_>>(), own)).collect::<Vec<_>>()
    }).collect();
    let opts = Opts { threads, chunk: 1000, budget: 20_000, deadline: std::time::Instant::now() + std::time::Duration::from_secs(120), max_found: 0, full: false };
    let mut round = |single: Option<&std::collections::HashSet<(bool, usize, usize)>>| -> Vec<(bool, usize, usize)> {
        let mut ids = vec![];
        let mut tasks = vec![];
        for own in [true, false] {
            for k in 0..82 {
                let qs: Vec<Query> = match single {
                    None => bundles.iter().enumerate().filter(|(_, b)| b.2 == own).map(|(i, b)| Query { tag: i, bad: &b.1, fix: vec![], each: false }).collect(),
                    Some(on) => (0..jobs.len()).filter(|&i| on.contains(&(own, k, i))).map(|i| Query { tag: i, bad: &xs[i], fix: vec![], each: false }).collect(),
                };
                if qs.is_empty() {
                    continue;
                }
                let fix = if own { crate::leg::own_king(ps, k) } else { crate::leg::opp_king(ps, k) };
                tasks.push(Task { cx: 0, label: format!("king {k}"), fix, cut: vec![], hyp: vec![], qs });
                ids.push((own, k));
            }
        }
        let a = run(&[&cx], &tasks, &opts);
        tadd(&mut tally, a.tally);
        let mut f: Vec<(bool, usize, usize)> = a.found.iter().map(|f| (f.task, f.tag)).chain(a.undecided).map(|(t, q)| (ids[t].0, ids[t].1, q)).collect();
        f.sort();
        f
    };
    let failed = round(None);
    let on: std::collections::HashSet<(bool, usize, usize)> = failed.iter().flat_map(|&(o, k, b)| bundles[b].0.iter().map(move |&i| (o, k, i))).collect();
    if !on.is_empty() {
        for (_, _, i) in round(Some(&on)) {
            dead[i] = true;
        }
    }
    *g = cx.g;
    let mut out = HashMap::new();
    for (i, j) in jobs.iter().enumerate() {
        if !dead[i] {
            out.entry(j.0).or_insert(j.1);
        }
    }
    (out, tally)
}
