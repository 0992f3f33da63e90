//! Control-flow and data-flow analyses: weak topological order, liveness, address taint,
//! count-zeros operands.
use crate::ir::*;
use std::collections::{BTreeSet, HashMap, HashSet};

enum W {
    V(u32),
    C(u32, Vec<W>),
}
struct Wto<'a> {
    succ: &'a [Vec<u32>],
    dfn: Vec<u32>,
    num: u32,
    st: Vec<u32>,
}
const INF: u32 = u32::MAX;
impl<'a> Wto<'a> {
    fn visit(&mut self, v: u32, part: &mut Vec<W>) -> u32 {
        self.st.push(v);
        self.num += 1;
        self.dfn[v as usize] = self.num;
        let mut head = self.num;
        let mut lp = false;
        for k in 0..self.succ[v as usize].len() {
            let w = self.succ[v as usize][k];
            let min = if self.dfn[w as usize] == 0 { self.visit(w, part) } else { self.dfn[w as usize] };
            if min <= head {
                head = min;
                lp = true;
            }
        }
        if head == self.dfn[v as usize] {
            self.dfn[v as usize] = INF;
            let mut e = self.st.pop().unwrap();
            if lp {
                while e != v {
                    self.dfn[e as usize] = 0;
                    e = self.st.pop().unwrap();
                }
                let mut sub = vec![];
                for k in 0..self.succ[v as usize].len() {
                    let w = self.succ[v as usize][k];
                    if self.dfn[w as usize] == 0 {
                        self.visit(w, &mut sub);
                    }
                }
                part.push(W::C(v, sub)); // lists are built in reverse
            } else {
                part.push(W::V(v));
            }
        }
        head
    }
}
fn assign(l: &[W], pre: &[u32], lps: &[u32], start: u32, order: &mut [Vec<u32>], loops: &mut [Vec<u32>]) {
    for (k, w) in l.iter().rev().enumerate() {
        let mut p = pre.to_vec();
        p.push(start + k as u32);
        match w {
            W::V(v) => {
                order[*v as usize] = p;
                loops[*v as usize] = lps.to_vec();
            }
            W::C(h, sub) => {
                let mut ls = lps.to_vec();
                ls.push(*h);
                let mut hp = p.clone();
                hp.push(0);
                order[*h as usize] = hp;
                loops[*h as usize] = ls.clone();
                assign(sub, &p, &ls, 1, order, loops);
            }
        }
    }
}

pub fn analyze(m: &mut Module) {
    let n = m.funcs.len();
    for i in 0..n {
        if m.funcs[i].defined {
            let an = func(&m.funcs[i]);
            m.funcs[i].an = an;
        }
    }
    taint(m);
    for i in 0..n {
        if m.funcs[i].defined {
            ctz(m, i);
        }
    }
}

fn func(f: &Func) -> An {
    let nb = f.blocks.len();
    let succ: Vec<Vec<u32>> = f
        .blocks
        .iter()
        .map(|b| {
            let mut s = b.ins.last().unwrap().succs();
            let mut seen = HashSet::new();
            s.retain(|x| seen.insert(*x));
            s
        })
        .collect();
    let mut w = Wto { succ: &succ, dfn: vec![0; nb], num: 0, st: vec![] };
    let mut part = vec![];
    w.visit(0, &mut part);
    let mut order = vec![vec![]; nb];
    let mut loops = vec![vec![]; nb];
    assign(&part, &[], &[], 0, &mut order, &mut loops);
    // liveness
    let mut def = vec![(u32::MAX, 0); f.nregs];
    for (bi, b) in f.blocks.iter().enumerate() {
        for (ii, i) in b.ins.iter().enumerate() {
            if let Some(d) = i.dst() {
                def[d as usize] = (bi as u32, ii as u32);
            }
        }
    }
    let mut gen: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); nb];
    let mut kill: Vec<HashSet<u32>> = vec![HashSet::new(); nb];
    let mut phiuse: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); nb]; // used by phis of successors, at end of block
    for (bi, b) in f.blocks.iter().enumerate() {
        for i in &b.ins {
            for o in i.ops() {
                op_regs(o, &mut |r| {
                    if !kill[bi].contains(&r) {
                        gen[bi].insert(r);
                    }
                });
            }
            if let I::Phi { inc, .. } = i {
                for (o, p) in inc {
                    op_regs(o, &mut |r| {
                        phiuse[*p as usize].insert(r);
                    });
                }
            }
            if let (Some(d), false) = (i.dst(), matches!(i, I::Phi { .. })) {
                kill[bi].insert(d);
            }
        }
    }
    // live_in keeps phi destinations of the block itself (they are computed on the edge)
    let phis: Vec<HashSet<u32>> = f
        .blocks
        .iter()
        .map(|b| b.ins.iter().filter_map(|i| if let I::Phi { dst, .. } = i { Some(*dst) } else { None }).collect())
        .collect();
    let mut live: Vec<BTreeSet<u32>> = gen.clone();
    let mut pred: Vec<Vec<u32>> = vec![vec![]; nb];
    for (b, s) in succ.iter().enumerate() {
        for &x in s {
            pred[x as usize].push(b as u32)
        }
    }
    let mut work: Vec<u32> = (0..nb as u32).collect();
    let mut inw = vec![true; nb];
    while let Some(b) = work.pop() {
        let bu = b as usize;
        inw[bu] = false;
        let mut out: BTreeSet<u32> = phiuse[bu].clone();
        for &s in &succ[bu] {
            for &r in &live[s as usize] {
                if !phis[s as usize].contains(&r) {
                    out.insert(r);
                }
            }
        }
        let before = live[bu].len();
        for r in out {
            if !kill[bu].contains(&r) {
                live[bu].insert(r);
            }
        }
        if live[bu].len() != before {
            for &p in &pred[bu] {
                if !inw[p as usize] {
                    inw[p as usize] = true;
                    work.push(p)
                }
            }
        }
    }
    let live_in: Vec<Vec<u32>> = live.into_iter().map(|s| s.into_iter().collect()).collect();
    // storage slots: registers alive at the same time get different slots
    let mut slot = vec![u32::MAX; f.nregs];
    let mut nslots = 0;
    let mut seq: Vec<usize> = (0..nb).filter(|&b| !order[b].is_empty()).collect();
    seq.sort_by(|&a, &b| order[a].cmp(&order[b]));
    for b in seq {
        let mut busy: BTreeSet<u32> = live_in[b].iter().map(|&r| slot[r as usize]).filter(|&s| s != u32::MAX).collect();
        let mut alloc = |busy: &mut BTreeSet<u32>| {
            let mut k = 0;
            for &x in busy.iter() {
                if x != k {
                    break;
                }
                k += 1;
            }
            busy.insert(k);
            nslots = nslots.max(k as usize + 1);
            k
        };
        for &r in &live_in[b] {
            if slot[r as usize] == u32::MAX {
                slot[r as usize] = alloc(&mut busy);
            }
        }
        let mut out: HashSet<u32> = phiuse[b].iter().copied().collect();
        for &s in &succ[b] {
            for &r in &live_in[s as usize] {
                if !phis[s as usize].contains(&r) {
                    out.insert(r);
                }
            }
        }
        let mut last: HashMap<u32, usize> = HashMap::new();
        for (k, i) in f.blocks[b].ins.iter().enumerate() {
            if matches!(i, I::Phi { .. }) {
                continue;
            }
            for o in i.ops() {
                op_regs(o, &mut |r| {
                    last.insert(r, k);
                });
            }
        }
        for (k, i) in f.blocks[b].ins.iter().enumerate() {
            if matches!(i, I::Phi { .. }) {
                continue;
            }
            for o in i.ops() {
                op_regs(o, &mut |r| {
                    if last[&r] == k && !out.contains(&r) {
                        busy.remove(&slot[r as usize]);
                    }
                });
            }
            if let Some(d) = i.dst() {
                let s = alloc(&mut busy);
                slot[d as usize] = s;
                if !out.contains(&d) && !last.contains_key(&d) {
                    busy.remove(&s);
                }
            }
        }
    }
    let mut doomed: Vec<bool> = f.blocks.iter().map(|b| !matches!(b.ins.last(), Some(I::Ret(_)))).collect();
    loop {
        let n = (0..nb).find(|&b| doomed[b] && succ[b].iter().any(|&t| !doomed[t as usize]));
        match n {
            Some(b) => doomed[b] = false,
            None => break,
        }
    }
    An { doomed, slot, nslots, live_in, order, loops, taint: vec![false; f.nregs], ctz: vec![false; f.nregs], def }
}

fn taint(m: &mut Module) {
    let n = m.funcs.len();
    let mut ptaint: Vec<Vec<bool>> = m.funcs.iter().map(|f| vec![false; f.params.len()]).collect();
    let mut rtaint: Vec<bool> = vec![false; n];
    loop {
        let mut changed = false;
        for fi in 0..n {
            if !m.funcs[fi].defined {
                continue;
            }
            let f = &m.funcs[fi];
            let mut t = f.an.taint.clone();
            let mut work: Vec<u32> = vec![];
            fn mark(o: &Op, t: &mut Vec<bool>, work: &mut Vec<u32>) {
                op_regs(o, &mut |r| {
                    if !t[r as usize] {
                        t[r as usize] = true;
                        work.push(r)
                    }
                })
            }
            let mut ncallee: Vec<(u32, usize)> = vec![];
            for b in &f.blocks {
                for i in &b.ins {
                    match i {
                        I::Load { p, .. } | I::Store { p, .. } | I::Rmw { p, .. } | I::Cmpx { p, .. } => mark(p, &mut t, &mut work),
                        I::Bin { op: B::Shl | B::Lshr | B::Ashr, b, .. } => mark(b, &mut t, &mut work),
                        I::ExtElem { i, .. } | I::InsElem { i, .. } => mark(i, &mut t, &mut work),
                        I::Call { f: Callee::F(g), args, dst, .. } => {
                            let cf = &m.funcs[*g as usize];
                            if cf.defined {
                                for (k, a) in args.iter().enumerate() {
                                    if ptaint[*g as usize].get(k).copied().unwrap_or(false) {
                                        mark(&a.1, &mut t, &mut work)
                                    }
                                }
                            } else if cf.name.starts_with("llvm.mem") || cf.name.starts_with("__vx_list") || cf.name.contains("alloc") {
                                for a in args {
                                    mark(&a.1, &mut t, &mut work)
                                }
                            }
                            if let Some(d) = dst {
                                if t[*d as usize] && cf.defined {
                                    ncallee.push((*g, 0));
                                }
                            }
                        }
                        I::Call { f: Callee::Ind(o), .. } => mark(o, &mut t, &mut work),
                        I::Ret(Some((_, v))) if rtaint[fi] => mark(v, &mut t, &mut work),
                        _ => {}
                    }
                }
            }
            // backward closure
            let mut all: Vec<u32> = (0..f.nregs as u32).filter(|&r| t[r as usize]).collect();
            work.append(&mut all);
            while let Some(r) = work.pop() {
                let (b, i) = f.an.def[r as usize];
                if b == u32::MAX {
                    continue;
                }
                match &f.blocks[b as usize].ins[i as usize] {
                    I::Phi { inc, .. } => {
                        for (o, _) in inc {
                            mark(o, &mut t, &mut work)
                        }
                    }
                    I::Bin { a, b, .. } => {
                        mark(a, &mut t, &mut work);
                        mark(b, &mut t, &mut work)
                    }
                    I::Cast { a, .. } | I::Extract { a, .. } => mark(a, &mut t, &mut work),
                    I::Select { a, b, .. } => {
                        mark(a, &mut t, &mut work);
                        mark(b, &mut t, &mut work)
                    }
                    I::Gep { base, idx, .. } => {
                        mark(base, &mut t, &mut work);
                        for x in idx {
                            mark(&x.0, &mut t, &mut work)
                        }
                    }
                    I::Insert { a, v, .. } => {
                        mark(a, &mut t, &mut work);
                        mark(v, &mut t, &mut work)
                    }
                    I::Call { f: Callee::F(g), args, .. } => {
                        let cf = &m.funcs[*g as usize];
                        if cf.defined {
                            ncallee.push((*g, 0))
                        } else if cf.name.starts_with("llvm.") && !cf.name.contains("ctlz") && !cf.name.contains("cttz") && !cf.name.contains("ctpop") {
                            for a in args {
                                mark(&a.1, &mut t, &mut work)
                            }
                        }
                    }
                    _ => {}
                }
            }
            for (g, _) in ncallee {
                if !rtaint[g as usize] {
                    rtaint[g as usize] = true;
                    changed = true;
                }
            }
            for (k, (r, _)) in f.params.iter().enumerate() {
                if t[*r as usize] && !ptaint[fi][k] {
                    ptaint[fi][k] = true;
                    changed = true;
                }
            }
            if t != f.an.taint {
                changed = true;
                m.funcs[fi].an.taint = t;
            }
        }
        if !changed {
            break;
        }
    }
}

/// Pure SSA backward slice of an operand: stops at loads, calls and phis (which are included).
pub fn slice(f: &Func, o: &Op) -> Vec<u32> {
    let mut seen: HashSet<u32> = HashSet::new();
    let mut work = vec![];
    op_regs(o, &mut |r| work.push(r));
    let mut out = vec![];
    while let Some(r) = work.pop() {
        if !seen.insert(r) || seen.len() > 200 {
            continue;
        }
        out.push(r);
        let (b, i) = f.an.def[r as usize];
        if b == u32::MAX {
            continue;
        }
        let ins = &f.blocks[b as usize].ins[i as usize];
        match ins {
            I::Phi { .. } | I::Load { .. } => {}
            I::Call { .. } => {
                // intrinsics without memory effects
                for o in ins.ops() {
                    op_regs(o, &mut |r| work.push(r))
                }
            }
            _ => {
                for o in ins.ops() {
                    op_regs(o, &mut |r| work.push(r))
                }
            }
        }
    }
    out
}

fn ctz(m: &mut Module, fi: usize) {
    let f = &m.funcs[fi];
    let mut c = vec![false; f.nregs];
    for b in &f.blocks {
        for i in &b.ins {
            if let I::Call { f: Callee::F(g), args, .. } = i {
                let n = &m.funcs[*g as usize].name;
                if n.starts_with("llvm.cttz") || n.starts_with("llvm.ctlz") {
                    op_regs(&args[0].1, &mut |r| c[r as usize] = true);
                }
            }
        }
    }
    // a phi joining the operand, and halves of a wide operand, count as well
    let roots: Vec<u32> = (0..f.nregs as u32).filter(|&r| c[r as usize]).collect();
    for r in roots {
        for s in slice(f, &Op::R(r)) {
            let (b, i) = f.an.def[s as usize];
            if b != u32::MAX && matches!(f.blocks[b as usize].ins[i as usize], I::Phi { .. }) {
                c[s as usize] = true;
            }
        }
    }
    m.funcs[fi].an.ctz = c;
}

pub fn names(f: &Func) -> HashMap<String, u32> {
    f.regname.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect()
}
