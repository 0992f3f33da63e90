//! Symbolic executor for LLVM IR with state merging.
use crate::aig::*;
use crate::an;
use crate::ir::*;
use crate::mem::*;
use crate::sat::{Res, Sat};
use crate::val::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Rz<X> = Result<X, String>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Pc {
    pub lit: Lit,
    pub cum: Lit,
    /// identity of this fork side, for counting the live states below it (0: not counted)
    pub id: u32,
    /// holds on every path that does not end in an obligation: used to simplify, not part of `cum`
    pub weak: bool,
    /// result of merging
    pub merged: bool,
}

/// registers are kept in copy-on-write chunks of slots
pub type Chunk = [V; 16];
fn chunks(n: usize) -> Vec<Rc<Chunk>> {
    let e: Rc<Chunk> = Rc::new(std::array::from_fn(|_| V::U));
    vec![e; n.div_ceil(16)]
}
fn put(regs: &mut [Rc<Chunk>], slot: u32, v: V) {
    if slot != u32::MAX {
        Rc::make_mut(&mut regs[slot as usize >> 4])[slot as usize & 15] = v;
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub b: u32,
    pub i: u32,
    pub iters: Vec<u32>,
    pub regs: Vec<Rc<Chunk>>,
    pub allocs: Vec<(u64, u64)>,
    pub base: u64,
    pub ret: Option<u32>,
}
#[derive(Clone)]
pub struct State {
    pub fr: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<Pc>,
    pub world: u32,
    pub sp: u64,
    pub hp: u64,
    pub retv: V,
}

/// Read-only program: module, image and addresses.
pub struct Prog {
    pub m: Module,
    pub bg: Bg,
    pub gaddr: Vec<u64>,
    pub faddr: Vec<u64>,
    pub fby: HashMap<u64, u32>,
    /// per function and block: registers to split on and the loop slot to advance
    pub split: Vec<Vec<Option<Split>>>,
    pub single: Vec<Vec<bool>>,
}
pub struct Split {
    pub regs: Vec<u32>,
    pub slot: Option<usize>,
}

pub const STACK: u64 = 0x7E00_0000_0000;
pub const HEAP: u64 = 0x7D00_0000_0000;
pub const CONSTS: u64 = 0x7C00_0000_0000;
pub const FUNCS: u64 = 0x7B00_0000_0000;

fn init_bytes(m: &Module, gaddr: &[u64], faddr: &[u64], ty: &Ty, x: &Init, out: &mut Vec<u8>) {
    let start = out.len();
    let n = ty.size() as usize;
    match x {
        Init::Zero | Init::Undef => out.resize(start + n, 0),
        Init::Bytes(b) => out.extend_from_slice(b),
        Init::Agg(t, v) => {
            let (offs, _) = t.layout();
            for (k, (et, e)) in v.iter().enumerate() {
                let o = match t {
                    Ty::Struct(..) => offs[k] as usize,
                    _ => k * et.size() as usize,
                };
                out.resize(start + o, 0);
                init_bytes(m, gaddr, faddr, et, e, out);
            }
        }
        Init::Op(t, o) => {
            let c: u128 = match o {
                Op::C(c) => *c,
                Op::Glob(g) => gaddr[*g as usize] as u128,
                Op::GlobOff(g, k) => gaddr[*g as usize].wrapping_add(*k as u64) as u128,
                Op::Fun(f) => faddr[*f as usize] as u128,
                _ => 0,
            };
            out.extend_from_slice(&c.to_le_bytes()[..t.size() as usize]);
        }
    }
    out.resize(start + n, 0);
}

impl Prog {
    /// `syms`: symbol addresses of the native binary; `segs`: its memory image.
    pub fn new(mut m: Module, syms: &HashMap<String, u64>, mut segs: Vec<(u64, Vec<u8>)>) -> Rz<Prog> {
        an::analyze(&mut m);
        let mut faddr = vec![];
        let mut fby = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            let a = syms.get(&f.name).copied().unwrap_or(FUNCS + 16 * i as u64);
            faddr.push(a);
            fby.insert(a, i as u32);
        }
        let mut gaddr = vec![];
        let mut next = CONSTS;
        let mut fresh = vec![];
        for g in &m.globals {
            if let Some(&a) = syms.get(&g.name) {
                gaddr.push(a);
                continue;
            }
            if !g.constant || g.init.is_none() {
                return Err(format!("mutable or external global {} has no native address", g.name));
            }
            next = next.div_ceil(64) * 64;
            gaddr.push(next);
            fresh.push(gaddr.len() - 1);
            next += g.ty.size() + 64;
        }
        for i in fresh {
            let g = &m.globals[i];
            let mut out = vec![];
            init_bytes(&m, &gaddr, &faddr, &g.ty, g.init.as_ref().unwrap(), &mut out);
            segs.push((gaddr[i], out));
        }
        segs.sort_by_key(|s| s.0);
        let mut split = vec![];
        let mut single = vec![];
        for f in &m.funcs {
            let mut v = vec![];
            let mut np = vec![0; f.blocks.len()];
            for b in &f.blocks {
                let mut s = b.ins.last().map(|i| i.succs()).unwrap_or_default();
                s.sort();
                s.dedup();
                for x in s {
                    np[x as usize] += 1;
                }
            }
            single.push(np.iter().map(|&n| n <= 1).collect());
            for (bi, b) in f.blocks.iter().enumerate() {
                let mut sp = None;
                if let Some(I::Cond { c, .. }) = b.ins.last() {
                    let sl = an::slice(f, c);
                    let mut regs: Vec<u32> = sl.iter().copied().filter(|&r| f.an.ctz[r as usize]).collect();
                    if !regs.is_empty() {
                        // bit sets advanced by an enclosing loop, nearest to the condition first
                        let lp = &f.an.loops[bi];
                        let mut slot = None;
                        let loopslot = |r: u32| -> Option<usize> {
                            let sl = an::slice(f, &Op::R(r));
                            let d = |r: u32| {
                                let (db, di) = f.an.def[r as usize];
                                (db, if db == u32::MAX { None } else { Some(&f.blocks[db as usize].ins[di as usize]) })
                            };
                            for (k, h) in lp.iter().enumerate().rev() {
                                if sl.iter().any(|&r| matches!(d(r), (b, Some(I::Phi { .. })) if b == *h)) {
                                    return Some(k);
                                }
                            }
                            let local = |o: &Op| an::slice(f, o).iter().any(|&r| matches!(d(r).1, Some(I::Alloca { .. })));
                            if !lp.is_empty() && sl.iter().any(|&r| matches!(d(r), (b, Some(I::Load { p, .. })) if b == bi as u32 && local(p))) {
                                return Some(lp.len() - 1);
                            }
                            None
                        };
                        regs.retain(|&r| match loopslot(r) {
                            Some(k) => {
                                if slot.is_none() {
                                    slot = Some(k);
                                }
                                slot == Some(k)
                            }
                            None => false,
                        });
                        regs.truncate(8);
                        if slot.is_some() {
                            sp = Some(Split { regs, slot });
                        }
                    }
                }
                v.push(sp);
            }
            split.push(v);
        }
        Ok(Prog { m, bg: Bg { segs }, gaddr, faddr, fby, split, single })
    }
    pub fn func(&self, n: &str) -> u32 {
        *self.m.fidx.get(n).unwrap_or_else(|| panic!("no function {n}"))
    }
}

pub struct World {
    pub parent: u32,
    pub elems: Vec<u128>,
    pub guard: Lit,
}
pub struct LogEnt {
    pub world: u32,
    pub guard: Lit,
    pub bits: Vec<Lit>,
}
#[derive(Clone)]
pub struct Emit {
    pub world: u32,
    pub guard: Lit,
    pub code: u128,
}
#[derive(Clone)]
pub struct Obl {
    pub guard: Lit,
    pub msg: String,
    pub world: u32,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub instrs: u64,
    pub merges: u64,
    pub forks: u64,
    pub splits: u64,
    pub maxq: usize,
    pub enumq: u64,
}

pub struct Exec<'p> {
    pub p: &'p Prog,
    pub g: Aig,
    pub logs: Vec<Vec<LogEnt>>,
    pub emits: Vec<Emit>,
    pub obl: Vec<Obl>,
    pub worlds: Vec<World>,
    pub groups: Vec<Vec<Lit>>,
    pub ingroup: HashMap<Lit, usize>,
    pub stats: Stats,
    /// clauses describing valid inputs, used for enumeration queries only
    pub valid: Vec<Vec<Lit>>,
    pub sat: Option<Sat>,
    /// record the set of functions executed
    pub covered: Vec<bool>,
    /// produce extra worlds holding this many three-element lists
    pub triples: usize,
    pub max_steps: u64,
    pub verbose: bool,
    t0: std::time::Instant,
    /// steps and seconds per block, when profiling
    pub prof: Option<HashMap<(u32, u32), (u64, f64, u64)>>,
    /// addresses (byte granularity) read through loads, when tracking is on
    pub track: Option<std::collections::HashSet<u64>>,
    /// heap blocks handed out
    pub blocks: Vec<(u64, u64)>,
    applied: Vec<(Lit, Vec<u32>)>,
    cur: Vec<Rc<Chunk>>,
    curf: usize,
    livetop: HashMap<(u32, u32, u32, bool), Rc<(Vec<u32>, Vec<u32>)>>,
    livemid: HashMap<(u32, u32, u32), Rc<Vec<u32>>>,
    queue: BTreeMap<Vec<u32>, Vec<State>>,
    /// number of live states (and of states merged elsewhere) below each fork side, and per world
    live: Vec<u32>,
    wlive: Vec<u32>,
    urgent: Vec<State>,
}

enum Next {
    Done,
    Cont(State),
}

impl<'p> Exec<'p> {
    pub fn new(p: &'p Prog) -> Self {
        Exec {
            p,
            g: Aig::new(),
            logs: vec![vec![]],
            emits: vec![],
            obl: vec![],
            worlds: vec![World { parent: 0, elems: vec![], guard: T }],
            groups: vec![],
            ingroup: HashMap::new(),
            stats: Stats::default(),
            valid: vec![],
            sat: None,
            covered: vec![false; p.m.funcs.len()],
            triples: 0,
            max_steps: 50_000_000,
            t0: std::time::Instant::now(),
            prof: std::env::var("VX_PROF").ok().map(|_| HashMap::new()),
            verbose: std::env::var("VX_VERBOSE").is_ok(),
            track: None,
            blocks: vec![],
            applied: vec![],
            cur: vec![],
            curf: 0,
            livetop: HashMap::new(),
            livemid: HashMap::new(),
            queue: BTreeMap::new(),
            live: vec![0],
            wlive: vec![0],
            urgent: vec![],
        }
    }
    /// count a state as live (d = 1) or no longer so (d = -1)
    fn count(&mut self, s: &State, d: i32) {
        for e in &s.pc {
            let x = &mut self.live[e.id as usize];
            *x = x.wrapping_add_signed(d);
        }
        let w = s.world as usize;
        if self.wlive.len() <= w {
            self.wlive.resize(w + 1, 0);
        }
        self.wlive[w] = self.wlive[w].wrapping_add_signed(d);
    }
    /// the other side of the last fork cannot happen
    fn weaken(pc: &mut [Pc]) {
        let n = pc.len();
        let c = if n > 1 { pc[n - 2].cum } else { T };
        if let Some(e) = pc.last_mut() {
            e.cum = c;
            e.weak = true;
        }
    }
    /// When all other paths that left a fork side have been merged into this state (or ended in a
    /// recorded obligation), the state covers that side completely and the rest of its path
    /// condition is void.
    fn shorten(&mut self, s: &mut State) {
        let base = s.pc.iter().take_while(|e| e.id == 0).count();
        if s.pc[base..].iter().any(|e| e.id == 0) {
            return;
        }
        let n = s.pc.len();
        let k = if self.wlive[s.world as usize] == 1 {
            base
        } else {
            match (base..n).find(|&k| self.live[s.pc[k].id as usize] == 1) {
                Some(k) => k + 1,
                None => n,
            }
        };
        if s.pc[k..].iter().all(|e| e.weak) {
            return;
        }
        let c = if k > 0 { s.pc[k - 1].cum } else { T };
        let live = &mut self.live;
        let mut i = 0;
        s.pc.retain_mut(|e| {
            i += 1;
            if i > k {
                if e.merged {
                    live[e.id as usize] -= 1;
                    return false;
                }
                e.cum = c;
                e.weak = true;
            }
            true
        });
    }
    pub fn mutex(&mut self, l: Vec<Lit>) {
        let k = self.groups.len();
        for &x in &l {
            if x > 1 {
                self.ingroup.insert(x, k);
            }
        }
        self.groups.push(l);
    }
    // ---- assumptions -------------------------------------------------------------------------
    fn apply(&mut self, l: Lit) {
        let mut set = vec![];
        let mut st = vec![l];
        while let Some(l) = st.pop() {
            let n = l >> 1;
            if n == 0 || self.g.asm[n as usize] != 0 {
                continue;
            }
            self.g.asm[n as usize] = 2 + (1 ^ (l & 1)) as u8;
            set.push(n);
            if l & 1 == 0 && !self.g.is_var(n) && self.g.is_and(n) {
                st.push(self.g.f0[n as usize]);
                st.push(self.g.f1[n as usize]);
            }
            if let Some(&k) = self.ingroup.get(&l) {
                for &o in &self.groups[k] {
                    if o != l {
                        st.push(neg(o));
                    }
                }
            }
        }
        self.applied.push((l, set));
    }
    fn unapply(&mut self, mark: usize) {
        while self.applied.len() > mark {
            let (_, set) = self.applied.pop().unwrap();
            for n in set {
                self.g.asm[n as usize] = 0;
            }
        }
    }
    /// rebuild the upper part of a cone under the current assumptions
    fn restrict(&mut self, l: Lit, depth: u32, memo: &mut HashMap<u32, (u32, Lit)>) -> Lit {
        let l = self.g.norm(l);
        let n = l >> 1;
        if n == 0 || depth == 0 || self.g.is_var(n) {
            return l;
        }
        if let Some(&(d, r)) = memo.get(&n) {
            if d >= depth {
                return r ^ (l & 1);
            }
        }
        if memo.len() > 4000 {
            return l;
        }
        let (a, b) = (self.g.f0[n as usize], self.g.f1[n as usize]);
        let x = self.restrict(a, depth - 1, memo);
        let r = if x == F && self.g.is_and(n) {
            F
        } else {
            let y = self.restrict(b, depth - 1, memo);
            if x == a && y == b {
                n << 1
            } else if self.g.is_and(n) {
                self.g.and(x, y)
            } else {
                self.g.xor(x, y)
            }
        };
        memo.insert(n, (depth, r));
        r ^ (l & 1)
    }
    pub fn set_path(&mut self, pc: &[Pc]) {
        let mut k = 0;
        while k < pc.len() && k < self.applied.len() && self.applied[k].0 == pc[k].lit {
            k += 1;
        }
        while self.applied.len() > k {
            let (_, set) = self.applied.pop().unwrap();
            for n in set {
                self.g.asm[n as usize] = 0;
            }
        }
        for e in &pc[k..] {
            self.apply(e.lit);
        }
    }
    fn cum(pc: &[Pc]) -> Lit {
        pc.last().map(|e| e.cum).unwrap_or(T)
    }
    /// extend a path condition; false if structurally infeasible
    pub fn assume(&mut self, pc: &mut Vec<Pc>, l: Lit) -> bool {
        if l == T {
            return true;
        }
        if l == F {
            return false;
        }
        self.g.raw = true;
        let c = self.g.and(Self::cum(pc), l);
        self.g.raw = false;
        pc.push(Pc { lit: l, cum: c, id: self.live.len() as u32, weak: false, merged: false });
        self.live.push(0);
        c != F
    }
    // ---- values ------------------------------------------------------------------------------
    fn get(&self, r: u32) -> V {
        let s = self.p.m.funcs[self.curf].an.slot[r as usize] as usize;
        self.g.nv(&self.cur[s >> 4][s & 15])
    }
    fn set(&mut self, r: u32, v: V) {
        let s = self.p.m.funcs[self.curf].an.slot[r as usize];
        put(&mut self.cur, s, v);
    }
    fn op(&self, o: &Op) -> V {
        match o {
            Op::R(r) => self.get(*r),
            Op::C(c) => V::C(*c),
            Op::Big(b) => V::B(b.iter().map(|&x| x as Lit).collect::<Vec<_>>().into()),
            Op::Agg(v) => V::Agg(Rc::new(v.iter().map(|x| self.op(x)).collect())),
            Op::Undef => V::U,
            Op::Glob(g) => V::C(self.p.gaddr[*g as usize] as u128),
            Op::GlobOff(g, o) => V::C(self.p.gaddr[*g as usize].wrapping_add(*o as u64) as u128),
            Op::Fun(f) => V::C(self.p.faddr[*f as usize] as u128),
        }
    }
    /// guarded constants covering all values of v, or None if there are too many atoms
    pub fn choices(&mut self, v: &V, w: u32, maxat: usize) -> Option<Vec<(Lit, u128)>> {
        match v {
            V::C(c) => Some(vec![(T, *c)]),
            V::U => Some(vec![(T, 0)]),
            V::Ch(c) => Some(c.it.clone()),
            V::B(_) => {
                let b = self.g.bits(v, w);
                let mut at: Vec<Lit> = b.iter().filter(|&&l| l > 1).map(|&l| l & !1).collect();
                at.sort();
                at.dedup();
                if at.len() > maxat {
                    return None;
                }
                let mut m: BTreeMap<u128, Vec<Lit>> = BTreeMap::new();
                // recursive expansion so that contradictory prefixes are cut early
                let mut st: Vec<(usize, Lit, u32)> = vec![(0, T, 0)];
                while let Some((k, gl, bits)) = st.pop() {
                    if k == at.len() {
                        let mut c = 0u128;
                        for (i, &l) in b.iter().enumerate() {
                            let x = if l < 2 { l } else { (bits >> at.iter().position(|&a| a == l & !1).unwrap() & 1) ^ (l & 1) };
                            c |= (x as u128) << i;
                        }
                        m.entry(c).or_default().push(gl);
                        continue;
                    }
                    for s in 0..2u32 {
                        let n = self.g.and(gl, at[k] ^ 1 ^ s);
                        if n != F {
                            st.push((k + 1, n, bits | s << k));
                        }
                    }
                }
                Some(m.into_iter().map(|(c, l)| (self.g.or_all(&l), c)).collect())
            }
            V::Agg(_) => None,
        }
    }
    fn choices_or_enum(&mut self, v: &V, w: u32, pc: &[Pc]) -> Rz<Vec<(Lit, u128)>> {
        if let Some(c) = self.choices(v, w, 7) {
            return Ok(c);
        }
        // enumerate with the solver
        self.stats.enumq += 1;
        let b = self.g.bits(v, w);
        if self.verbose {
            eprintln!("enum w {} bits {:?} pc {}", w, b.iter().map(|&l| if l < 2 { l as i64 } else { l as i64 }).collect::<Vec<_>>(), pc.len());
        }
        if self.sat.is_none() {
            let mut s = Sat::new();
            for c in &self.valid {
                s.assert_clause(&self.g, c);
            }
            self.sat = Some(s);
        }
        let mut assume: Vec<Lit> = pc.iter().map(|e| e.lit).collect();
        let mut out = vec![];
        loop {
            let s = self.sat.as_mut().unwrap();
            match s.solve(&self.g, &assume, 2_000_000) {
                Res::Unsat => break,
                Res::Unknown => return Err("value enumeration: solver limit".into()),
                Res::Sat => {
                    let mut c = 0u128;
                    for (i, &l) in b.iter().enumerate() {
                        let x = if l < 2 { l == 1 } else { s.value(l >> 1) ^ (l & 1 == 1) };
                        c |= (x as u128) << i;
                    }
                    let e = self.g.eqb(&b, &cbits(c, w));
                    self.g.raw = true;
                    self.g.raw = false;
                    out.push((e, c));
                    assume.push(neg(e));
                    if out.len() > 2000 {
                        return Err("value enumeration: too many values".into());
                    }
                }
            }
        }
        Ok(out)
    }
    // ---- memory ------------------------------------------------------------------------------
    fn mapped(&self, s: &State, a: u64, n: u64) -> bool {
        if n == 0 {
            return true;
        }
        if a >= STACK {
            return a + n <= s.sp;
        }
        if a >= HEAP {
            return a + n <= s.hp;
        }
        self.p.bg.get(a).is_some() && self.p.bg.get(a.wrapping_add(n - 1)).is_some()
    }
    fn obligation(&mut self, s: &State, extra: Lit, msg: String) {
        self.g.raw = true;
        let g = self.g.and(Self::cum(&s.pc), extra);
        self.g.raw = false;
        if g != F {
            self.obl.push(Obl { guard: g, msg, world: s.world });
        }
    }
    fn load(&mut self, s: &State, a: &V, n: u64) -> Rz<Option<Vec<Lit>>> {
        if let V::C(c) = a {
            let a = *c as u64;
            if !self.mapped(s, a, n) {
                self.obligation(s, T, format!("invalid read of {n} bytes at {a:#x}"));
                return Ok(None);
            }
            if let Some(t) = &mut self.track {
                for k in 0..n {
                    t.insert(a + k);
                }
            }
            let mut v = Vec::with_capacity(n as usize * 8);
            s.mem.read(&self.p.bg, a, n, &mut v);
            for l in v.iter_mut() {
                *l = self.g.norm(*l);
            }
            return Ok(Some(v));
        }
        let ch = self.choices_or_enum(a, 64, &s.pc)?;
        let mut alts: Vec<(Lit, Vec<Lit>)> = vec![];
        let mut bad = vec![];
        for (gl, c) in ch {
            let a = c as u64;
            if !self.mapped(s, a, n) {
                bad.push(gl);
                continue;
            }
            if let Some(t) = &mut self.track {
                for k in 0..n {
                    t.insert(a + k);
                }
            }
            let mut v = Vec::with_capacity(n as usize * 8);
            s.mem.read(&self.p.bg, a, n, &mut v);
            for l in v.iter_mut() {
                *l = self.g.norm(*l);
            }
            alts.push((gl, v));
        }
        if !bad.is_empty() {
            let b = self.g.or_all(&bad);
            self.obligation(s, b, "invalid read through a computed address".into());
        }
        if alts.is_empty() {
            return Ok(None);
        }
        Ok(Some(self.mux(&alts)))
    }
    pub fn mux(&mut self, alts: &[(Lit, Vec<Lit>)]) -> Vec<Lit> {
        let n = alts[0].1.len();
        (0..n)
            .map(|i| {
                let f = alts[0].1[i];
                if alts.iter().all(|a| a.1[i] == f) {
                    return f;
                }
                // constants: choose the cheaper polarity; the guards are exclusive and exhaustive
                if alts.iter().all(|a| a.1[i] < 2) {
                    let on: Vec<Lit> = alts.iter().filter(|a| a.1[i] == T).map(|a| a.0).collect();
                    if on.len() * 2 <= alts.len() {
                        return self.g.or_all(&on);
                    }
                    let off: Vec<Lit> = alts.iter().filter(|a| a.1[i] == F).map(|a| a.0).collect();
                    return neg(self.g.or_all(&off));
                }
                let t: Vec<Lit> = alts.iter().map(|a| self.g.and(a.0, a.1[i])).collect();
                self.g.or_all(&t)
            })
            .collect()
    }
    /// false if the state dies
    fn store(&mut self, s: &mut State, a: &V, bits: &[Lit]) -> Rz<bool> {
        let n = bits.len() as u64 / 8;
        if let V::C(c) = a {
            let a = *c as u64;
            if !self.mapped(s, a, n) {
                self.obligation(s, T, format!("invalid write of {n} bytes at {a:#x}"));
                return Ok(false);
            }
            s.mem.write(&self.p.bg, a, bits);
            return Ok(true);
        }
        let ch = self.choices_or_enum(a, 64, &s.pc)?;
        let mut bad = vec![];
        let mut any = false;
        for &(gl, c) in &ch {
            let a = c as u64;
            if !self.mapped(s, a, n) {
                bad.push(gl);
                continue;
            }
            any = true;
            let mut v = Vec::with_capacity(bits.len());
            s.mem.read(&self.p.bg, a, n, &mut v);
            // simplify what is written under the assumption that this address is the one
            // (read-modify-write through the same computed address)
            let nb: Vec<Lit> = if ch.len() > 1 && gl > 1 {
                let mark = self.applied.len();
                self.apply(gl);
                for &(o, _) in &ch {
                    if o != gl {
                        self.apply(neg(o));
                    }
                }
                let mut memo = HashMap::new();
                let nb = bits.iter().map(|&l| self.restrict(l, 12, &mut memo)).collect();
                self.unapply(mark);
                nb
            } else {
                bits.to_vec()
            };
            let r = self.g.iteb(gl, &nb, &v);
            s.mem.write(&self.p.bg, a, &r);
        }
        if !bad.is_empty() {
            let b = self.g.or_all(&bad);
            self.obligation(s, b, "invalid write through a computed address".into());
        }
        Ok(any)
    }
    fn to_val(&self, ty: &Ty, mut b: Vec<Lit>) -> V {
        b.truncate(ty.bits() as usize);
        mkb(b)
    }
    fn load_ty(&mut self, s: &State, a: &V, ty: &Ty) -> Rz<Option<V>> {
        match ty {
            Ty::Struct(f, _) => {
                let (offs, _) = ty.layout();
                let mut v = vec![];
                for (k, t) in f.iter().enumerate() {
                    let ak = self.addc(a, offs[k] as i64);
                    match self.load_ty(s, &ak, t)? {
                        Some(x) => v.push(x),
                        None => return Ok(None),
                    }
                }
                Ok(Some(V::Agg(Rc::new(v))))
            }
            Ty::Arr(n, t) => {
                let mut v = vec![];
                for k in 0..*n {
                    let ak = self.addc(a, (k * t.size()) as i64);
                    match self.load_ty(s, &ak, t)? {
                        Some(x) => v.push(x),
                        None => return Ok(None),
                    }
                }
                Ok(Some(V::Agg(Rc::new(v))))
            }
            _ => {
                let n = (ty.bits() as u64).div_ceil(8);
                if let (V::Ch(c), true) = (a, ty.bits() <= 128) {
                    // table look-up with constant contents stays a guarded constant
                    let mut it = vec![];
                    let mut ok = true;
                    for (gl, ad) in c.it.iter() {
                        let ad = *ad as u64;
                        if !self.mapped(s, ad, n) {
                            ok = false;
                            break;
                        }
                        let mut v = vec![];
                        s.mem.read(&self.p.bg, ad, n, &mut v);
                        v.truncate(ty.bits() as usize);
                        match mkb(v) {
                            V::C(x) => it.push((*gl, x)),
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        if let Some(t) = &mut self.track {
                            for (_, ad) in c.it.iter() {
                                for k in 0..n {
                                    t.insert(*ad as u64 + k);
                                }
                            }
                        }
                        return Ok(Some(mkch_merge(&mut self.g, ty.bits(), it)));
                    }
                }
                Ok(self.load(s, a, n)?.map(|b| self.to_val(ty, b)))
            }
        }
    }
    fn store_ty(&mut self, s: &mut State, a: &V, ty: &Ty, v: &V) -> Rz<bool> {
        match ty {
            Ty::Struct(f, _) => {
                let (offs, _) = ty.layout();
                for (k, t) in f.iter().enumerate() {
                    let e = match v {
                        V::Agg(x) => x[k].clone(),
                        _ => V::U,
                    };
                    let ak = self.addc(a, offs[k] as i64);
                    if !self.store_ty(s, &ak, t, &e)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            Ty::Arr(n, t) => {
                for k in 0..*n {
                    let e = match v {
                        V::Agg(x) => x[k as usize].clone(),
                        _ => V::U,
                    };
                    let ak = self.addc(a, (k * t.size()) as i64);
                    if !self.store_ty(s, &ak, t, &e)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            _ => {
                let w = ty.bits();
                let mut b = self.g.bits(v, w);
                b.resize((w as usize).div_ceil(8) * 8, F);
                self.store(s, a, &b)
            }
        }
    }
    fn addc(&mut self, a: &V, o: i64) -> V {
        if o == 0 {
            return a.clone();
        }
        match a {
            V::C(c) => V::C((*c as u64).wrapping_add(o as u64) as u128),
            V::Ch(c) => mkch(&self.g, 64, c.it.iter().map(|x| (x.0, (x.1 as u64).wrapping_add(o as u64) as u128)).collect()),
            _ => self.bin(B::Add, 64, a, &V::C(o as u64 as u128), true),
        }
    }
    // ---- operations --------------------------------------------------------------------------
    fn map2(&mut self, w: u32, a: &V, b: &V, rw: u32, lim: usize, f: &dyn Fn(u128, u128) -> u128) -> Option<V> {
        let ca = self.choices(a, w, 6)?;
        let cb = self.choices(b, w, 6)?;
        if ca.len() * cb.len() > lim {
            return None;
        }
        let mut it = vec![];
        for &(g1, x) in &ca {
            for &(g2, y) in &cb {
                let gg = self.g.and(g1, g2);
                if gg != F {
                    it.push((gg, f(x, y)));
                }
            }
        }
        Some(mkch_merge(&mut self.g, rw, it))
    }
    fn bin(&mut self, op: B, w: u32, a: &V, b: &V, taint: bool) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(cbin(op, w, *x, *y));
        }
        if matches!((a, b), (V::U, V::U)) {
            return V::U;
        }
        let bitwise = matches!(op, B::And | B::Or | B::Xor);
        let isch = |v: &V| matches!(v, V::Ch(_));
        let isc = |v: &V| matches!(v, V::C(_));
        if w <= 128 && ((isch(a) && isc(b)) || (isc(a) && isch(b))) {
            let f = |x: u128, y: u128| cbin(op, w, x, y);
            if let Some(v) = self.map2(w, a, b, w, 4096, &f) {
                return v;
            }
        }
        let hard = matches!(op, B::Mul | B::Udiv | B::Urem | B::Sdiv | B::Srem);
        if !bitwise && w <= 128 && (taint || hard || isch(a) || isch(b)) {
            let f = |x: u128, y: u128| cbin(op, w, x, y);
            if let Some(v) = self.map2(w, a, b, w, if taint { 8192 } else { 512 }, &f) {
                return v;
            }
        }
        if matches!(op, B::Shl | B::Lshr | B::Ashr) {
            if let V::Ch(c) = b {
                // shift of a symbolic value by one of a few amounts
                let x = self.g.bits(a, w);
                let alts: Vec<(Lit, Vec<Lit>)> = c
                    .it
                    .clone()
                    .iter()
                    .map(|&(l, s)| (l, if s >= w as u128 { vec![F; w as usize] } else { self.g.shiftc(op, &x, s as usize) }))
                    .collect();
                return mkb(self.mux(&alts));
            }
        }
        let x = self.g.bits(a, w);
        let y = self.g.bits(b, w);
        mkb(self.binb(op, &x, &y))
    }
    fn binb(&mut self, op: B, x: &[Lit], y: &[Lit]) -> Vec<Lit> {
        let n = x.len();
        match op {
            B::And => (0..n).map(|i| self.g.and(x[i], y[i])).collect(),
            B::Or => (0..n).map(|i| self.g.or(x[i], y[i])).collect(),
            B::Xor => (0..n).map(|i| self.g.xor(x[i], y[i])).collect(),
            B::Add => self.g.add(x, y, F).0,
            B::Sub => self.g.sub(x, y).0,
            B::Mul => self.g.mulb(x, y),
            B::Shl | B::Lshr | B::Ashr => {
                if y.iter().all(|&l| l < 2) {
                    let s = y.iter().enumerate().fold(0u128, |a, (i, &l)| if i < 128 { a | (l as u128) << i } else { a });
                    if s >= n as u128 {
                        return vec![F; n];
                    }
                    return self.g.shiftc(op, x, s as usize);
                }
                self.g.shiftb(op, x, y)
            }
            B::Udiv | B::Urem => {
                // restoring division
                let mut q = vec![F; n];
                let mut r = vec![F; n];
                for i in (0..n).rev() {
                    let mut r2 = vec![x[i]];
                    r2.extend_from_slice(&r[..n - 1]);
                    let top = r[n - 1];
                    let (d, borrow) = self.g.sub(&r2, y);
                    let ge = self.g.or(top, neg(borrow));
                    q[i] = ge;
                    r = self.g.iteb(ge, &d, &r2);
                }
                if op == B::Udiv {
                    q
                } else {
                    r
                }
            }
            B::Sdiv | B::Srem => {
                let (sa, sb) = (x[n - 1], y[n - 1]);
                let z = vec![F; n];
                let nx = self.g.sub(&z, x).0;
                let ny = self.g.sub(&z, y).0;
                let ax = self.g.iteb(sa, &nx, x);
                let ay = self.g.iteb(sb, &ny, y);
                let r = self.binb(if op == B::Sdiv { B::Udiv } else { B::Urem }, &ax, &ay);
                let nr = self.g.sub(&z, &r).0;
                let s = if op == B::Sdiv { self.g.xor(sa, sb) } else { sa };
                self.g.iteb(s, &nr, &r)
            }
        }
    }
    fn cmpb(&mut self, p: P, x: &[Lit], y: &[Lit]) -> Lit {
        match p {
            P::Eq => self.g.eqb(x, y),
            P::Ne => neg(self.g.eqb(x, y)),
            P::Ult => self.g.ultb(x, y),
            P::Ugt => self.g.ultb(y, x),
            P::Uge => neg(self.g.ultb(x, y)),
            P::Ule => neg(self.g.ultb(y, x)),
            _ => {
                let n = x.len();
                let mut a = x.to_vec();
                let mut b = y.to_vec();
                a[n - 1] = neg(a[n - 1]);
                b[n - 1] = neg(b[n - 1]);
                let q = match p {
                    P::Slt => P::Ult,
                    P::Sgt => P::Ugt,
                    P::Sge => P::Uge,
                    _ => P::Ule,
                };
                self.cmpb(q, &a, &b)
            }
        }
    }
    fn icmp(&mut self, p: P, w: u32, a: &V, b: &V) -> Lit {
        if let (V::C(x), V::C(y)) = (a, b) {
            return ccmp(p, w, *x, *y) as Lit;
        }
        if w <= 128 {
            let sw = match (a, b) {
                (V::Ch(c), V::C(k)) => Some((c.clone(), *k, false)),
                (V::C(k), V::Ch(c)) => Some((c.clone(), *k, true)),
                _ => None,
            };
            if let Some((c, k, swap)) = sw {
                let hit = |x: u128| if swap { ccmp(p, w, k, x) } else { ccmp(p, w, x, k) };
                let on: Vec<Lit> = c.it.iter().filter(|x| hit(x.1)).map(|x| x.0).collect();
                if on.len() == c.it.len() {
                    return T;
                }
                if on.len() * 2 <= c.it.len() {
                    return self.g.or_all(&on);
                }
                let off: Vec<Lit> = c.it.iter().filter(|x| !hit(x.1)).map(|x| x.0).collect();
                let l = self.g.or_all(&off);
                return neg(l);
            }
        }
        let x = self.g.bits(a, w);
        let y = self.g.bits(b, w);
        self.cmpb(p, &x, &y)
    }
    fn cast(&mut self, k: K, fw: u32, tw: u32, a: &V) -> V {
        let f = |c: u128| match k {
            K::Trunc => c & maskw(tw),
            K::Sext => sx(c, fw) as u128 & maskw(tw),
            _ => c,
        };
        match a {
            V::C(c) if tw <= 128 => V::C(f(*c)),
            V::U => V::U,
            V::Ch(c) if tw <= 128 => {
                let it = c.it.iter().map(|x| (x.0, f(x.1))).collect();
                if k == K::Trunc {
                    mkch_merge(&mut self.g, tw, it)
                } else {
                    mkch(&self.g, tw, it)
                }
            }
            _ => {
                let mut b = self.g.bits(a, fw);
                let top = if k == K::Sext { b[fw as usize - 1] } else { F };
                b.resize(tw as usize, top);
                mkb(b)
            }
        }
    }
    pub fn select(&mut self, c: Lit, a: &V, b: &V, ty: Option<u32>, taint: bool) -> V {
        if c == T {
            return a.clone();
        }
        if c == F {
            return b.clone();
        }
        match (a, b) {
            (V::U, x) | (x, V::U) => x.clone(),
            (V::Agg(x), V::Agg(y)) => V::Agg(Rc::new((0..x.len()).map(|i| self.select(c, &x[i], &y[i], None, taint)).collect())),
            (V::C(x), V::C(y)) if x == y => a.clone(),
            _ => {
                let isch = |v: &V| matches!(v, V::Ch(_) | V::C(_));
                let small = match (a, b) {
                    (V::C(_), V::C(_)) => taint,
                    (V::Ch(x), V::Ch(y)) => x.it.len() + y.it.len() <= 256,
                    (V::Ch(x), _) => x.it.len() <= 256,
                    (_, V::Ch(y)) => y.it.len() <= 256,
                    _ => false,
                };
                let w = ty.or(match (a, b) {
                    (V::B(x), _) | (_, V::B(x)) => Some(x.len() as u32),
                    (V::Ch(x), _) | (_, V::Ch(x)) => Some(x.w),
                    _ => None,
                });
                if isch(a) && isch(b) && small {
                    let mut it = vec![];
                    for (v, l) in [(a, c), (b, neg(c))] {
                        match v {
                            V::C(k) => it.push((l, *k)),
                            V::Ch(h) => {
                                for x in h.it.clone() {
                                    let gg = self.g.and(x.0, l);
                                    it.push((gg, x.1));
                                }
                            }
                            _ => {}
                        }
                    }
                    let w = w.unwrap_or(64);
                    return mkch_merge(&mut self.g, w, it);
                }
                // unknown width (both constants inside an aggregate): use 128 bits worth
                let w = match w {
                    Some(w) => w,
                    None => {
                        let it = match (a, b) {
                            (V::C(x), V::C(y)) => vec![(c, *x), (neg(c), *y)],
                            _ => unreachable!(),
                        };
                        // width recovered by the consumer
                        return mkch(&self.g, 0, it);
                    }
                };
                let x = self.g.bits(a, w);
                let y = self.g.bits(b, w);
                mkb(self.g.iteb(c, &x, &y))
            }
        }
    }
    // ---- scheduling --------------------------------------------------------------------------
    fn key(&self, s: &State) -> Vec<u32> {
        let mut k = vec![s.world];
        for f in &s.fr {
            if f.f == u32::MAX {
                k.push(f.i);
                continue;
            }
            let o = &self.p.m.funcs[f.f as usize].an.order[f.b as usize];
            for (i, &x) in o.iter().enumerate() {
                k.push(x);
                if let Some(&n) = f.iters.get(i) {
                    k.push(n);
                }
            }
            k.push(f.i);
        }
        k
    }
    fn push(&mut self, s: State) {
        self.count(&s, 1);
        let t = s.fr.last().unwrap();
        if t.f != u32::MAX && self.p.m.funcs[t.f as usize].an.doomed[t.b as usize] {
            self.urgent.push(s);
            return;
        }
        let k = self.key(&s);
        self.queue.entry(k).or_default().push(s);
        self.stats.maxq = self.stats.maxq.max(self.queue.len());
    }
    fn live_at(&mut self, f: u32, b: u32, i: u32) -> Rc<Vec<u32>> {
        if let Some(v) = self.livemid.get(&(f, b, i)) {
            return v.clone();
        }
        let p = self.p;
        let fun = &p.m.funcs[f as usize];
        let r: Vec<u32> = if i == 0 {
            fun.an.live_in[b as usize].clone()
        } else {
            let blk = &fun.blocks[b as usize];
            let mut s: std::collections::BTreeSet<u32> = Default::default();
            for sc in blk.ins.last().unwrap().succs() {
                let sb = &fun.blocks[sc as usize];
                let mut phis = std::collections::HashSet::new();
                for x in &sb.ins {
                    if let I::Phi { dst, inc, .. } = x {
                        phis.insert(*dst);
                        for (o, pb) in inc {
                            if *pb == b {
                                op_regs(o, &mut |r| {
                                    s.insert(r);
                                })
                            }
                        }
                    }
                }
                for &r in &fun.an.live_in[sc as usize] {
                    if !phis.contains(&r) {
                        s.insert(r);
                    }
                }
            }
            for x in blk.ins[i as usize..].iter().rev() {
                if let Some(d) = x.dst() {
                    s.remove(&d);
                }
                if !matches!(x, I::Phi { .. }) {
                    for o in x.ops() {
                        op_regs(o, &mut |r| {
                            s.insert(r);
                        })
                    }
                }
            }
            s.into_iter().collect()
        };
        let r = Rc::new(r);
        self.livemid.insert((f, b, i), r.clone());
        r
    }
    /// registers (and the tainted ones among them) to be considered when merging a frame
    fn live_regs(&mut self, f: &Frame, top: bool) -> Rc<(Vec<u32>, Vec<u32>)> {
        let k = (f.f, f.b, f.i, top);
        if let Some(v) = self.livetop.get(&k) {
            return v.clone();
        }
        let p = self.p;
        let fun = &p.m.funcs[f.f as usize];
        let mut l: Vec<u32> = if top {
            self.live_at(f.f, f.b, f.i).to_vec()
        } else {
            let d = fun.blocks[f.b as usize].ins[f.i as usize].dst();
            self.live_at(f.f, f.b, f.i + 1).iter().copied().filter(|&r| Some(r) != d).collect()
        };
        l.sort_by_key(|&r| fun.an.slot[r as usize]);
        let t = l.iter().copied().filter(|&r| fun.an.taint[r as usize]).collect();
        let r = Rc::new((l, t));
        self.livetop.insert(k, r.clone());
        r
    }
    /// write the current registers back into the top frame
    fn save(&mut self, s: &mut State, b: u32, i: u32) {
        let fr = s.fr.last_mut().unwrap();
        fr.regs = self.cur.clone();
        fr.b = b;
        fr.i = i;
    }
    fn clear(&mut self) {
        self.cur.clear();
    }
    fn restore(&mut self, s: &mut State) {
        let fr = s.fr.last_mut().unwrap();
        self.cur = std::mem::take(&mut fr.regs);
        self.curf = fr.f as usize;
    }
    /// follow an edge: evaluate phis, advance loop counters
    fn goto(&mut self, s: &mut State, to: u32) {
        let p = self.p;
        let fi = s.fr.last().unwrap().f;
        let from = s.fr.last().unwrap().b;
        let fun = &p.m.funcs[fi as usize];
        let mut vals = vec![];
        for x in &fun.blocks[to as usize].ins {
            let I::Phi { dst, inc, .. } = x else { break };
            let sl = fun.an.slot[*dst as usize];
            if sl != u32::MAX {
                let o = &inc.iter().find(|y| y.1 == from).expect("phi edge").0;
                vals.push((sl, self.op(o)));
            }
        }
        let mut regs = self.cur.clone();
        for (sl, v) in vals {
            put(&mut regs, sl, v);
        }
        let fr = s.fr.last_mut().unwrap();
        let (lu, lv) = (&fun.an.loops[from as usize], &fun.an.loops[to as usize]);
        let mut it = Vec::with_capacity(lv.len());
        for (k, h) in lv.iter().enumerate() {
            if lu.get(k) == Some(h) && it.len() == k {
                let c = fr.iters[k] + (*h == to) as u32;
                it.push(c);
            } else {
                it.push(0);
            }
        }
        fr.iters = it;
        fr.regs = regs;
        fr.b = to;
        fr.i = 0;
    }

    // ---- merging -----------------------------------------------------------------------------
    fn taint_sig(&mut self, s: &State, limit: bool) -> Vec<u128> {
        let mut v = vec![s.world as u128, s.sp as u128];
        let n = s.fr.len();
        for (k, f) in s.fr.iter().enumerate() {
            v.push((f.f as u128) << 64 | f.base as u128);
            if f.f == u32::MAX || !limit {
                continue;
            }
            let p = self.p;
            let slot = &p.m.funcs[f.f as usize].an.slot;
            let live = self.live_regs(f, k + 1 == n);
            for &r in &live.1 {
                fn sig(x: &V, v: &mut Vec<u128>) {
                    match x {
                        V::C(c) => {
                            v.push(1);
                            v.push(*c)
                        }
                        V::Agg(a) => a.iter().for_each(|y| sig(y, v)),
                        V::Ch(_) => v.push(2),
                        _ => v.push(0),
                    }
                }
                let sl = slot[r as usize] as usize;
                sig(&f.regs[sl >> 4][sl & 15], &mut v);
            }
        }
        v
    }
    fn merge2(&mut self, a: State, b: State) -> Rz<State> {
        self.stats.merges += 1;
        let mut k = 0;
        while k < a.pc.len() && k < b.pc.len() && a.pc[k].lit == b.pc[k].lit {
            k += 1;
        }
        let ra: Vec<Lit> = a.pc[k..].iter().filter(|e| !e.weak).map(|e| e.lit).collect();
        let rb: Vec<Lit> = b.pc[k..].iter().filter(|e| !e.weak).map(|e| e.lit).collect();
        let mut pc = a.pc[..k].to_vec();
        // the two become one below their common fork sides; on the other sides both stay counted
        for e in &a.pc[..k] {
            if b.pc.iter().any(|f| f.id == e.id) {
                self.live[e.id as usize] -= 1;
            }
        }
        self.wlive[a.world as usize] -= 1;
        self.set_path(&pc);
        let ca = self.g.and_all(&ra);
        let cb = self.g.and_all(&rb);
        let (c, flip) = if rb.len() < ra.len() { (cb, true) } else { (ca, false) };
        let any = self.g.or(ca, cb);
        let (x, y) = if flip { (b, a) } else { (a, b) };
        let mut fr = Vec::with_capacity(x.fr.len());
        let nfr = x.fr.len();
        for (k_, (f, h)) in x.fr.iter().zip(&y.fr).enumerate() {
            let mut regs = f.regs.clone();
            if f.f != u32::MAX {
                let p = self.p;
                let an = &p.m.funcs[f.f as usize].an;
                let live = self.live_regs(f, k_ + 1 == nfr);
                for &r in &live.0 {
                    let sl = an.slot[r as usize] as usize;
                    let (ci, cj) = (sl >> 4, sl & 15);
                    if Rc::ptr_eq(&f.regs[ci], &h.regs[ci]) {
                        continue;
                    }
                    let (v, w) = (&f.regs[ci][cj], &h.regs[ci][cj]);
                    let same = match (v, w) {
                        (V::C(p), V::C(q)) => p == q,
                        (V::B(p), V::B(q)) => Rc::ptr_eq(p, q) || p == q,
                        (V::Ch(p), V::Ch(q)) => Rc::ptr_eq(p, q),
                        (V::U, V::U) => true,
                        _ => false,
                    };
                    if same {
                        continue;
                    }
                    let (v, w) = (self.g.nv(v), self.g.nv(w));
                    let wd = self.regw(f.f, r);
                    let nv = self.select(c, &v, &w, wd, an.taint[r as usize]);
                    put(&mut regs, sl as u32, nv);
                }
            }
            let mut n = f.clone();
            n.regs = regs;
            fr.push(n);
        }
        // memory
        let mut pages = Vec::with_capacity(x.mem.pages.len());
        let (mut i, mut j) = (0, 0);
        let (px, py) = (&x.mem.pages, &y.mem.pages);
        while i < px.len() || j < py.len() {
            let pa = px.get(i).map(|p| p.0).unwrap_or(u64::MAX);
            let pb = py.get(j).map(|p| p.0).unwrap_or(u64::MAX);
            let pg = pa.min(pb);
            let qa = if pa == pg {
                i += 1;
                Some(px[i - 1].1.clone())
            } else {
                None
            };
            let qb = if pb == pg {
                j += 1;
                Some(py[j - 1].1.clone())
            } else {
                None
            };
            let m = match (qa, qb) {
                (Some(p), Some(q)) if Rc::ptr_eq(&p, &q) => p,
                (p, q) => {
                    // an absent stack or heap page is unspecified content: keep the other side
                    let keep = pg * PG >= HEAP;
                    match (p, q) {
                        (Some(p), None) if keep => p,
                        (None, Some(q)) if keep => q,
                        (p, q) => {
                            let p = p.unwrap_or_else(|| Rc::new(Mem::bgpage(&self.p.bg, pg)));
                            let q = q.unwrap_or_else(|| Rc::new(Mem::bgpage(&self.p.bg, pg)));
                            let mut n = (*p).clone();
                            for k in 0..512 {
                                if p.0[k] != q.0[k] {
                                    n.0[k] = self.g.ite(c, p.0[k], q.0[k]);
                                }
                            }
                            Rc::new(n)
                        }
                    }
                }
            };
            pages.push((pg, m));
        }
        let wd = None;
        let retv = match (&x.retv, &y.retv) {
            (V::U, V::U) => V::U,
            (p, q) => {
                let (p, q) = (self.g.nv(p), self.g.nv(q));
                self.select(c, &p, &q, wd, false)
            }
        };
        let mut s = State { fr, mem: Mem { pages }, pc: vec![], world: x.world, sp: x.sp.max(y.sp), hp: x.hp.max(y.hp), retv };
        // any is normalised under the prefix; a literal is kept unless trivially true
        if any != T {
            self.assume(&mut pc, any);
            pc.last_mut().unwrap().merged = true;
            self.live.pop();
            self.live.push(1);
        }
        s.pc = pc;
        self.shorten(&mut s);
        Ok(s)
    }
    fn regw(&self, f: u32, r: u32) -> Option<u32> {
        if f == u32::MAX {
            return None;
        }
        let fun = &self.p.m.funcs[f as usize];
        let (b, i) = fun.an.def[r as usize];
        let sc = |t: &Ty| match t {
            Ty::I(_) | Ty::Ptr | Ty::Vec(..) => Some(t.bits()),
            _ => None,
        };
        if b == u32::MAX {
            return fun.params.iter().find(|p| p.0 == r).and_then(|p| sc(&p.1));
        }
        match &fun.blocks[b as usize].ins[i as usize] {
            I::Phi { ty, .. } | I::Bin { ty, .. } | I::Select { ty, .. } | I::Load { ty, .. } | I::Call { ty, .. } | I::Rmw { ty, .. } => sc(ty),
            I::Icmp { ty, .. } => Some(if let Ty::Vec(n, _) = ty { *n } else { 1 }),
            I::Cast { to, .. } => sc(to),
            I::Gep { .. } | I::Alloca { .. } => Some(64),
            I::InsElem { vty, .. } => sc(vty),
            I::ExtElem { vty: Ty::Vec(_, t), .. } => sc(t),
            I::Shuffle { vty: Ty::Vec(_, t), mask, .. } => Some(mask.len() as u32 * t.bits()),
            _ => None,
        }
    }
    fn merge_group(&mut self, v: Vec<State>) -> Rz<Vec<State>> {
        if v.len() < 2 {
            return Ok(v);
        }
        let limit = v.len() <= 400;
        let mut groups: HashMap<Vec<u128>, Vec<State>> = HashMap::new();
        let mut order = vec![];
        for s in v {
            let k = self.taint_sig(&s, limit);
            let e = groups.entry(k.clone()).or_default();
            if e.is_empty() {
                order.push(k);
            }
            e.push(s);
        }
        let mut out = vec![];
        for k in order {
            let mut g = groups.remove(&k).unwrap();
            if g.len() == 1 {
                out.push(g.pop().unwrap());
                continue;
            }
            g.sort_by(|a, b| {
                let x = a.pc.iter().map(|e| e.lit);
                let y = b.pc.iter().map(|e| e.lit);
                x.cmp(y)
            });
            // merge neighbours with the longest common prefix first
            let common = |a: &State, b: &State| a.pc.iter().zip(&b.pc).take_while(|(x, y)| x.lit == y.lit).count();
            let mut st: Vec<State> = vec![];
            for s in g {
                // while the top two share more with each other than the top with the newcomer, merge them
                while st.len() >= 2 {
                    let n = st.len();
                    if common(&st[n - 2], &st[n - 1]) > common(&st[n - 1], &s) {
                        let b = st.pop().unwrap();
                        let a = st.pop().unwrap();
                        let m = self.merge2(a, b)?;
                        st.push(m);
                    } else {
                        break;
                    }
                }
                st.push(s);
            }
            while st.len() >= 2 {
                let b = st.pop().unwrap();
                let a = st.pop().unwrap();
                let m = self.merge2(a, b)?;
                st.push(m);
            }
            out.append(&mut st);
        }
        Ok(out)
    }
    // ---- entry -------------------------------------------------------------------------------
    pub fn fresh(&self) -> State {
        State { fr: vec![], mem: Mem::default(), pc: vec![], world: 0, sp: STACK + 4096, hp: HEAP + 4096, retv: V::U }
    }
    /// allocate an object outside any frame
    pub fn alloc(&self, s: &mut State, n: u64) -> u64 {
        let a = s.hp.div_ceil(PG) * PG;
        s.hp = a + n.max(1);
        a
    }
    /// run a function to completion; the result is the merged final state (if any path returns)
    pub fn call(&mut self, mut s: State, f: &str, args: Vec<V>) -> Rz<Option<State>> {
        let fi = self.p.func(f);
        s.fr = vec![Frame { f: u32::MAX, b: 0, i: 0, iters: vec![], regs: vec![], allocs: vec![], base: 0, ret: None }];
        s.retv = V::U;
        self.enter(&mut s, fi, args, None);
        self.queue.clear();
        s.pc.iter_mut().for_each(|e| e.id = 0);
        self.live = vec![0];
        self.wlive = vec![0; self.worlds.len()];
        self.push(s);
        let mut finals = vec![];
        loop {
            // paths that can only fail are settled first, so that the others count as complete
            let v = match self.urgent.pop() {
                Some(s) => vec![s],
                None => match self.queue.pop_first() {
                    Some((_, v)) => v,
                    None => break,
                },
            };
            let t = std::time::Instant::now();
            let mut v = self.merge_group(v)?;
            for s in v.iter_mut() {
                self.shorten(s);
            }
            if let Some(p) = &mut self.prof {
                if let Some(s) = v.first() {
                    let f = s.fr.last().unwrap();
                    p.entry((f.f, f.b)).or_default().1 += t.elapsed().as_secs_f64();
                }
            }
            for s in v {
                if s.fr.len() == 1 {
                    // stays counted
                    if s.world == 0 {
                        finals.push(s);
                    }
                    continue;
                }
                self.stats.steps += 1;
                if self.stats.steps > self.max_steps {
                    return Err("step limit".into());
                }
                if self.verbose && self.stats.steps % 50 == 0 {
                    let f = s.fr.last().unwrap();
                    eprintln!("{:.2} {} {} b{} i{:?} depth {} pc {} regs {} q {} aig {} {:?}", self.t0.elapsed().as_secs_f64(), self.stats.steps, demangle(&self.p.m.funcs[f.f as usize].name), self.p.m.funcs[f.f as usize].blocks[f.b as usize].name, f.iters, s.fr.len(), s.pc.len(), f.regs.len(), self.queue.len(), self.g.len(), self.stats);
                }
                let t = std::time::Instant::now();
                let k = (s.fr.last().unwrap().f, s.fr.last().unwrap().b);
                if let Some(p) = &mut self.prof {
                    let e = p.entry(k).or_default();
                    e.0 += 1;
                    e.2 |= 1 << s.fr.len();
                }
                self.count(&s, -1);
                self.set_path(&s.pc);
                let mut c = s;
                loop {
                    match self.step(c)? {
                        Next::Done => break,
                        Next::Cont(n) => c = n,
                    }
                }
                if let Some(p) = &mut self.prof {
                    p.entry(k).or_default().1 += t.elapsed().as_secs_f64();
                }
            }
        }
        self.set_path(&[]);
        self.clear();
        match finals.len() {
            0 => Ok(None),
            1 => Ok(finals.pop()),
            _ => Err("several unmerged final states".into()),
        }
    }
    pub fn report(&self) {
        let Some(p) = &self.prof else { return };
        let mut v: Vec<_> = p.iter().collect();
        v.sort_by(|a, b| b.1 .1.total_cmp(&a.1 .1));
        let mut byf: HashMap<u32, (u64, f64)> = HashMap::new();
        for (k, x) in &v {
            let e = byf.entry(k.0).or_default();
            e.0 += x.0;
            e.1 += x.1;
        }
        for (k, x) in byf {
            if k != u32::MAX && x.0 > 1000 {
                eprintln!("func {} {} {:.2}s", demangle(&self.p.m.funcs[k as usize].name), x.0, x.1);
            }
        }
        for (k, x) in v.iter().take(40) {
            if k.0 != u32::MAX {
                let f = &self.p.m.funcs[k.0 as usize];
                eprintln!("{:8} {:.2}s {:.1}us {} b{} ({} ins, live {})", x.0, x.1, x.1 * 1e6 / x.0 as f64, demangle(&f.name), f.blocks[k.1 as usize].name, f.blocks[k.1 as usize].ins.len(), f.an.live_in[k.1 as usize].len());
            }
        }
    }
    fn enter(&mut self, s: &mut State, fi: u32, args: Vec<V>, ret: Option<u32>) {
        let fun = &self.p.m.funcs[fi as usize];
        self.covered[fi as usize] = true;
        let mut regs = chunks(fun.an.nslots);
        for (q, a) in fun.params.iter().zip(args) {
            put(&mut regs, fun.an.slot[q.0 as usize], a);
        }
        let base = s.sp;
        let lp = fun.an.loops[0].len();
        s.fr.push(Frame { f: fi, b: 0, i: 0, iters: vec![0; lp], regs, allocs: vec![], base, ret });
    }

    fn step(&mut self, mut s: State) -> Rz<Next> {
        let p = self.p;
        let fi = s.fr.last().unwrap().f;
        let fun = &p.m.funcs[fi as usize];
        let b = s.fr.last().unwrap().b;
        let start = s.fr.last().unwrap().i;
        let blk = &fun.blocks[b as usize];
        let sp = p.split[fi as usize][b as usize].as_ref();
        let snap = sp.map(|_| s.clone());
        self.restore(&mut s);
        let marks = (self.emits.len(), self.obl.len(), self.logs.iter().map(|l| l.len()).collect::<Vec<_>>());
        let mut i = start as usize;
        macro_rules! dead {
            () => {{
                self.clear();
                return Ok(Next::Done);
            }};
        }
        while i < blk.ins.len() {
            self.stats.instrs += 1;
            let ins = &blk.ins[i];
            match ins {
                I::Phi { .. } => {}
                I::Bin { op, dst, ty, a, b } => {
                    let x = self.op(a);
                    let y = self.op(b);
                    let r = match ty {
                        Ty::Vec(n, t) => self.vbin(*op, *n, t.bits(), &x, &y),
                        _ => self.bin(*op, ty.bits(), &x, &y, fun.an.taint[*dst as usize]),
                    };
                    self.set(*dst, r);
                }
                I::Icmp { p: pr, dst, ty, a, b } => {
                    let x = self.op(a);
                    let y = self.op(b);
                    let r = match ty {
                        Ty::Vec(n, t) => {
                            let w = t.bits() as usize;
                            let (x, y) = (self.g.bits(&x, ty.bits()), self.g.bits(&y, ty.bits()));
                            let v = (0..*n as usize).map(|k| self.cmpb(*pr, &x[k * w..k * w + w], &y[k * w..k * w + w])).collect();
                            mkb(v)
                        }
                        _ => {
                            let l = self.icmp(*pr, ty.bits(), &x, &y);
                            mkb(vec![l])
                        }
                    };
                    self.set(*dst, r);
                }
                I::Cast { k, dst, from, to, a } => {
                    let x = self.op(a);
                    let r = match (from, to) {
                        (Ty::Vec(n, ft), Ty::Vec(_, tt)) if *k != K::Bit => {
                            let (fw, tw) = (ft.bits(), tt.bits());
                            let x = self.g.bits(&x, from.bits());
                            let mut out = vec![];
                            for e in 0..*n as usize {
                                let mut l = x[e * fw as usize..(e + 1) * fw as usize].to_vec();
                                let top = if *k == K::Sext { l[fw as usize - 1] } else { F };
                                l.resize(tw as usize, top);
                                out.extend(l);
                            }
                            mkb(out)
                        }
                        _ if *k == K::Bit => x,
                        _ => self.cast(*k, from.bits(), to.bits(), &x),
                    };
                    self.set(*dst, r);
                }
                I::Select { dst, cty, c, ty, a, b } => {
                    let x = self.op(a);
                    let y = self.op(b);
                    let cv = self.op(c);
                    let r = if let Ty::Vec(n, _) = cty {
                        let w = (ty.bits() / n) as usize;
                        let c = self.g.bits(&cv, *n);
                        let (x, y) = (self.g.bits(&x, ty.bits()), self.g.bits(&y, ty.bits()));
                        mkb((0..ty.bits() as usize).map(|k| self.g.ite(c[k / w], x[k], y[k])).collect())
                    } else {
                        let c = self.g.bits(&cv, 1)[0];
                        let w = match ty {
                            Ty::Struct(..) | Ty::Arr(..) => None,
                            _ => Some(ty.bits()),
                        };
                        self.select(c, &x, &y, w, fun.an.taint[*dst as usize])
                    };
                    self.set(*dst, r);
                }
                I::Load { dst, ty, p } => {
                    let a = self.op(p);
                    if self.verbose && matches!(a, V::B(_)) {
                        eprintln!("symbolic load {} block {} reg {} addr {:?}", demangle(&fun.name), blk.name, fun.regname[*dst as usize], p);
                    }
                    match self.load_ty(&s, &a, ty)? {
                        Some(v) => self.set(*dst, v),
                        None => dead!(),
                    }
                }
                I::Store { ty, v, p } => {
                    let a = self.op(p);
                    let v = self.op(v);
                    if !self.store_ty(&mut s, &a, ty, &v)? {
                        dead!()
                    }
                }
                I::Gep { dst, base, off, idx } => {
                    let mut a = self.op(base);
                    if matches!(a, V::U) {
                        a = V::C(0);
                    }
                    a = self.addc(&a, *off);
                    for (o, w, sc) in idx {
                        let x = self.op(o);
                        let x = self.cast(K::Sext, *w, 64, &x);
                        let t = fun.an.taint[*dst as usize];
                        if self.verbose && !matches!(x, V::C(_)) {
                            let d = |v: &V| match v {
                                V::C(c) => format!("C{c:x}"),
                                V::B(b) => format!("B{:?}", b),
                                V::Ch(c) => format!("Ch{}", c.it.len()),
                                V::U => "U".into(),
                                _ => "A".into(),
                            };
                            if fun.regname[*dst as usize].starts_with("156") {
                            eprintln!("gep {} base {} idx {} taint {}", fun.regname[*dst as usize], d(&a), d(&x), t);
                            }
                        }
                        let y = self.bin(B::Mul, 64, &x, &V::C(*sc as u64 as u128), t);
                        a = self.bin(B::Add, 64, &a, &y, t);
                    }
                    self.set(*dst, a);
                }
                I::Alloca { dst, size, align } => {
                    let al = (*align).max(PG);
                    let a = s.sp.div_ceil(al) * al;
                    s.sp = (a + size.max(&1)).div_ceil(PG) * PG;
                    s.fr.last_mut().unwrap().allocs.push((a, *size));
                    self.set(*dst, V::C(a as u128));
                }
                I::Extract { dst, a, path } => {
                    let mut v = self.op(a);
                    for &k in path {
                        v = match v {
                            V::Agg(x) => x[k as usize].clone(),
                            _ => V::U,
                        };
                    }
                    if let V::Ch(c) = &v {
                        if c.w == 0 {
                            let w = self.regw_any(fi, *dst).ok_or("width of extracted value")?;
                            v = mkch(&self.g, w, c.it.clone());
                        }
                    }
                    self.set(*dst, v);
                }
                I::Insert { dst, aty, a, v, path } => {
                    fn ins(t: &Ty, a: &V, v: &V, path: &[u32]) -> V {
                        if path.is_empty() {
                            return v.clone();
                        }
                        let (n, ts): (usize, Vec<Ty>) = match t {
                            Ty::Struct(f, _) => (f.len(), f.clone()),
                            Ty::Arr(n, e) => (*n as usize, vec![(**e).clone(); *n as usize]),
                            _ => (0, vec![]),
                        };
                        let mut x: Vec<V> = match a {
                            V::Agg(x) => (**x).clone(),
                            _ => vec![V::U; n],
                        };
                        let k = path[0] as usize;
                        x[k] = ins(&ts[k], &x[k], v, &path[1..]);
                        V::Agg(Rc::new(x))
                    }
                    let x = self.op(a);
                    let y = self.op(v);
                    let r = ins(aty, &x, &y, path);
                    self.set(*dst, r);
                }
                I::ExtElem { dst, vty, v, i } => {
                    let Ty::Vec(_, t) = vty else { return Err("extractelement".into()) };
                    let w = t.bits() as usize;
                    let v = self.op(v);
                    let x = self.g.bits(&v, vty.bits());
                    let V::C(k) = self.op(i) else { return Err("extractelement index".into()) };
                    let r = mkb(x[k as usize * w..(k as usize + 1) * w].to_vec());
                    self.set(*dst, r);
                }
                I::InsElem { dst, vty, v, e, i } => {
                    let Ty::Vec(_, t) = vty else { return Err("insertelement".into()) };
                    let w = t.bits() as usize;
                    let v = self.op(v);
                    let e = self.op(e);
                    let mut x = self.g.bits(&v, vty.bits());
                    let y = self.g.bits(&e, w as u32);
                    let V::C(k) = self.op(i) else { return Err("insertelement index".into()) };
                    x[k as usize * w..(k as usize + 1) * w].copy_from_slice(&y);
                    self.set(*dst, mkb(x));
                }
                I::Shuffle { dst, vty, a, b, mask } => {
                    let Ty::Vec(n, t) = vty else { return Err("shufflevector".into()) };
                    let w = t.bits() as usize;
                    let (a, b) = (self.op(a), self.op(b));
                    let mut x = self.g.bits(&a, vty.bits());
                    let y = self.g.bits(&b, vty.bits());
                    x.extend(y);
                    let _ = n;
                    let mut r = vec![];
                    for &m in mask {
                        if m < 0 {
                            r.extend(vec![F; w]);
                        } else {
                            r.extend_from_slice(&x[m as usize * w..(m as usize + 1) * w]);
                        }
                    }
                    self.set(*dst, mkb(r));
                }
                I::Fence => {}
                I::Rmw { dst, op, ty, p, v } => {
                    let a = self.op(p);
                    let v = self.op(v);
                    let Some(old) = self.load_ty(&s, &a, ty)? else { dead!() };
                    let w = ty.bits();
                    let n = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(B::Add, w, &old, &v, false),
                        "sub" => self.bin(B::Sub, w, &old, &v, false),
                        "or" => self.bin(B::Or, w, &old, &v, false),
                        "and" => self.bin(B::And, w, &old, &v, false),
                        "xor" => self.bin(B::Xor, w, &old, &v, false),
                        _ => return Err(format!("atomicrmw {op}")),
                    };
                    self.store_ty(&mut s, &a, ty, &n)?;
                    self.set(*dst, old);
                }
                I::Cmpx { dst, ty, p, c, n } => {
                    let a = self.op(p);
                    let (c, n) = (self.op(c), self.op(n));
                    let Some(old) = self.load_ty(&s, &a, ty)? else { dead!() };
                    let w = ty.bits();
                    let e = self.icmp(P::Eq, w, &old, &c);
                    let nv = self.select(e, &n, &old, Some(w), false);
                    self.store_ty(&mut s, &a, ty, &nv)?;
                    let r = V::Agg(Rc::new(vec![old, mkb(vec![e])]));
                    self.set(*dst, r);
                }
                I::Call { dst, ty, f, args } => {
                    let fid = match f {
                        Callee::F(f) => *f,
                        Callee::Ind(o) => {
                            let V::C(a) = self.op(o) else { return Err("symbolic function pointer".into()) };
                            match self.p.fby.get(&(a as u64)) {
                                Some(f) => *f,
                                None => return Err(format!("call to unknown address {a:#x}")),
                            }
                        }
                    };
                    let cf = &p.m.funcs[fid as usize];
                    if cf.defined {
                        let av: Vec<V> = args.iter().map(|a| self.op(&a.1)).collect();
                        if s.fr.len() > 64 {
                            return Err("call depth".into());
                        }
                        self.save(&mut s, b, i as u32 + 1);
                        s.fr.last_mut().unwrap().i = i as u32;
                        self.enter(&mut s, fid, av, *dst);
                        self.clear();
                        return Ok(Next::Cont(s));
                    }
                    let noret = matches!(blk.ins.get(i + 1), Some(I::Unreachable));
                    if noret && !cf.name.starts_with("llvm.") {
                        let name = cf.name.clone();
                        self.obligation(&s, T, format!("panic: {}", demangle(&name)));
                        dead!()
                    }
                    let av: Vec<V> = args.iter().map(|a| self.op(&a.1)).collect();
                    let at: Vec<&Ty> = args.iter().map(|a| &a.0).collect();
                    match self.ext(&mut s, &cf.name, ty, &at, av, b, i as u32, *dst)? {
                        Ext::Val(v) => {
                            if let Some(d) = dst {
                                self.set(*d, v)
                            }
                        }
                        Ext::Dead => dead!(),
                    }
                }
                I::Br(t) => {
                    self.goto(&mut s, *t);
                    return self.next(s, fi, *t);
                }
                I::Cond { c, t, f } => {
                    let cv = self.op(c);
                    let cl = self.g.bits(&cv, 1)[0];
                    if cl < 2 {
                        let to = if cl == T { *t } else { *f };
                        self.goto(&mut s, to);
                        return self.next(s, fi, to);
                    }
                    if let (Some(spl), Some(snap)) = (sp, &snap) {
                        // split on the lowest undecided bit of an iterated bit set
                        let mut lit = None;
                        for &r in &spl.regs {
                            if let V::B(bits) = &self.get(r) {
                                if let Some(&l) = bits.iter().find(|&&l| l != F) {
                                    if l > 1 {
                                        lit = Some(l);
                                        break;
                                    }
                                }
                            }
                        }
                        if let Some(l) = lit {
                            self.stats.splits += 1;
                            self.emits.truncate(marks.0);
                            self.obl.truncate(marks.1);
                            for (k, &n) in marks.2.iter().enumerate() {
                                self.logs[k].truncate(n);
                            }
                            self.logs.truncate(marks.2.len());
                            self.clear();
                            let mut x = snap.clone();
                            let mut y = snap.clone();
                            let okx = self.assume(&mut x.pc, l);
                            let oky = self.assume(&mut y.pc, neg(l));
                            if okx && !oky {
                                Self::weaken(&mut x.pc);
                            } else if oky && !okx {
                                Self::weaken(&mut y.pc);
                            }
                            if let Some(k) = spl.slot {
                                y.fr.last_mut().unwrap().iters[k] += 1;
                            }
                            if okx {
                                self.push(x);
                            }
                            if oky {
                                self.push(y);
                            }
                            return Ok(Next::Done);
                        }
                    }
                    self.stats.forks += 1;
                    let mut x = s.clone();
                    let mut y = s;
                    let okx = self.assume(&mut x.pc, cl);
                    let oky = self.assume(&mut y.pc, neg(cl));
                    if okx && !oky {
                        Self::weaken(&mut x.pc);
                    } else if oky && !okx {
                        Self::weaken(&mut y.pc);
                    }
                    // registers are normalised lazily, so both sides may use the same scratch values
                    if okx {
                        self.goto(&mut x, *t);
                    }
                    if oky {
                        self.goto(&mut y, *f);
                    }
                    self.clear();
                    if okx {
                        self.push(x);
                    }
                    if oky {
                        self.push(y);
                    }
                    return Ok(Next::Done);
                }
                I::Switch { ty, v, def, cases } => {
                    let x = self.op(v);
                    let w = ty.bits();
                    if let V::C(c) = x {
                        let to = cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def);
                        self.goto(&mut s, to);
                        return self.next(s, fi, to);
                    }
                    let mut targets: Vec<(u32, Vec<Lit>)> = vec![];
                    let mut all = vec![];
                    for (c, to) in cases {
                        let e = self.icmp(P::Eq, w, &x, &V::C(*c));
                        all.push(e);
                        match targets.iter_mut().find(|t| t.0 == *to) {
                            Some(t) => t.1.push(e),
                            None => targets.push((*to, vec![e])),
                        }
                    }
                    let anyc = self.g.or_all(&all);
                    match targets.iter_mut().find(|t| t.0 == *def) {
                        Some(t) => t.1.push(neg(anyc)),
                        None => targets.push((*def, vec![neg(anyc)])),
                    }
                    self.stats.forks += 1;
                    let mut base = s.pc.clone();
                    let mut outs = vec![];
                    let n = targets.len();
                    for (k, (to, l)) in targets.into_iter().enumerate() {
                        let l = self.g.or_all(&l);
                        if l == F {
                            continue;
                        }
                        let mut y = s.clone();
                        y.pc = base.clone();
                        if k + 1 < n || l != T {
                            if !self.assume(&mut y.pc, l) {
                                continue;
                            }
                            self.assume(&mut base, neg(l));
                        }
                        self.goto(&mut y, to);
                        outs.push(y);
                    }
                    self.clear();
                    for y in outs {
                        self.push(y);
                    }
                    return Ok(Next::Done);
                }
                I::Ret(v) => {
                    let r = match v {
                        Some((_, v)) => self.op(v),
                        None => V::U,
                    };
                    self.clear();
                    let fr = s.fr.pop().unwrap();
                    s.mem.drop_range(fr.base, s.sp);
                    s.sp = fr.base;
                    let top = s.fr.last_mut().unwrap();
                    top.i += 1;
                    if top.f == u32::MAX {
                        s.retv = r;
                    } else if let Some(d) = fr.ret {
                        let sl = p.m.funcs[top.f as usize].an.slot[d as usize];
                        put(&mut top.regs, sl, r);
                    }
                    self.push(s);
                    return Ok(Next::Done);
                }
                I::Unreachable => {
                    self.obligation(&s, T, "unreachable code reached".into());
                    dead!()
                }
            }
            i += 1;
        }
        Err("block without terminator".into())
    }
    fn regw_any(&self, f: u32, r: u32) -> Option<u32> {
        let fun = &self.p.m.funcs[f as usize];
        // infer from a use
        for b in &fun.blocks {
            for i in &b.ins {
                let is = |o: &Op| matches!(o, Op::R(x) if *x == r);
                match i {
                    I::Bin { ty, a, b, .. } | I::Icmp { ty, a, b, .. } if is(a) || is(b) => return Some(ty.bits()),
                    I::Cast { from, a, .. } if is(a) => return Some(from.bits()),
                    I::Cond { c, .. } if is(c) => return Some(1),
                    I::Switch { ty, v, .. } if is(v) => return Some(ty.bits()),
                    I::Store { ty, v, .. } if is(v) => return Some(ty.bits()),
                    I::Select { ty, a, b, .. } if is(a) || is(b) => return Some(ty.bits()),
                    I::Ret(Some((t, v))) if is(v) => return Some(t.bits()),
                    I::Call { args, .. } => {
                        for (t, o) in args {
                            if is(o) {
                                return Some(t.bits());
                            }
                        }
                    }
                    I::Phi { ty, inc, .. } if inc.iter().any(|x| is(&x.0)) => return Some(ty.bits()),
                    _ => {}
                }
            }
        }
        None
    }
    fn next(&mut self, s: State, fi: u32, to: u32) -> Rz<Next> {
        if self.p.single[fi as usize][to as usize] {
            return Ok(Next::Cont(s));
        }
        self.clear();
        self.push(s);
        Ok(Next::Done)
    }
    fn vbin(&mut self, op: B, n: u32, w: u32, a: &V, b: &V) -> V {
        let x = self.g.bits(a, n * w);
        let y = self.g.bits(b, n * w);
        let w = w as usize;
        let mut r = vec![];
        for k in 0..n as usize {
            r.extend(self.binb(op, &x[k * w..k * w + w], &y[k * w..k * w + w]));
        }
        mkb(r)
    }

    // ---- external functions ------------------------------------------------------------------
    #[allow(clippy::too_many_arguments)]
    fn ext(&mut self, s: &mut State, name: &str, ty: &Ty, at: &[&Ty], a: Vec<V>, b: u32, i: u32, _dst: Option<u32>) -> Rz<Ext> {
        let conc = |v: &V, w: &str| -> Rz<u64> {
            match v {
                V::C(c) => Ok(*c as u64),
                V::U => Ok(0),
                _ => Err(format!("{name}: symbolic {w}")),
            }
        };
        if let Some(n) = name.strip_prefix("llvm.") {
            let base = n.split('.').next().unwrap();
            let val = |v| Ok(Ext::Val(v));
            return match base {
                "lifetime" => {
                    if let Some(V::C(c)) = a.last() {
                        let ad = *c as u64;
                        let al = s.fr.last().unwrap().allocs.iter().find(|x| x.0 == ad).copied();
                        if let Some((x, n)) = al {
                            s.mem.drop_range(x, x + n);
                        }
                    }
                    val(V::U)
                }
                "assume" => {
                    if let V::C(0) = a[0] {
                        self.obligation(s, T, "assumption violated".into());
                        return Ok(Ext::Dead);
                    }
                    val(V::U)
                }
                "expect" => val(a[0].clone()),
                "experimental" | "dbg" | "donothing" | "prefetch" => val(V::U),
                "memcpy" | "memmove" => {
                    let n = self.size_of(s, &a[2])?;
                    if n == 0 {
                        return val(V::U);
                    }
                    let Some(bits) = self.load(s, &a[1], n)? else { return Ok(Ext::Dead) };
                    if !self.store(s, &a[0], &bits)? {
                        return Ok(Ext::Dead);
                    }
                    val(V::U)
                }
                "memset" => {
                    let n = self.size_of(s, &a[2])?;
                    if n == 0 {
                        return val(V::U);
                    }
                    let v = self.g.bits(&a[1], 8);
                    let bits: Vec<Lit> = (0..n).flat_map(|_| v.clone()).collect();
                    if !self.store(s, &a[0], &bits)? {
                        return Ok(Ext::Dead);
                    }
                    val(V::U)
                }
                "cttz" | "ctlz" => {
                    let w = ty.bits();
                    if let Ty::Vec(..) = ty {
                        return Err(format!("{name}"));
                    }
                    let x = self.g.bits(&a[0], w);
                    let idx: Vec<usize> = if base == "cttz" { (0..w as usize).collect() } else { (0..w as usize).rev().collect() };
                    let mut it = vec![];
                    let mut none = T; // no earlier bit set
                    for (k, &p) in idx.iter().enumerate() {
                        if x[p] == F {
                            continue;
                        }
                        let gl = self.g.and(none, x[p]);
                        if gl != F {
                            it.push((gl, k as u128));
                        }
                        none = self.g.and(none, neg(x[p]));
                        if none == F {
                            break;
                        }
                    }
                    if none != F {
                        let zero_poison = matches!(a[1], V::C(1));
                        if it.is_empty() {
                            it.push((T, w as u128));
                        } else if zero_poison {
                            // undefined for zero: checked separately
                            self.obligation(s, none, format!("{base} of zero"));
                            // make the guards exhaustive
                            let last = it.pop().unwrap();
                            let l = self.g.or(last.0, none);
                            it.push((l, last.1));
                        } else {
                            it.push((none, w as u128));
                        }
                    }
                    val(mkch(&self.g, w, it))
                }
                "ctpop" => {
                    let w = ty.bits();
                    let x = self.g.bits(&a[0], w);
                    let r = self.g.popcount(&x, w);
                    val(mkb(r))
                }
                "umul" | "smul" | "uadd" | "sadd" | "usub" | "ssub" if n.contains("with.overflow") => {
                    let w = at[0].bits();
                    if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                        let (x, y) = (*x, *y);
                        let op = match &base[1..] {
                            "add" => B::Add,
                            "sub" => B::Sub,
                            _ => B::Mul,
                        };
                        let r = cbin(op, w, x, y);
                        let o = if base.starts_with('s') {
                            let (sx_, sy) = (sx(x, w), sx(y, w));
                            let e = match op {
                                B::Add => sx_.checked_add(sy),
                                B::Sub => sx_.checked_sub(sy),
                                _ => sx_.checked_mul(sy),
                            };
                            e != Some(sx(r, w))
                        } else {
                            match op {
                                B::Add => x.checked_add(y) != Some(r),
                                B::Sub => x < y,
                                _ => x.checked_mul(y) != Some(r),
                            }
                        };
                        return val(V::Agg(Rc::new(vec![V::C(r), V::C(o as u128)])));
                    }
                    let x = self.g.bits(&a[0], w);
                    let y = self.g.bits(&a[1], w);
                    let (r, o) = match base {
                        "uadd" => self.g.add(&x, &y, F),
                        "usub" => self.g.sub(&x, &y),
                        "sadd" | "ssub" => {
                            let e = |v: &Vec<Lit>| {
                                let mut v = v.clone();
                                v.push(v[w as usize - 1]);
                                v
                            };
                            let (ex, ey) = (e(&x), e(&y));
                            let r = if base == "sadd" { self.g.add(&ex, &ey, F).0 } else { self.g.sub(&ex, &ey).0 };
                            let o = self.g.xor(r[w as usize], r[w as usize - 1]);
                            (r[..w as usize].to_vec(), o)
                        }
                        _ => {
                            let s_ = base == "smul";
                            let e = |v: &Vec<Lit>| {
                                let mut t = v.clone();
                                let top = if s_ { v[w as usize - 1] } else { F };
                                t.resize(2 * w as usize, top);
                                t
                            };
                            let r = self.g.mulb(&e(&x), &e(&y));
                            let w = w as usize;
                            let sgn = if s_ { r[w - 1] } else { F };
                            let d: Vec<Lit> = (w..2 * w).map(|k| self.g.xor(r[k], sgn)).collect();
                            let o = self.g.or_all(&d);
                            (r[..w].to_vec(), o)
                        }
                    };
                    val(V::Agg(Rc::new(vec![mkb(r), mkb(vec![o])])))
                }
                "umax" | "umin" | "smax" | "smin" => {
                    let (n, w) = match ty {
                        Ty::Vec(n, t) => (*n as usize, t.bits() as usize),
                        _ => (1, ty.bits() as usize),
                    };
                    let x = self.g.bits(&a[0], ty.bits());
                    let y = self.g.bits(&a[1], ty.bits());
                    let p = match base {
                        "umax" => P::Ugt,
                        "umin" => P::Ult,
                        "smax" => P::Sgt,
                        _ => P::Slt,
                    };
                    let mut r = vec![];
                    for k in 0..n {
                        let (p0, p1) = (&x[k * w..k * w + w], &y[k * w..k * w + w]);
                        let c = self.cmpb(p, p0, p1);
                        r.extend(self.g.iteb(c, p0, p1));
                    }
                    val(mkb(r))
                }
                "scmp" | "ucmp" => {
                    let w = at[0].bits();
                    let (lt, gt) = if base == "scmp" { (P::Slt, P::Sgt) } else { (P::Ult, P::Ugt) };
                    let l = self.icmp(lt, w, &a[0], &a[1]);
                    let g_ = self.icmp(gt, w, &a[0], &a[1]);
                    let rw = ty.bits();
                    let mut r = vec![l; rw as usize];
                    r[0] = self.g.or(l, g_);
                    val(mkb(r))
                }
                "abs" => {
                    let w = ty.bits();
                    let z = V::C(0);
                    let n = self.bin(B::Sub, w, &z, &a[0], true);
                    let c = self.icmp(P::Slt, w, &a[0], &z);
                    val(self.select(c, &n, &a[0], Some(w), true))
                }
                "fshl" | "fshr" => {
                    let w = ty.bits() as usize;
                    let k = conc(&a[2], "shift")? as usize % w;
                    let hi = self.g.bits(&a[0], w as u32);
                    let lo = self.g.bits(&a[1], w as u32);
                    let mut cat = lo;
                    cat.extend(hi);
                    let st = if base == "fshl" { w - k } else { k };
                    val(mkb(cat[st..st + w].to_vec()))
                }
                "bswap" => {
                    let w = ty.bits() as usize;
                    let x = self.g.bits(&a[0], w as u32);
                    val(mkb((0..w).map(|k| x[w - 8 - k / 8 * 8 + k % 8]).collect()))
                }
                "bitreverse" => {
                    let w = ty.bits();
                    let mut x = self.g.bits(&a[0], w);
                    x.reverse();
                    val(mkb(x))
                }
                "usub" | "uadd" if n.contains("sat") && !matches!(ty, Ty::Vec(..)) => {
                    let w = ty.bits();
                    let x = self.g.bits(&a[0], w);
                    let y = self.g.bits(&a[1], w);
                    let r = if base == "uadd" {
                        let (r, c) = self.g.add(&x, &y, F);
                        self.g.iteb(c, &vec![T; w as usize], &r)
                    } else {
                        let (r, c) = self.g.sub(&x, &y);
                        self.g.iteb(c, &vec![F; w as usize], &r)
                    };
                    val(mkb(r))
                }
                "x86" => {
                    let sub = &n[4..];
                    match sub {
                        "avx2.pmovmskb" | "sse2.pmovmskb.128" => {
                            let bits = at[0].bits();
                            let x = self.g.bits(&a[0], bits);
                            let mut r: Vec<Lit> = (0..bits as usize / 8).map(|k| x[k * 8 + 7]).collect();
                            r.resize(32, F);
                            val(mkb(r))
                        }
                        "sse41.ptestz" | "sse41.ptestc" | "sse41.ptestnzc" | "avx.ptestz.256" | "avx.ptestc.256" => {
                            let bits = at[0].bits();
                            let x = self.g.bits(&a[0], bits);
                            let y = self.g.bits(&a[1], bits);
                            let z: Vec<Lit> = (0..bits as usize).map(|k| self.g.and(x[k], y[k])).collect();
                            let z = neg(self.g.or_all(&z));
                            let c: Vec<Lit> = (0..bits as usize).map(|k| self.g.and(neg(x[k]), y[k])).collect();
                            let c = neg(self.g.or_all(&c));
                            let l = if sub.contains("testz") {
                                z
                            } else if sub.contains("testc") {
                                c
                            } else {
                                self.g.and(neg(z), neg(c))
                            };
                            let mut r = vec![F; 32];
                            r[0] = l;
                            val(mkb(r))
                        }
                        _ => Err(format!("unsupported intrinsic {name}")),
                    }
                }
                "vector" if n.starts_with("vector.reduce.") => {
                    let Ty::Vec(k, t) = at[0] else { return Err(name.to_string()) };
                    let w = t.bits() as usize;
                    let x = self.g.bits(&a[0], at[0].bits());
                    let mut r = x[..w].to_vec();
                    let op = if n.contains("reduce.or") {
                        B::Or
                    } else if n.contains("reduce.and") {
                        B::And
                    } else if n.contains("reduce.xor") {
                        B::Xor
                    } else if n.contains("reduce.add") {
                        B::Add
                    } else {
                        return Err(format!("unsupported intrinsic {name}"));
                    };
                    for e in 1..*k as usize {
                        r = self.binb(op, &r, &x[e * w..e * w + w]);
                    }
                    val(mkb(r))
                }
                _ => Err(format!("unsupported intrinsic {name}")),
            };
        }
        let heap = |s: &mut State, n: u64, al: u64| {
            let al = al.max(PG);
            let x = s.hp.div_ceil(al) * al;
            s.hp = x + n.max(1);
            x
        };
        if name.starts_with("__vx_") {
            return self.hook(s, name, a, b, i);
        }
        if name.contains("___rust_no_alloc_shim") {
            return Ok(Ext::Val(V::U));
        }
        if name.ends_with("___rust_alloc") || name.ends_with("___rust_alloc_zeroed") {
            let n = self.size_of(s, &a[0])?;
            let x = heap(s, n, conc(&a[1], "alignment")?);
            self.blocks.push((x, n));
            return Ok(Ext::Val(V::C(x as u128)));
        }
        if name.ends_with("___rust_dealloc") {
            return Ok(Ext::Val(V::U));
        }
        if name.ends_with("___rust_realloc") {
            let old = self.size_of(s, &a[1])?;
            let n = self.size_of(s, &a[3])?;
            let x = heap(s, n, conc(&a[2], "alignment")?);
            self.blocks.push((x, n));
            // copying does not count as reading
            let tr = self.track.take();
            let bits = self.load(s, &a[0], old.min(n))?;
            self.track = tr;
            let Some(bits) = bits else { return Ok(Ext::Dead) };
            self.store(s, &V::C(x as u128), &bits)?;
            return Ok(Ext::Val(V::C(x as u128)));
        }
        if name == "memcmp" || name == "bcmp" {
            let n = self.size_of(s, &a[2])?;
            if n == 0 {
                return Ok(Ext::Val(V::C(0)));
            }
            let Some(x) = self.load(s, &a[0], n)? else { return Ok(Ext::Dead) };
            let Some(y) = self.load(s, &a[1], n)? else { return Ok(Ext::Dead) };
            // big-endian byte comparison
            let rev = |v: &Vec<Lit>| -> Vec<Lit> { v.chunks(8).rev().flatten().copied().collect() };
            let (x, y) = (rev(&x), rev(&y));
            let lt = self.g.ultb(&x, &y);
            let e = self.g.eqb(&x, &y);
            let mut r = vec![lt; 32];
            r[0] = neg(e);
            return Ok(Ext::Val(mkb(r)));
        }
        Err(format!("unsupported external function {}", demangle(name)))
    }
    fn size_of(&mut self, s: &State, v: &V) -> Rz<u64> {
        match v {
            V::C(c) => Ok(*c as u64),
            V::U => Ok(0),
            _ => {
                let c = self.choices_or_enum(v, 64, &s.pc)?;
                if c.len() == 1 {
                    return Ok(c[0].1 as u64);
                }
                Err("symbolic size".into())
            }
        }
    }
    pub fn related(&self, a: u32, b: u32) -> bool {
        self.ancestor(a, b) || self.ancestor(b, a)
    }
    pub fn bits_of(&mut self, v: &V, w: u32) -> Vec<Lit> {
        self.g.bits(v, w)
    }
    fn ancestor(&self, w: u32, anc: u32) -> bool {
        let mut w = w;
        loop {
            if w == anc {
                return true;
            }
            if w == 0 {
                return false;
            }
            w = self.worlds[w as usize].parent;
        }
    }
    fn hook(&mut self, s: &mut State, name: &str, a: Vec<V>, b: u32, i: u32) -> Rz<Ext> {
        let c = |v: &V, w: &str| -> Rz<u64> {
            match v {
                V::C(c) => Ok(*c as u64),
                _ => Err(format!("{name}: symbolic {w}")),
            }
        };
        match name {
            "__vx_emit" => {
                let ch = match self.choices(&a[0], 32, 10) {
                    Some(c) => c,
                    None => self.choices_or_enum(&a[0], 32, &s.pc)?,
                };
                for (gl, code) in ch {
                    self.g.raw = true;
                    let gl = self.g.and(Self::cum(&s.pc), gl);
                    self.g.raw = false;
                    if gl != F {
                        self.emits.push(Emit { world: s.world, guard: gl, code });
                    }
                }
                Ok(Ext::Val(V::U))
            }
            "__vx_list_new" => {
                self.logs.push(vec![]);
                Ok(Ext::Val(V::C(self.logs.len() as u128 - 1)))
            }
            "__vx_list_clone" => {
                let id = c(&a[0], "list")? as usize;
                let v = self.logs[id].iter().map(|e| LogEnt { world: e.world, guard: e.guard, bits: e.bits.clone() }).collect();
                self.logs.push(v);
                Ok(Ext::Val(V::C(self.logs.len() as u128 - 1)))
            }
            "__vx_list_push" => {
                let id = c(&a[0], "list")? as usize;
                let n = c(&a[2], "size")?;
                let Some(bits) = self.load(s, &a[1], n)? else { return Ok(Ext::Dead) };
                let gl = Self::cum(&s.pc);
                self.logs[id].push(LogEnt { world: s.world, guard: gl, bits });
                Ok(Ext::Val(V::U))
            }
            "__vx_list_settle" => {
                let id = c(&a[0], "list")? as usize;
                let (plog, plen, pdata) = (a[1].clone(), a[2].clone(), a[3].clone());
                let ents: Vec<(Lit, Vec<Lit>)> = self.logs[id].iter().filter(|e| self.ancestor(s.world, e.world)).map(|e| (e.guard, e.bits.clone())).collect();
                let mut m: BTreeMap<u128, Vec<Lit>> = BTreeMap::new();
                self.g.raw = true;
                for (gl, bits) in ents {
                    let w = bits.len() as u32;
                    let v = mkb(bits);
                    match self.choices(&v, w, 10) {
                        Some(ch) => {
                            for (g2, code) in ch {
                                let x = self.g.and(gl, g2);
                                m.entry(code).or_default().push(x);
                            }
                        }
                        None => return Err("list element with too many values".into()),
                    }
                }
                let esz = {
                    let n = c(&a[4], "size")?;
                    n as usize * 8
                };
                let list: Vec<(u128, Lit)> = m.into_iter().map(|(k, l)| (k, self.g.or_all(&l))).collect();
                self.g.raw = false;
                // the state goes on as several worlds: its own side stays counted
                self.count(s, 1);
                self.save(s, b, i + 1);
                let mut mk: Vec<(Vec<u128>, Lit)> = vec![(vec![], T)];
                for (k, l) in &list {
                    mk.push((vec![*k], *l));
                }
                let n = list.len();
                if n >= 3 {
                    for t in 0..self.triples {
                        let h = |k: usize| (t * 7919 + k * (n / 3 + 1) + t * k * 131) % n;
                        let (x, mut y, mut z) = (h(0), h(1), h(2));
                        while y == x {
                            y = (y + 1) % n
                        }
                        while z == x || z == y {
                            z = (z + 1) % n
                        }
                        self.g.raw = true;
                        let l = self.g.and_all(&[list[x].1, list[y].1, list[z].1]);
                        self.g.raw = false;
                        mk.push((vec![list[x].0, list[y].0, list[z].0], l));
                    }
                }
                for (el, gl) in mk {
                    if el.len() > 0 && self.g.norm(gl) == F {
                        continue;
                    }
                    let mut y = s.clone();
                    let gl2 = self.g.norm(gl);
                    if gl2 != T && !self.assume(&mut y.pc, gl2) {
                        continue;
                    }
                    let w = self.worlds.len() as u32;
                    self.worlds.push(World { parent: s.world, elems: el.clone(), guard: gl });
                    y.world = w;
                    y.pc.iter_mut().for_each(|e| e.id = 0);
                    self.store(&mut y, &plog, &cbits(0, 32))?;
                    self.store(&mut y, &plen, &cbits(el.len() as u128, 32))?;
                    for (k, e) in el.iter().enumerate() {
                        let ad = self.addc(&pdata, (k * esz / 8) as i64);
                        self.store(&mut y, &ad, &cbits(*e, esz as u32))?;
                    }
                    self.push(y);
                }
                self.clear();
                Ok(Ext::Dead)
            }
            _ => Err(format!("unknown hook {name}")),
        }
    }
}

enum Ext {
    Val(V),
    Dead,
}

/// last path components of a mangled Rust name (v0), for messages
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    let mut parts = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            if i < b.len() && b[i] == b'_' {
                i += 1
            }
            if l > 1 && i + l <= b.len() {
                parts.push(&n[i..i + l]);
                i += l;
            }
        } else {
            i += 1
        }
    }
    if parts.is_empty() {
        return n.to_string();
    }
    let k = parts.len().saturating_sub(3);
    parts[k..].join("::")
}
