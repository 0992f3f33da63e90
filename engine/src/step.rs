//! Single moves (gives-check query, play, take back) executed on a symbolic position.
use crate::aig::*;
use crate::check::*;
use crate::exec::*;
use crate::leg::*;
use crate::native::*;
use crate::pool::*;
use crate::pos::*;
use crate::report::*;
use crate::sat::*;
use crate::spec::*;
use crate::val::V;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

const NO: u32 = u32::MAX;
/// one side's moves from a square, or drops of a kind
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Grp {
    /// 0: any piece but a king, 1: with promotion, 2: the king
    From(usize, u8),
    Drop(usize),
}
pub fn moves(side: usize, gr: Grp) -> Vec<Mv> {
    Spec::all_moves(side).into_iter().filter(|m| match (*m, gr) {
        (Mv::Normal { from, to, promote }, Grp::From(f, p)) => from == f && promote == (p == 1) && (p != 2 || Spec::can(KING, side, from, to)) && (p == 2 || (1..15).any(|k| k != KING && Spec::can(k, side, from, to) && Spec::promo_ok(k, side, from, to, promote))),
        (Mv::Drop { kind, .. }, Grp::Drop(k)) => kind == k,
        _ => false,
    }).collect()
}
pub fn show(g: &Aig, l: Lit, d: usize) -> String {
    let n = l >> 1;
    let s = if n == 0 {
        "0".into()
    } else if g.is_var(n) {
        g.names.iter().find(|x| x.0 == n).map_or("?".into(), |x| x.1.clone())
    } else if d == 0 {
        format!("[{n}]")
    } else {
        format!("({}{}{})", show(g, g.f0[n as usize], d - 1), if g.is_and(n) { "&" } else { "^" }, show(g, g.f1[n as usize], d - 1))
    };
    if l & 1 == 1 { format!("!{s}") } else { s }
}
/// rebuild literals of another graph here, its inputs replaced
pub struct Graft<'a> {
    src: &'a Aig,
    map: Vec<Lit>,
}
impl<'a> Graft<'a> {
    pub fn new(src: &'a Aig, vars: &HashMap<u32, Lit>) -> Self {
        let mut map = vec![NO; src.len()];
        map[0] = F;
        for (&n, &l) in vars {
            map[n as usize] = l;
        }
        Graft { src, map }
    }
    pub fn set(&mut self, n: u32, l: Lit) {
        self.map[n as usize] = l;
    }
    pub fn lit(&mut self, g: &mut Aig, l: Lit) -> Lit {
        let mut st = vec![l >> 1];
        while let Some(&n) = st.last() {
            let i = n as usize;
            if self.map[i] != NO {
                st.pop();
                continue;
            }
            assert!(!self.src.is_var(n), "input without a value");
            let (a, b) = (self.src.f0[i], self.src.f1[i]);
            let (ma, mb) = (self.map[(a >> 1) as usize], self.map[(b >> 1) as usize]);
            if a < b && (ma != NO && ma ^ (a & 1) == F || mb != NO && mb ^ (b & 1) == F) {
                self.map[i] = F;
                st.pop();
                continue;
            }
            if ma == NO {
                st.push(a >> 1);
                continue;
            }
            if mb == NO {
                st.push(b >> 1);
                continue;
            }
            let (x, y) = (ma ^ (a & 1), mb ^ (b & 1));
            self.map[i] = if a < b { g.and(x, y) } else { g.xor(x, y) };
            st.pop();
        }
        self.map[(l >> 1) as usize] ^ (l & 1)
    }
}
/// exclusive-or of two literals with their chains of exclusive-ors cancelled against each other
pub fn diff(g: &mut Aig, a: Lit, b: Lit) -> Lit {
    if a == b {
        return F;
    }
    let mut par: HashMap<u32, bool> = HashMap::new();
    let mut sign = 0;
    let mut st = vec![a, b];
    while let Some(l) = st.pop() {
        sign ^= l & 1;
        let n = l >> 1;
        if n == 0 {
            continue;
        }
        if g.is_xor(n) && g.grp[n as usize] == 0 {
            st.push(g.f0[n as usize]);
            st.push(g.f1[n as usize]);
        } else {
            *par.entry(n).or_default() ^= true;
        }
    }
    let mut by: BTreeMap<u16, Vec<u32>> = BTreeMap::new();
    for (n, p) in par {
        if p {
            by.entry(g.grp[n as usize]).or_default().push(n);
        }
    }
    let mut r = sign;
    for v in by.values_mut() {
        v.sort();
        let mut x = F;
        for n in v {
            x = g.xor(x, *n << 1);
        }
        r = g.xor(r, x);
    }
    r
}
/// where a position keeps its pile of states: words of the struct, size of an element
#[derive(Clone, Debug)]
pub struct Shape {
    pub size: u64,
    pub ptr: usize,
    pub cap: usize,
    pub len: usize,
    pub e: u64,
}
fn rd(e: &Exec, s: &State, a: u64, n: u64) -> Vec<Lit> {
    let mut v = vec![];
    s.mem.read(&e.p.bg, a, n, &mut v);
    v
}
pub fn conc(b: &[Lit]) -> Option<u64> {
    let mut x = 0;
    for (i, &l) in b.iter().enumerate() {
        if l > 1 {
            return None;
        }
        x |= (l as u64) << i;
    }
    Some(x)
}
impl Shape {
    fn word(&self, e: &Exec, s: &State, out: u64, i: usize) -> Result<u64, String> {
        conc(&rd(e, s, out + 8 * i as u64, 8)).ok_or("the pile of states has no definite place".into())
    }
    /// address of the topmost element
    pub fn top(&self, e: &Exec, s: &State, out: u64) -> Result<u64, String> {
        let (p, n) = (self.word(e, s, out, self.ptr)?, self.word(e, s, out, self.len)?);
        let b = e.blocks.iter().rev().find(|b| b.0 == p).ok_or("the pile of states is not in a block of its own")?;
        if n == 0 || n * self.e > b.1 {
            return Err("the pile of states has an impossible length".into());
        }
        Ok(p + (n - 1) * self.e)
    }
    /// the fixed part and the topmost element
    pub fn view(&self, e: &Exec, s: &State, out: u64) -> Result<Vec<Lit>, String> {
        let mut v = rd(e, s, out, self.size);
        for i in [self.ptr, self.cap, self.len] {
            v[64 * i..64 * i + 64].fill(F);
        }
        v.extend(rd(e, s, self.top(e, s, out)?, self.e));
        Ok(v)
    }
    pub fn find(e: &Exec, size: u64, out: u64, a: &State, b: &State) -> Result<Shape, String> {
        let n = (size / 8) as usize;
        let wd = |s: &State| -> Vec<Option<u64>> { (0..n).map(|i| conc(&rd(e, s, out + 8 * i as u64, 8))).collect() };
        let (x, y) = (wd(a), wd(b));
        let blk = |p: Option<u64>| p.and_then(|p| e.blocks.iter().rev().find(|b| b.0 == p).map(|b| b.1));
        let ps: Vec<usize> = (0..n).filter(|&i| blk(x[i]).is_some() && blk(y[i]).is_some()).collect();
        let [ptr] = ps[..] else { return Err(format!("{} candidates for the pile of states", ps.len())) };
        let (z0, z1) = (blk(x[ptr]).unwrap(), blk(y[ptr]).unwrap());
        for len in 0..n {
            let (Some(l0), Some(l1)) = (x[len], y[len]) else { continue };
            if len == ptr || l0 == 0 || l0 > 1 << 20 || l1 != l0 + 1 {
                continue;
            }
            for cap in 0..n {
                let (Some(c0), Some(c1)) = (x[cap], y[cap]) else { continue };
                if cap == ptr || cap == len || c0 < l0 || c1 < l1 || c0 > 1 << 20 || c1 > 1 << 20 || z0 % c0 != 0 || z0 / c0 * c1 != z1 || z0 / c0 % 8 != 0 {
                    continue;
                }
                let el = z0 / c0;
                // what was written lies in the new element
                let (p0, p1) = (x[ptr].unwrap(), y[ptr].unwrap());
                let mut o0 = rd(e, a, p0, z0);
                o0.resize(z1 as usize * 8, F);
                let o1 = rd(e, b, p1, z1);
                let hit: Vec<u64> = (0..z1 * 8).filter(|&i| o0[i as usize] != o1[i as usize]).map(|i| i / 8).collect();
                if !hit.is_empty() && hit.iter().all(|&i| i / el == l0) {
                    return Ok(Shape { size, ptr, cap, len, e: el });
                }
            }
        }
        Err("the pile of states is not kept as expected".into())
    }
    /// the same position on top of an element with unknown content
    pub fn deepen(&self, e: &mut Exec, s: &mut State, out: u64) -> Result<(), String> {
        let top = self.top(e, s, out)?;
        let bits = rd(e, s, top, self.e);
        let p = e.alloc(s, 2 * self.e);
        e.blocks.push((p, 2 * self.e));
        let junk: Vec<Lit> = (0..self.e * 8).map(|i| e.g.var(format!("below{i}"))).collect();
        let w = |x: u64| -> Vec<Lit> { (0..64).map(|i| (x >> i & 1) as Lit).collect() };
        s.mem.write(&e.p.bg, p, &junk);
        s.mem.write(&e.p.bg, p + self.e, &bits);
        s.mem.write(&e.p.bg, out + 8 * self.ptr as u64, &w(p));
        s.mem.write(&e.p.bg, out + 8 * self.cap as u64, &w(2));
        s.mem.write(&e.p.bg, out + 8 * self.len as u64, &w(2));
        Ok(())
    }
}
/// what one side's constructed position looks like, for comparison
pub struct Fresh {
    pub g: Aig,
    pub ps: Pos,
    pub shape: Result<Shape, String>,
    /// fixed part and topmost element
    pub view: Vec<Lit>,
    pub keys: Vec<Lit>,
    pub key: Vec<Lit>,
    pub chk: Lit,
    /// bytes of the view holding keys, and bytes the queries read
    pub kbytes: HashSet<usize>,
    pub reads: HashSet<usize>,
    pub stats: Stats,
    pub funcs: Vec<String>,
    pub secs: f64,
}
pub struct Base<'p> {
    pub e: Exec<'p>,
    pub ps: Pos,
    pub s: State,
    pub out: u64,
    /// scratch memory
    pub tmp: u64,
    pub size: u64,
}
pub fn base<'p>(p: &'p Prog, lay: &Layout, side: usize, mine: Option<(usize, u8)>, chains: bool) -> Result<Base<'p>, String> {
    let mut e = Exec::new(p);
    e.g.chains = chains;
    let (ps, mut s, pp, out) = crate::setup(&mut e, lay, match mine {
        Some((q, 2)) => Case { side, own: vec![q], opp: None, mine: None },
        _ => Case { side, own: (0..82).collect(), opp: None, mine },
    });
    let tmp = e.alloc(&mut s, 64);
    let s = e.call(s, "h_sizes", vec![V::C(tmp as u128)])?.ok_or("sizes")?;
    let size = conc(&rd(&e, &s, tmp + 8, 8)).ok_or("sizes")?;
    let s = e.call(s, "h_new", vec![V::C(pp as u128), V::C(out as u128)])?.ok_or("construction never returns")?;
    Ok(Base { e, ps, s, out, tmp, size })
}
fn bits(e: &mut Exec, s: &State, w: u32) -> Vec<Lit> {
    let v = s.retv.clone();
    let mut b = e.bits_of(&v, w);
    b.truncate(w as usize);
    b
}
pub fn play(e: &mut Exec, s: &State, out: u64, side: usize, m: Mv, what: &str) -> Result<Option<State>, String> {
    let o = V::C(out as u128);
    let c = |x: usize| V::C(x as u128);
    match m {
        Mv::Normal { from, to, promote } => e.call(s.clone(), &format!("h_{what}_normal"), vec![o, c(from), c(to), c(promote as usize)]),
        Mv::Drop { kind, to } => e.call(s.clone(), &format!("h_{what}_drop"), vec![o, c(kind + 16 * side), c(to)]),
    }
}
pub fn keys_of(e: &mut Exec, s: &State, out: u64, tmp: u64) -> Result<(Vec<Lit>, Vec<Lit>), String> {
    let s2 = e.call(s.clone(), "h_keys", vec![V::C(out as u128), V::C(tmp as u128)])?.ok_or("keys never returns")?;
    let ks = rd(e, &s2, tmp, 16);
    let s2 = e.call(s.clone(), "h_key", vec![V::C(out as u128)])?.ok_or("key never returns")?;
    let k = bits(e, &s2, 64);
    Ok((ks, k))
}
/// accessor answers: side, counter, hands, board
pub struct Acc {
    pub side: Vec<Lit>,
    pub ply: Vec<Lit>,
    pub hand: Vec<Vec<Lit>>,
    pub board: Vec<Vec<Lit>>,
}
pub fn accessors(e: &mut Exec, s: &State, out: u64, tmp: u64) -> Result<Acc, String> {
    let o = V::C(out as u128);
    let never = "an accessor never returns";
    let s2 = e.call(s.clone(), "h_side", vec![o.clone()])?.ok_or(never)?;
    let side = bits(e, &s2, 8);
    let s2 = e.call(s.clone(), "h_ply", vec![o.clone()])?.ok_or(never)?;
    let ply = bits(e, &s2, 16);
    let mut hand = vec![];
    for c in 1..3 {
        let s2 = e.call(s.clone(), "h_hand", vec![o.clone(), V::C(c), V::C(tmp as u128)])?.ok_or(never)?;
        hand.push(rd(e, &s2, tmp, 8));
    }
    let mut board = vec![vec![]];
    for q in 1..82 {
        let s2 = e.call(s.clone(), "h_piece_at", vec![o.clone(), V::C(q)])?.ok_or(never)?;
        board.push(bits(e, &s2, 8));
    }
    Ok(Acc { side, ply, hand, board })
}
/// the position the rules prescribe
pub struct Succ {
    pub byte: Vec<[Lit; 5]>,
    pub hand: [[Vec<Lit>; 7]; 2],
    pub ply: Vec<Lit>,
    /// kind bits (no king) and colour on the target square, and whether the king moved there
    to: [Lit; 5],
    kto: Lit,
}
pub fn succ(g: &mut Aig, ps: &Pos, m: Mv) -> Succ {
    let s = ps.case.side;
    let one = vec![F; 16];
    let ply = g.add(&ps.ply, &one, T).0;
    let mut r = Succ { byte: ps.byte.clone(), hand: ps.hand.clone(), ply, to: [F; 5], kto: F };
    match m {
        Mv::Normal { from, to, promote } => {
            r.byte[from] = [F; 5];
            let mut b: Vec<Vec<Lit>> = vec![vec![]; 4];
            for k in (1..15).filter(|&k| k != KING) {
                let k2 = if promote { promo_kind(k).unwrap_or(k) } else { k };
                for i in 0..4 {
                    if k2 >> i & 1 == 1 {
                        b[i].push(ps.pc[from][k][s]);
                    }
                }
            }
            for i in 0..4 {
                r.to[i] = g.or_all(&b[i]);
            }
            r.kto = ps.kown[from];
            r.to[4] = if s == 1 { neg(r.kto) } else { F };
            r.byte[to] = r.to;
            r.byte[to][3] = g.or(r.to[3], r.kto);
            r.byte[to][4] = s as Lit;
            for j in 1..8 {
                let c: Vec<Lit> = (1..15).filter(|&k| unpromo(k) == j).map(|k| ps.pc[to][k][1 - s]).collect();
                let c = g.or_all(&c);
                let h = ps.hand[s][j - 1].clone();
                let z = vec![F; h.len()];
                r.hand[s][j - 1] = g.add(&h, &z, c).0;
            }
        }
        Mv::Drop { kind, to } => {
            for i in 0..5 {
                r.to[i] = ((kind + 16 * s) >> i & 1) as Lit;
            }
            r.byte[to] = r.to;
            let h = ps.hand[s][kind - 1].clone();
            let z = vec![T; h.len()];
            r.hand[s][kind - 1] = g.add(&h, &z, F).0;
        }
    }
    r
}
/// the inputs of the other side's constructed position, as functions of the position before the move
fn inputs_after(f: &Pos, ps: &Pos, su: &Succ, m: Mv) -> HashMap<u32, Lit> {
    let (from, to) = match m {
        Mv::Normal { from, to, .. } => (from, to),
        Mv::Drop { to, .. } => (0, to),
    };
    let mut v = HashMap::new();
    let mut put = |x: Lit, y: Lit| {
        if x > 1 {
            v.insert(x >> 1, y ^ (x & 1));
        }
    };
    for q in 1..82 {
        let src = if q == from { [F; 5] } else if q == to { su.to } else { ps.vars(q) };
        for i in 0..5 {
            put(f.vars(q)[i], src[i]);
        }
        put(f.kown[q], if q == from || q == to { F } else { ps.okl[q] });
        put(f.okl[q], if q == from { F } else if q == to { su.kto } else { ps.kown[q] });
    }
    for c in 0..2 {
        for k in 0..7 {
            for i in 0..f.hand[c][k].len() {
                put(f.hand[c][k][i], su.hand[c][k][i]);
            }
        }
    }
    for i in 0..16 {
        put(f.ply[i], su.ply[i]);
    }
    v
}
/// the move is possible as far as the pieces and the empty squares go, and the hand has room
fn feasible(g: &mut Aig, sp: &mut Spec, m: Mv) -> Lit {
    let ps = sp.p;
    let s = ps.case.side;
    match m {
        Mv::Normal { from, to, promote } => {
            let mut v = vec![];
            for k in 1..15 {
                if Spec::promo_ok(k, s, from, to, promote) && ps.pc[from][k][s] != F && Spec::can(k, s, from, to) {
                    let r = sp.reach(g, k, s, from, to);
                    v.push(g.and(ps.pc[from][k][s], r));
                }
            }
            let mut w = vec![g.or_all(&v), neg(ps.pl[to][s]), neg(ps.okl[to])];
            for j in 1..8 {
                let c: Vec<Lit> = (1..15).filter(|&k| unpromo(k) == j).map(|k| ps.pc[to][k][1 - s]).collect();
                let c = g.or_all(&c);
                let full: Vec<Lit> = ps.hand[s][j - 1].iter().enumerate().map(|(i, &l)| l ^ (HMAX[j - 1] >> i & 1 ^ 1)).collect();
                let full = g.and_all(&full);
                w.push(neg(g.and(c, full)));
            }
            g.and_all(&w)
        }
        Mv::Drop { kind, to } => {
            let h = g.or_all(&ps.hand[s][kind - 1]);
            g.and_all(&[h, neg(ps.occ[to])])
        }
    }
}
/// bytes of the view that a set of addresses falls on; None: outside (or below the top element)
fn view_bytes(sh: &Shape, out: u64, top: u64, blk: (u64, u64), t: &HashSet<u64>) -> Result<HashSet<usize>, String> {
    let mut r = HashSet::new();
    for &a in t {
        if a >= out && a < out + sh.size {
            r.insert((a - out) as usize);
        } else if a >= top && a < top + sh.e {
            r.insert((sh.size + a - top) as usize);
        } else if a >= blk.0 && a < blk.0 + blk.1 {
            return Err("a query reads states below the topmost one".into());
        }
    }
    Ok(r)
}
pub fn fresh(p: &Prog, lay: &Layout, side: usize, prop: &str) -> Result<Fresh, String> {
    let t = std::time::Instant::now();
    let mut b = base(p, lay, side, None, prop == "C14" || prop == "C15")?;
    let (keys, key) = keys_of(&mut b.e, &b.s, b.out, b.tmp)?;
    let mut r = Fresh { g: Aig::new(), shape: Err("not looked at".into()), view: vec![], keys, key, chk: F, kbytes: HashSet::new(), reads: HashSet::new(), stats: Stats::default(), funcs: vec![], secs: 0.0, ps: Pos::new(&mut Exec::new(p), Case { side, own: vec![0], opp: Some(0), mine: None }) };
    if matches!(prop, "C12" | "C13" | "C11" | "C10" | "C17") {
        let sh = (|| {
            let m = Mv::Drop { kind: 5, to: 41 };
            let n = play(&mut b.e, &b.s, b.out, side, m, "do")?.ok_or("a move never returns")?;
            Shape::find(&b.e, b.size, b.out, &b.s, &n)
        })();
        r.shape = sh;
    }
    if prop == "C13" {
        let (s2, chk) = ret1(&mut b.e, b.s.clone(), "h_in_check", vec![V::C(b.out as u128)])?;
        drop(s2);
        r.chk = chk;
        if let Ok(sh) = r.shape.clone() {
            r.view = sh.view(&b.e, &b.s, b.out)?;
            let mut s = b.s.clone();
            sh.deepen(&mut b.e, &mut s, b.out)?;
            let top = sh.top(&b.e, &s, b.out)?;
            let blk = (top - sh.e, 2 * sh.e);
            let vb = |e: &mut Exec| view_bytes(&sh, b.out, top, blk, &e.track.take().unwrap_or_default());
            b.e.track = Some(HashSet::new());
            keys_of(&mut b.e, &s, b.out, b.tmp)?;
            r.kbytes = vb(&mut b.e)?;
            b.e.track = Some(HashSet::new());
            b.e.call(s.clone(), "h_in_check", vec![V::C(b.out as u128)])?;
            // the legal-move query is executed for one placing of the kings: the same instructions
            // read the same fields wherever they stand
            b.e.call(s.clone(), "h_legal", vec![V::C(b.out as u128)])?;
            accessors(&mut b.e, &s, b.out, b.tmp)?;
            r.reads = vb(&mut b.e)?;
            // the vector's own words are read but say nothing about the position
            for i in [sh.ptr, sh.cap, sh.len] {
                for k in 0..8 {
                    r.kbytes.remove(&(8 * i + k));
                }
            }
        }
    }
    r.funcs = executed(&b.e);
    r.stats = b.e.stats.clone();
    r.g = std::mem::replace(&mut b.e.g, Aig::new());
    r.ps = b.ps;
    r.secs = t.elapsed().as_secs_f64();
    Ok(r)
}
/// a literal that must not become true, for one move
struct Diff {
    m: Mv,
    what: Vec<String>,
    lits: Vec<Lit>,
    /// what each literal compares
    pairs: Vec<(Lit, Lit)>,
    /// the gives-check answer (C13)
    r: Lit,
    /// literals at the end that are decided for all kinds of pieces at once
    whole: usize,
    /// how many of the literals, from the start, every case compares
    nfix: usize,
    deep: bool,
    feas: Lit,
    lost: Vec<Lit>,
}
pub struct Found1 {
    pub side: usize,
    pub m: Mv,
    pub what: String,
    pub raw: Raw,
    pub want: Option<bool>,
}
#[derive(Default)]
pub struct Tot {
    pub tally: Tally,
    pub found: Vec<Found1>,
    pub undecided: u64,
    pub moves: u64,
    pub compared: u64,
    pub same: u64,
    pub aig: u64,
    pub stats: (u64, u64),
    pub funcs: BTreeSet<String>,
    pub secs: f64,
    pub hidden: BTreeSet<usize>,
    pub reads: BTreeSet<usize>,
    pub err: Option<String>,
    pub obls: u64,
    pub skipped: u64,
}
struct Job<'a> {
    p: &'a Prog,
    lay: &'a Layout,
    prop: &'a str,
    fresh: &'a [Fresh],
    /// groups whose first move is compared in full (C13)
    deep: Vec<Grp>,
    deadline: std::time::Instant,
}
fn unit(j: &Job, side: usize, gr: Grp, tot: &mut Tot) -> Result<(), String> {
    let t = std::time::Instant::now();
    let mine = match gr {
        Grp::From(f, p) => Some((f, p)),
        _ => None,
    };
    let mut b = base(j.p, j.lay, side, mine, j.prop == "C14")?;
    let fr = &j.fresh[1 - side];
    let shape = j.fresh[side].shape.clone();
    if let Ok(sh) = &shape {
        let mut s = b.s.clone();
        sh.deepen(&mut b.e, &mut s, b.out)?;
        b.s = s;
    }
    let all = moves(side, gr);
    let mut ds: Vec<Diff> = vec![];
    let chunk = if matches!(j.prop, "C10" | "C11" | "C14") { 400 } else { 70 };
    let n_new = b.e.obl.len();
    for (i, &m) in all.iter().enumerate() {
        if i > 0 && i % chunk == 0 {
            settle(j, &mut b, side, std::mem::take(&mut ds), tot)?;
            let mut s = base(j.p, j.lay, side, mine, j.prop == "C14")?;
            if let Ok(sh) = &shape {
                let mut x = s.s.clone();
                sh.deepen(&mut s.e, &mut x, s.out)?;
                s.s = x;
            }
            b = s;
        }
        if std::time::Instant::now() > j.deadline {
            tot.undecided += 1;
            continue;
        }
        tot.moves += 1;
        let mut what: Vec<String> = vec![];
        let mut lits: Vec<Lit> = vec![];
        let mut pairs: Vec<(Lit, Lit)> = vec![];
        let mut r = F;
        let mut whole = 0;
        // the derived sets of one move per group are compared as well
        let deep = j.prop == "C13" && i == 0 && j.deep.contains(&gr);
        let mut skipped = 0u64;
        let o0 = b.e.obl.len();
        let (s0, out, tmp) = (b.s.clone(), b.out, b.tmp);
        let e = &mut b.e;
        let mut sp = Spec::new(&b.ps);
        let mut cmp = 0u64;
        let mut put = |g: &mut Aig, x: Lit, y: Lit, w: &dyn Fn() -> String| {
            cmp += 1;
            let d = diff(g, x, y);
            if d != F {
                what.push(w());
                lits.push(d);
                pairs.push((x, y));
            }
        };
        let never = "a move never returns";
        if j.prop == "C13" {
            e.track = Some(HashSet::new());
        }
        match j.prop {
            "C10" => {
                let r = play(e, &s0, out, side, m, "check")?.ok_or(never)?;
                let x = bits(e, &r, 8);
                let mut v = vec![];
                for q in 1..82 {
                    if b.ps.okl[q] != F {
                        let gc = sp.gives_check(&mut e.g, m, q);
                        v.push(e.g.and(b.ps.okl[q], gc));
                    }
                }
                let want = e.g.or_all(&v);
                let d = e.g.xor(x[0], want);
                cmp += 1;
                if d != F {
                    // each place of the other king apart, and no other king
                    for q in 1..82 {
                        if b.ps.okl[q] != F {
                            lits.push(e.g.and(d, b.ps.okl[q]));
                            what.push(format!("gives-check answer wrong, other king on {q}"));
                        }
                    }
                    let none: Vec<Lit> = (1..82).map(|q| neg(b.ps.okl[q])).collect();
                    let none = e.g.and_all(&none);
                    lits.push(e.g.and(d, none));
                    what.push("gives-check answer wrong, no other king".into());
                }
            }
            "C11" => {
                let n = play(e, &s0, out, side, m, "do")?;
                if let Some(n) = n {
                    let a = accessors(e, &n, out, tmp)?;
                    let su = succ(&mut e.g, &b.ps, m);
                    for i in 0..8 {
                        put(&mut e.g, a.side[i], (2 - side as Lit) >> i & 1, &|| "side to move wrong after the move".into());
                    }
                    for i in 0..16 {
                        put(&mut e.g, a.ply[i], su.ply[i], &|| "counter wrong after the move".into());
                    }
                    for c in 0..2 {
                        for i in 0..64 {
                            let (k, x) = (i / 8, i % 8);
                            let w = if k < 7 && x < su.hand[c][k].len() { su.hand[c][k][x] } else { F };
                            put(&mut e.g, a.hand[c][i], w, &|| format!("hand of {} wrong after the move (kind {})", ["Black", "White"][c], k + 1));
                        }
                    }
                    for q in 1..82 {
                        for i in 0..8 {
                            put(&mut e.g, a.board[q][i], if i < 5 { su.byte[q][i] } else { F }, &|| format!("square {q} wrong after the move"));
                        }
                    }
                }
            }
            "C14" => {
                if let Some(n) = play(e, &s0, out, side, m, "do")? {
                    let (ks, k) = keys_of(e, &n, out, tmp)?;
                    let su = succ(&mut e.g, &b.ps, m);
                    let mut gf = Graft::new(&fr.g, &inputs_after(&fr.ps, &b.ps, &su, m));
                    for i in 0..128 {
                        let w = gf.lit(&mut e.g, fr.keys[i]);
                        put(&mut e.g, ks[i], w, &|| format!("partial key {} differs from that of the position built directly (bit {})", i / 64, i % 64));
                    }
                    for i in 0..64 {
                        let w = e.g.xor(ks[i], ks[64 + i]);
                        put(&mut e.g, k[i], w, &|| "the combined key is not the exclusive-or of the partial ones".into());
                    }
                    if let Some(u) = play(e, &n, out, side, m, "undo")? {
                        let (k0, _) = keys_of(e, &s0, out, tmp)?;
                        let (k1, _) = keys_of(e, &u, out, tmp)?;
                        for i in 0..128 {
                            put(&mut e.g, k1[i], k0[i], &|| "keys not restored by taking the move back".into());
                        }
                    }
                }
            }
            "C12" => {
                let n = play(e, &s0, out, side, m, "do")?;
                if std::env::var("VX_D").is_ok() {
                    eprintln!("{} {} {:.2}s done {} {:?}", side, m.usi(), t.elapsed().as_secs_f64(), e.g.len(), n.as_ref().map(|n| n.pc.len()));
                }
                let u = match &n {
                    Some(n) => play(e, n, out, side, m, "undo")?,
                    None => None,
                };
                if let (Some(n), Some(u)) = (n, u) {
                    match &shape {
                        Ok(sh) => {
                            let (x, y) = (sh.view(e, &s0, out)?, sh.view(e, &u, out)?);
                            let w = (sh.word(e, &s0, out, sh.len)?, sh.word(e, &u, out, sh.len)?);
                            let (p, q) = (sh.top(e, &s0, out)? - sh.e, sh.top(e, &u, out)? - sh.e);
                            put(&mut e.g, F, (w.0 != w.1) as Lit, &|| "length of the history not restored".into());
                            for i in 0..x.len() {
                                put(&mut e.g, x[i], y[i], &|| format!("state not restored (bit {i})"));
                            }
                            let (x, y) = (rd(e, &s0, p, sh.e), rd(e, &u, q, sh.e));
                            for i in 0..x.len() {
                                put(&mut e.g, x[i], y[i], &|| "earlier state changed".into());
                            }
                        }
                        Err(_) => {
                            let (x, y) = (accessors(e, &s0, out, tmp)?, accessors(e, &u, out, tmp)?);
                            let fl = |a: &Acc| -> Vec<Lit> { a.side.iter().chain(&a.ply).chain(a.hand.iter().flatten()).chain(a.board.iter().flatten()).copied().collect() };
                            for (x, y) in fl(&x).into_iter().zip(fl(&y)) {
                                put(&mut e.g, x, y, &|| "an accessor's answer is not restored".into());
                            }
                            let (x, _) = keys_of(e, &s0, out, tmp)?;
                            let (y, _) = keys_of(e, &u, out, tmp)?;
                            for (x, y) in x.into_iter().zip(y) {
                                put(&mut e.g, x, y, &|| "keys not restored".into());
                            }
                            let (_, x) = ret1(e, s0.clone(), "h_in_check", vec![V::C(out as u128)])?;
                            let (_, y) = ret1(e, u.clone(), "h_in_check", vec![V::C(out as u128)])?;
                            put(&mut e.g, x, y, &|| "in-check answer not restored".into());
                        }
                    }
                }
            }
            "C13" => {
                if let Some(n) = play(e, &s0, out, side, m, "do")? {
                    let rs = play(e, &s0, out, side, m, "check")?.ok_or(never)?;
                    r = bits(e, &rs, 8)[0];
                    let tr = e.track.take().unwrap_or_default();
                    let su = succ(&mut e.g, &b.ps, m);
                    let mut gf = Graft::new(&fr.g, &inputs_after(&fr.ps, &b.ps, &su, m));
                    match &shape {
                        Ok(sh) => {
                            let top0 = sh.top(e, &s0, out)?;
                            let r = view_bytes(sh, out, top0, (top0 - sh.e, 2 * sh.e), &tr)?;
                            tot.reads.extend(r);
                            let x = sh.view(e, &n, out)?;
                            let len = sh.word(e, &n, out, sh.len)?;
                            put(&mut e.g, F, (len != 3) as Lit, &|| "the history does not grow by one".into());
                            for i in 0..x.len() {
                                if fr.kbytes.contains(&(i / 8)) {
                                    continue;
                                }
                                let w = fr.view[i];
                                if w < 2 && x[i] != w && !fr.reads.contains(&(i / 8)) {
                                    tot.hidden.insert(i / 8);
                                    continue;
                                }
                                if w == x[i] && w < 2 {
                                    continue;
                                }
                                if i as u64 >= 8 * sh.size && !deep {
                                    skipped += 1;
                                    continue;
                                }
                                let w = gf.lit(&mut e.g, w);
                                put(&mut e.g, x[i], w, &|| format!("{}state after the move differs from that of the position built directly (byte {})", if i as u64 >= 8 * sh.size { "derived " } else { "" }, i / 8));
                            }
                        }
                        Err(x) => return Err(x.clone()),
                    }
                    // the in-check answer against the rule, each place of the king apart
                    let (_, y) = ret1(e, n.clone(), "h_in_check", vec![V::C(out as u128)])?;
                    let mut v = vec![];
                    for q in 1..82 {
                        if b.ps.okl[q] != F {
                            let gc = sp.gives_check(&mut e.g, m, q);
                            v.push(e.g.and(b.ps.okl[q], gc));
                        }
                    }
                    let want = e.g.or_all(&v);
                    let d = e.g.xor(y, want);
                    whole = lits.len();
                    if d != F {
                        for q in 1..82 {
                            if b.ps.okl[q] != F {
                                lits.push(e.g.and(d, b.ps.okl[q]));
                                what.push(format!("in-check answer after the move wrong, king on {q}"));
                            }
                        }
                        let none: Vec<Lit> = (1..82).map(|q| neg(b.ps.okl[q])).collect();
                        let none = e.g.and_all(&none);
                        lits.push(e.g.and(d, none));
                        what.push("in-check answer after the move wrong, no king".into());
                    }
                    whole = lits.len() - whole;
                }
                e.track = None;
            }
            "C17" => {
                play(e, &s0, out, side, m, "check")?;
                if let Some(n) = play(e, &s0, out, side, m, "do")? {
                    let u = play(e, &n, out, side, m, "undo")?;
                    keys_of(e, &n, out, tmp)?;
                    ret1(e, n.clone(), "h_in_check", vec![V::C(out as u128)])?;
                    if let Some(u) = u {
                        keys_of(e, &u, out, tmp)?;
                    }
                }
                for o in &e.obl[o0..] {
                    tot.obls += 1;
                    cmp += 1;
                    what.push(o.msg.clone());
                    lits.push(o.guard);
                }
            }
            x => return Err(format!("no single-move property {x}")),
        }
        if std::env::var("VX_D").is_ok() {
            let mut h: BTreeMap<String, usize> = BTreeMap::new();
            for w in &what {
                *h.entry(w.clone()).or_default() += 1;
            }
            eprintln!("{:?}", h.iter().take(300).map(|(k, n)| format!("{} {n}", k.split(' ').rev().take(3).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>());
            eprintln!("{} {} {:.2}s compared {cmp} left {} aig {}", side, m.usi(), t.elapsed().as_secs_f64(), lits.len(), e.g.len());
        }
        tot.compared += cmp;
        tot.skipped += skipped;
        tot.same += cmp - lits.len().min(cmp as usize) as u64;
        if lits.is_empty() {
            continue;
        }
        let sh = feasible(&mut e.g, &mut sp, m);
        for l in lits.iter_mut() {
            *l = e.g.and(*l, sh);
        }
        if lits.iter().all(|&l| l == F) {
            continue;
        }
        let lost = if j.prop == "C17" { vec![] } else { e.obl[..n_new].iter().chain(&e.obl[o0..]).map(|o| o.guard).collect() };
        let nfix = what.iter().position(|w| w.starts_with("derived")).unwrap_or(what.len());
        ds.push(Diff { m, what, lits, pairs, r, whole, nfix, deep, feas: sh, lost });
    }
    settle(j, &mut b, side, ds, tot)?;
    tot.secs += t.elapsed().as_secs_f64();
    Ok(())
}
/// compare what a move's literals compare with some inputs fixed; the literals that are not settled
fn apart(cx: &Cx, d: &Diff, fix: &[Lit], deep: bool, ta: &mut Tally) -> Vec<usize> {
    let g = &cx.g;
    let m: HashMap<u32, bool> = fix.iter().filter(|&&l| l > 1).map(|&l| (l >> 1, l & 1 == 0)).collect();
    let mut c = crate::cof::Cof::new(g, &m);
    c.g.chains = g.chains;
    ta.cofactors += 1;
    let feas = c.lit(g, d.feas);
    if feas == F {
        ta.trivial += 1;
        return vec![];
    }
    let mut st = Sat::new();
    let mut left = vec![];
    let t0 = std::time::Instant::now();
    let (mut n0, mut n1) = (0, 0);
    for (i, &(x, y)) in d.pairs.iter().enumerate().take(if deep { d.pairs.len() } else { d.nfix }) {
        let (x, y) = (c.lit(g, x), c.lit(g, y));
        let mut w = diff(&mut c.g, x, y);
        if w != F && d.r != F {
            // checking pieces are only looked for after moves that give check; that this answer is
            // right is decided apart
            let r = c.lit(g, d.r);
            let z = c.g.and(r, y);
            if z == x {
                w = F;
            }
        }
        if w == F {
            ta.trivial += 1;
            n0 += 1;
            continue;
        }
        n1 += 1;
        ta.queries += 1;
        ta.literals += 1;
        if n1 == 1 {
            st.assert_clause(&c.g, &[feas]);
            // what the small constraints exclude
            for cl in &cx.valid[..cx.nlight] {
                let d = c.lits(g, cl);
                if !d.contains(&T) {
                    st.assert_clause(&c.g, &d);
                }
            }
        }
        let r = st.solve(&c.g, &[w], 2000);
        if r == Res::Unsat {
            st.assert_clause(&c.g, &[neg(w)]);
        }
        if r != Res::Unsat {
            left.push(i);
            if std::env::var("VX_D").is_ok() {
                eprintln!("left {}", d.what[i]);
            }
        }
    }
    if std::env::var("VX_D").is_ok() {
        eprintln!("apart {} {:?} settled {n0} asked {n1} left {} in {:.1}s nodes {}", d.m.usi(), fix, left.len(), t0.elapsed().as_secs_f64(), c.g.len());
    }
    ta.conflicts += st.stats().0;
    ta.secs += st.time;
    left
}
/// decide the differences of a number of moves
fn settle(j: &Job, b: &mut Base, side: usize, ds: Vec<Diff>, tot: &mut Tot) -> Result<(), String> {
    tot.stats.0 += b.e.stats.steps;
    tot.stats.1 += b.e.stats.instrs;
    tot.aig += b.e.g.len() as u64;
    tot.funcs.extend(executed(&b.e));
    if ds.is_empty() {
        return Ok(());
    }
    let totals = b.ps.totals(&mut b.e.g);
    let mut g = std::mem::replace(&mut b.e.g, Aig::new());
    g.asm.iter_mut().for_each(|x| *x = 0);
    let mut cx = Cx::new(g, ["Black", "White"][side].to_string(), b.ps.valid.clone(), b.ps.nlight, totals, vec![]);
    let opts = |n: usize| Opts { threads: 1, chunk: 16, budget: 5_000_000, deadline: j.deadline, max_found: n, full: false };
    // what to ask: of which move, which of its literals, with which inputs fixed, piece by piece
    let mut items: Vec<(usize, Vec<usize>, Vec<Lit>, bool)> = vec![];
    for (t, d) in ds.iter().enumerate() {
        let n = d.lits.len();
        match d.m {
            // the captured piece apart
            m if j.prop == "C14" && matches!(m, Mv::Normal { .. }) || j.prop == "C13" => {
                let (from, to) = match m {
                    Mv::Normal { from, to, .. } => (from, to),
                    Mv::Drop { to, .. } => (0, to),
                };
                let bits = |v: [Lit; 5], k: usize| -> Vec<Lit> { (0..4).map(|i| v[i] ^ (k >> i & 1 ^ 1) as Lit).collect() };
                let v = b.ps.vars(to);
                let mut some = 0;
                for k in (0..15usize).filter(|&k| k != KING && (k == 0 || from > 0 && b.ps.pc[to][k][1 - side] != F)) {
                    let mut fix = bits(v, k);
                    fix.push(v[4] ^ (k == 0 || side == 1) as Lit);
                    fix.extend([b.ps.okl[to], b.ps.kown[to]].iter().filter(|&&x| x > 1).map(|&x| neg(x)));
                    // the moved piece apart
                    let mut own = vec![0];
                    if from > 0 && j.prop == "C13" && b.ps.kown[from] != T {
                        own = (1..15).filter(|&x| x != KING && b.ps.pc[from][x][side] != F && Spec::can(x, side, from, to) && matches!(m, Mv::Normal { promote, .. } if Spec::promo_ok(x, side, from, to, promote))).collect();
                    }
                    for x in own {
                        some += 1;
                        let mut fix = fix.clone();
                        if x > 0 {
                            fix.extend(bits(b.ps.vars(from), x));
                        }
                        let left = apart(&cx, d, &fix, d.deep && some % 40 == 1, &mut tot.tally);
                        if !left.is_empty() {
                            items.push((t, left, fix, true));
                        }
                    }
                }
                if d.whole > 0 {
                    items.push((t, (n - d.whole..n).collect(), vec![], false));
                }
            }
            _ => items.push((t, (0..n).collect(), vec![], j.prop != "C10")),
        }
    }
    let lits: Vec<Vec<Lit>> = items.iter().map(|i| i.1.iter().map(|&x| ds[i.0].lits[x]).collect()).collect();
    let qs: Vec<Query> = items.iter().enumerate().map(|(k, i)| Query { tag: k, bad: &lits[k], fix: i.2.clone(), each: i.3 }).collect();
    let task = Task { cx: 0, label: "one move".into(), fix: vec![], cut: vec![], hyp: vec![], qs };
    let a = run(&[&cx], &[task], &opts(0));
    tadd(&mut tot.tally, a.tally);
    tot.undecided += a.undecided.len() as u64;
    let mut again: Vec<usize> = a.found.iter().map(|f| f.tag).collect();
    again.sort();
    again.dedup();
    // the same with the move fully legal and execution complete
    let mut lits2 = vec![];
    let mut sp = Spec::new(&b.ps);
    for &k in &again {
        let t = items[k].0;
        let l = sp.legal(&mut cx.g, ds[t].m);
        let lost = cx.g.or_all(&ds[t].lost);
        let l = cx.g.and(l, neg(lost));
        let v: Vec<Lit> = lits[k].iter().map(|&x| cx.g.and(x, l)).collect();
        lits2.push(v);
    }
    for (k, &tag) in again.iter().enumerate() {
        let t = items[tag].0;
        let qs = vec![Query { tag, bad: &lits2[k], fix: items[tag].2.clone(), each: items[tag].3 }];
        let a = run(&[&cx], &[Task { cx: 0, label: "one legal move".into(), fix: vec![], cut: vec![], hyp: vec![], qs }], &opts(1));
        tadd(&mut tot.tally, a.tally);
        tot.undecided += a.undecided.len() as u64;
        for f in a.found {
            let raw = b.ps.decode(&|n| f.model.get(&n).copied().unwrap_or(false));
            let w = f.which.first().map_or(String::new(), |&i| ds[t].what[items[tag].1[i]].clone());
            let mut want = None;
            if j.prop == "C10" {
                let vars = model_vars(&f.model);
                let mut v = vec![];
                for q in 1..82 {
                    if b.ps.okl[q] != F {
                        let gc = sp.gives_check(&mut cx.g, ds[t].m, q);
                        v.push(cx.g.and(b.ps.okl[q], gc));
                    }
                }
                let l = cx.g.or_all(&v);
                let sim = crate::sweep::sim_lits(&cx.g, 1, &vars, &[l]);
                want = Some(sim.get(l)[0] & 1 == 1);
            }
            tot.found.push(Found1 { side, m: ds[t].m, what: w, raw, want });
        }
        if tot.found.len() >= 4 {
            break;
        }
    }
    Ok(())
}
/// the concrete position after a move
pub fn apply(r: &Raw, m: Mv) -> Raw {
    let mut n = r.clone();
    let s = r.side as usize - 1;
    match m {
        Mv::Normal { from, to, promote } => {
            let c = r.board[to - 1] as usize;
            if c > 0 {
                n.hands[s][unpromo(c % 16) - 1] += 1;
            }
            let k = (r.board[from - 1] % 16) as usize;
            let k = if promote { promo_kind(k).unwrap_or(k) } else { k };
            n.board[from - 1] = 0;
            n.board[to - 1] = (k + 16 * s) as u8;
        }
        Mv::Drop { kind, to } => {
            n.board[to - 1] = (kind + 16 * s) as u8;
            n.hands[s][kind - 1] -= 1;
        }
    }
    n.side = 3 - r.side;
    n.ply = r.ply.wrapping_add(1);
    n
}
fn failed(o: &str) -> bool {
    o.contains("PANIC") || o == "CRASH"
}
/// replay on the real build: Ok(Some(line, observed, expected)) when it misbehaves
fn replay(prop: &str, nat: &Native, f: &Found1) -> Result<Option<(String, String, String)>, String> {
    let c = f.m.code(f.side);
    let h = f.raw.hex();
    let legal_after = |ops: &str| -> Result<Vec<u32>, String> {
        let o = nat.one(&format!("{h} {ops} L"))?;
        Ok(parse_legal(o.split_whitespace().last().unwrap_or("L")).unwrap_or_default())
    };
    let look = |v: &[u32]| {
        let mut v = v.to_vec();
        v.sort();
        let ms: Vec<String> = v.iter().map(|m| format!("M{m:x}")).collect();
        format!("A K C L {}", ms.join(" "))
    };
    // lists are compared as sets
    let norm = |o: &str| -> Vec<String> {
        o.split_whitespace().map(|w| match parse_legal(w) {
            Ok(mut v) => {
                v.sort();
                format!("L{v:x?}")
            }
            Err(_) => w.to_string(),
        }).collect()
    };
    match prop {
        "C10" => {
            let line = format!("{h} M{c:x}");
            let o = nat.one(&line)?;
            let w = (f.want.unwrap_or(false) as u8).to_string();
            Ok((o != w).then(|| (line, o, w)))
        }
        "C11" => {
            let line = format!("{h} D{c:x} A");
            let o = nat.one(&line)?;
            let w = apply(&f.raw, f.m).hex();
            Ok((o != w).then(|| (line, o, w)))
        }
        "C12" => {
            let v = legal_after("")?;
            let l = look(&v);
            let line = format!("{h} D{c:x} U{c:x} {l}");
            let (o, w) = (nat.one(&line)?, nat.one(&format!("{h} {l}"))?);
            if norm(&o) != norm(&w) {
                return Ok(Some((line, o, w)));
            }
            let line = format!("{h} D{c:x} U{c:x} D{c:x} A K C L");
            let (o, w) = (nat.one(&line)?, nat.one(&format!("{h} D{c:x} A K C L"))?);
            Ok((norm(&o) != norm(&w)).then_some((line, o, w)))
        }
        "C13" | "C14" => {
            let d = format!("D{c:x}");
            if prop == "C14" {
                for (line, w) in [(format!("{h} {d} K"), format!("{h} {d} N K")), (format!("{h} {d} U{c:x} K"), format!("{h} K"))] {
                    let (o, w) = (nat.one(&line)?, nat.one(&w)?);
                    let k: Vec<u64> = o.split(',').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
                    if o != w || k.len() != 3 || k[0] ^ k[1] != k[2] {
                        return Ok(Some((line, o, w)));
                    }
                }
                return Ok(None);
            }
            let v = legal_after(&format!("{d} N"))?;
            let l = look(&v);
            let line = format!("{h} {d} {l}");
            let (o, w) = (nat.one(&line)?, nat.one(&format!("{h} {d} N {l}"))?);
            let drop_keys = |v: Vec<String>| -> Vec<String> { v.into_iter().filter(|x| !x.contains(',') || x.starts_with('L')).collect() };
            if drop_keys(norm(&o)) != drop_keys(norm(&w)) {
                return Ok(Some((line, o, w)));
            }
            // one move further
            for m in v {
                let v2 = legal_after(&format!("{d} N D{m:x} N"))?;
                let l = look(&v2);
                let line = format!("{h} {d} D{m:x} {l}");
                let (o, w) = (nat.one(&line)?, nat.one(&format!("{h} {d} N D{m:x} {l}"))?);
                if drop_keys(norm(&o)) != drop_keys(norm(&w)) {
                    return Ok(Some((line, o, w)));
                }
            }
            Ok(None)
        }
        "C17" => {
            let line = format!("{h} C L M{c:x} D{c:x} A K C L U{c:x} A K C L");
            let o = nat.one(&line)?;
            Ok(failed(&o).then(|| (line, o, "no panic".into())))
        }
        _ => Err("no replay".into()),
    }
}
/// the circuits of some moves agree with native runs on random positions: done through the replay of
/// legal moves on sampled positions with the accessors' answers after the move
pub fn validate_moves(cf: &Conf, nat: &Native, fresh: &[Fresh], rep: &mut Report) -> Result<(), String> {
    let mut lines = vec![];
    let mut want = vec![];
    for f in fresh {
        let smp = crate::sweep::samples(&f.g, &f.ps, cf.seed * 2 + f.ps.case.side as u64 + 1, 512);
        let mut lits = f.keys.clone();
        lits.extend(&f.key);
        let sim = crate::sweep::sim_lits(&f.g, smp.w, &smp.vars, &lits);
        let v: Vec<Vec<u64>> = lits.iter().map(|&l| sim.get(l).to_vec()).collect();
        for (i, r) in smp.raws.iter().enumerate().take(512) {
            let b = |k: usize| -> u64 { (0..64).map(|x| (v[64 * k + x][i / 64] >> (i % 64) & 1) << x).sum() };
            lines.push(format!("{} A K", r.hex()));
            want.push(format!("{} {:016x},{:016x},{:016x}", r.hex(), b(0), b(1), b(2)));
        }
    }
    let out = nat.run(&lines)?;
    for (i, o) in out.iter().enumerate() {
        if failed(o) {
            continue;
        }
        if *o != want[i] {
            return Err(format!("encoding mismatch: {}: native {o}, circuit {}", lines[i], want[i]));
        }
        rep.validated += 1;
        if i < 2 {
            rep.samples.push(format!("{o}: accessors and keys, circuit and native run agree"));
        }
    }
    Ok(())
}
/// moves from the squares with file + 2 rank = 6 modulo div, and all drops
pub fn groups(div: usize) -> Vec<(usize, Grp)> {
    let mut v = vec![];
    let only: Option<Vec<usize>> = std::env::var("VX_FROM").ok().map(|s| crate::sqs(&s));
    for q in 1..82usize {
        let (f, r) = (file(q), rank(q));
        let take = match &only {
            Some(o) => o.contains(&q),
            None => (f + 2 * r) as usize % div == 6 % div,
        };
        if take {
            for s in 0..2 {
                for c in 0..3 {
                    v.push((s, Grp::From(q, c)));
                }
            }
        }
    }
    if only.is_none() || only.as_ref().unwrap().contains(&0) {
        for k in 1..8 {
            for s in 0..2 {
                v.push((s, Grp::Drop(k)));
            }
        }
    }
    // large groups first
    v.retain(|&(s, g)| !moves(s, g).is_empty());
    v.sort_by_key(|&(s, g)| std::cmp::Reverse(moves(s, g).len()));
    v
}
/// run the single-move queries of a property and add what they did to the report
pub fn explore(cf: &Conf, rep: &mut Report, div: usize) -> Result<Option<String>, String> {
    let prop = cf.prop.as_str();
    let p = crate::load(&cf.dir);
    let lay = Layout::parse(&std::fs::read_to_string(format!("{}/layout", cf.dir)).map_err(|e| e.to_string())?)?;
    let nat = Native { bin: cf.replay.clone() };
    let fresh = both(|side| fresh(&p, &lay, side, prop))?;
    cf.log(&format!("constructed positions: {:?}", fresh.iter().map(|f| (f.secs as u32, f.g.len(), f.shape.clone())).collect::<Vec<_>>()));
    validate_moves(cf, &nat, &fresh, rep)?;
    let us = groups(div);
    let deep: Vec<Grp> = us.iter().map(|u| u.1).filter(|g| matches!(g, Grp::Drop(_)) || matches!(g, Grp::From(41, _)) || !cf.quick() && matches!(g, Grp::From(q, _) if q % 10 == 0)).collect();
    let next = AtomicUsize::new(0);
    let all = Mutex::new(Tot::default());
    let job = Job { p: &p, lay: &lay, prop, fresh: &fresh, deep, deadline: cf.deadline() };
    std::thread::scope(|sc| {
        for _ in 0..cf.threads {
            std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(sc, || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= us.len() {
                    break;
                }
                {
                    let a = all.lock().unwrap();
                    if a.found.len() >= 6 || a.err.is_some() {
                        break;
                    }
                }
                let mut t = Tot::default();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unit(&job, us[i].0, us[i].1, &mut t)));
                if std::env::var("VX_Q").is_ok() {
                    eprintln!("unit {:?}: {:.1}s moves {} compared {} same {} queries {} solver {:.1}s aig {}", us[i], t.secs, t.moves, t.compared, t.same, t.tally.queries, t.tally.secs, t.aig);
                }
                let mut a = all.lock().unwrap();
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(x)) => a.err = Some(format!("{:?}: {x}", us[i])),
                    Err(x) => a.err = Some(format!("{:?}: {}", us[i], x.downcast_ref::<String>().cloned().or(x.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
                }
                tadd(&mut a.tally, t.tally);
                a.found.extend(t.found);
                a.undecided += t.undecided;
                a.moves += t.moves;
                a.compared += t.compared;
                a.same += t.same;
                a.aig += t.aig;
                a.stats.0 += t.stats.0;
                a.stats.1 += t.stats.1;
                a.funcs.extend(t.funcs);
                a.secs += t.secs;
                a.hidden.extend(t.hidden);
                a.reads.extend(t.reads);
                a.obls += t.obls;
                a.skipped += t.skipped;
            }).unwrap();
        }
    });
    let a = all.into_inner().unwrap();
    cf.log(&format!("{} moves, {} comparisons, {} the same by construction, {:?}", a.moves, a.compared, a.same, a.tally));
    for f in &fresh {
        rep.states += f.stats.steps;
        rep.transitions += f.stats.instrs;
        rep.exec_s += f.secs;
        rep.aig += f.g.len() as u64;
        rep.funcs.extend(f.funcs.clone());
    }
    rep.states += a.stats.0;
    rep.transitions += a.stats.1;
    rep.exec_s += a.secs - a.tally.secs;
    rep.aig += a.aig;
    rep.funcs.extend(a.funcs.iter().cloned());
    rep.funcs.sort();
    rep.funcs.dedup();
    tadd(&mut rep.tally, a.tally);
    rep.undecided += a.undecided;
    rep.extra.push(("moves_executed".into(), J::N(a.moves as f64)));
    rep.extra.push(("comparisons".into(), J::N(a.compared as f64)));
    rep.extra.push(("comparisons_identical_by_construction".into(), J::N(a.same as f64)));
    rep.extra.push(("derived_bits_not_compared".into(), J::N(a.skipped as f64)));
    if prop == "C13" {
        match &fresh[0].shape {
            Ok(sh) => {
                rep.extra.push(("history".into(), J::S(format!("pile of states in word {}, element size {}; bytes of the state that differ from a constructed position's and that no query or move reads: {:?}", sh.ptr, sh.e, a.hidden))));
                if let Some(x) = a.hidden.iter().find(|x| a.reads.contains(x) || fresh.iter().any(|f| f.reads.contains(x))) {
                    return Err(format!("byte {x} of the state differs after a move and is read ({:?})", a.hidden));
                }
            }
            Err(x) => rep.extra.push(("history".into(), J::S(format!("the state's layout is not understood ({x}); only the in-check answer was compared")))),
        }
    }
    let mut bad = None;
    let mut shown = 0;
    for f in &a.found {
        match replay(prop, &nat, f)? {
            Some((line, obs, exp)) => {
                if shown == 0 {
                    violation(cf, rep, &format!("{}: {} in {}", f.m.usi(), f.what, f.raw.sfen()), &line, &obs, &exp);
                }
                shown += 1;
            }
            None => bad = Some(format!("{}: {} in {}", f.m.usi(), f.what, f.raw.sfen())),
        }
    }
    if let (Some(x), true) = (a.err, a.found.is_empty()) {
        return Err(x);
    }
    Ok(bad)
}
pub fn step_check(cf: &Conf) -> Result<i32, String> {
    let mut rep = cf.report();
    let div = match cf.prop.as_str() {
        _ if !cf.quick() => 1,
        "C13" | "C14" => 9,
        _ => 3,
    };
    let bad = explore(cf, &mut rep, div)?;
    let sub = div > 1;
    let n = 81 / div;
    rep.bounds = vec![
        format!("both sides to move; {} drops of every kind to every square; both kings anywhere or absent, every content of the other squares, every hand, every counter below 65535", if sub { format!("moves from {n} squares ({} on every rank and file, (file + 2 rank) mod {div} = {}) to every square a piece can reach,", n / 9, 6 % div) } else { "moves from every square to every square a piece can reach,".to_string() }),
        "one move (and its taking back) from a constructed position on top of an arbitrary earlier state; longer histories follow because the state after a move is compared with that of a constructed position (C13)".into(),
    ];
    rep.outside = vec![if sub { format!("moves from the other {} squares (covered by the thorough tier)", 81 - n) } else { "positions the assumptions exclude".to_string() }];
    finish(cf, rep, bad)
}
