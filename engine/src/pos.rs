//! Symbolic shogi positions: input variables, validity constraints and the memory image of the
//! `PartialPosition` value handed to the code under test.
use crate::aig::*;
use crate::exec::*;
use crate::spec::Spec;
use crate::val::cbits;
use std::collections::HashMap;

pub const KING: usize = 8;
pub const HMAX: [u32; 7] = [18, 4, 4, 4, 4, 2, 2];
pub const HBITS: [usize; 7] = [5, 3, 3, 3, 3, 2, 2];
/// bits contributed to a PartialPosition by each fact, measured on the real shogi_core
pub struct Layout {
    pub base: Vec<u8>,
    pub side: Vec<usize>,
    pub ply: Vec<usize>,
    pub sq: HashMap<(usize, usize), Vec<usize>>,
    pub hand: HashMap<(usize, usize, usize), usize>,
    pub samples: Vec<(Vec<u8>, Vec<u8>)>,
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
impl Layout {
    pub fn parse(t: &str) -> Result<Layout, String> {
        let mut l = Layout { base: vec![], side: vec![], ply: vec![0; 16], sq: HashMap::new(), hand: HashMap::new(), samples: vec![] };
        for line in t.lines() {
            let f: Vec<&str> = line.split_whitespace().collect();
            let n = |k: usize| f[k].parse::<usize>().unwrap();
            let rest = |k: usize| f[k..].iter().map(|x| x.parse::<usize>().unwrap()).collect::<Vec<_>>();
            match f[0] {
                "base" => l.base = unhex(f[1]),
                "side" => l.side = rest(1),
                "ply" => {
                    // base ply is 1: bit 0 is recovered from the change to 2
                    let r = rest(2);
                    if n(1) == 0 {
                        l.ply[0] = *r.iter().min().ok_or("ply layout")?;
                    } else {
                        if r.len() != 1 {
                            return Err("ply layout".into());
                        }
                        l.ply[n(1)] = r[0];
                    }
                }
                "sq" => {
                    l.sq.insert((n(1), n(2)), rest(3));
                }
                "hand" => {
                    let r = rest(4);
                    if r.len() != 1 {
                        return Err("hand layout".into());
                    }
                    l.hand.insert((n(1), n(2), n(3)), r[0]);
                }
                "sample" => l.samples.push((unhex(f[1]), unhex(f[2]))),
                _ => {}
            }
        }
        let mut seen = std::collections::HashSet::new();
        for &p in &l.ply {
            if !seen.insert(p) {
                return Err("ply layout".into());
            }
        }
        Ok(l)
    }
}

/// How the position is split into cases.
#[derive(Clone, Debug)]
pub struct Case {
    /// 0 Black, 1 White
    pub side: usize,
    /// squares the king of the side to move may stand on, 0 = no king
    pub own: Vec<usize>,
    /// square of the other king: None = symbolic (possibly absent), Some(0) = absent
    pub opp: Option<usize>,
    /// a square known to hold a piece of the side to move, and which: 0 no king, 1 one that can promote
    pub mine: Option<(usize, u8)>,
}

pub struct Pos {
    pub case: Case,
    /// kl[q][kind]: a piece of that kind stands on q
    pub kl: Vec<[Lit; 15]>,
    /// pl[q][colour]
    pub pl: Vec<[Lit; 2]>,
    /// pc[q][kind][colour]
    pub pc: Vec<[[Lit; 2]; 15]>,
    /// byte value (5 bits)
    pub byte: Vec<[Lit; 5]>,
    pub hand: [[Vec<Lit>; 7]; 2],
    pub ply: Vec<Lit>,
    pub okl: Vec<Lit>,
    /// kown[q]: the mover's king stands on q; kown[0]: the mover has no king
    pub kown: Vec<Lit>,
    pub occ: Vec<Lit>,
    var_: Vec<[Lit; 5]>,
    pub valid: Vec<Vec<Lit>>,
    /// the first `nlight` validity clauses have small cones
    pub nlight: usize,
}

pub fn rank(q: usize) -> i32 {
    ((q - 1) % 9) as i32 + 1
}
pub fn file(q: usize) -> i32 {
    ((q - 1) / 9) as i32 + 1
}
pub fn sqn(f: i32, r: i32) -> Option<usize> {
    if (1..=9).contains(&f) && (1..=9).contains(&r) {
        Some(((f - 1) * 9 + r) as usize)
    } else {
        None
    }
}
/// rank counted from the mover's far end: 1 is the last rank
pub fn rel(q: usize, c: usize) -> i32 {
    if c == 0 {
        rank(q)
    } else {
        10 - rank(q)
    }
}
pub fn dead(k: usize, q: usize, c: usize) -> bool {
    match k {
        1 | 2 => rel(q, c) <= 1,
        3 => rel(q, c) <= 2,
        _ => false,
    }
}

impl Pos {
    pub fn new(e: &mut Exec, case: Case) -> Pos {
        let own = case.side;
        let opp = 1 - own;
        let g = &mut e.g;
        let mut valid = vec![];
        let mut p = Pos {
            kl: vec![[F; 15]; 82],
            pl: vec![[F; 2]; 82],
            pc: vec![[[F; 2]; 15]; 82],
            byte: vec![[F; 5]; 82],
            hand: Default::default(),
            ply: vec![],
            okl: vec![F; 82],
            kown: vec![F; 82],
            occ: vec![],
            var_: vec![[F; 5]; 82],
            valid: vec![],
            nlight: 0,
            case: case.clone(),
        };
        for q in 1..82 {
            if case.own == [q] {
                p.kown[q] = T;
                p.kl[q][KING] = T;
                p.pl[q][own] = T;
                p.pc[q][KING][own] = T;
                p.byte[q] = [F, F, F, T, own as Lit];
                continue;
            }
            if case.opp == Some(q) {
                p.kl[q][KING] = T;
                p.pl[q][opp] = T;
                p.pc[q][KING][opp] = T;
                p.byte[q] = [F, F, F, T, opp as Lit];
                p.okl[q] = T;
                continue;
            }
            let mine = case.mine.is_some_and(|m| m.0 == q);
            let prom = case.mine == Some((q, 1));
            let o = if case.opp.is_none() && !mine { g.var(format!("k{q}")) } else { F };
            let w = if case.own.contains(&q) && !mine { g.var(format!("w{q}")) } else { F };
            p.kown[q] = w;
            let v: Vec<Lit> = (0..4).map(|i| g.var(format!("s{q}.{i}"))).collect();
            let c = if mine { own as Lit } else { g.var(format!("c{q}")) };
            p.okl[q] = o;
            p.var_[q] = [v[0], v[1], v[2], v[3], c];
            let mut gv = v.clone();
            if !mine {
                gv.push(c);
            }
            let cb = |a: u32| if mine { own } else { (a >> 4 & 1) as usize };
            let (io, iw) = (if o > 1 { gv.push(o); gv.len() - 1 } else { 9 }, if w > 1 { gv.push(w); gv.len() - 1 } else { 9 });
            g.group(&gv, &|a| {
                let k = (a & 15) as usize;
                let col = cb(a);
                let bit = |i: usize| i < 9 && a >> i & 1 == 1;
                let king = bit(io) || bit(iw);
                let rest = if mine { a & 15 } else { a & 31 };
                k != 8 && k != 15 && !(k == 0 && col == 1 && !mine) && !(mine && k == 0 && !king) && !(prom && !matches!(k, 1..=4 | 6 | 7)) && !(k > 0 && dead(k, q, col)) && !(king && rest != 0) && !(bit(io) && bit(iw))
            });
            let kk = g.or(o, w);
            let ne = g.or_all(&v);
            for k in 1..15 {
                if k == KING {
                    p.kl[q][k] = kk;
                    continue;
                }
                let t: Vec<Lit> = (0..4).map(|i| v[i] ^ (k as u32 >> i & 1 ^ 1)).collect();
                let l = g.and_all(&t);
                p.kl[q][k] = l;
                // excluded codes, dead pieces
                for col in 0..2 {
                    if dead(k, q, col) {
                        let mut cl: Vec<Lit> = t.iter().map(|&x| neg(x)).collect();
                        cl.push(if col == 1 { neg(c) } else { c });
                        valid.push(cl);
                    }
                }
            }
            for k in (1..16u32).filter(|&k| k == 8 || k == 15 || prom && !matches!(k, 1..=4 | 6 | 7)) {
                valid.push((0..4).map(|i| v[i] ^ (k >> i & 1)).collect());
            }
            // colour only with a piece; king only on an empty code
            if mine {
                valid.push(vec![v[0], v[1], v[2], v[3]]);
            } else {
                valid.push(vec![neg(c), v[0], v[1], v[2], v[3]]);
            }
            for x in [o, w] {
                if x != F {
                    for i in 0..4 {
                        valid.push(vec![neg(x), neg(v[i])]);
                    }
                    if !mine {
                        valid.push(vec![neg(x), neg(c)]);
                    }
                }
            }
            if o != F && w != F {
                valid.push(vec![neg(o), neg(w)]);
            }
            let cw = |col: usize| if col == 1 { c } else { neg(c) };
            let own_p = g.and(ne, cw(own));
            let own_p = g.and(own_p, neg(o));
            let own_p = if mine { T } else { g.or(own_p, w) };
            let opp_p = g.and(ne, cw(opp));
            let opp_p = g.and(opp_p, neg(w));
            let opp_p = if mine { F } else { g.or(opp_p, o) };
            p.pl[q][own] = own_p;
            p.pl[q][opp] = opp_p;
            for k in 1..15 {
                for col in 0..2 {
                    p.pc[q][k][col] = if k == KING {
                        if col == opp {
                            o
                        } else {
                            w
                        }
                    } else {
                        g.and(p.kl[q][k], cw(col))
                    };
                }
            }
            let b3 = g.or(v[3], kk);
            let b4 = g.or(c, if opp == 1 { o } else { w });
            p.byte[q] = [v[0], v[1], v[2], b3, b4];
        }
        if case.own == [0] {
            p.kown[0] = T;
        } else if case.own.len() > 1 {
            let ws: Vec<Lit> = (1..82).map(|q| p.kown[q]).filter(|&l| l != F).collect();
            for i in 0..ws.len() {
                for j in 0..i {
                    valid.push(vec![neg(ws[i]), neg(ws[j])]);
                }
            }
            if case.own.contains(&0) {
                let a = g.or_all(&ws);
                p.kown[0] = neg(a);
            } else {
                valid.push(ws);
            }
        }
        if case.opp.is_none() {
            let os: Vec<Lit> = (1..82).map(|q| p.okl[q]).filter(|&l| l != F).collect();
            for i in 0..os.len() {
                for j in 0..i {
                    valid.push(vec![neg(os[i]), neg(os[j])]);
                }
            }
        }
        // one unpromoted pawn per side and file
        for col in 0..2 {
            for f in 1..=9 {
                for r in 1..=9 {
                    for r2 in 1..r {
                        let a = p.pc[sqn(f, r).unwrap()][1][col];
                        let b = p.pc[sqn(f, r2).unwrap()][1][col];
                        if a != F && b != F {
                            valid.push(vec![neg(a), neg(b)]);
                        }
                    }
                }
            }
        }
        for col in 0..2 {
            for k in 0..7 {
                let b: Vec<Lit> = (0..HBITS[k]).map(|i| g.var(format!("h{col}.{k}.{i}"))).collect();
                g.group(&b, &|a| a <= HMAX[k]);
                // b <= HMAX
                for val in HMAX[k] + 1..1 << HBITS[k] {
                    valid.push((0..HBITS[k]).map(|i| b[i] ^ (val >> i & 1)).collect());
                }
                p.hand[col][k] = b;
            }
        }
        p.ply = (0..16).map(|i| g.var(format!("ply{i}"))).collect();
        valid.push(p.ply.clone());
        valid.push(p.ply.iter().map(|&l| neg(l)).collect());
        p.occ = (0..82).map(|q| if q == 0 { F } else { g.or(p.pl[q][0], p.pl[q][1]) }).collect();
        valid.retain(|c| !c.contains(&T));
        p.nlight = valid.len();
        // the side not to move is not in check
        let mut sp = Spec::new(&p);
        for q in 1..82 {
            if p.okl[q] != F {
                let a = sp.attacked(g, q, own, &[], &[]);
                valid.push(vec![neg(p.okl[q]), neg(a)]);
            }
        }
        drop(sp);
        valid.retain(|c| !c.contains(&T));
        p.valid = valid.clone();
        e.valid = valid;
        if p.case.opp.is_none() {
            let os: Vec<Lit> = p.okl.iter().copied().filter(|&l| l != F).collect();
            e.mutex(os);
        }
        if p.case.own.len() > 1 {
            let ws: Vec<Lit> = (1..82).map(|q| p.kown[q]).filter(|&l| l != F).collect();
            e.mutex(ws);
        }
        p
    }
    /// the input bits of a square: kind code, colour (kings apart)
    pub fn vars(&self, q: usize) -> [Lit; 5] {
        self.var_[q]
    }
    /// memory bits of the PartialPosition value
    pub fn image(&self, g: &mut Aig, lay: &Layout) -> Result<Vec<Lit>, String> {
        let n = lay.base.len() * 8;
        let mut out: Vec<Lit> = (0..n).map(|i| (lay.base[i / 8] >> (i % 8) & 1) as Lit).collect();
        let mut used = vec![0u8; n];
        if self.case.side == 1 {
            for &b in &lay.side {
                out[b] ^= 1;
                used[b] = 1;
            }
        }
        for (i, &b) in lay.ply.iter().enumerate() {
            out[b] = self.ply[i];
            used[b] = 2;
        }
        for (&(c, k, j), &b) in &lay.hand {
            out[b] = self.hand[c][k][j];
            if used[b] != 0 {
                return Err("layout: overlapping hand bits".into());
            }
            used[b] = 3;
        }
        for q in 1..82 {
            let mut m: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
            for p in (1..15).chain(17..31) {
                for &b in &lay.sq[&(q, p)] {
                    m.entry(b).or_default().push(p);
                }
            }
            let all: Vec<usize> = (1..15).chain(17..31).collect();
            for (b, set) in m {
                if !matches!(used[b], 0 | 4) {
                    return Err("layout: overlapping board bits".into());
                }
                let prev = if used[b] == 4 { out[b] } else { F };
                used[b] = 4;
                let is = |f: &dyn Fn(usize) -> bool| all.iter().copied().filter(|&p| f(p)).collect::<Vec<_>>() == set;
                let l = if let Some(k) = (1..15).find(|&k| is(&|p| p % 16 == k)) {
                    self.kl[q][k]
                } else if let Some(c) = (0..2).find(|&c| is(&|p| p / 16 == c) && !(b % 8 == 4 && c == 1 && m_byte(lay, q, b))) {
                    self.pl[q][c]
                } else if let Some(i) = (0..5).find(|&i| is(&|p| p >> i & 1 == 1)) {
                    self.byte[q][i]
                } else {
                    let v: Vec<Lit> = set.iter().map(|&p| self.pc[q][p % 16][p / 16]).collect();
                    g.or_all(&v)
                };
                // bits shared by several squares (a cached king square): at most one contributes
                out[b] = g.or(prev, l);
            }
        }
        Ok(out)
    }
    /// variable assignment describing a concrete position (raw record); None if it is not of this case
    pub fn assign(&self, raw: &Raw) -> Option<HashMap<u32, bool>> {
        let mut m = HashMap::new();
        if raw.side as usize != self.case.side + 1 {
            return None;
        }
        let mut put = |l: Lit, v: bool| -> bool {
            if l < 2 {
                (l == T) == v
            } else {
                m.insert(l >> 1, v);
                true
            }
        };
        let mut ok = true;
        let ownk = 8 + 16 * self.case.side;
        let oppk = 8 + 16 * (1 - self.case.side);
        for q in 1..82 {
            let b = raw.board[q - 1] as usize;
            if self.case.own == [q] {
                ok &= b == ownk;
                continue;
            }
            ok &= put(self.kown[q], b == ownk);
            if self.case.opp == Some(q) {
                ok &= b == oppk;
                continue;
            }
            ok &= put(self.okl[q], b == oppk);
            let b = if b == oppk || b == ownk { 0 } else { b };
            for i in 0..4 {
                let l = self.var_[q][i];
                ok &= put(l, b >> i & 1 == 1);
            }
            if self.var_[q][4] > 1 {
                ok &= put(self.var_[q][4], b >> 4 & 1 == 1);
            } else {
                ok &= raw.board[q - 1] > 0 && (raw.board[q - 1] >> 4) as usize == self.case.side;
            }
        }
        for c in 0..2 {
            for k in 0..7 {
                for (i, &l) in self.hand[c][k].iter().enumerate() {
                    ok &= put(l, raw.hands[c][k] >> i & 1 == 1);
                }
            }
        }
        for (i, &l) in self.ply.iter().enumerate() {
            ok &= put(l, raw.ply >> i & 1 == 1);
        }
        if ok {
            Some(m)
        } else {
            None
        }
    }
    /// concrete position of a model
    pub fn decode(&self, val: &dyn Fn(u32) -> bool) -> Raw {
        let lv = |l: Lit| if l < 2 { l == T } else { val(l >> 1) ^ (l & 1 == 1) };
        let mut r = Raw::empty();
        r.side = self.case.side as u8 + 1;
        for q in 1..82 {
            let mut b = 0u8;
            if lv(self.kown[q]) {
                b = 8 + 16 * self.case.side as u8;
            } else if lv(self.okl[q]) {
                b = 8 + 16 * (1 - self.case.side as u8);
            } else {
                for i in 0..5 {
                    b |= (lv(self.var_[q][i]) as u8) << i;
                }
            }
            r.board[q - 1] = b;
        }
        for c in 0..2 {
            for k in 0..7 {
                for (i, &l) in self.hand[c][k].iter().enumerate() {
                    r.hands[c][k] |= (lv(l) as u8) << i;
                }
            }
        }
        for (i, &l) in self.ply.iter().enumerate() {
            r.ply |= (lv(l) as u16) << i;
        }
        r
    }
    /// clauses bounding the number of pieces of each kind to those of a real set
    pub fn totals(&self, g: &mut Aig) -> Vec<Lit> {
        let mut out = vec![];
        for k in 0..7 {
            let base = [1usize, 2, 3, 4, 5, 6, 7][k];
            let mut v = vec![];
            for q in 1..82 {
                for kk in [base, base + 8] {
                    if kk == 13 && base == 5 {
                        continue; // gold has no promoted form
                    }
                    let kk = match base {
                        1..=4 if kk > 8 => base + 8,
                        6 | 7 if kk > 8 => base + 7,
                        _ => base,
                    };
                    let l = self.kl[q][kk];
                    if l != F && !v.contains(&l) {
                        v.push(l);
                    }
                }
            }
            let mut n = g.popcount(&v, 8);
            for c in 0..2 {
                let mut h = self.hand[c][k].clone();
                h.resize(8, F);
                n = g.add(&n, &h, F).0;
            }
            let lim = cbits(HMAX[k] as u128, 8);
            let gt = g.ultb(&lim, &n);
            out.push(neg(gt));
        }
        out
    }
}
/// is bit b part of the byte that stores the piece on q (all five code bits in one byte)?
fn m_byte(lay: &Layout, q: usize, b: usize) -> bool {
    let base = b / 8 * 8;
    lay.sq[&(q, 1)].contains(&base) && lay.sq[&(q, 2)].contains(&(base + 1)) && lay.sq[&(q, 8)].contains(&(base + 3))
}

#[derive(Clone)]
pub struct Raw {
    pub side: u8,
    pub ply: u16,
    pub hands: [[u8; 8]; 2],
    pub board: [u8; 81],
}
impl Raw {
    pub fn empty() -> Raw {
        Raw { side: 1, ply: 0, hands: [[0; 8]; 2], board: [0; 81] }
    }
    pub fn from_bytes(b: &[u8]) -> Raw {
        let mut r = Raw::empty();
        r.side = b[0];
        r.ply = b[2] as u16 | (b[3] as u16) << 8;
        for c in 0..2 {
            r.hands[c].copy_from_slice(&b[4 + 8 * c..12 + 8 * c]);
        }
        r.board.copy_from_slice(&b[20..101]);
        r
    }
    pub fn hex(&self) -> String {
        let mut v = vec![self.side, 0, self.ply as u8, (self.ply >> 8) as u8];
        v.extend_from_slice(&self.hands[0]);
        v.extend_from_slice(&self.hands[1]);
        v.extend_from_slice(&self.board);
        v.push(0);
        v.iter().map(|x| format!("{x:02x}")).collect()
    }
    pub fn king(&self, c: usize) -> usize {
        self.board.iter().position(|&b| b as usize == 8 + 16 * c).map(|i| i + 1).unwrap_or(0)
    }
    pub fn sfen(&self) -> String {
        let nm = ["", "P", "L", "N", "S", "G", "B", "R", "K", "+P", "+L", "+N", "+S", "+B", "+R"];
        let mut s = String::new();
        for r in 1..=9 {
            let mut e = 0;
            for f in (1..=9).rev() {
                let b = self.board[sqn(f, r).unwrap() - 1] as usize;
                if b == 0 {
                    e += 1;
                    continue;
                }
                if e > 0 {
                    s += &e.to_string();
                    e = 0;
                }
                let n = nm.get(b % 16).copied().unwrap_or("?");
                if b >= 16 {
                    s += &n.to_lowercase();
                } else {
                    s += n;
                }
            }
            if e > 0 {
                s += &e.to_string();
            }
            if r < 9 {
                s.push('/');
            }
        }
        s += if self.side == 1 { " b " } else { " w " };
        let mut h = String::new();
        for c in 0..2 {
            for k in (0..7).rev() {
                let n = self.hands[c][k];
                if n > 0 {
                    if n > 1 {
                        h += &n.to_string();
                    }
                    let x = nm[k + 1];
                    h += &if c == 1 { x.to_lowercase() } else { x.to_string() };
                }
            }
        }
        s += if h.is_empty() { "-" } else { &h };
        s + &format!(" {}", self.ply)
    }
}
