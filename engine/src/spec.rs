//! The rules of shogi, stated independently of the code under test, as circuits over a symbolic
//! position.
use crate::aig::*;
use crate::pos::*;
use std::collections::HashMap;

const DIAG: [(i32, i32); 4] = [(1, 1), (1, -1), (-1, 1), (-1, -1)];
const ORTH: [(i32, i32); 4] = [(0, -1), (0, 1), (1, 0), (-1, 0)];

/// single steps of a kind; `c`: 0 Black (moves towards rank 1), 1 White
pub fn steps(k: usize, c: usize) -> Vec<(i32, i32)> {
    let f = if c == 0 { -1 } else { 1 };
    match k {
        1 => vec![(0, f)],
        3 => vec![(1, 2 * f), (-1, 2 * f)],
        4 => vec![(0, f), (1, f), (-1, f), (1, -f), (-1, -f)],
        5 | 9 | 10 | 11 | 12 => vec![(0, f), (1, f), (-1, f), (1, 0), (-1, 0), (0, -f)],
        8 => DIAG.iter().chain(&ORTH).copied().collect(),
        13 => ORTH.to_vec(),
        14 => DIAG.to_vec(),
        _ => vec![],
    }
}
pub fn slides(k: usize, c: usize) -> Vec<(i32, i32)> {
    let f = if c == 0 { -1 } else { 1 };
    match k {
        2 => vec![(0, f)],
        6 | 13 => DIAG.to_vec(),
        7 | 14 => ORTH.to_vec(),
        _ => vec![],
    }
}
pub fn add(q: usize, d: (i32, i32)) -> Option<usize> {
    sqn(file(q) + d.0, rank(q) + d.1)
}
/// direction of the line from a to b if they share a rank, file or diagonal
pub fn dir(a: usize, b: usize) -> Option<(i32, i32)> {
    let (df, dr) = (file(b) - file(a), rank(b) - rank(a));
    if (df, dr) != (0, 0) && (df == 0 || dr == 0 || df.abs() == dr.abs()) {
        Some((df.signum(), dr.signum()))
    } else {
        None
    }
}
/// squares strictly between a and b (on a line)
pub fn between(a: usize, b: usize) -> Vec<usize> {
    let Some(d) = dir(a, b) else { return vec![] };
    let mut v = vec![];
    let mut q = a;
    loop {
        q = add(q, d).unwrap();
        if q == b {
            return v;
        }
        v.push(q);
    }
}
pub fn promo_kind(k: usize) -> Option<usize> {
    match k {
        1..=4 => Some(k + 8),
        6 | 7 => Some(k + 7),
        _ => None,
    }
}
pub fn unpromo(k: usize) -> usize {
    match k {
        9..=12 => k - 8,
        13 | 14 => k - 7,
        _ => k,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Mv {
    Normal { from: usize, to: usize, promote: bool },
    Drop { kind: usize, to: usize },
}
impl Mv {
    pub fn code(&self, side: usize) -> u32 {
        match *self {
            Mv::Normal { from, to, promote } => from as u32 | (to as u32) << 8 | (promote as u32) << 16,
            Mv::Drop { kind, to } => 1 << 24 | (kind + 16 * side) as u32 | (to as u32) << 8,
        }
    }
    pub fn usi(&self) -> String {
        let s = |q: usize| format!("{}{}", file(q), (b'a' + rank(q) as u8 - 1) as char);
        match *self {
            Mv::Normal { from, to, promote } => format!("{}{}{}", s(from), s(to), if promote { "+" } else { "" }),
            Mv::Drop { kind, to } => format!("{}*{}", ["", "P", "L", "N", "S", "G", "B", "R"][kind], s(to)),
        }
    }
}

pub struct Spec<'a> {
    pub p: &'a Pos,
    rays: HashMap<(usize, usize, (i32, i32), Vec<usize>, Vec<usize>), Lit>,
}

impl<'a> Spec<'a> {
    pub fn new(p: &'a Pos) -> Self {
        Spec { p, rays: HashMap::new() }
    }
    /// a piece of colour `by` attacks t along the ray leaving t in direction d; squares in `gone`
    /// are taken as empty, squares in `fill` as occupied by something that does not attack t
    fn ray(&mut self, g: &mut Aig, t: usize, by: usize, d: (i32, i32), gone: &[usize], fill: &[usize]) -> Lit {
        let mut sqs = vec![];
        let mut q = t;
        while let Some(n) = add(q, d) {
            sqs.push(n);
            q = n;
        }
        let gone: Vec<usize> = gone.iter().copied().filter(|x| sqs.contains(x)).collect();
        let fill: Vec<usize> = fill.iter().copied().filter(|x| sqs.contains(x)).collect();
        let key = (t, by, d, gone.clone(), fill.clone());
        if let Some(&l) = self.rays.get(&key) {
            return l;
        }
        let back = (-d.0, -d.1);
        let mut open = T;
        let mut hits = vec![];
        for (i, &q) in sqs.iter().enumerate() {
            if fill.contains(&q) {
                break;
            }
            if gone.contains(&q) {
                continue;
            }
            let mut ks = vec![];
            for k in 1..15 {
                let s = slides(k, by).contains(&back) || (i == 0 && steps(k, by).contains(&back));
                if s && self.p.pc[q][k][by] != F {
                    ks.push(self.p.pc[q][k][by]);
                }
            }
            let a = g.or_all(&ks);
            hits.push(g.and(open, a));
            open = g.and(open, neg(self.p.occ[q]));
        }
        let l = g.or_all(&hits);
        self.rays.insert(key, l);
        l
    }
    /// the squares along the ray from t in direction d, each with the condition that a piece of colour
    /// `by` standing there attacks t, and the condition that everything before it is empty
    fn ray_hits(&mut self, g: &mut Aig, t: usize, by: usize, d: (i32, i32)) -> Vec<(usize, Lit, Lit)> {
        let back = (-d.0, -d.1);
        let mut open = T;
        let mut v = vec![];
        let mut q = t;
        let mut i = 0;
        while let Some(n) = add(q, d) {
            q = n;
            let mut ks = vec![];
            for k in 1..15 {
                let s = slides(k, by).contains(&back) || (i == 0 && steps(k, by).contains(&back));
                if s && self.p.pc[q][k][by] != F {
                    ks.push(self.p.pc[q][k][by]);
                }
            }
            let a = g.or_all(&ks);
            v.push((q, g.and(open, a), open));
            open = g.and(open, neg(self.p.occ[q]));
            i += 1;
        }
        v
    }
    /// Conditions an implementation is likely to keep: attackers of the mover's king, pieces
    /// shielding either king, squares from which the other king could be attacked. They only serve
    /// as candidates for proved equalities; nothing depends on them.
    pub fn hints(&mut self, g: &mut Aig, parts: &str) -> Vec<(Lit, bool)> {
        let s = self.p.case.side;
        let mut chk = vec![vec![]; 82];
        let mut pin = vec![vec![vec![]; 82]; 2];
        let mut able = vec![vec![vec![]; 82]; 15];
        for c in 0..2 {
            for k in 1..82 {
                let w = if c == s { self.p.kown[k] } else { self.p.okl[k] };
                if w == F {
                    continue;
                }
                for d in DIAG.iter().chain(&ORTH) {
                    for (q, hit, open) in self.ray_hits(g, k, 1 - c, *d) {
                        if c == s {
                            chk[q].push(g.and(w, hit));
                        }
                        let r = self.ray(g, k, 1 - c, *d, &[q], &[]);
                        let x = g.and_all(&[w, open, self.p.occ[q], r]);
                        pin[c][q].push(x);
                    }
                }
                if c == s {
                    for (df, dr) in steps(3, 1 - c) {
                        if let Some(q) = add(k, (-df, -dr)) {
                            chk[q].push(g.and(w, self.p.pc[q][3][1 - c]));
                        }
                    }
                } else {
                    for kind in 1..15 {
                        for q in 1..82 {
                            if kind != KING && q != k {
                                let r = self.reach(g, kind, s, q, k);
                                able[kind][q].push(g.and(w, r));
                            }
                        }
                    }
                }
            }
        }
        // true: about the mover's king
        let mut out = vec![];
        for (c, vs, own) in [('c', &chk, true), ('p', &pin[s], true), ('o', &pin[1 - s], false)] {
            if parts.contains(c) {
                for v in vs {
                    out.push((g.or_all(v), own));
                }
            }
        }
        if parts.contains('a') {
            for v in able.iter().flatten() {
                out.push((g.or_all(v), false));
            }
        }
        out.push((self.in_check(g), true));
        out.retain(|l| l.0 > 1);
        out.sort();
        out.dedup();
        out
    }
    /// some piece of colour `by` attacks t
    pub fn attacked(&mut self, g: &mut Aig, t: usize, by: usize, gone: &[usize], fill: &[usize]) -> Lit {
        let mut v = vec![];
        for d in DIAG.iter().chain(&ORTH) {
            v.push(self.ray(g, t, by, *d, gone, fill));
        }
        for (df, dr) in steps(3, by) {
            if let Some(q) = add(t, (-df, -dr)) {
                if !gone.contains(&q) && !fill.contains(&q) {
                    v.push(self.p.pc[q][3][by]);
                }
            }
        }
        g.or_all(&v)
    }
    /// the mover's king is attacked where it stands, with squares emptied / filled
    fn king_attacked(&mut self, g: &mut Aig, gone: &[usize], fill: &[usize]) -> Lit {
        let s = self.p.case.side;
        let mut v = vec![];
        for k in 1..82 {
            let w = self.p.kown[k];
            if w != F && !gone.contains(&k) {
                let a = self.attacked(g, k, 1 - s, gone, fill);
                v.push(g.and(w, a));
            }
        }
        g.or_all(&v)
    }
    /// the mover's king is attacked after a drop on t
    pub fn unsafe_drop(&mut self, g: &mut Aig, t: usize) -> Lit {
        self.king_attacked(g, &[], &[t])
    }
    pub fn in_check(&mut self, g: &mut Aig) -> Lit {
        self.king_attacked(g, &[], &[])
    }
    /// a piece of kind k, colour c, could move from `from` to `to` as far as the squares between allow
    pub fn reach(&mut self, g: &mut Aig, k: usize, c: usize, from: usize, to: usize) -> Lit {
        let d = (file(to) - file(from), rank(to) - rank(from));
        if steps(k, c).contains(&d) {
            return T;
        }
        let Some(u) = dir(from, to) else { return F };
        if !slides(k, c).contains(&u) {
            return F;
        }
        let v: Vec<Lit> = between(from, to).iter().map(|&q| neg(self.p.occ[q])).collect();
        g.and_all(&v)
    }
    /// can kind k colour c ever go from `from` to `to` on some board?
    pub fn can(k: usize, c: usize, from: usize, to: usize) -> bool {
        let d = (file(to) - file(from), rank(to) - rank(from));
        if steps(k, c).contains(&d) {
            return true;
        }
        match dir(from, to) {
            Some(u) => slides(k, c).contains(&u),
            None => false,
        }
    }
    /// the mover's king is safe after the board move
    pub fn safe(&mut self, g: &mut Aig, from: usize, to: usize) -> Lit {
        let s = self.p.case.side;
        let mut bad = self.king_attacked(g, &[from], &[to]);
        if Self::can(KING, s, from, to) && self.p.kown[from] != F {
            let a = self.attacked(g, to, 1 - s, &[from], &[]);
            bad = g.ite(self.p.kown[from], a, bad);
        }
        neg(bad)
    }
    /// the ways in which the mover's king can be attacked after the board move
    pub fn unsafe_ways(&mut self, g: &mut Aig, from: usize, to: usize) -> Vec<Lit> {
        let s = self.p.case.side;
        let k = self.p.kown[from];
        let rest = self.king_attacked(g, &[from], &[to]);
        let mut v = vec![g.and(neg(k), rest)];
        if Self::can(KING, s, from, to) && k != F {
            for d in DIAG.iter().chain(&ORTH) {
                let mut open = T;
                let back = (-d.0, -d.1);
                let mut q = to;
                let mut i = 0;
                while let Some(n) = add(q, *d) {
                    q = n;
                    i += 1;
                    if n == from {
                        continue;
                    }
                    let ks: Vec<Lit> = (1..15).filter(|&k| slides(k, 1 - s).contains(&back) || i == 1 && steps(k, 1 - s).contains(&back)).map(|k| self.p.pc[q][k][1 - s]).collect();
                    let a = g.or_all(&ks);
                    v.push(g.and_all(&[k, open, a]));
                    open = g.and(open, neg(self.p.occ[q]));
                }
            }
            for (df, dr) in steps(3, 1 - s) {
                if let Some(q) = add(to, (-df, -dr)) {
                    v.push(g.and(k, self.p.pc[q][3][1 - s]));
                }
            }
        } else {
            v.push(g.and(k, rest));
        }
        v.retain(|&l| l != F);
        v
    }
    /// promotion choice allowed for kind k
    pub fn promo_ok(k: usize, c: usize, from: usize, to: usize, promote: bool) -> bool {
        if promote {
            promo_kind(k).is_some() && (rel(from, c) <= 3 || rel(to, c) <= 3)
        } else {
            !dead(k, to, c)
        }
    }
    /// legality of a board move made by a piece of kind k (the kind included)
    pub fn legal_kind(&mut self, g: &mut Aig, k: usize, from: usize, to: usize, promote: bool) -> Lit {
        let s = self.p.case.side;
        if !Self::promo_ok(k, s, from, to, promote) {
            return F;
        }
        let pc = self.p.pc[from][k][s];
        if pc == F {
            return F;
        }
        let r = self.reach(g, k, s, from, to);
        if r == F {
            return F;
        }
        let safe = self.safe(g, from, to);
        g.and_all(&[pc, r, neg(self.p.pl[to][s]), safe])
    }
    pub fn legal_normal(&mut self, g: &mut Aig, from: usize, to: usize, promote: bool) -> Lit {
        // the parts shared by all kinds are factored out
        let s = self.p.case.side;
        let mut v = vec![];
        for k in 1..15 {
            if !Self::promo_ok(k, s, from, to, promote) || self.p.pc[from][k][s] == F {
                continue;
            }
            let r = self.reach(g, k, s, from, to);
            if r != F {
                v.push(g.and(self.p.pc[from][k][s], r));
            }
        }
        if v.is_empty() {
            return F;
        }
        let any = g.or_all(&v);
        let safe = self.safe(g, from, to);
        g.and_all(&[any, neg(self.p.pl[to][s]), safe])
    }
    /// the pawn drop on t would be checkmate
    pub fn pawn_mate(&mut self, g: &mut Aig, t: usize) -> Lit {
        let (kq, out) = self.pawn_replies(g, t);
        let esc = g.or_all(&out);
        g.and(kq, neg(esc))
    }
    /// the other king stands in front of the pawn dropped on t; the ways to answer the check
    pub fn pawn_replies(&mut self, g: &mut Aig, t: usize) -> (Lit, Vec<Lit>) {
        let s = self.p.case.side;
        let o = 1 - s;
        let f = if s == 0 { -1 } else { 1 };
        let Some(q) = add(t, (0, f)) else { return (F, vec![]) };
        let kq = self.p.okl[q];
        if kq == F {
            return (F, vec![]);
        }
        // king moves (including capturing the pawn)
        let mut out = vec![];
        for d in steps(8, o) {
            let Some(x) = add(q, d) else { continue };
            let a = self.attacked(g, x, s, &[q], if x == t { &[] } else { std::slice::from_ref(&t) });
            let free = if x == t { T } else { neg(self.p.pl[x][o]) };
            out.push(g.and(neg(a), free));
        }
        // captures of the pawn by other pieces
        for y in 1..82 {
            if y == t || y == q {
                continue;
            }
            let mut ks = vec![];
            for k in 1..15 {
                if k != KING && self.p.pc[y][k][o] != F {
                    let r = self.reach(g, k, o, y, t);
                    if r != F {
                        ks.push(g.and(self.p.pc[y][k][o], r));
                    }
                }
            }
            if ks.is_empty() {
                continue;
            }
            let any = g.or_all(&ks);
            let a = self.attacked(g, q, s, &[y], &[t]);
            out.push(g.and(any, neg(a)));
        }
        (kq, out)
    }
    /// drop allowed apart from the pawn-mate rule
    pub fn drop_base(&mut self, g: &mut Aig, kind: usize, t: usize) -> Lit {
        let s = self.p.case.side;
        if dead(kind, t, s) {
            return F;
        }
        let h = g.or_all(&self.p.hand[s][kind - 1]);
        let mut v = vec![h, neg(self.p.occ[t])];
        if kind == 1 {
            for r in 1..=9 {
                v.push(neg(self.p.pc[sqn(file(t), r).unwrap()][1][s]));
            }
        }
        v.push(neg(self.king_attacked(g, &[], &[t])));
        g.and_all(&v)
    }
    pub fn legal(&mut self, g: &mut Aig, m: Mv) -> Lit {
        match m {
            Mv::Normal { from, to, promote } => self.legal_normal(g, from, to, promote),
            Mv::Drop { kind, to } => {
                let b = self.drop_base(g, kind, to);
                if kind == 1 {
                    let m = self.pawn_mate(g, to);
                    g.and(b, neg(m))
                } else {
                    b
                }
            }
        }
    }
    /// after the (legal) move m, the other king standing on q is attacked
    pub fn gives_check(&mut self, g: &mut Aig, m: Mv, q: usize) -> Lit {
        let s = self.p.case.side;
        match m {
            Mv::Normal { from, to, promote } => {
                if to == q || from == q {
                    return F;
                }
                let disc = self.attacked(g, q, s, &[from], &[to]);
                let mut v = vec![disc];
                for k in 1..15 {
                    if self.p.pc[from][k][s] == F || !Self::can(k, s, from, to) {
                        continue;
                    }
                    let k2 = if promote {
                        match promo_kind(k) {
                            Some(x) => x,
                            None => continue,
                        }
                    } else {
                        k
                    };
                    let a = self.direct(g, k2, to, q, Some(from));
                    if a != F {
                        v.push(g.and(self.p.pc[from][k][s], a));
                    }
                }
                g.or_all(&v)
            }
            Mv::Drop { kind, to } => {
                if to == q {
                    return F;
                }
                let disc = self.attacked(g, q, s, &[], &[to]);
                let a = self.direct(g, kind, to, q, None);
                g.or(disc, a)
            }
        }
    }
    fn direct(&mut self, g: &mut Aig, k: usize, at: usize, q: usize, gone: Option<usize>) -> Lit {
        let s = self.p.case.side;
        let d = (file(q) - file(at), rank(q) - rank(at));
        if steps(k, s).contains(&d) {
            return T;
        }
        let Some(u) = dir(at, q) else { return F };
        if !slides(k, s).contains(&u) {
            return F;
        }
        let v: Vec<Lit> = between(at, q).iter().filter(|&&x| Some(x) != gone).map(|&x| neg(self.p.occ[x])).collect();
        g.and_all(&v)
    }
    /// every move any piece could make on some board
    pub fn all_moves(side: usize) -> Vec<Mv> {
        let mut v = vec![];
        for from in 1..82 {
            for to in 1..82 {
                if from == to {
                    continue;
                }
                for promote in [false, true] {
                    if (1..15).any(|k| Self::can(k, side, from, to) && Self::promo_ok(k, side, from, to, promote)) {
                        v.push(Mv::Normal { from, to, promote });
                    }
                }
            }
        }
        for kind in 1..8 {
            for to in 1..82 {
                if !dead(kind, to, side) {
                    v.push(Mv::Drop { kind, to });
                }
            }
        }
        v
    }
}
