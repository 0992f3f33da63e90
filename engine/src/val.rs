//! Symbolic values and bit-level operations.
use crate::aig::*;
use crate::ir::{maskw, sx, B, P};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
pub enum V {
    C(u128),
    /// bits, least significant first
    B(Rc<[Lit]>),
    /// guarded constants (guards exclusive and, under the path condition, exhaustive)
    Ch(Rc<Choice>),
    Agg(Rc<Vec<V>>),
    U,
}
pub struct Choice {
    pub w: u32,
    pub it: Vec<(Lit, u128)>,
    pub bits: RefCell<Option<Rc<[Lit]>>>,
}

pub fn cbits(c: u128, w: u32) -> Vec<Lit> {
    (0..w).map(|i| if i < 128 { (c >> i & 1) as Lit } else { F }).collect()
}
pub fn mkb(b: Vec<Lit>) -> V {
    if b.len() <= 128 && b.iter().all(|&l| l < 2) {
        return V::C(b.iter().enumerate().fold(0, |a, (i, &l)| a | (l as u128) << i));
    }
    V::B(b.into())
}
pub fn mkch(g: &Aig, w: u32, it: Vec<(Lit, u128)>) -> V {
    let it: Vec<(Lit, u128)> = it.into_iter().map(|(l, c)| (g.norm(l), c)).filter(|x| x.0 != F).collect();
    if let Some(f) = it.first() {
        if it.iter().all(|x| x.1 == f.1) {
            return V::C(f.1);
        }
    }
    if let Some(x) = it.iter().find(|x| x.0 == T) {
        return V::C(x.1);
    }
    V::Ch(Rc::new(Choice { w, it, bits: RefCell::new(None) }))
}
/// merge equal constants
pub fn mkch_merge(g: &mut Aig, w: u32, it: Vec<(Lit, u128)>) -> V {
    let mut m: std::collections::BTreeMap<u128, Vec<Lit>> = Default::default();
    for (l, c) in it {
        let l = g.norm(l);
        if l != F {
            m.entry(c).or_default().push(l);
        }
    }
    if m.len() == 1 {
        return V::C(*m.keys().next().unwrap());
    }
    let it = m.into_iter().map(|(c, l)| (g.or_all(&l), c)).collect();
    mkch(g, w, it)
}

impl Choice {
    pub fn bits(&self, g: &mut Aig) -> Rc<[Lit]> {
        if let Some(b) = &*self.bits.borrow() {
            return b.clone();
        }
        let mut v = Vec::with_capacity(self.w as usize);
        for i in 0..self.w {
            let on: Vec<Lit> = self.it.iter().filter(|x| x.1 >> i & 1 == 1).map(|x| x.0).collect();
            if on.len() == self.it.len() {
                v.push(T)
            } else if on.len() * 2 <= self.it.len() {
                v.push(g.or_all(&on));
            } else {
                let off: Vec<Lit> = self.it.iter().filter(|x| x.1 >> i & 1 == 0).map(|x| x.0).collect();
                let l = g.or_all(&off);
                v.push(neg(l));
            }
        }
        let r: Rc<[Lit]> = v.into();
        *self.bits.borrow_mut() = Some(r.clone());
        r
    }
}

impl Aig {
    pub fn bits(&mut self, v: &V, w: u32) -> Vec<Lit> {
        match v {
            V::C(c) => cbits(*c, w),
            V::B(b) => {
                assert_eq!(b.len(), w as usize);
                b.iter().map(|&l| self.norm(l)).collect()
            }
            V::Ch(c) => {
                assert_eq!(c.w, w);
                let b = c.bits(self);
                b.iter().map(|&l| self.norm(l)).collect()
            }
            V::U => vec![F; w as usize],
            V::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    /// normalise under current assumptions
    pub fn nv(&self, v: &V) -> V {
        match v {
            V::B(b) => {
                if b.iter().any(|&l| self.norm(l) != l) {
                    mkb(b.iter().map(|&l| self.norm(l)).collect())
                } else {
                    v.clone()
                }
            }
            V::Ch(c) => {
                if c.it.iter().any(|x| self.norm(x.0) != x.0) {
                    mkch(self, c.w, c.it.clone())
                } else {
                    v.clone()
                }
            }
            _ => v.clone(),
        }
    }
    pub fn add(&mut self, a: &[Lit], b: &[Lit], cin: Lit) -> (Vec<Lit>, Lit) {
        let mut c = cin;
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r.push(self.xor(x, c));
            c = self.ite(x, c, a[i]);
        }
        (r, c)
    }
    pub fn sub(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Lit) {
        let nb: Vec<Lit> = b.iter().map(|&l| neg(l)).collect();
        let (r, c) = self.add(a, &nb, T);
        (r, neg(c))
    }
    pub fn eqb(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let mut v = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            if x == T {
                return F;
            }
            if x != F {
                v.push(neg(x));
            }
        }
        self.and_all(&v)
    }
    pub fn ultb(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let mut r = F;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r = self.ite(x, b[i], r);
        }
        r
    }
    pub fn iteb(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        (0..a.len()).map(|i| self.ite(c, a[i], b[i])).collect()
    }
    pub fn mulb(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        let n = a.len();
        let (a, b) = if b.iter().filter(|&&l| l != F).count() <= a.iter().filter(|&&l| l != F).count() { (a, b) } else { (b, a) };
        let mut r = vec![F; n];
        for i in 0..n {
            if b[i] == F {
                continue;
            }
            let row: Vec<Lit> = (0..n).map(|k| if k < i { F } else { self.and(a[k - i], b[i]) }).collect();
            r = self.add(&r, &row, F).0;
        }
        r
    }
    pub fn shiftc(&mut self, op: B, a: &[Lit], s: usize) -> Vec<Lit> {
        let n = a.len();
        (0..n)
            .map(|i| match op {
                B::Shl => {
                    if i >= s {
                        a[i - s]
                    } else {
                        F
                    }
                }
                B::Lshr => {
                    if i + s < n {
                        a[i + s]
                    } else {
                        F
                    }
                }
                _ => a[(i + s).min(n - 1)],
            })
            .collect()
    }
    pub fn shiftb(&mut self, op: B, a: &[Lit], s: &[Lit]) -> Vec<Lit> {
        let n = a.len();
        let mut r = a.to_vec();
        for (k, &l) in s.iter().enumerate() {
            if l == F {
                continue;
            }
            let sh = if k < 20 { 1usize << k } else { n };
            let t = if sh >= n {
                match op {
                    B::Ashr => vec![r[n - 1]; n],
                    _ => vec![F; n],
                }
            } else {
                self.shiftc(op, &r, sh)
            };
            r = self.iteb(l, &t, &r);
        }
        r
    }
    pub fn popcount(&mut self, a: &[Lit], w: u32) -> Vec<Lit> {
        let mut v: Vec<Vec<Lit>> = a.iter().filter(|&&l| l != F).map(|&l| vec![l]).collect();
        if v.is_empty() {
            return vec![F; w as usize];
        }
        while v.len() > 1 {
            let mut n = Vec::with_capacity(v.len() / 2 + 1);
            for p in v.chunks(2) {
                if p.len() == 1 {
                    n.push(p[0].clone());
                } else {
                    let k = p[0].len().max(p[1].len());
                    let mut x = p[0].clone();
                    let mut y = p[1].clone();
                    x.resize(k, F);
                    y.resize(k, F);
                    let (mut r, c) = self.add(&x, &y, F);
                    r.push(c);
                    n.push(r);
                }
            }
            v = n;
        }
        let mut r = v.pop().unwrap();
        r.resize(w as usize, F);
        r
    }
}

pub fn cbin(op: B, w: u32, a: u128, b: u128) -> u128 {
    let m = maskw(w);
    (match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::Udiv => {
            if b == 0 {
                0
            } else {
                a / b
            }
        }
        B::Urem => {
            if b == 0 {
                0
            } else {
                a % b
            }
        }
        B::Sdiv => {
            if b == 0 {
                0
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
        }
        B::Srem => {
            if b == 0 {
                0
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::Lshr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::Ashr => (sx(a, w) >> b.min(w as u128 - 1)) as u128,
    }) & m
}
pub fn ccmp(p: P, w: u32, a: u128, b: u128) -> bool {
    let (x, y) = (sx(a, w), sx(b, w));
    match p {
        P::Eq => a == b,
        P::Ne => a != b,
        P::Ugt => a > b,
        P::Uge => a >= b,
        P::Ult => a < b,
        P::Ule => a <= b,
        P::Sgt => x > y,
        P::Sge => x >= y,
        P::Slt => x < y,
        P::Sle => x <= y,
    }
}
