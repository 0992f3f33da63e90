//! And-inverter graph with XOR nodes, structural hashing and local simplification.
//! Literal = node << 1 | negation. Node 0 is the constant false.
pub type Lit = u32;
pub const F: Lit = 0;
pub const T: Lit = 1;
const VAR: u32 = u32::MAX;

#[inline(always)]
pub fn neg(a: Lit) -> Lit {
    a ^ 1
}

pub struct Aig {
    pub f0: Vec<u32>,
    pub f1: Vec<u32>,
    table: Vec<u32>,
    mask: usize,
    used: usize,
    pub names: Vec<(u32, String)>,
    /// assumed value of a node in the path currently executed: 0 none, 2 false, 3 true
    pub asm: Vec<u8>,
    /// ignore assumptions
    pub raw: bool,
    /// keep exclusive-or chains apart in choices
    pub chains: bool,
    /// Local functions: nodes whose inputs all belong to one small group of variables are kept in
    /// canonical form by their truth table over the group's valid assignments.
    pub grp: Vec<u16>,
    tt: Vec<u128>,
    pub gmask: Vec<u128>,
    members: Vec<Vec<u32>>,
    canon: std::collections::HashMap<(u16, u128), Lit>,
}
const COL: [u128; 7] = [
    0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa,
    0xcccc_cccc_cccc_cccc_cccc_cccc_cccc_cccc,
    0xf0f0_f0f0_f0f0_f0f0_f0f0_f0f0_f0f0_f0f0,
    0xff00_ff00_ff00_ff00_ff00_ff00_ff00_ff00,
    0xffff_0000_ffff_0000_ffff_0000_ffff_0000,
    0xffff_ffff_0000_0000_ffff_ffff_0000_0000,
    0xffff_ffff_ffff_ffff_0000_0000_0000_0000,
];

impl Aig {
    pub fn new() -> Self {
        let mask = (1 << 16) - 1;
        Aig { f0: vec![VAR], f1: vec![VAR], table: vec![0; mask + 1], mask, used: 0, names: vec![], asm: vec![0], raw: false, chains: false, grp: vec![0], tt: vec![0], gmask: vec![0], members: vec![vec![]], canon: Default::default() }
    }
    pub fn len(&self) -> usize {
        self.f0.len()
    }
    pub fn var(&mut self, name: String) -> Lit {
        let n = self.f0.len() as u32;
        self.f0.push(VAR);
        self.f1.push(VAR);
        self.asm.push(0);
        self.grp.push(0);
        self.tt.push(0);
        self.names.push((n, name));
        n << 1
    }
    /// Declare that variables (at most 7) form a group and which of their joint values (bit k of
    /// the assignment number = value of the k-th variable) are possible.
    pub fn group(&mut self, vars: &[Lit], valid: &dyn Fn(u32) -> bool) {
        let id = self.gmask.len() as u16;
        let mut m = 0u128;
        for a in 0..128u32 {
            if a < 1 << vars.len() && valid(a) {
                m |= 1 << a;
            }
        }
        self.gmask.push(m);
        self.members.push(vars.iter().map(|v| v >> 1).collect());
        for (k, &v) in vars.iter().enumerate() {
            let n = (v >> 1) as usize;
            debug_assert!(self.is_var(n as u32));
            self.grp[n] = id;
            self.tt[n] = COL[k] & m;
            self.canon.entry((id, COL[k] & m)).or_insert(v);
            self.canon.entry((id, !COL[k] & m)).or_insert(neg(v));
        }
    }
    /// variables of the group a variable belongs to, in order
    pub fn mates(&self, n: u32) -> Vec<u32> {
        match self.grp[n as usize] {
            0 => vec![n],
            k => self.members[k as usize].clone(),
        }
    }
    /// truth table of a local literal
    #[inline]
    fn truth(&self, l: Lit) -> u128 {
        let t = self.tt[(l >> 1) as usize];
        if l & 1 == 1 {
            !t & self.gmask[self.grp[(l >> 1) as usize] as usize]
        } else {
            t
        }
    }
    fn local(&mut self, a: u32, b: u32, key: (u16, u128)) -> Lit {
        let m = self.gmask[key.0 as usize];
        if key.1 == 0 {
            return F;
        }
        if key.1 == m {
            return T;
        }
        if let Some(&l) = self.canon.get(&key) {
            return l;
        }
        let l = self.find_or_add(a, b);
        let n = (l >> 1) as usize;
        self.grp[n] = key.0;
        self.tt[n] = key.1;
        self.canon.insert(key, l);
        self.canon.insert((key.0, !key.1 & m), neg(l));
        l
    }
    #[inline]
    pub fn is_var(&self, n: u32) -> bool {
        self.f0[n as usize] == VAR
    }
    /// AND nodes are stored with f0 < f1, XOR nodes with f0 > f1.
    #[inline]
    pub fn is_and(&self, n: u32) -> bool {
        self.f0[n as usize] < self.f1[n as usize]
    }
    #[inline]
    pub fn is_xor(&self, n: u32) -> bool {
        self.f0[n as usize] > self.f1[n as usize] && !self.is_var(n)
    }
    #[inline]
    fn hash(a: u32, b: u32) -> usize {
        let x = ((a as u64) << 32 | b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        (x ^ (x >> 29)) as usize
    }
    fn find_or_add(&mut self, a: u32, b: u32) -> Lit {
        let mut h = Self::hash(a, b) & self.mask;
        loop {
            let n = self.table[h];
            if n == 0 {
                break;
            }
            if self.f0[n as usize] == a && self.f1[n as usize] == b {
                return n << 1;
            }
            h = (h + 1) & self.mask;
        }
        let n = self.f0.len() as u32;
        assert!(n < 1 << 30, "AIG too large");
        self.f0.push(a);
        self.f1.push(b);
        self.asm.push(0);
        self.grp.push(0);
        self.tt.push(0);
        self.table[h] = n;
        self.used += 1;
        if self.used * 2 > self.mask {
            self.grow();
        }
        n << 1
    }
    fn grow(&mut self) {
        let size = (self.mask + 1) * 2;
        self.mask = size - 1;
        self.table = vec![0; size];
        for n in 1..self.f0.len() as u32 {
            if self.is_var(n) {
                continue;
            }
            let mut h = Self::hash(self.f0[n as usize], self.f1[n as usize]) & self.mask;
            while self.table[h] != 0 {
                h = (h + 1) & self.mask;
            }
            self.table[h] = n;
        }
    }
    /// Value of a literal under the current path's assumptions.
    #[inline(always)]
    pub fn norm(&self, a: Lit) -> Lit {
        let v = self.asm[(a >> 1) as usize];
        if v == 0 || self.raw {
            a
        } else {
            (v as u32 & 1) ^ (a & 1)
        }
    }
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        let (mut a, mut b) = (self.norm(a), self.norm(b));
        loop {
            if a == F || b == F || a == neg(b) {
                return F;
            }
            if a == T || a == b {
                return b;
            }
            if b == T {
                return a;
            }
            let gr = self.grp[(a >> 1) as usize];
            if gr != 0 && gr == self.grp[(b >> 1) as usize] {
                let t = self.truth(a) & self.truth(b);
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                let r = self.local(a, b, (gr, t));
                return self.norm(r);
            }
            // two-level rules
            let mut changed = false;
            for _ in 0..2 {
                std::mem::swap(&mut a, &mut b);
                let n = a >> 1;
                if self.is_and(n) {
                    let (x, y) = (self.f0[n as usize], self.f1[n as usize]);
                    if a & 1 == 0 {
                        // a = x & y
                        if b == x || b == y {
                            return a;
                        }
                        if b == neg(x) || b == neg(y) {
                            return F;
                        }
                        let m = b >> 1;
                        if self.is_and(m) {
                            let (u, v) = (self.f0[m as usize], self.f1[m as usize]);
                            if b & 1 == 0 {
                                if x == neg(u) || x == neg(v) || y == neg(u) || y == neg(v) {
                                    return F;
                                }
                            } else {
                                // b = !(u & v), a = x & y
                                if x == neg(u) || x == neg(v) || y == neg(u) || y == neg(v) {
                                    return a;
                                }
                                if u == x || u == y {
                                    b = neg(v);
                                    changed = true;
                                    break;
                                }
                                if v == x || v == y {
                                    b = neg(u);
                                    changed = true;
                                    break;
                                }
                            }
                        }
                    } else {
                        // a = !(x & y)
                        if b == neg(x) || b == neg(y) {
                            return b;
                        }
                        if b == x {
                            a = neg(y);
                            changed = true;
                            break;
                        }
                        if b == y {
                            a = neg(x);
                            changed = true;
                            break;
                        }
                        // b settles one of the factors a level further down
                        let mut hit = 2;
                        for (p, q) in [(x, y), (y, x)] {
                            let n = p >> 1;
                            if self.is_and(n) && (self.f0[n as usize] == neg(b) || self.f1[n as usize] == neg(b)) {
                                if p & 1 == 0 {
                                    return b;
                                }
                                a = neg(q);
                                hit = 1;
                                break;
                            }
                        }
                        if hit == 1 {
                            changed = true;
                            break;
                        }
                        let m = b >> 1;
                        if b & 1 == 1 && self.is_and(m) {
                            let (u, v) = (self.f0[m as usize], self.f1[m as usize]);
                            // !(x&y) & !(u&v): with x==u, y==!v -> !x ; etc.
                            if (x == u && y == neg(v)) || (x == v && y == neg(u)) {
                                return neg(x);
                            }
                            if (y == u && x == neg(v)) || (y == v && x == neg(u)) {
                                return neg(y);
                            }
                        }
                    }
                }
            }
            if !changed {
                break;
            }
            a = self.norm(a);
            b = self.norm(b);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let r = self.find_or_add(a, b);
        self.norm(r)
    }
    #[inline]
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let (mut a, mut b) = (self.norm(a), self.norm(b));
        let s = (a ^ b) & 1;
        a &= !1;
        b &= !1;
        if a == b {
            return s;
        }
        if a == F {
            return b ^ s;
        }
        if b == F {
            return a ^ s;
        }
        let gr = self.grp[(a >> 1) as usize];
        if gr != 0 && gr == self.grp[(b >> 1) as usize] {
            let t = self.truth(a) ^ self.truth(b);
            let (a, b) = if a > b { (a, b) } else { (b, a) };
            let r = self.local(a, b, (gr, t));
            return self.norm(r) ^ s;
        }
        // (x ^ y) ^ x = y
        for (p, q) in [(a, b), (b, a)] {
            let n = p >> 1;
            if self.is_xor(n) {
                let (x, y) = (self.f0[n as usize], self.f1[n as usize]);
                if x == q {
                    return y ^ s;
                }
                if y == q {
                    return x ^ s;
                }
            }
        }
        let (a, b) = if a > b { (a, b) } else { (b, a) };
        let r = self.find_or_add(a, b);
        self.norm(r) ^ s
    }
    pub fn ite(&mut self, c: Lit, t: Lit, e: Lit) -> Lit {
        let (c, t, e) = (self.norm(c), self.norm(t), self.norm(e));
        if c == T {
            return t;
        }
        if c == F || t == e {
            return e;
        }
        if t == neg(e) {
            return self.xor(c, e);
        }
        if t == T || t == c {
            return self.or(c, e);
        }
        if t == F || t == neg(c) {
            return self.and(neg(c), e);
        }
        if e == T || e == neg(c) {
            return self.or(neg(c), t);
        }
        if e == F || e == c {
            return self.and(c, t);
        }
        if self.chains {
            // c ? x ^ y : x  =  x ^ (c & y), and c ? x ^ y : x ^ z  =  x ^ (c ? y : z)
            let ops = |l: Lit| -> Vec<(Lit, Lit)> {
                let n = (l >> 1) as usize;
                if self.is_xor(l >> 1) && self.grp[n] == 0 {
                    let (x, y) = (self.f0[n], self.f1[n]);
                    vec![(x, y ^ (l & 1)), (y, x ^ (l & 1))]
                } else {
                    vec![]
                }
            };
            let (ot, oe) = (ops(t), ops(e));
            for &(x, y) in &ot {
                if x >> 1 == e >> 1 {
                    let r = self.and(c, y ^ ((x ^ e) & 1));
                    return self.xor(e, r);
                }
            }
            for &(x, y) in &oe {
                if x >> 1 == t >> 1 {
                    let r = self.and(neg(c), y ^ ((x ^ t) & 1));
                    return self.xor(t, r);
                }
            }
            for &(x, y) in &ot {
                for &(u, v) in &oe {
                    if x >> 1 == u >> 1 {
                        let r = self.ite(c, y, v ^ ((x ^ u) & 1));
                        return self.xor(x, r);
                    }
                }
            }
        }
        let x = self.and(c, t);
        let y = self.and(neg(c), e);
        self.or(x, y)
    }
    pub fn and_all(&mut self, v: &[Lit]) -> Lit {
        match v.len() {
            0 => T,
            1 => self.norm(v[0]),
            n => {
                let a = self.and_all(&v[..n / 2]);
                if a == F {
                    return F;
                }
                let b = self.and_all(&v[n / 2..]);
                self.and(a, b)
            }
        }
    }
    pub fn or_all(&mut self, v: &[Lit]) -> Lit {
        match v.len() {
            0 => F,
            1 => self.norm(v[0]),
            n => {
                let a = self.or_all(&v[..n / 2]);
                if a == T {
                    return T;
                }
                let b = self.or_all(&v[n / 2..]);
                self.or(a, b)
            }
        }
    }
    /// Evaluate every node for 64*W parallel assignments. `vars(node)` gives the variable values.
    pub fn simulate(&self, w: usize, vars: &dyn Fn(u32) -> Vec<u64>) -> Vec<u64> {
        let mut s = vec![0u64; self.len() * w];
        for n in 1..self.len() {
            if self.is_var(n as u32) {
                let v = vars(n as u32);
                s[n * w..n * w + w].copy_from_slice(&v);
                continue;
            }
            let (a, b) = (self.f0[n], self.f1[n]);
            let (an, bn) = ((a >> 1) as usize * w, (b >> 1) as usize * w);
            let (am, bm) = ((a as u64 & 1).wrapping_neg(), (b as u64 & 1).wrapping_neg());
            if a < b {
                for k in 0..w {
                    s[n * w + k] = (s[an + k] ^ am) & (s[bn + k] ^ bm);
                }
            } else {
                for k in 0..w {
                    s[n * w + k] = s[an + k] ^ s[bn + k] ^ am ^ bm;
                }
            }
        }
        s
    }
}
/// What a conjunction plainly says: its factors, those about one group of inputs taken together.
pub struct Facts {
    pub lits: Vec<Lit>,
    tts: std::collections::HashMap<u16, u128>,
    f: bool,
}
impl Aig {
    pub fn facts(&self, l: Lit, max: usize) -> Facts {
        let mut seen = std::collections::HashSet::new();
        let mut r = Facts { lits: vec![], tts: Default::default(), f: l == F };
        let mut st = vec![l];
        loop {
            while let Some(x) = st.pop() {
                if x == T || !seen.insert(x) {
                    continue;
                }
                r.f |= seen.contains(&neg(x));
                let n = (x >> 1) as usize;
                let gr = self.grp[n];
                if gr != 0 {
                    let t = self.truth(x);
                    let e = r.tts.entry(gr).or_insert(self.gmask[gr as usize]);
                    *e &= t;
                    r.f |= *e == 0;
                    continue;
                }
                r.lits.push(x);
                if x & 1 == 0 && self.is_and(x >> 1) && seen.len() < max {
                    st.push(self.f0[n]);
                    st.push(self.f1[n]);
                }
            }
            if r.f {
                break;
            }
            r.lits.sort();
            // what follows from a false conjunction or a known exclusive-or
            for &x in &r.lits {
                let n = (x >> 1) as usize;
                if self.is_var(x >> 1) || x & 1 == 0 && self.is_and(x >> 1) {
                    continue;
                }
                let (p, q) = (self.f0[n], self.f1[n]);
                let (kp, kq) = (self.known(&r, p), self.known(&r, q));
                let new = if self.is_and(x >> 1) {
                    match (kp, kq) {
                        (Some(true), Some(true)) => {
                            r.f = true;
                            break;
                        }
                        (Some(true), None) => neg(q),
                        (None, Some(true)) => neg(p),
                        _ => continue,
                    }
                } else {
                    let v = x & 1 == 0;
                    match (kp, kq) {
                        (Some(a), Some(b)) => {
                            if a ^ b != v {
                                r.f = true;
                                break;
                            }
                            continue;
                        }
                        (Some(a), None) => q ^ (a == v) as Lit,
                        (None, Some(b)) => p ^ (b == v) as Lit,
                        _ => continue,
                    }
                };
                st.push(new);
            }
            if st.is_empty() || r.f {
                break;
            }
        }
        r
    }
    /// a literal the facts settle
    pub fn known(&self, f: &Facts, l: Lit) -> Option<bool> {
        let gr = self.grp[(l >> 1) as usize];
        if gr != 0 {
            let t = *f.tts.get(&gr)?;
            let u = self.truth(l);
            return if t & u == 0 {
                Some(false)
            } else if t & !u == 0 {
                Some(true)
            } else {
                None
            };
        }
        if f.lits.binary_search(&l).is_ok() {
            return Some(true);
        }
        if f.lits.binary_search(&neg(l)).is_ok() {
            return Some(false);
        }
        None
    }
    fn refutes(&self, a: &Facts, b: &Facts) -> bool {
        for (gr, &t) in &b.tts {
            if a.tts.get(gr).is_some_and(|&u| u & t == 0) {
                return true;
            }
        }
        for &x in &b.lits {
            if self.known(a, x) == Some(false) {
                return true;
            }
            let n = (x >> 1) as usize;
            if x & 1 == 1 && self.is_and(x >> 1) {
                // not (p and q)
                if self.known(a, self.f0[n]) == Some(true) && self.known(a, self.f1[n]) == Some(true) {
                    return true;
                }
            }
        }
        false
    }
    /// the two conjunctions plainly exclude each other
    pub fn exclude(&self, a: &Facts, b: &Facts) -> bool {
        a.f || b.f || self.refutes(a, b) || self.refutes(b, a)
    }
}
