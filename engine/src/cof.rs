//! Copies of part of a graph with some inputs fixed.
use crate::aig::*;
use std::collections::HashMap;

pub struct Cof {
    pub g: Aig,
    src: HashMap<u32, u32>,
    map: Vec<Lit>, // node -> literal of the copy, u32::MAX unseen
}
const NO: u32 = u32::MAX;
impl Cof {
    pub fn new(src: &Aig, fix: &HashMap<u32, bool>) -> Cof {
        let mut c = Cof { g: Aig::new(), src: HashMap::new(), map: vec![NO; src.len()] };
        c.map[0] = F;
        for (&n, &v) in fix {
            c.map[n as usize] = v as Lit;
        }
        c
    }
    pub fn lit(&mut self, src: &Aig, l: Lit) -> Lit {
        let n = l >> 1;
        if self.map.len() < src.len() {
            self.map.resize(src.len(), NO);
        }
        if self.map[n as usize] == NO {
            let mut st = vec![n];
            while let Some(&n) = st.last() {
                if self.map[n as usize] != NO {
                    st.pop();
                    continue;
                }
                if src.is_var(n) {
                    // the whole group of local variables comes along
                    let mates = src.mates(n);
                    for &m in &mates {
                        if self.map[m as usize] == NO {
                            let v = self.g.var(String::new());
                            self.src.insert(v >> 1, m);
                            self.map[m as usize] = v;
                        }
                    }
                    if mates.len() > 1 {
                        let free: Vec<Lit> = mates.iter().map(|&m| self.map[m as usize]).filter(|&l| l > 1).collect();
                        let gm = src.gmask[src.grp[n as usize] as usize];
                        let map = &self.map;
                        self.g.group(&free, &|a| {
                            let (mut x, mut k) = (0u32, 0);
                            for (i, &m) in mates.iter().enumerate() {
                                let l = map[m as usize];
                                let v = if l > 1 {
                                    k += 1;
                                    a >> (k - 1) & 1
                                } else {
                                    l
                                };
                                x |= v << i;
                            }
                            gm >> x & 1 == 1
                        });
                    }
                    st.pop();
                    continue;
                }
                let (a, b) = (src.f0[n as usize], src.f1[n as usize]);
                let (ma, mb) = (self.map[(a >> 1) as usize], self.map[(b >> 1) as usize]);
                // a false factor settles an AND
                if a < b && (ma != NO && ma ^ (a & 1) == F || mb != NO && mb ^ (b & 1) == F) {
                    self.map[n as usize] = F;
                    st.pop();
                    continue;
                }
                if ma == NO {
                    st.push(a >> 1);
                    continue;
                }
                if mb == NO {
                    st.push(b >> 1);
                    continue;
                }
                let (x, y) = (ma ^ (a & 1), mb ^ (b & 1));
                self.map[n as usize] = if a < b { self.g.and(x, y) } else { self.g.xor(x, y) };
                st.pop();
            }
        }
        self.map[n as usize] ^ (l & 1)
    }
    pub fn lits(&mut self, src: &Aig, l: &[Lit]) -> Vec<Lit> {
        l.iter().map(|&x| self.lit(src, x)).collect()
    }
    /// inputs of the original graph behind inputs of the copy
    pub fn sources(&self, vars: &[u32]) -> Vec<u32> {
        vars.iter().map(|v| self.src[v]).collect()
    }
    /// value of every input of the original graph, from a model of the copy
    pub fn back(&self, src: &Aig, val: &dyn Fn(u32) -> bool) -> HashMap<u32, bool> {
        let mut m = HashMap::new();
        for n in 1..src.len() as u32 {
            if src.is_var(n) {
                let l = self.map.get(n as usize).copied().unwrap_or(NO);
                m.insert(n, if l == NO { false } else if l < 2 { l == T } else { val(l >> 1) ^ (l & 1 == 1) });
            }
        }
        m
    }
}
