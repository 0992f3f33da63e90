//! Memory: a concrete background image plus a copy-on-write symbolic overlay.
use crate::aig::*;
use std::rc::Rc;

pub const PG: u64 = 64;
#[derive(Clone)]
pub struct Page(pub Box<[Lit; 512]>);

pub struct Bg {
    /// sorted (address, bytes)
    pub segs: Vec<(u64, Vec<u8>)>,
}
impl Bg {
    #[inline]
    pub fn get(&self, a: u64) -> Option<u8> {
        let i = self.segs.partition_point(|s| s.0 <= a);
        if i == 0 {
            return None;
        }
        let s = &self.segs[i - 1];
        s.1.get((a - s.0) as usize).copied()
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    pub pages: Vec<(u64, Rc<Page>)>,
}
impl Mem {
    #[inline]
    pub fn find(&self, pg: u64) -> Result<usize, usize> {
        self.pages.binary_search_by_key(&pg, |p| p.0)
    }
    pub fn bgpage(bg: &Bg, pg: u64) -> Page {
        let mut l = Box::new([F; 512]);
        for i in 0..PG {
            if let Some(b) = bg.get(pg * PG + i) {
                for k in 0..8 {
                    l[(i * 8 + k) as usize] = (b >> k & 1) as Lit;
                }
            }
        }
        Page(l)
    }
    pub fn read(&self, bg: &Bg, a: u64, n: u64, out: &mut Vec<Lit>) {
        let mut a = a;
        let end = a + n;
        while a < end {
            let pg = a / PG;
            let e = end.min((pg + 1) * PG);
            match self.find(pg) {
                Ok(i) => {
                    let p = &self.pages[i].1 .0;
                    out.extend_from_slice(&p[((a % PG) * 8) as usize..((e - pg * PG) * 8) as usize]);
                }
                Err(_) => {
                    for x in a..e {
                        let b = bg.get(x).unwrap_or(0);
                        for k in 0..8 {
                            out.push((b >> k & 1) as Lit);
                        }
                    }
                }
            }
            a = e;
        }
    }
    pub fn page_mut(&mut self, bg: &Bg, pg: u64) -> &mut [Lit; 512] {
        let i = match self.find(pg) {
            Ok(i) => i,
            Err(i) => {
                self.pages.insert(i, (pg, Rc::new(Self::bgpage(bg, pg))));
                i
            }
        };
        &mut Rc::make_mut(&mut self.pages[i].1).0
    }
    pub fn write(&mut self, bg: &Bg, a: u64, bits: &[Lit]) {
        let mut a = a;
        let end = a + bits.len() as u64 / 8;
        let mut k = 0usize;
        while a < end {
            let pg = a / PG;
            let e = end.min((pg + 1) * PG);
            let n = ((e - a) * 8) as usize;
            let o = ((a % PG) * 8) as usize;
            self.page_mut(bg, pg)[o..o + n].copy_from_slice(&bits[k..k + n]);
            k += n;
            a = e;
        }
    }
    /// forget pages in [a, b)
    pub fn drop_range(&mut self, a: u64, b: u64) {
        let i = self.pages.partition_point(|p| p.0 < a / PG);
        let j = self.pages.partition_point(|p| p.0 < b.div_ceil(PG));
        if i < j {
            self.pages.drain(i..j);
        }
    }
}
