//! The legal-move query executed on a symbolic position, and the queries deciding its properties.
use crate::aig::*;
use crate::exec::*;
use crate::pool::Cx;
use crate::pos::*;
use crate::spec::*;
use crate::sweep::Samples;
use crate::val::V;
use std::collections::{BTreeMap, HashMap};

impl Leg {
    /// the square in front of a dropped pawn
    pub fn front(&self, code: u32) -> Option<usize> {
        add((code >> 8 & 255) as usize, (0, if self.side == 0 { -1 } else { 1 }))
    }
}
/// what a literal that must stay false stands for
#[derive(Clone, Debug)]
pub struct Bad {
    pub what: String,
    /// inputs fixed for this query
    pub fix: Vec<Lit>,
    pub code: Option<u32>,
}
pub struct Leg {
    /// a random position already shows a duplicate; the other pairs are not looked at
    pub seen: bool,
    pub cx: Cx,
    pub ps: Pos,
    pub side: usize,
    pub smp: Samples,
    pub stats: Stats,
    pub funcs: Vec<String>,
    /// condition under which each move code is returned
    pub imp: BTreeMap<u32, Lit>,
    pub in_check: Lit,
    pub obl: Vec<Obl>,
    pub groups: Vec<Vec<(Lit, Bad)>>,
    pub lits: Vec<Vec<Lit>>,
    pub ncodes: usize,
    pub secs: f64,
    pub swept: usize,
    /// the in-check answer computed by the code
    pub chk: Lit,
    /// pairs of places producing the same move, and those excluding each other plainly
    pub pairs: u64,
    pub plain: u64,
    /// groups decided for each square of the mover's king separately
    pub split: Vec<bool>,
    /// squares from which the mover's king is attacked
    pub chks: Vec<Lit>,
}

pub struct Build<'a> {
    pub p: &'a Prog,
    pub lay: &'a Layout,
    pub side: usize,
    pub seed: u64,
    pub threads: usize,
    pub samples: usize,
    pub triples: usize,
}

pub fn executed(e: &Exec) -> Vec<String> {
    let mut v: Vec<String> = e.covered.iter().enumerate().filter(|x| *x.1).map(|x| demangle(&e.p.m.funcs[x.0].name)).collect();
    v.sort();
    v.dedup();
    v
}

/// Construct a symbolic position, run the legal-move query (or only construction and the in-check
/// query when `moves` is false) and state the queries of a property.
pub fn build(b: &Build, prop: &str) -> Result<Leg, String> {
    let t = std::time::Instant::now();
    let mut e = Exec::new(b.p);
    e.triples = if prop == "C08" { b.triples } else { 0 };
    let (ps, s, pp, out) = crate::setup(&mut e, b.lay, Case { side: b.side, own: (0..82).collect(), opp: None, mine: None });
    let smp = crate::sweep::samples(&e.g, &ps, b.seed * 2 + b.side as u64 + 1, b.samples);
    let mut s = e.call(s, "h_new", vec![V::C(pp as u128), V::C(out as u128)])?.ok_or("construction never returns")?;
    let moves = prop != "C09";
    let mut swept = 0;
    if moves {
        swept = crate::sweep_state(&mut e, &ps, &smp, &mut s, b.threads, match prop {
            "C05" => "c",
            "C06" => "co",
            "C17" => "cpo",
            _ => "cp",
        });
    }
    let (s2, chk) = ret1(&mut e, s, "h_in_check", vec![V::C(out as u128)])?;
    s = s2;
    if moves {
        e.call(s, "h_legal", vec![V::C(out as u128)])?;
    }
    let mut per: BTreeMap<u32, Vec<Lit>> = BTreeMap::new();
    for x in &e.emits {
        // triples live in worlds with more than one element
        if e.worlds[x.world as usize].elems.len() <= 1 {
            per.entry(x.code as u32).or_default().push(x.guard);
        }
    }
    let mut imp = BTreeMap::new();
    let (mut pairs, mut plain) = (0u64, 0u64);
    for (&c, v) in &per {
        imp.insert(c, e.g.or_all(v));
    }
    let side = b.side;
    let mut sp = Spec::new(&ps);
    let ic = sp.in_check(&mut e.g);
    let chks: Vec<Lit> = sp.hints(&mut e.g, "c").into_iter().map(|x| x.0).collect();
    let all: Vec<Mv> = Spec::all_moves(side);
    let known: HashMap<u32, Mv> = all.iter().map(|m| (m.code(side), *m)).collect();
    let mut groups: BTreeMap<usize, Vec<(Lit, Bad)>> = BTreeMap::new();
    let bad = |w: &str, m: Mv| Bad { what: format!("{} {w}", m.usi()), code: Some(m.code(side)), fix: vec![] };
    let of = |c: u32, imp: &BTreeMap<u32, Lit>| imp.get(&c).copied().unwrap_or(F);
    let shape = |c: u32| known.contains_key(&c);
    let fwd = if side == 0 { -1 } else { 1 };
    let g = &mut e.g;
    let gk = |m: &Mv| match *m {
        Mv::Normal { from, .. } => from,
        Mv::Drop { kind, to } => {
            if kind == 1 {
                200 + to
            } else {
                100 + kind
            }
        }
    };
    let kinds: Vec<&str> = if prop == "C18" { vec!["C01", "C02", "C03", "C04", "C05", "C07", "C09"] } else { vec![prop] };
    let mut sets: BTreeMap<usize, Vec<(Lit, Bad)>> = BTreeMap::new();
    for (ki, &prop) in kinds.iter().enumerate() {
    match prop {
        "C01" => {
            for &m in &all {
                let i = of(m.code(side), &imp);
                if i == F {
                    continue;
                }
                // each way of being attacked, and being in check before or not, is decided apart
                let un: Vec<Lit> = match m {
                    Mv::Normal { from, to, .. } => sp.unsafe_ways(g, from, to),
                    Mv::Drop { to, .. } => vec![sp.unsafe_drop(g, to)],
                };
                for u in un {
                    for c in [ic, neg(ic)] {
                        let l = g.and_all(&[i, u, c]);
                        groups.entry(gk(&m)).or_default().push((l, bad("is returned but leaves the mover's king attacked", m)));
                    }
                }
            }
        }
        "C02" => {
            for &m in &all {
                if let Mv::Normal { .. } = m {
                    let i = of(m.code(side), &imp);
                    let s = sp.legal(g, m);
                    let l = g.and_all(&[neg(ic), s, neg(i)]);
                    groups.entry(gk(&m)).or_default().push((l, bad("is legal (mover not in check) but not returned", m)));
                }
            }
        }
        "C03" | "C04" => {
            for from in 1..82 {
                for to in 1..82 {
                    let cs: Vec<(bool, u32)> = [false, true].iter().map(|&p| (p, Mv::Normal { from, to, promote: p }.code(side))).collect();
                    let (i0, i1) = (of(cs[0].1, &imp), of(cs[1].1, &imp));
                    if i0 == F && i1 == F {
                        continue;
                    }
                    let any = g.or(i0, i1);
                    let m0 = Mv::Normal { from, to, promote: false };
                    if prop == "C03" {
                        let mut ok = vec![];
                        for k in 1..15 {
                            let pc = ps.pc[from][k][side];
                            if from != to && pc != F && Spec::can(k, side, from, to) {
                                let r = sp.reach(g, k, side, from, to);
                                ok.push(g.and(pc, r));
                            }
                        }
                        let ok = g.or_all(&ok);
                        let ok = g.and(ok, neg(ps.pl[to][side]));
                        let l = g.and(any, neg(ok));
                        groups.entry(from).or_default().push((l, bad("is returned against the movement or capture rules", m0)));
                    } else {
                        for (p, c) in cs {
                            // kinds for which this variant is allowed
                            let ks: Vec<Lit> = (1..15).filter(|&k| Spec::promo_ok(k, side, from, to, p)).map(|k| ps.pc[from][k][side]).collect();
                            let allow = g.or_all(&ks);
                            let x = g.xor(allow, of(c, &imp));
                            let l = g.and(any, x);
                            groups.entry(from).or_default().push((l, bad("promotion choice: returned against the rules, or missing although the other choice is returned", Mv::Normal { from, to, promote: p })));
                        }
                    }
                }
            }
            for (&c, &l) in &imp {
                if prop == "C03" && c >> 24 == 0 && !shape(c) {
                    let (f, t) = (c & 255, c >> 8 & 255);
                    if !(1..82).contains(&f) || !(1..82).contains(&t) || c >> 17 != 0 {
                        groups.entry(300).or_default().push((l, Bad { what: format!("malformed move {c:x} is returned"), code: Some(c), fix: vec![] }));
                    }
                }
            }
        }
        "C05" | "C06" | "C07" => {
            for &m in &all {
                let i = of(m.code(side), &imp);
                match m {
                    Mv::Normal { .. } => {
                        if prop == "C07" {
                            let s = sp.legal(g, m);
                            let x = g.xor(i, s);
                            let l = g.and(ic, x);
                            groups.entry(gk(&m)).or_default().push((l, bad("mover in check: returned although it is no legal evasion, or a legal evasion not returned", m)));
                        }
                    }
                    Mv::Drop { kind, to } => {
                        let base = sp.drop_base(g, kind, to);
                        // the pawn-mate rule only concerns a pawn dropped in front of the other king
                        let adj = match add(to, (0, fwd)) {
                            Some(q) if kind == 1 => ps.okl[q],
                            _ => F,
                        };
                        match prop {
                            "C05" | "C07" => {
                                // with the other king in front the list may only be shorter (how much
                                // shorter is decided separately)
                                let x = g.xor(i, base);
                                let l = if prop == "C07" { g.and(ic, x) } else { x };
                                let mut d = bad("returned although the rules forbid the drop, or allowed and not returned", m);
                                if adj > 1 {
                                    d.fix = vec![neg(adj)];
                                }
                                groups.entry(gk(&m)).or_default().push((l, d));
                            }
                            _ => {
                                if kind == 1 && adj != F {
                                    let mate = sp.pawn_mate(g, to);
                                    let want = g.and(base, neg(mate));
                                    let x = g.xor(i, want);
                                    let l = g.and(adj, x);
                                    groups.entry(to).or_default().push((l, bad("pawn drop with check: withheld although not mate, or returned although mate", m)));
                                }
                            }
                        }
                    }
                }
            }
            for (&c, &l) in &imp {
                if !shape(c) && (prop == "C07" || prop == "C05" && c >> 24 == 1) {
                    let l = if prop == "C07" { g.and(ic, l) } else { l };
                    groups.entry(300 + c as usize % 4).or_default().push((l, Bad { what: format!("impossible move {c:x} is returned"), code: Some(c), fix: vec![] }));
                }
            }
        }
        "C08" => {
            for (&c, v) in &per {
                let fs: Vec<Facts> = v.iter().map(|&x| g.facts(x, 600)).collect();
                for i in 0..v.len() {
                    for j in 0..i {
                        pairs += 1;
                        if g.exclude(&fs[i], &fs[j]) {
                            plain += 1;
                            continue;
                        }
                        if std::env::var("VX_P").is_ok() {
                            eprintln!("pair {c:x} {j} {i} of {}", v.len());
                        }
                        let l = g.and(v[i], v[j]);
                        groups.entry((c >> 8 & 255) as usize).or_default().push((l, Bad { what: format!("move {c:x} is returned twice"), code: Some(c), fix: vec![] }));
                    }
                }
            }
        }
        "C09" => {
            let x = g.xor(chk, ic);
            groups.entry(0).or_default().push((x, Bad { what: "in_check answers wrongly".into(), code: None, fix: vec![] }));
        }
        "C17" => {
            for (k, o) in e.obl.iter().enumerate() {
                groups.entry(k / 4000).or_default().push((o.guard, Bad { what: o.msg.clone(), code: None, fix: vec![] }));
            }
        }
        _ => return Err(format!("no legal-move property {prop}")),
    }
    for (k, v) in std::mem::take(&mut groups) {
        sets.insert(ki * 100_000 + k, v);
    }
    }
    let mut groups = sets;
    let mut seen = false;
    if prop == "C08" {
        let mut lemmas = BTreeMap::new();
        let n = dup_queries(&mut e, &ps, &smp, &mut groups, &per, &mut lemmas);
        for (q, mut v) in lemmas {
            v.sort();
            v.dedup();
            groups.entry(10000 + q).or_default().extend(v.into_iter().map(|x| (x, Bad { what: format!("a king move from {q} without a king there"), code: None, fix: vec![] })));
        }
        seen = n.0 == u64::MAX / 2;
        if !seen {
            pairs += n.0;
            plain += n.1;
        }
    }
    let split = groups.keys().map(|&k| match prop {
        "C04" => false,
        "C08" => k >= 500,
        _ => true,
    }).collect();
    let groups: Vec<Vec<(Lit, Bad)>> = groups.into_values().collect();
    let lits = groups.iter().map(|v| v.iter().map(|x| x.0).collect()).collect();
    let totals = ps.totals(&mut e.g);
    let lost: Vec<Lit> = if prop == "C17" { vec![] } else { e.obl.iter().map(|o| o.guard).filter(|&l| l != F).collect() };
    let funcs = executed(&e);
    let g = std::mem::replace(&mut e.g, Aig::new());
    let cx = Cx::new(g, ["Black", "White"][side].to_string(), ps.valid.clone(), ps.nlight, totals, lost);
    Ok(Leg { seen, cx, side, smp, stats: e.stats.clone(), funcs, ncodes: per.len(), imp, in_check: ic, obl: std::mem::take(&mut e.obl), groups, lits, secs: t.elapsed().as_secs_f64(), swept, chk, pairs, plain, chks, ps, split })
}
/// one list element is pushed at most once, and the filter treats elements independently
fn dup_queries(e: &mut Exec, ps: &Pos, smp: &Samples, groups: &mut BTreeMap<usize, Vec<(Lit, Bad)>>, per: &BTreeMap<u32, Vec<Lit>>, lemmas: &mut BTreeMap<usize, Vec<Lit>>) -> (u64, u64) {
    let mut n = (0, 0);
    let mut codes: HashMap<u128, u32> = HashMap::new();
    for x in &e.emits {
        if let [el] = e.worlds[x.world as usize].elems[..] {
            codes.insert(el, x.code as u32);
        }
    }
    let logs: Vec<Vec<(u32, Lit, Vec<Lit>)>> = e.logs.iter().map(|l| l.iter().map(|x| (x.world, x.guard, x.bits.clone())).collect()).collect();
    let mut all: Vec<BTreeMap<u128, Vec<(u32, Lit)>>> = vec![];
    for l in logs {
        let mut by: BTreeMap<u128, Vec<(u32, Lit)>> = BTreeMap::new();
        for (w, gl, bits) in l {
            let n = bits.len() as u32;
            if let Some(ch) = e.choices(&crate::val::mkb(bits), n, 10) {
                for (c, v) in ch {
                    e.g.raw = true;
                    let x = e.g.and(gl, c);
                    e.g.raw = false;
                    by.entry(v).or_default().push((w, x));
                }
            }
        }
        all.push(by);
    }
    // on some positions
    let vars: HashMap<u32, Vec<u64>> = smp.vars.iter().map(|(&k, v)| (k, v[..8].to_vec())).collect();
    let mut ls: Vec<Lit> = all.iter().flat_map(|b| b.values().flatten().map(|x| x.1)).collect();
    ls.extend((1..82).map(|q| ps.kown[q]).filter(|&l| l > 1));
    let sim = crate::sweep::sim_lits(&e.g, 8, &vars, &ls);
    // an element added twice on one of them settles the matter
    let mut seen = 0;
    for by in &all {
        for (c, v) in by.iter().filter(|x| x.1.len() > 1) {
            let mut hit = None;
            for i in 1..v.len() {
                for j in 0..i {
                    let (a, b) = (sim.get(v[i].1), sim.get(v[j].1));
                    if hit.is_none() && (0..8).any(|k| a[k] & b[k] != 0) && e.related(v[i].0, v[j].0) {
                        hit = Some((i, j));
                    }
                }
            }
            if let Some((i, j)) = hit {
                let x = e.g.and(v[i].1, v[j].1);
                groups.entry(400 + seen % 82).or_default().push((x, Bad { what: format!("list element {c:x} is generated twice"), code: None, fix: vec![] }));
                seen += 1;
                if seen >= 4 {
                    return (u64::MAX / 2, 0);
                }
            }
        }
    }
    if seen > 0 {
        return (u64::MAX / 2, 0);
    }
    for by in all {
        for (c, v) in by {
            let fs: Vec<Facts> = v.iter().map(|x| e.g.facts(x.1, 600)).collect();
            // moves generated for the king wherever it stands: that they start where it stands is
            // asked once, and excludes all other pieces' moves
            let from = codes.get(&c).map(|c| (c & 255) as usize).filter(|f| (1..82).contains(f) && ps.kown[*f] != F);
            let kn: Vec<Option<bool>> = fs.iter().map(|f| from.and_then(|q| e.g.known(f, ps.kown[q]))).collect();
            let mut lem: Vec<Option<Lit>> = vec![None; v.len()];
            if let Some(q) = from {
                if kn.contains(&Some(false)) {
                    for i in (0..v.len()).filter(|&i| kn[i].is_none()) {
                        let (a, b) = (sim.get(v[i].1), sim.get(ps.kown[q]));
                        if (0..8).all(|i| a[i] & !b[i] == 0) {
                            let x = e.g.and(v[i].1, neg(ps.kown[q]));
                            lem[i] = Some(x);
                        }
                    }
                }
            }
            for i in 0..v.len() {
                for j in 0..i {
                    if e.related(v[i].0, v[j].0) {
                        n.0 += 1;
                        if e.g.exclude(&fs[i], &fs[j]) {
                            n.1 += 1;
                            continue;
                        }
                        if let (Some(x), Some(false)) = (lem[i], kn[j]) {
                            lemmas.entry(from.unwrap()).or_default().push(x);
                            continue;
                        }
                        if let (Some(x), Some(false)) = (lem[j], kn[i]) {
                            lemmas.entry(from.unwrap()).or_default().push(x);
                            continue;
                        }
                        if std::env::var("VX_P").is_ok() {
                            eprintln!("elem {c:x} {j} {i} of {}", v.len());
                        }
                        let x = e.g.and(v[i].1, v[j].1);
                        // as stored: enum discriminant and fields; only used to spread the queries
                        let k = (c as usize ^ (c >> 16) as usize ^ (c >> 8) as usize) % 82;
                        groups.entry(400 + k).or_default().push((x, Bad { what: format!("list element {c:x} is generated twice"), code: None, fix: vec![] }));
                    }
                }
            }
        }
    }
    // worlds with several elements: each element comes out exactly as it does alone
    let mut alone: HashMap<u128, Vec<u32>> = HashMap::new();
    for x in &e.emits {
        if let [el] = e.worlds[x.world as usize].elems[..] {
            alone.entry(el).or_default().push(x.code as u32);
        }
    }
    let ws: Vec<(u32, Lit, Vec<u128>)> = e.worlds.iter().enumerate().filter(|x| x.1.elems.len() > 1).map(|x| (x.0 as u32, x.1.guard, x.1.elems.clone())).collect();
    for (w, gl, els) in ws {
        let mut out: BTreeMap<u32, Vec<Lit>> = BTreeMap::new();
        for el in els {
            for &c in alone.get(&el).map(|v| &v[..]).unwrap_or(&[]) {
                out.entry(c).or_default();
            }
        }
        for x in e.emits.iter() {
            if x.world == w {
                out.entry(x.code as u32).or_default().push(x.guard);
            }
        }
        for (c, v) in out {
            let any = e.g.or_all(&v);
            let single = e.g.or_all(&per.get(&c).cloned().unwrap_or_default());
            let mut x = e.g.xor(any, single);
            for i in 0..v.len() {
                for j in 0..i {
                    let y = e.g.and(v[i], v[j]);
                    x = e.g.or(x, y);
                }
            }
            let x = e.g.and(x, gl);
            groups.entry(500 + w as usize % 64).or_default().push((x, Bad { what: format!("move {c:x} is treated differently next to other moves"), code: Some(c), fix: vec![] }));
        }
    }
    n
}
/// call a function returning a bool
pub fn ret1(e: &mut Exec, s: State, f: &str, args: Vec<V>) -> Result<(State, Lit), String> {
    let s = e.call(s, f, args)?.ok_or(format!("{f} never returns"))?;
    let v = s.retv.clone();
    let l = match &v {
        V::C(c) => (*c & 1) as Lit,
        _ => e.bits_of(&v, 8)[0],
    };
    Ok((s, l))
}
/// fixing literals: the own king stands on k (0: absent)
pub fn own_king(ps: &Pos, k: usize) -> Vec<Lit> {
    (1..82).filter(|&q| ps.kown[q] > 1).map(|q| if q == k { ps.kown[q] } else { neg(ps.kown[q]) }).collect()
}
pub fn opp_king(ps: &Pos, k: usize) -> Vec<Lit> {
    (1..82).filter(|&q| ps.okl[q] > 1).map(|q| if q == k { ps.okl[q] } else { neg(ps.okl[q]) }).collect()
}
