mod aig;
mod an;
mod check;
mod cof;
mod exec;
mod ir;
mod keys;
mod leg;
mod mem;
mod native;
mod pool;
mod pos;
mod prove;
mod report;
mod sat;
mod spec;
mod step;
mod sweep;
mod val;
use exec::*;
use std::collections::HashMap;
use val::V;

pub fn load(dir: &str) -> Prog {
    let text = std::fs::read_to_string(format!("{dir}/o1.ll")).expect("o1.ll");
    let m = ir::Module::parse(&text).expect("parse");
    let mut syms = HashMap::new();
    for l in std::fs::read_to_string(format!("{dir}/nm")).expect("nm").lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() == 3 && f[1] != "U" {
            syms.insert(f[2].to_string(), u64::from_str_radix(f[0], 16).unwrap());
        }
    }
    let img = std::fs::read(format!("{dir}/img")).expect("img");
    let mut segs = vec![];
    let mut i = 0;
    while i < img.len() {
        let a = u64::from_le_bytes(img[i..i + 8].try_into().unwrap());
        let n = u64::from_le_bytes(img[i + 8..i + 16].try_into().unwrap()) as usize;
        segs.push((a, img[i + 16..i + 16 + n].to_vec()));
        i += 16 + n;
    }
    Prog::new(m, &syms, segs).expect("prog")
}

fn dbg(dir: &str) {
    let t = std::time::Instant::now();
    let p = load(dir);
    eprintln!("loaded {:?}", t.elapsed());
    let mut e = Exec::new(&p);
    let mut s = e.fresh();
    let pos = e.alloc(&mut s, 384);
    let t = std::time::Instant::now();
    let s = e.call(s, "h_default", vec![V::C(pos as u128)]);
    let s = match s {
        Ok(Some(s)) => s,
        Ok(None) => panic!("no return; {:?}", e.obl.iter().map(|o| o.msg.clone()).collect::<Vec<_>>()),
        Err(x) => panic!("{x}"),
    };
    eprintln!("default {:?} {:?}", t.elapsed(), e.stats);
    let s = e.call(s, "h_legal", vec![V::C(pos as u128)]).unwrap();
    eprintln!("legal {:?} {:?} ret {}", t.elapsed(), e.stats, s.is_some());
    println!("emits {}", e.emits.len());
    for x in &e.emits {
        println!("{:x} w{} g{}", x.code, x.world, x.guard);
    }
    for o in &e.obl {
        println!("obl {} {}", o.msg, o.guard);
    }
}
pub fn setup<'p>(e: &mut Exec<'p>, lay: &pos::Layout, case: pos::Case) -> (pos::Pos, State, u64, u64) {
    let p = pos::Pos::new(e, case);
    let img = p.image(&mut e.g, lay).unwrap();
    let mut s = e.fresh();
    let pp = e.alloc(&mut s, lay.base.len() as u64);
    let out = e.alloc(&mut s, 4096);
    s.mem.write(&e.p.bg, pp, &img);
    (p, s, pp, out)
}
pub fn sweep_state(e: &mut Exec, ps: &pos::Pos, smp: &sweep::Samples, s: &mut State, threads: usize, parts: &str) -> usize {
    let mut lits = vec![];
    for (_, p) in &s.mem.pages {
        lits.extend(p.0.iter().copied().filter(|&l| l > 1));
    }
    let mut cands = vec![];
    for q in 1..82 {
        cands.extend(ps.kl[q].iter().chain(&ps.pl[q]).chain(&ps.byte[q]).chain([&ps.occ[q], &ps.kown[q], &ps.okl[q]]).copied().filter(|&l| l > 1));
        cands.extend(ps.pc[q].iter().flatten().copied().filter(|&l| l > 1));
    }
    cands.extend(ps.hand.iter().flatten().flatten().chain(&ps.ply).copied());
    cands.sort();
    cands.dedup();
    let cset: std::collections::HashSet<u32> = cands.iter().flat_map(|&l| [l, l ^ 1]).collect();
    if e.sat.is_none() {
        let mut st = sat::Sat::new();
        for c in &ps.valid {
            st.assert_clause(&e.g, c);
        }
        e.sat = Some(st);
    }
    let m = sweep::sweep(&e.g, e.sat.as_mut().unwrap(), smp, &lits, &cands, std::env::var("VX_L").map(|x| x.parse().unwrap()).unwrap_or(200));
    subst(s, &m);
    let mut lits = vec![];
    for (_, p) in &s.mem.pages {
        lits.extend(p.0.iter().copied().filter(|&l| l > 1 && !cset.contains(&l)));
    }
    let hints = spec::Spec::new(ps).hints(&mut e.g, parts);
    let (m2, tally) = sweep::sweep_hints(&mut e.g, ps, smp, &lits, &hints, threads);
    let hints: Vec<u32> = hints.iter().map(|x| x.0).collect();
    subst(s, &m2);
    if std::env::var("VX_T").is_ok() {
        eprintln!("hint sweep {:?} {}/{}", tally, m2.len(), lits.len());
    }
    if e.verbose {
        for (pg, p) in &s.mem.pages {
            let rest: Vec<usize> = (0..512).filter(|&i| p.0[i] > 1 && !cset.contains(&p.0[i]) && !hints.contains(&p.0[i]) && !hints.contains(&(p.0[i] ^ 1))).collect();
            if !rest.is_empty() {
                eprintln!("page {:x}: unknown {:?} of {}", pg * 64, rest, p.0.iter().filter(|&&l| l > 1).count());
            }
        }
    }
    m.len()
}
fn subst(s: &mut State, m: &HashMap<u32, u32>) {
    for (_, p) in s.mem.pages.iter_mut() {
        let p = std::rc::Rc::make_mut(p);
        for l in p.0.iter_mut() {
            if let Some(&n) = m.get(l) {
                *l = n;
            }
        }
    }
}
fn dbg2(dir: &str, side: usize, own: Vec<usize>, opp: Option<usize>) {
    let p = load(dir);
    let lay = pos::Layout::parse(&std::fs::read_to_string(format!("{dir}/layout")).unwrap()).unwrap();
    let mut e = Exec::new(&p);
    let t = std::time::Instant::now();
    let (ps, s, pp, out) = setup(&mut e, &lay, pos::Case { side, own, opp, mine: None });
    let smp = sweep::samples(&e.g, &ps, 1, 4096);
    eprintln!("setup {:?} smp {} aig {} {}", t.elapsed(), smp.raws.len(), e.g.len(), smp.raws[5].sfen());
    let mut s = e.call(s, "h_new", vec![V::C(pp as u128), V::C(out as u128)]).unwrap().expect("new");
    eprintln!("new {:?} aig {} {:?} obl {}", t.elapsed(), e.g.len(), e.stats, e.obl.len());
    let n = sweep_state(&mut e, &ps, &smp, &mut s, 8, "cpoa");
    eprintln!("sweep {:?} aig {} replaced {}", t.elapsed(), e.g.len(), n);
    let _ = e.call(s, "h_legal", vec![V::C(out as u128)]).unwrap();
    eprintln!("legal {:?} aig {} {:?} obl {} emits {}", t.elapsed(), e.g.len(), e.stats, e.obl.len(), e.emits.len());
    e.report();
    if std::env::var("VX_M").as_deref() == Ok("x") {
        return;
    }
    let mut by: HashMap<u128, Vec<u32>> = HashMap::new();
    for x in &e.emits {
        by.entry(x.code).or_default().push(x.guard);
    }
    let mut sp = spec::Spec::new(&ps);
    let mut mit = vec![];
    for m in spec::Spec::all_moves(side) {
        let c = m.code(side) as u128;
        let imp = e.g.or_all(&by.remove(&c).unwrap_or_default());
        let s = sp.legal(&mut e.g, m);
        mit.push((m, imp, s));
    }
    eprintln!("spec {:?} aig {} unknown codes {} miters {}", t.elapsed(), e.g.len(), by.len(), mit.len());
    if let Ok(x) = std::env::var("VX_I") {
        let m = match x.split_once('-') {
            Some((a, b)) => spec::Mv::Normal { from: a.parse().unwrap(), to: b.parse().unwrap(), promote: false },
            _ => spec::Mv::Drop { kind: 2, to: x.parse().unwrap() },
        };
        let code = m.code(side) as u128;
        let im: Vec<u32> = e.emits.iter().filter(|x| x.code == code).map(|x| x.guard).collect();
        let ic = sp.in_check(&mut e.g);
        let mut all = im.clone();
        all.push(ic);
        let sl = sp.legal(&mut e.g, m);
        all.push(sl);
        let sim = sweep::sim_lits(&e.g, smp.w, &smp.vars, &all);
        let pc = |v: Vec<u64>| v.iter().map(|x| x.count_ones()).sum::<u32>();
        let icv = sim.get(ic);
        eprintln!("in_check {} spec {} imp {}", pc(icv.clone()), pc(sim.get(sl)), pc(sim.get(im[0])));
        let mut todo = vec![(im[0], 0), (sl, 0)];
        while let Some((l, d)) = todo.pop() {
            let n = (l >> 1) as usize;
            let v = sim.get(l);
            let w: Vec<u64> = v.iter().zip(&icv).map(|(a, b)| a & b).collect();
            if sweep::cone_fast(&e.g, &[l]).len() < 24 {
                fn ex(g: &aig::Aig, l: u32) -> String {
                    let n = l >> 1;
                    let s = if n == 0 { "0".into() } else if g.is_var(n) { g.names.iter().find(|x| x.0 == n).unwrap().1.clone() } else { format!("({}{}{})", ex(g, g.f0[n as usize]), if g.is_and(n) { "&" } else { "^" }, ex(g, g.f1[n as usize])) };
                    if l & 1 == 1 { format!("!{s}") } else { s }
                }
                eprintln!("{}", ex(&e.g, l));
            }
            eprintln!("{}{l} {} {} cone {}  p {} p&chk {}", " ".repeat(d), e.g.f0[n], e.g.f1[n], sweep::cone_fast(&e.g, &[l]).len(), pc(v), pc(w));
            if d < 10 && !e.g.is_var(n as u32) && sweep::cone_fast(&e.g, &[l]).len() > 1000 {
                todo.push((e.g.f0[n], d + 1));
                todo.push((e.g.f1[n], d + 1));
            }
        }
        return;
    }
    let rest: Vec<u32> = by.values().flatten().copied().collect();
    let mut gr: std::collections::BTreeMap<usize, Vec<(spec::Mv, u32, u32)>> = Default::default();
    for &(m, a, b) in &mit {
        let k = match m {
            spec::Mv::Normal { from, .. } => from + 10,
            spec::Mv::Drop { kind, .. } if kind > 1 => 100 + kind,
            spec::Mv::Drop { to, .. } => to / 12,
        };
        gr.entry(k).or_default().push((m, a, b));
    }
    let mut groups: Vec<Vec<u32>> = vec![];
    let pick = std::env::var("VX_G").ok();
    let keys: Vec<usize> = gr.keys().copied().filter(|k| pick.as_ref().map_or(true, |p| p.split(',').any(|x| x == k.to_string()))).collect();
    for k in &keys {
        groups.push(gr[k].iter().map(|&(_, a, b)| e.g.xor(a, b)).collect());
    }
    if pick.is_none() {
        for c in rest.chunks(500) {
            groups.push(c.to_vec());
        }
        let ob: Vec<u32> = e.obl.iter().map(|o| o.guard).collect();
        for c in ob.chunks(2000) {
            groups.push(c.to_vec());
        }
    }
    if std::env::var("VX_B").is_ok() {
        for g in groups.iter_mut() {
            *g = vec![e.g.or_all(g)];
        }
    }
    let pr = prove::Prover { g: &e.g, valid: &ps.valid, threads: 8, budget: 1_000_000, stop: false, verbose: true };
    let mut tally = prove::Tally::default();
    let r = pr.run(&groups, &mut tally);
    let mut tot = [0; 3];
    for (gi, x) in r.iter().enumerate() {
        for (i, y) in x.iter().enumerate() {
            match y {
                prove::Out::Holds => tot[0] += 1,
                prove::Out::Unknown => tot[1] += 1,
                prove::Out::Model(m) => {
                    tot[2] += 1;
                    let raw = ps.decode(&|n| m.get(&n).copied().unwrap_or(false));
                    if gi < keys.len() && tot[2] < 10 {
                        let (mv, a, _) = gr[&keys[gi]][i];
                        eprintln!("diff {} imp {} {}", mv.usi(), sweep::eval(&e.g, a, &|n| m.get(&n).copied().unwrap_or(false)), raw.sfen());
                    } else if tot[2] < 30 {
                        eprintln!("group {gi} of {} item {i} {}", keys.len(), raw.sfen());
                    }
                }
            }
        }
    }
    eprintln!("sat {:?} {:?} {:?}", t.elapsed(), tot, tally);
    for o in e.obl.iter().take(0) {
        eprintln!("obl {} {}", o.msg, o.guard);
    }
}

fn dbg3(dir: &str, side: usize, own: Vec<usize>) {
    let p = load(dir);
    let lay = pos::Layout::parse(&std::fs::read_to_string(format!("{dir}/layout")).unwrap()).unwrap();
    let mut e = Exec::new(&p);
    let t = std::time::Instant::now();
    let (ps, s, pp, out) = setup(&mut e, &lay, pos::Case { side, own: (0..82).collect(), opp: None, mine: None });
    let mut s = e.call(s, "h_new", vec![V::C(pp as u128), V::C(out as u128)]).unwrap().expect("new");
    if std::env::var("VX_S").is_err() {
        let smp = sweep::samples(&e.g, &ps, 1, 4096);
        eprintln!("smp {:?}", t.elapsed());
        sweep_state(&mut e, &ps, &smp, &mut s, 8, "cpoa");
    }
    eprintln!("sweep {:?} aig {}", t.elapsed(), e.g.len());
    let _ = e.call(s, "h_legal", vec![V::C(out as u128)]).unwrap();
    eprintln!("legal {:?} aig {} {:?} obl {} emits {}", t.elapsed(), e.g.len(), e.stats, e.obl.len(), e.emits.len());
    let mut by: HashMap<u128, Vec<u32>> = HashMap::new();
    for x in &e.emits {
        by.entry(x.code).or_default().push(x.guard);
    }
    let mut sp = spec::Spec::new(&ps);
    let mut gr: std::collections::BTreeMap<usize, Vec<u32>> = Default::default();
    for m in spec::Spec::all_moves(side) {
        let c = m.code(side) as u128;
        let imp = e.g.or_all(&by.remove(&c).unwrap_or_default());
        if let spec::Mv::Drop { kind: 1, .. } = m {
            if std::env::var("VX_P").is_err() {
                continue;
            }
        }
        let s = sp.legal(&mut e.g, m);
        let k = match m {
            spec::Mv::Normal { from, .. } => from,
            spec::Mv::Drop { kind, .. } if kind > 1 => 100 + kind,
            spec::Mv::Drop { to, .. } => 200 + to,
        };
        let x = e.g.xor(imp, s);
        gr.entry(k).or_default().push(x);
    }
    eprintln!("spec {:?} aig {} unknown codes {}", t.elapsed(), e.g.len(), by.len());
    gr.insert(300, by.values().flatten().copied().collect());
    gr.insert(301, e.obl.iter().map(|o| o.guard).collect());
    let next = std::sync::atomic::AtomicUsize::new(0);
    let (g, ps, gr, own, em) = (&e.g, &ps, &gr, &own, &e.emits);
    let tot = std::sync::Mutex::new(std::collections::BTreeMap::<usize, f64>::new());
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= own.len() {
                    break;
                }
                let k = own[i];
                let t = std::time::Instant::now();
                let mut fix = HashMap::new();
                for q in 1..82 {
                    if ps.kown[q] > 1 {
                        fix.insert(ps.kown[q] >> 1, (q == k) ^ (ps.kown[q] & 1 == 1));
                    }
                }
                let mut c = cof::Cof::new(g, &fix);
                let mut st = sat::Sat::new();
                let mut vl = vec![];
                for cl in &ps.valid[..if std::env::var("VX_V").is_ok() { ps.nlight } else { ps.valid.len() }] {
                    let d = c.lits(g, cl);
                    if !d.contains(&aig::T) {
                        vl.push(d);
                    }
                }
                let qs: Vec<(usize, u32)> = gr.iter().map(|(&k, v)| {
                    let l = c.lits(g, v);
                    (k, c.g.or_all(&l))
                }).collect();
                let tc = t.elapsed();
                if let Ok(x) = std::env::var("VX_I") {
                    // structure of one drop
                    let m = spec::Mv::Drop { kind: 2, to: x.parse().unwrap() };
                    let code = m.code(side) as u128;
                    let im: Vec<u32> = em.iter().filter(|x| x.code == code).map(|x| x.guard).collect();
                    eprintln!("emits {im:?}");
                    for l in im {
                        let l = c.lit(g, l);
                        eprintln!("lit {l} cone {}", sweep::cone_fast(&c.g, &[l]).len());
                        let mut todo = vec![(l, 0)];
                        while let Some((l, d)) = todo.pop() {
                            let n = (l >> 1) as usize;
                            if sweep::cone_fast(&e.g, &[l]).len() < 24 {
                fn ex(g: &aig::Aig, l: u32) -> String {
                    let n = l >> 1;
                    let s = if n == 0 { "0".into() } else if g.is_var(n) { g.names.iter().find(|x| x.0 == n).unwrap().1.clone() } else { format!("({}{}{})", ex(g, g.f0[n as usize]), if g.is_and(n) { "&" } else { "^" }, ex(g, g.f1[n as usize])) };
                    if l & 1 == 1 { format!("!{s}") } else { s }
                }
                eprintln!("{}", ex(&e.g, l));
            }
            eprintln!("{}{l} {} {} cone {}", " ".repeat(d), c.g.f0[n], c.g.f1[n], sweep::cone_fast(&c.g, &[l]).len());
                            if d < 6 && !c.g.is_var(n as u32) && (l & 1 == 0 && c.g.is_and(n as u32) || d < 2) {
                                todo.push((c.g.f0[n], d + 1));
                                todo.push((c.g.f1[n], d + 1));
                            }
                        }
                    }
                    continue;
                }
                if let Ok(d) = std::env::var("VX_D") {
                    let sel: Vec<u32> = qs.iter().filter(|x| std::env::var("VX_G").map_or(true, |p| p.split(',').any(|y| y == x.0.to_string()))).map(|x| x.1).collect();
                    let l = c.g.or_all(&sel);
                    let mut roots: Vec<u32> = vl.iter().flatten().copied().collect();
                    roots.push(l);
                    let ns = sweep::cone_fast(&c.g, &roots);
                    let mut s = String::new();
                    let mut n = 0;
                    let v = |l: u32| if l & 1 == 1 { -((l >> 1) as i64 + 1) } else { (l >> 1) as i64 + 1 };
                    let mut add = |c: &[i64]| {
                        for x in c {
                            s += &format!("{x} ");
                        }
                        s += "0\n";
                        n += 1;
                    };
                    add(&[-1]);
                    for x in ns {
                        let (a, b) = (c.g.f0[x as usize], c.g.f1[x as usize]);
                        let z = v(x * 2);
                        if c.g.is_and(x) {
                            add(&[-z, v(a)]);
                            add(&[-z, v(b)]);
                            add(&[z, -v(a), -v(b)]);
                        } else if c.g.is_xor(x) {
                            add(&[-z, v(a), v(b)]);
                            add(&[-z, -v(a), -v(b)]);
                            add(&[z, -v(a), v(b)]);
                            add(&[z, v(a), -v(b)]);
                        }
                    }
                    for d in &vl {
                        add(&d.iter().map(|&x| v(x)).collect::<Vec<_>>());
                    }
                    add(&[v(l)]);
                    std::fs::write(format!("{d}/k{k}.cnf"), format!("p cnf {} {n}\n{s}", c.g.len())).unwrap();
                    continue;
                }
                for d in &vl {
                    st.assert_clause(&c.g, d);
                }
                if std::env::var("VX_K").is_ok() {
                    for (gk, l) in &qs {
                        eprintln!("g {gk} cone {}", sweep::cone_fast(&c.g, &[*l]).len());
                    }
                    for code in [0x3f37u128, 0x3f2e, 0x3f36, 0x3f38, 0x403f, 0x3f40] {
                        let im: Vec<u32> = em.iter().filter(|x| x.code == code).map(|x| x.guard).collect();
                        for l in im {
                            let l = c.lit(g, l);
                            eprintln!("code {code:x} cone {}", sweep::cone_fast(&c.g, &[l]).len());
                        }
                    }
                    continue;
                }
                let mut log = vec![];
                let mut stime = 0.0;
                let qs: Vec<(usize, u32)> = match std::env::var("VX_C") {
                    Ok(n) => {
                        let n: usize = n.parse().unwrap();
                        qs.chunks(n).map(|x| (x[0].0, c.g.or_all(&x.iter().map(|y| y.1).collect::<Vec<_>>()))).collect()
                    }
                    _ => qs,
                };
                for (gk, l) in qs {
                    let t = std::time::Instant::now();
                    if std::env::var("VX_F").is_ok() {
                        st = sat::Sat::new();
                        for d in &vl {
                            st.assert_clause(&c.g, d);
                        }
                    }
                    let b4 = st.time;
                    let r = st.solve(&c.g, &[l], 10_000_000);
                    stime += st.time - b4;
                    let dt = t.elapsed().as_secs_f64();
                    if r != sat::Res::Unsat {
                        eprintln!("king {k} group {gk} {r:?}");
                    } else {
                        st.assert_clause(&c.g, &[l ^ 1]);
                    }
                    *tot.lock().unwrap().entry(gk).or_default() += dt;
                    if dt > 0.5 {
                        log.push((gk, (dt * 10.0) as u32));
                    }
                }
                eprintln!("{i} king {k} cof {tc:?} aig {} total {:?} solve {stime} {:?} {:?}", c.g.len(), t.elapsed(), st.stats(), log);
            });
        }
    });
    eprintln!("done {:?} {:?}", t.elapsed(), tot.lock().unwrap().iter().map(|(k, v)| (*k, *v as u32)).filter(|x| x.1 > 0).collect::<Vec<_>>());
}
fn dbg4(dir: &str, side: usize, own: Vec<usize>, opp: Option<usize>, parts: &str) {
    let p = load(dir);
    let lay = pos::Layout::parse(&std::fs::read_to_string(format!("{dir}/layout")).unwrap()).unwrap();
    let mut e = Exec::new(&p);
    let t = std::time::Instant::now();
    let (ps, s, pp, out) = setup(&mut e, &lay, pos::Case { side, own, opp, mine: None });
    let smp = sweep::samples(&e.g, &ps, 1, 4096);
    eprintln!("setup {:?}", t.elapsed());
    let mut s = e.call(s, "h_new", vec![V::C(pp as u128), V::C(out as u128)]).unwrap().expect("new");
    eprintln!("new {:?} aig {} {:?}", t.elapsed(), e.g.len(), e.stats);
    if parts != "-" {
        sweep_state(&mut e, &ps, &smp, &mut s, 8, parts);
    }
    eprintln!("sweep {:?} aig {}", t.elapsed(), e.g.len());
    for (f, to, pr) in [(41, 40, 0), (41, 49, 1), (50, 14, 0), (7, 6, 0)] {
        let t = std::time::Instant::now();
        let r = e.call(s.clone(), "h_do_normal", vec![V::C(out as u128), V::C(f), V::C(to), V::C(pr)]).unwrap();
        eprintln!("do {f} {to} {pr}: {:?} aig {} {:?} {}", t.elapsed(), e.g.len(), e.stats, r.is_some());
    }
    let t = std::time::Instant::now();
    let v: Vec<u32> = (0..8).map(|i| if i < 7 { e.g.var(format!("to{i}")) } else { 0 }).collect();
    let r = e.call(s.clone(), "h_do_normal", vec![V::C(out as u128), V::C(41), val::mkb(v), V::C(0)]).unwrap();
    eprintln!("do 41 sym: {:?} aig {} {:?} {}", t.elapsed(), e.g.len(), e.stats, r.is_some());
}
/// check <property> <tier> <dir> <evidence> <seed> <replay program>
fn run_check(a: &[String]) {
    let cf = check::Conf {
        prop: a[0].clone(),
        tier: a[1].clone(),
        dir: a[2].clone(),
        evidence: a[3].clone(),
        seed: a[4].parse().unwrap_or(1),
        replay: a[5].clone(),
        t0: std::time::Instant::now(),
        threads: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(2, 16),
    };
    let r = match cf.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C17" => check::legal_check(&cf, false),
        "C18" => check::legal_check(&cf, true),
        "C15" => keys::keys_check(&cf),
        "C16" => keys::build_check(&cf),
        "C10" | "C11" | "C12" | "C13" | "C14" => step::step_check(&cf),
        p => Err(format!("no check for {p}")),
    };
    match r {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            println!("ERROR property={} {e}", cf.prop);
            std::process::exit(3);
        }
    }
}
fn sqs(t: &str) -> Vec<usize> {
    t.split(',').flat_map(|x| match x.split_once('-') {
        Some((a, b)) => a.parse().unwrap()..b.parse::<usize>().unwrap() + 1,
        None => x.parse().unwrap()..x.parse::<usize>().unwrap() + 1,
    }).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || match a[1].as_str() {
        "dbg" => dbg(&a[2]),
        "dbg2" => dbg2(&a[2], a[3].parse().unwrap(), sqs(&a[4]), a.get(5).map(|x| x.parse().unwrap())),
        "dbg3" => dbg3(&a[2], a[3].parse().unwrap(), sqs(&a[4])),
        "dbg4" => dbg4(&a[2], a[3].parse().unwrap(), sqs(&a[4]), a.get(5).and_then(|x| x.parse().ok()), a.get(6).map_or("-", |x| x)),
        "check" => run_check(&a[2..]),
        _ => panic!(),
    });
    h.unwrap().join().unwrap();
}
