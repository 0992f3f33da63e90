//! Constructed positions: their keys (C15), their accessors, the default position and clones (C16).
use crate::aig::*;
use crate::check::*;
use crate::native::Native;
use crate::pool::{tadd, Tally};
use crate::leg::{executed, ret1};
use crate::pos::*;
use crate::report::J;
use crate::sat::*;
use crate::spec::Mv;
use crate::step::*;
use std::collections::{HashMap, HashSet};

/// one question about two constructed positions
struct Ask {
    what: String,
    /// one of these must be true ...
    any: Vec<Vec<Lit>>,
    /// ... with all of these false
    none: Vec<Lit>,
}
pub fn keys_check(cf: &Conf) -> Result<i32, String> {
    let mut rep = cf.report();
    let p = crate::load(&cf.dir);
    let lay = Layout::parse(&std::fs::read_to_string(format!("{}/layout", cf.dir)).map_err(|e| e.to_string())?)?;
    let nat = Native { bin: cf.replay.clone() };
    let fr = both(|side| fresh(&p, &lay, side, "C15"))?;
    cf.log(&format!("constructed positions executed {:?}", fr.iter().map(|f| f.g.len()).collect::<Vec<_>>()));
    validate_moves(cf, &nat, &fr, &mut rep)?;
    for f in &fr {
        rep.states += f.stats.steps;
        rep.transitions += f.stats.instrs;
        rep.exec_s += f.secs;
        rep.aig += f.g.len() as u64;
        rep.funcs.extend(f.funcs.clone());
    }
    rep.funcs.sort();
    rep.funcs.dedup();
    let mut bad = None;
    for side in 0..3 {
        // 0, 1: two positions with that side to move; 2: the same position with either side to move
        let a = &fr[side % 2];
        let b = &fr[if side == 2 { 1 } else { side }];
        let mut g = Aig::new();
        g.chains = true;
        let mut ga = Graft::new(&a.g, &HashMap::new());
        // every input of the first position becomes an input here
        let mut ia: HashMap<u32, Lit> = HashMap::new();
        let all = |ps: &Pos| -> Vec<Vec<Lit>> {
            let mut v = vec![];
            for q in 1..82 {
                let mut x: Vec<Lit> = ps.vars(q).to_vec();
                x.extend([ps.kown[q], ps.okl[q]]);
                v.push(x);
            }
            for c in 0..2 {
                for k in 0..7 {
                    v.push(ps.hand[c][k].clone());
                }
            }
            v.push(ps.ply.clone());
            v
        };
        let (ua, ub) = (all(&a.ps), all(&b.ps));
        for (i, u) in ua.iter().enumerate() {
            for (j, &l) in u.iter().enumerate() {
                if l > 1 {
                    ia.insert(l >> 1, g.var(format!("a{i}.{j}")) ^ (l & 1));
                }
            }
        }
        for (&n, &l) in &ia {
            ga.set(n, l);
        }
        let ka: Vec<Lit> = a.keys.iter().map(|&l| ga.lit(&mut g, l)).collect();
        let key: Vec<Lit> = a.key.iter().map(|&l| ga.lit(&mut g, l)).collect();
        let va: Vec<Vec<Lit>> = a.ps.valid.iter().map(|c| c.iter().map(|&l| ga.lit(&mut g, l)).collect()).collect();
        // the second position: the groups of inputs in `other` are its own
        let second = |g: &mut Aig, other: &dyn Fn(usize) -> bool| -> (Vec<Lit>, Vec<Vec<Lit>>, HashMap<u32, Lit>) {
            let mut m = HashMap::new();
            for (i, u) in ub.iter().enumerate() {
                for (j, &l) in u.iter().enumerate() {
                    if l < 2 {
                        continue;
                    }
                    let x = if other(i) {
                        g.var(format!("b{i}.{j}"))
                    } else {
                        // the other side's king is the first position's own one
                        let jj = if side == 2 && i < 81 && j > 4 { 11 - j } else { j };
                        let y = ua[i][jj];
                        if y < 2 { y } else { ia[&(y >> 1)] ^ (y & 1) }
                    };
                    m.insert(l >> 1, x ^ (l & 1));
                }
            }
            let mut gb = Graft::new(&b.g, &m);
            let kb = b.keys.iter().map(|&l| gb.lit(g, l)).collect();
            let vb = b.ps.valid.iter().map(|c| c.iter().map(|&l| gb.lit(g, l)).collect()).collect();
            (kb, vb, m)
        };
        let mut asks: Vec<(Ask, Vec<Vec<Lit>>, HashMap<u32, Lit>)> = vec![];
        if side == 2 {
            let (kb, vb, m) = second(&mut g, &|_| false);
            let d: Vec<Lit> = (0..64).map(|i| diff(&mut g, ka[i], kb[i])).collect();
            asks.push((Ask { what: "the board key does not notice the side to move".into(), any: vec![], none: d }, vb.clone(), m.clone()));
            let d: Vec<Lit> = (64..128).map(|i| diff(&mut g, ka[i], kb[i])).collect();
            asks.push((Ask { what: "the hand key depends on the side to move".into(), any: vec![d], none: vec![] }, vb, m));
        } else {
            for x in 0..95 {
                let (kb, vb, m) = second(&mut g, &|i| i == x);
                let cut = if x < 81 { (0, 64) } else { (64, 128) };
                let d: Vec<Lit> = (cut.0..cut.1).map(|i| diff(&mut g, ka[i], kb[i])).collect();
                let o: Vec<Lit> = (64 - cut.0..128 - cut.0).map(|i| diff(&mut g, ka[i], kb[i])).collect();
                // what differs
                let mut c = vec![];
                for &l in &ub[x] {
                    if l > 1 {
                        c.push(g.xor(m[&(l >> 1)] ^ (l & 1), ia[&(l >> 1)] ^ (l & 1)));
                    }
                }
                let name = if x < 81 { format!("the content of square {}", x + 1) } else { format!("the hand of {} (kind {})", ["Black", "White"][(x - 81) / 7], (x - 81) % 7 + 1) };
                asks.push((Ask { what: format!("the {} key does not notice a difference in {name}", ["board", "hand"][(x > 80) as usize]), any: vec![c], none: d }, vb.clone(), m.clone()));
                asks.push((Ask { what: format!("the {} key depends on {name}", ["hand", "board"][(x > 80) as usize]), any: vec![o], none: vec![] }, vb, m));
            }
            let (kb, vb, m) = second(&mut g, &|i| i == 95);
            let d: Vec<Lit> = (0..128).map(|i| diff(&mut g, ka[i], kb[i])).collect();
            asks.push((Ask { what: "the keys depend on the counter".into(), any: vec![d], none: vec![] }, vb, m));
            let d: Vec<Lit> = (0..64).map(|i| {
                let x = g.xor(ka[i], ka[64 + i]);
                diff(&mut g, key[i], x)
            }).collect();
            asks.push((Ask { what: "the combined key is not the exclusive-or of the partial ones".into(), any: vec![d], none: vec![] }, vec![], HashMap::new()));
        }
        let mut t = Tally::default();
        let mut shown = 0;
        for (q, vb, m) in &asks {
            let any: Vec<Vec<Lit>> = q.any.iter().map(|c| c.iter().copied().filter(|&l| l != F).collect()).collect();
            t.queries += 1;
            t.literals += any.iter().map(|c: &Vec<Lit>| c.len() as u64).sum::<u64>() + q.none.len() as u64;
            if any.iter().any(|c| c.is_empty()) || q.none.contains(&T) {
                t.trivial += 1;
                continue;
            }
            let mut st = Sat::new();
            for c in &any {
                st.assert_clause(&g, c);
            }
            for &l in &q.none {
                st.assert_clause(&g, &[neg(l)]);
            }
            let mut r = Res::Sat;
            for stage in 0..2 {
                for (v, n) in [(&va, a.ps.nlight), (vb, b.ps.nlight)] {
                    let v: &[Vec<Lit>] = if v.is_empty() { &[] } else if stage == 0 { &v[..n] } else { &v[n..] };
                    for c in v.iter().filter(|c| !c.contains(&T)) {
                        st.assert_clause(&g, c);
                    }
                }
                t.refined += stage;
                r = st.solve(&g, &[], 20_000_000);
                if r != Res::Sat {
                    break;
                }
            }
            t.conflicts += st.stats().0;
            t.secs += st.time;
            match r {
                Res::Unsat => {}
                Res::Sat => {
                    let val = |l: Lit| if l < 2 { l == T } else { st.value(l >> 1) ^ (l & 1 == 1) };
                    let x = a.ps.decode(&|n| ia.get(&n).is_some_and(|&l| val(l)));
                    let y = if m.is_empty() { x.clone() } else { b.ps.decode(&|n| m.get(&n).is_some_and(|&l| val(l))) };
                    let k = |h: String| -> Result<(String, Vec<u64>), String> {
                        let o = nat.one(&format!("{h} K"))?;
                        let v = o.split(',').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
                        Ok((o, v))
                    };
                    let ((ox, kx), (oy, ky)) = (k(x.hex())?, k(y.hex())?);
                    if kx.len() != 3 || ky.len() != 3 {
                        bad = Some(format!("{}: no keys from {} or {}", q.what, x.sfen(), y.sfen()));
                        continue;
                    }
                    let real = if q.what.contains("combined") {
                        kx[0] ^ kx[1] != kx[2]
                    } else {
                        let i = q.what.contains("hand key") as usize;
                        if q.what.contains("the keys depend") { kx[..2] != ky[..2] } else if q.what.contains("depends") { kx[i] != ky[i] } else { kx[i] == ky[i] }
                    };
                    if real {
                        if shown == 0 && rep.violations.is_empty() {
                            violation(cf, &mut rep, &format!("{}: {} and {}", q.what, x.sfen(), y.sfen()), &format!("{} K\n{} K", x.hex(), y.hex()), &format!("{ox}\n{oy}"), "the first partial key depends on the board and the side only, the second on the hands only, and either notices every single difference");
                        }
                        shown += 1;
                    } else {
                        bad = Some(format!("{}: {} and {}", q.what, x.sfen(), y.sfen()));
                    }
                }
                Res::Unknown => rep.undecided += 1,
            }
        }
        tadd(&mut rep.tally, t);
    }
    rep.bounds = vec!["both sides to move; every pair of positions that differ in the content of one square (kings included), in the count of one hand piece, in the side to move, or in the counter: every such content and count, everything else arbitrary but equal".into()];
    rep.outside = vec!["positions reached by play have the keys of constructed ones by C14; pairs of positions with several differences can collide, as with any hash".into()];
    finish(cf, rep, bad)
}
/// the standard initial position
fn start() -> Raw {
    let mut r = Raw::empty();
    r.side = 1;
    r.ply = 1;
    let back = [2, 3, 4, 7, 8, 7, 4, 3, 2];
    for f in 1..10usize {
        let at = |rk: usize| (f - 1) * 9 + rk - 1;
        r.board[at(9)] = back[f - 1];
        r.board[at(1)] = back[f - 1] + 16;
        r.board[at(7)] = 1;
        r.board[at(3)] = 17;
    }
    // Black: bishop 8h, rook 2h; White: bishop 2b, rook 8b
    r.board[(8 - 1) * 9 + 7] = BISHOP as u8;
    r.board[(2 - 1) * 9 + 7] = ROOK as u8;
    r.board[(2 - 1) * 9 + 1] = BISHOP as u8 + 16;
    r.board[(8 - 1) * 9 + 1] = ROOK as u8 + 16;
    // gold and silver as coded
    for f in 1..10usize {
        let k = [2, 3, SILVER as u8, GOLD as u8, 8, GOLD as u8, SILVER as u8, 3, 2][f - 1];
        r.board[(f - 1) * 9 + 8] = k;
        r.board[(f - 1) * 9] = k + 16;
    }
    r
}
pub const SILVER: usize = 4;
pub const GOLD: usize = 5;
pub const BISHOP: usize = 6;
pub const ROOK: usize = 7;
pub fn build_check(cf: &Conf) -> Result<i32, String> {
    let mut rep = cf.report();
    let p = crate::load(&cf.dir);
    let lay = Layout::parse(&std::fs::read_to_string(format!("{}/layout", cf.dir)).map_err(|e| e.to_string())?)?;
    let nat = Native { bin: cf.replay.clone() };
    let mut bad: Option<String> = None;
    let rs = both(|side| one_side(&p, &lay, side, cf))?;
    for o in rs {
        rep.states += o.0.states;
        rep.transitions += o.0.transitions;
        rep.exec_s += o.0.exec_s;
        rep.aig += o.0.aig;
        rep.undecided += o.0.undecided;
        rep.validated += o.0.validated;
        rep.funcs.extend(o.0.funcs);
        tadd(&mut rep.tally, o.0.tally);
        for (what, raw, line, want) in o.1 {
            let got = nat.one(&line)?;
            if got != want {
                if rep.violations.is_empty() {
                    violation(cf, &mut rep, &format!("{what} in {}", raw.sfen()), &line, &got, &want);
                }
            } else {
                bad = Some(format!("{what} in {}", raw.sfen()));
            }
        }
        for (line, want) in o.2 {
            let a = nat.one(&line)?;
            let b = nat.one(&want)?;
            if a == b {
                bad = Some(format!("a clone differs: {line}"));
            } else if rep.violations.is_empty() {
                violation(cf, &mut rep, "a clone and its original do not behave alike or depend on each other", &line, &a, &b);
            }
        }
    }
    // the default position
    let want = start().hex();
    let mut e = crate::exec::Exec::new(&p);
    let (ps, mut s, _, out) = crate::setup(&mut e, &lay, Case { side: 0, own: (0..82).collect(), opp: None, mine: None });
    let _ = ps;
    let tmp = e.alloc(&mut s, 64);
    let s = e.call(s, "h_default", vec![crate::val::V::C(out as u128)])?.ok_or("the default position is never built")?;
    let a = accessors(&mut e, &s, out, tmp)?;
    let num = |v: &[Lit]| -> Result<u64, String> { v.iter().enumerate().try_fold(0, |x, (i, &l)| if l < 2 { Ok(x | (l as u64) << i) } else { Err("the default position is not definite".to_string()) }) };
    let mut r = Raw::empty();
    r.side = num(&a.side)? as u8;
    r.ply = num(&a.ply)? as u16;
    for c in 0..2 {
        for k in 0..8 {
            r.hands[c][k] = num(&a.hand[c][8 * k..8 * k + 8])? as u8;
        }
    }
    for q in 1..82 {
        r.board[q - 1] = num(&a.board[q])? as u8;
    }
    rep.tally.queries += 1;
    rep.tally.trivial += 1;
    if r.hex() != want {
        let got = nat.one("default A")?;
        if got != want {
            violation(cf, &mut rep, "the default position is not the standard initial position", "default A", &got, &want);
        } else {
            bad = Some("the default position".into());
        }
    }
    rep.funcs.sort();
    rep.funcs.dedup();
    rep.bounds = vec!["both sides to move; every position the assumptions allow: each accessor's every bit against the position handed to the constructor; the default position; a clone's whole state against the original's, and the original's (clone's) whole state after a move on the clone (original), for moves of every kind from and to some squares".into()];
    rep.outside = vec!["the clone's independence is shown for one following move at a time".into()];
    rep.extra.push(("default_position".into(), J::S(r.sfen())));
    finish(cf, rep, bad)
}
type Side = (crate::report::Report, Vec<(String, Raw, String, String)>, Vec<(String, String)>);
fn one_side(p: &crate::exec::Prog, lay: &Layout, side: usize, cf: &Conf) -> Result<Side, String> {
    let t0 = std::time::Instant::now();
    let mut rep = cf.report();
    let mut b = base(p, lay, side, None, true)?;
    let mut lits: Vec<(String, Lit)> = vec![];
    let (s0, out, tmp) = (b.s.clone(), b.out, b.tmp);
    let never = "never returns";
    {
        let e = &mut b.e;
        let a = accessors(e, &s0, out, tmp)?;
        let mut put = |g: &mut Aig, w: String, x: Lit, y: Lit| {
            let d = g.xor(x, y);
            rep.tally.literals += 1;
            if d != F {
                lits.push((w, d));
            } else {
                rep.tally.trivial += 1;
            }
        };
        for i in 0..8 {
            put(&mut e.g, "side to move".into(), a.side[i], (1 + side as Lit) >> i & 1);
        }
        for i in 0..16 {
            put(&mut e.g, "counter".into(), a.ply[i], b.ps.ply[i]);
        }
        for c in 0..2 {
            for i in 0..64 {
                let (k, x) = (i / 8, i % 8);
                let w = if k < 7 && x < b.ps.hand[c][k].len() { b.ps.hand[c][k][x] } else { F };
                put(&mut e.g, format!("hand of {} (kind {})", ["Black", "White"][c], k + 1), a.hand[c][i], w);
            }
        }
        for q in 1..82 {
            for i in 0..8 {
                put(&mut e.g, format!("square {q}"), a.board[q][i], if i < 5 { b.ps.byte[q][i] } else { F });
            }
        }
    }
    let nacc = lits.len();
    // clones
    let e = &mut b.e;
    let mut s1 = s0.clone();
    let other = e.alloc(&mut s1, b.size);
    let s1 = e.call(s1, "h_clone", vec![crate::val::V::C(out as u128), crate::val::V::C(other as u128)])?.ok_or(never)?;
    let look = |e: &mut crate::exec::Exec, s: &crate::exec::State, at: u64| -> Result<Vec<Lit>, String> {
        let a = accessors(e, s, at, tmp)?;
        let mut v: Vec<Lit> = a.side;
        v.extend(a.ply);
        v.extend(a.hand.into_iter().flatten());
        v.extend(a.board.into_iter().flatten());
        v.extend(keys_of(e, s, at, tmp)?.0);
        v.push(ret1(e, s.clone(), "h_in_check", vec![crate::val::V::C(at as u128)])?.1);
        Ok(v)
    };
    let d5 = Mv::Drop { kind: 5, to: 41 };
    let n = play(e, &s0, out, side, d5, "do")?.ok_or(never)?;
    let shape = Shape::find(e, b.size, out, &s0, &n);
    let seen = |e: &mut crate::exec::Exec, s: &crate::exec::State, at: u64| -> Result<Vec<Lit>, String> {
        match &shape {
            Ok(sh) => sh.view(e, s, at),
            Err(_) => look(e, s, at),
        }
    };
    let full0 = look(e, &s0, out)?;
    let view0 = seen(e, &s0, out)?;
    let cl: Vec<(String, Vec<Lit>, Vec<Lit>)> = {
        let mut v = vec![];
        v.push(("clone".to_string(), view0.clone(), seen(e, &s1, other)?));
        v.push(("clone".to_string(), full0.clone(), look(e, &s1, other)?));
        v.push(("original after cloning".to_string(), full0.clone(), look(e, &s1, out)?));
        let back = |c: usize| if side == 0 { c } else { 82 - c };
        for m in [d5, Mv::Drop { kind: 1, to: back(22) }, Mv::Normal { from: back(44), to: back(43), promote: false }, Mv::Normal { from: back(22), to: back(21), promote: true }, Mv::Normal { from: 41, to: 5, promote: false }] {
            for (x, y, w) in [(other, out, "original after a move on the clone"), (out, other, "clone after a move on the original")] {
                let Some(n) = play(e, &s1, x, side, m, "do")? else { continue };
                v.push((format!("{w} ({})", m.usi()), view0.clone(), seen(e, &n, y)?));
                v.push((format!("{w} ({})", m.usi()), full0.clone(), look(e, &n, y)?));
                if let Some(u) = play(e, &n, x, side, m, "undo")? {
                    v.push((format!("{w} and its taking back ({})", m.usi()), view0.clone(), seen(e, &u, y)?));
                }
            }
        }
        v
    };
    for (w, x, y) in cl {
        if x.len() != y.len() {
            return Err("views of different size".into());
        }
        for (a, c) in x.into_iter().zip(y) {
            let d = e.g.xor(a, c);
            rep.tally.literals += 1;
            if d == F {
                rep.tally.trivial += 1;
            } else {
                lits.push((w.clone(), d));
            }
        }
    }
    // what is left
    let mut found = vec![];
    let mut clones = vec![];
    let mut done: HashSet<String> = HashSet::new();
    let g = &b.e.g;
    for (i, (w, d)) in lits.iter().enumerate() {
        if done.contains(w) || found.len() + clones.len() > 4 {
            continue;
        }
        let mut st = Sat::new();
        for c in &b.ps.valid {
            st.assert_clause(g, c);
        }
        rep.tally.queries += 1;
        match st.solve(g, &[*d], 20_000_000) {
            Res::Unsat => {}
            Res::Unknown => rep.undecided += 1,
            Res::Sat => {
                done.insert(w.clone());
                let raw = b.ps.decode(&|n| st.value(n));
                if i < nacc {
                    found.push((format!("the {w} is not reported as given"), raw.clone(), format!("{} A", raw.hex()), raw.hex()));
                } else {
                    let nat = Native { bin: cf.replay.clone() };
                    let o = nat.one(&format!("{} L", raw.hex()))?;
                    let m = o.trim_start_matches('L').split(',').next().unwrap_or("").to_string();
                    let h = raw.hex();
                    let (d, u) = if m.is_empty() { (String::new(), String::new()) } else { (format!("D{m}"), format!("U{m}")) };
                    let a = if m.is_empty() { String::new() } else { format!("M{m}") };
                    // the clone, the original after play on the clone, the clone after play on the original
                    clones.push((format!("{h} S X A K C L {a} {d} X A K C L S {d} {u} {d} X A K C L"), format!("{h} A K C L {a} A K C L A K C L")));
                }
            }
        }
        rep.tally.conflicts += st.stats().0;
        rep.tally.secs += st.time;
    }
    rep.states = b.e.stats.steps;
    rep.transitions = b.e.stats.instrs;
    rep.aig = b.e.g.len() as u64;
    rep.funcs = executed(&b.e);
    rep.exec_s = t0.elapsed().as_secs_f64();
    Ok((rep, found, clones))
}
