//! The checks: one entry point per property.
use crate::aig::*;
use crate::exec::*;
use crate::leg::*;
use crate::native::*;
use crate::pool::*;
use crate::pos::*;
use crate::report::*;
use std::collections::HashMap;
use std::time::{Duration, Instant};

pub struct Conf {
    pub prop: String,
    pub tier: String,
    /// directory with the prepared IR (and a second one for the SIMD build)
    pub dir: String,
    pub evidence: String,
    pub seed: u64,
    pub replay: String,
    pub t0: Instant,
    pub threads: usize,
}
impl Conf {
    pub fn quick(&self) -> bool {
        self.tier != "thorough"
    }
    pub fn deadline(&self) -> Instant {
        self.t0 + Duration::from_secs(if self.quick() { 840 } else { 6 * 3600 })
    }
    pub fn report(&self) -> Report {
        Report {
            property: self.prop.clone(),
            tier: self.tier.clone(),
            seed: self.seed as i64,
            assumptions: vec![
                "valid positions: at most one king per side, no piece without a move (pawn, lance, knight), no two unpromoted pawns of a side on a file, the side not to move is not in check, no more pieces of a kind than a shogi set holds, counter from 1 to 65534".into(),
                "the IR executed is rustc's output for /repo with overflow checks and debug assertions on; LLVM's later lowering and the hardware are not covered".into(),
                "lists are modelled element-wise (stub of arrayvec); their capacity is C19's subject".into(),
                "lazily built tables are taken from the memory of a native run of the same binary".into(),
            ],
            ..Default::default()
        }
    }
    pub fn log(&self, s: &str) {
        eprintln!("[{:6.1}s] {s}", self.t0.elapsed().as_secs_f64());
    }
}
/// prints a violation with everything needed to see it again
pub fn violation(cf: &Conf, rep: &mut Report, text: &str, line: &str, observed: &str, expected: &str) {
    let path = format!("{}.replay.txt", cf.evidence.trim_end_matches(".json"));
    let body = format!(
        "property: {}\n{}\n\ninput for the replay program (position record and operations, see replay/src/main.rs):\n{}\n\nobserved on the real build:\n{}\n\nexpected by the rules:\n{}\n\nrerun: echo '<input>' | {}\n",
        cf.prop, text, line, observed, expected, cf.replay
    );
    let _ = std::fs::write(&path, body);
    println!("{text}");
    println!("VIOLATION property={} replay={}", cf.prop, path);
    rep.violations.push(text.to_string());
}
pub fn model_vars(m: &HashMap<u32, bool>) -> HashMap<u32, Vec<u64>> {
    m.iter().map(|(&k, &v)| (k, vec![if v { !0 } else { 0 }])).collect()
}
fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
/// run a closure per side, in parallel
pub fn both<T: Send>(f: impl Fn(usize) -> Result<T, String> + Sync) -> Result<Vec<T>, String> {
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..2).map(|s| {
            let f = &f;
            std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(sc, move || f(s)).unwrap()
        }).collect();
        hs.into_iter().map(|h| h.join().map_err(msg).and_then(|x| x)).collect()
    })
}
/// the symbolic image of a position agrees with what shogi_core builds, on the samples of the layout
pub fn check_layout(g: &mut Aig, ps: &Pos, lay: &Layout) -> Result<usize, String> {
    let img = ps.image(g, lay)?;
    let mut n = 0;
    for (raw, pp) in &lay.samples {
        let r = Raw::from_bytes(raw);
        let Some(a) = ps.assign(&r) else { continue };
        let vars: HashMap<u32, Vec<u64>> = a.iter().map(|(&k, &v)| (k, vec![v as u64])).collect();
        let sim = crate::sweep::sim_lits(g, 1, &vars, &img);
        for (i, &l) in img.iter().enumerate() {
            if sim.get(l)[0] & 1 != (pp[i / 8] >> (i % 8) & 1) as u64 {
                return Err(format!("encoding of positions disagrees with shogi_core at bit {i} of {}", r.sfen()));
            }
        }
        n += 1;
    }
    Ok(n)
}
const VW: usize = 8;
/// the circuits for the legal-move and in-check queries agree with native runs on random positions
pub fn validate(l: &Leg, nat: &Native) -> Result<(u64, Vec<String>), String> {
    let mut lits: Vec<Lit> = l.imp.values().copied().collect();
    lits.push(l.chk);
    let vars: HashMap<u32, Vec<u64>> = l.smp.vars.iter().map(|(&k, v)| (k, v[..VW].to_vec())).collect();
    let sim = crate::sweep::sim_lits(&l.cx.g, VW, &vars, &lits);
    let codes: Vec<(u32, Vec<u64>)> = l.imp.iter().map(|(&c, &x)| (c, sim.get(x))).collect();
    let chk = sim.get(l.chk);
    let raws = &l.smp.raws[..VW * 64];
    let lines: Vec<String> = raws.iter().map(|r| format!("{} C{}", r.hex(), if codes.is_empty() { "" } else { " L" })).collect();
    let out = nat.run(&lines)?;
    let mut shown = vec![];
    let mut n = 0;
    for (i, o) in out.iter().enumerate() {
        let at = |v: &[u64]| v[i / 64] >> (i % 64) & 1 == 1;
        if o.contains("PANIC") || o == "CRASH" {
            continue; // the property about failing decides these
        }
        let mut f = o.split_whitespace();
        let c = f.next() == Some("1");
        if c != at(&chk) {
            return Err(format!("encoding mismatch: in_check on {}: native {c}", raws[i].sfen()));
        }
        if !codes.is_empty() {
            let mut got = parse_legal(f.next().unwrap_or("?"))?;
            got.sort();
            got.dedup();
            let want: Vec<u32> = codes.iter().filter(|x| at(&x.1)).map(|x| x.0).collect();
            if got != want {
                return Err(format!("encoding mismatch: legal moves of {}: native {got:x?} circuit {want:x?}", raws[i].sfen()));
            }
            if shown.len() < 3 {
                shown.push(format!("{}: {} moves, in check: {c}; circuit and native run agree", raws[i].sfen(), got.len()));
            }
        }
        n += 1;
    }
    Ok((n, shown))
}

fn kings() -> Vec<usize> {
    match std::env::var("VX_KINGS") {
        Ok(s) => crate::sqs(&s),
        Err(_) => (0..82).collect(),
    }
}
pub fn legal_check(cf: &Conf, simd: bool) -> Result<i32, String> {
    let prop = cf.prop.as_str();
    let p = crate::load(&cf.dir);
    let lay = Layout::parse(&std::fs::read_to_string(format!("{}/layout", cf.dir)).map_err(|e| e.to_string())?)?;
    let nat = Native { bin: cf.replay.clone() };
    let mut rep = cf.report();
    let mut legs = both(|side| {
        let b = Build { p: &p, lay: &lay, side, seed: cf.seed, threads: cf.threads / 2, samples: 4096, triples: if cf.quick() { 24 } else { 200 } };
        build(&b, prop)
    })?;
    cf.log("symbolic execution done");
    for l in legs.iter_mut() {
        rep.states += l.stats.steps;
        rep.transitions += l.stats.instrs;
        rep.exec_s += l.secs;
        rep.aig += l.cx.g.len() as u64;
        rep.funcs.extend(l.funcs.clone());
        rep.validated += check_layout(&mut l.cx.g, &l.ps, &lay)? as u64;
    }
    rep.funcs.sort();
    rep.funcs.dedup();
    let v: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = legs.iter().map(|l| {
            let nat = &nat;
            sc.spawn(move || validate(l, nat))
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    });
    for x in v {
        let (n, s) = x?;
        rep.validated += n;
        rep.samples.extend(s);
    }
    cf.log("encoding validated");
    if prop == "C08" {
        cf.log(&format!("pairs {:?}", legs.iter().map(|l| (l.pairs, l.plain)).collect::<Vec<_>>()));
    }
    let mut tasks = vec![];
    // squares of the mover's king looked at on every change, in the vector build
    let few: Vec<usize> = vec![0, 1, 14, 41, 45, 73];
    // squares of the other king for the pawn-mate rule
    let opp: Vec<usize> = (1..82).filter(|q| !cf.quick() || [1, 2, 5, 9].contains(&((q - 1) / 9 + 1))).collect();
    for (i, l) in legs.iter().enumerate() {
        let qs: Vec<Query> = l.lits.iter().enumerate().map(|(t, b)| Query { tag: t, bad: b, fix: l.groups[t][0].1.fix.clone(), each: false }).collect();
        if prop == "C06" {
            // split by the other king's square, which decides the only drop the rule is about
            for (t, b) in l.lits.iter().enumerate() {
                for q in match std::env::var("VX_OPP") { Ok(s) => crate::sqs(&s), _ => opp.clone() } {
                    if l.groups[t].iter().any(|x| l.front(x.1.code.unwrap()) == Some(q)) {
                        let fix = opp_king(&l.ps, q);
                        tasks.push(Task { cx: i, label: format!("other king {q}"), fix, cut: vec![], hyp: vec![], qs: vec![Query { tag: t, bad: b, fix: vec![], each: false }] });
                    }
                }
            }
            continue;
        }
        let (one, all): (Vec<_>, Vec<_>) = qs.into_iter().partition(|q| l.split[q.tag]);
        if !all.is_empty() {
            tasks.push(Task { cx: i, label: "any king".into(), fix: vec![], cut: vec![], hyp: vec![], qs: all });
        }
        if !one.is_empty() {
            for k in if simd && cf.quick() { few.clone() } else { kings() } {
                tasks.push(Task { cx: i, label: format!("own king {k}"), fix: own_king(&l.ps, k), cut: vec![], hyp: vec![], qs: one.clone() });
            }
        }
    }
    let cxs: Vec<&Cx> = legs.iter().map(|l| &l.cx).collect();
    let ans = run(&cxs, &tasks, &Opts { threads: cf.threads, chunk: 24, budget: 20_000_000, deadline: cf.deadline(), max_found: 1, full: false });
    cf.log(&format!("queries done {:?}", ans.tally));
    let mut bad_encoding = None;
    if legs.iter().any(|l| l.seen) && ans.found.is_empty() {
        return Err("a duplicate seen on a random position was not confirmed".into());
    }
    for f in &ans.found {
        let l = &legs[tasks[f.task].cx];
        let raw = l.ps.decode(&|n| f.model.get(&n).copied().unwrap_or(false));
        for &w in f.which.iter().take(1) {
            let b = &l.groups[f.tag][w].1;
            match confirm(cf, l, &nat, &raw, b, &f.model)? {
                Ok((line, obs, exp)) => violation(cf, &mut rep, &format!("{} in {}", b.what, raw.sfen()), &line, &obs, &exp),
                Err(e) => bad_encoding = Some(e),
            }
        }
    }
    rep.undecided = ans.undecided.len() as u64;
    rep.tally = ans.tally;
    rep.bounds = vec![
        format!("both sides to move; own king on {}, other king {}; every content of the other squares; every hand of up to 18/4/4/4/4/2/2; every counter", if simd && cf.quick() { format!("squares {few:?} (0: absent)") } else { "each of the 81 squares or absent".into() }, if prop == "C06" && cf.quick() { "on any square of files 1, 2, 5 and 9" } else { "anywhere or absent" }),
        "loops are executed to their own end (no unrolling limit): each is bounded by the 81 squares or the 7 hand kinds".into(),
    ];
    rep.outside = vec!["positions the assumptions exclude; lists longer than the capacity".into()];
    rep.extra.push(("move_codes_returned_somewhere".into(), J::N(legs.iter().map(|l| l.ncodes).sum::<usize>() as f64)));
    rep.extra.push(("failure_conditions_seen".into(), J::N(legs.iter().map(|l| l.obl.len()).sum::<usize>() as f64)));
    rep.extra.push(("vacuity".into(), J::S(vacuity(&legs))));
    finish(cf, rep, bad_encoding)
}
pub fn finish(cf: &Conf, rep: Report, bad: Option<String>) -> Result<i32, String> {
    rep.write(&cf.evidence, cf.t0.elapsed().as_secs_f64())?;
    if !rep.violations.is_empty() {
        return Ok(1);
    }
    if let Some(e) = bad {
        return Err(format!("counterexample does not reproduce: {e}"));
    }
    if rep.undecided > 0 {
        return Err(format!("{} queries undecided", rep.undecided));
    }
    println!("property {} holds: {} queries, {} settled by construction, {:.0} solver seconds", cf.prop, rep.tally.queries, rep.tally.trivial, rep.tally.secs);
    Ok(0)
}
/// the premises of the queries are met by sampled inputs
fn vacuity(legs: &[Leg]) -> String {
    let mut v = vec![];
    for l in legs {
        let lits: Vec<Lit> = l.imp.values().copied().chain([l.in_check]).collect();
        let vars: HashMap<u32, Vec<u64>> = l.smp.vars.iter().map(|(&k, v)| (k, v[..VW].to_vec())).collect();
        let sim = crate::sweep::sim_lits(&l.cx.g, VW, &vars, &lits);
        let hit = l.imp.values().filter(|&&x| sim.get(x).iter().any(|&y| y != 0)).count();
        let chk: u32 = sim.get(l.in_check).iter().map(|x| x.count_ones()).sum();
        v.push(format!("{}: of {} sampled positions {} are in check; {} of {} move codes occur", l.cx.name, VW * 64, chk, hit, l.imp.len()));
    }
    v.join("; ")
}
type Confirmed = Result<(String, String, String), String>;
/// run the real code on the counterexample; it must do what the circuits predict
fn confirm(cf: &Conf, l: &Leg, nat: &Native, raw: &Raw, b: &Bad, model: &HashMap<u32, bool>) -> Result<Confirmed, String> {
    let vars = model_vars(model);
    match if b.code.is_none() && cf.prop == "C18" { "C09" } else { cf.prop.as_str() } {
        "C17" => {
            let line = format!("{} C L A K", raw.hex());
            let o = nat.one(&line)?;
            if o.contains("PANIC") || o == "CRASH" {
                return Ok(Ok((line, o, "no panic".into())));
            }
            Ok(Err(format!("{} on {}: native run {o}", b.what, raw.sfen())))
        }
        "C09" => {
            let sim = crate::sweep::sim_lits(&l.cx.g, 1, &vars, &[l.chk, l.in_check]);
            let line = format!("{} C", raw.hex());
            let o = nat.one(&line)?;
            let want = sim.get(l.in_check)[0] & 1;
            if o == want.to_string() {
                return Ok(Err(format!("in_check on {}: native {o}", raw.sfen())));
            }
            Ok(Ok((line, format!("in_check {o}"), format!("in_check {want}"))))
        }
        _ => {
            let lits: Vec<Lit> = l.imp.values().copied().collect();
            let sim = crate::sweep::sim_lits(&l.cx.g, 1, &vars, &lits);
            let want: Vec<u32> = l.imp.iter().filter(|x| sim.get(*x.1)[0] & 1 == 1).map(|x| *x.0).collect();
            let line = format!("{} L", raw.hex());
            let o = nat.one(&line)?;
            let Ok(mut got) = parse_legal(&o) else { return Ok(Err(format!("{}: native run {o}", raw.sfen()))) };
            got.sort();
            let n = got.len();
            got.dedup();
            if cf.prop == "C08" {
                if got.len() < n {
                    return Ok(Ok((line, o, "no duplicates".into())));
                }
                // a filter that confuses elements shows as a difference to the element-wise list
                if got != want {
                    return Ok(Ok((line, o, format!("{want:x?}"))));
                }
                return Ok(Err(format!("no duplicate in {o}")));
            }
            if got != want {
                return Ok(Err(format!("legal moves of {}: native {got:x?} circuit {want:x?}", raw.sfen())));
            }
            let c = b.code.unwrap_or(0);
            Ok(Ok((line, format!("{o}\nmove {c:x} {}", if got.contains(&c) { "is in the list" } else { "is not in the list" }), b.what.clone())))
        }
    }
}
