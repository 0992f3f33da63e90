//! Analysis harness: C-ABI entry points over yasai's public API (executed symbolically from the
//! LLVM IR of this build), plus a native `dump` mode that initialises the crate's lazily built
//! tables and writes the process image, which becomes the executor's initial memory.
use shogi_core::{Color, Hand, Move, PartialPosition, Piece, Square};
use std::mem::MaybeUninit;
use vxhooks as _;
use yasai::Position;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Raw {
    pub side: u8,
    pub pad: u8,
    pub ply: u16,
    pub hands: [[u8; 8]; 2],
    pub board: [u8; 81],
}

#[inline(always)]
unsafe fn sq(x: u8) -> Square {
    Square::from_u8_unchecked(x)
}
#[inline(always)]
unsafe fn color(x: u8) -> Color {
    std::mem::transmute::<u8, Color>(x)
}
#[inline(always)]
unsafe fn opt_piece(x: u8) -> Option<Piece> {
    std::mem::transmute::<u8, Option<Piece>>(x)
}
#[inline(always)]
unsafe fn piece(x: u8) -> Piece {
    std::mem::transmute::<u8, Piece>(x)
}

#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_build(raw: &Raw, out: &mut MaybeUninit<PartialPosition>) {
    let mut pp = PartialPosition::empty();
    pp.side_to_move_set(color(raw.side));
    let _ = pp.ply_set(raw.ply);
    *pp.hand_of_a_player_mut(Color::Black) = std::mem::transmute::<[u8; 8], Hand>(raw.hands[0]);
    *pp.hand_of_a_player_mut(Color::White) = std::mem::transmute::<[u8; 8], Hand>(raw.hands[1]);
    let mut i = 0;
    while i < 81 {
        pp.piece_set(sq(i as u8 + 1), opt_piece(raw.board[i]));
        i += 1;
    }
    out.write(pp);
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_new(pp: &PartialPosition, out: &mut MaybeUninit<Position>) {
    out.write(Position::new(pp.clone()));
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_default(out: &mut MaybeUninit<Position>) {
    out.write(Position::default());
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_clone(p: &Position, out: &mut MaybeUninit<Position>) {
    out.write(p.clone());
}
extern "C" {
    fn __vx_emit(x: u32);
}
#[inline(always)]
fn code(m: Move) -> u32 {
    match m {
        Move::Normal { from, to, promote } => {
            from.index() as u32 | (to.index() as u32) << 8 | (promote as u32) << 16
        }
        Move::Drop { piece, to } => {
            1 << 24 | piece.as_u8() as u32 | (to.index() as u32) << 8
        }
    }
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_legal(p: &Position) {
    let l = p.legal_moves();
    for &m in l.as_slice() {
        __vx_emit(code(m));
    }
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_in_check(p: &Position) -> u8 {
    p.in_check() as u8
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_key(p: &Position) -> u64 {
    p.key()
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_keys(p: &Position, out: &mut [u64; 2]) {
    let k = p.keys();
    *out = [k.0, k.1];
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_side(p: &Position) -> u8 {
    p.side_to_move() as u8
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_ply(p: &Position) -> u16 {
    p.ply()
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_hand(p: &Position, c: u8, out: &mut [u8; 8]) {
    *out = std::mem::transmute::<Hand, [u8; 8]>(p.hand(color(c)));
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_piece_at(p: &Position, s: u8) -> u8 {
    std::mem::transmute::<Option<Piece>, u8>(p.piece_at(sq(s)))
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_check_normal(p: &Position, from: u8, to: u8, promote: u8) -> u8 {
    p.is_check_move(Move::Normal { from: sq(from), to: sq(to), promote: promote & 1 != 0 }) as u8
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_check_drop(p: &Position, pc: u8, to: u8) -> u8 {
    p.is_check_move(Move::Drop { piece: piece(pc), to: sq(to) }) as u8
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_do_normal(p: &mut Position, from: u8, to: u8, promote: u8) {
    p.do_move(Move::Normal { from: sq(from), to: sq(to), promote: promote & 1 != 0 })
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_do_drop(p: &mut Position, pc: u8, to: u8) {
    p.do_move(Move::Drop { piece: piece(pc), to: sq(to) })
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_undo_normal(p: &mut Position, from: u8, to: u8, promote: u8) {
    p.undo_move(Move::Normal { from: sq(from), to: sq(to), promote: promote & 1 != 0 })
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_undo_drop(p: &mut Position, pc: u8, to: u8) {
    p.undo_move(Move::Drop { piece: piece(pc), to: sq(to) })
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn h_sizes(out: &mut [usize; 3]) {
    *out = [
        std::mem::size_of::<PartialPosition>(),
        std::mem::size_of::<Position>(),
        std::mem::size_of::<Raw>(),
    ];
}

/// Plays pseudo-random games through every entry point so that all lazy statics are initialised.
fn warm_up(limit: usize, say: bool) -> u64 {
    let mut seed = 1u64;
    let mut acc = 0u64;
    let mut n = 0;
    // false once the limit is reached; what was done before is known not to fail
    let mut go = || {
        if say && n > 0 {
            eprintln!("done {n}");
        }
        n += 1;
        n <= limit
    };
    let first = Position::default();
    unsafe {
        let mut raw = Raw { side: 1, pad: 0, ply: 1, hands: [[0; 8]; 2], board: [0; 81] };
        for i in 0..81 {
            raw.board[i] = h_piece_at(&first, i as u8 + 1);
        }
        let mut pp = MaybeUninit::uninit();
        h_build(&raw, &mut pp);
        let mut out = MaybeUninit::uninit();
        h_new(pp.assume_init_ref(), &mut out);
        let mut r = out.assume_init();
        let mut o = MaybeUninit::uninit();
        if !go() { return acc; }
        acc ^= r.key() ^ r.keys().0;
        h_hand(&r, 1, &mut raw.hands[0]);
        if !go() { return acc; }
        h_in_check(&r);
        if !go() { return acc; }
        h_legal(&r);
        if !go() { return acc; }
        acc ^= h_check_normal(&r, 7 * 9 - 9 + 7, 7 * 9 - 9 + 6, 0) as u64;
        if !go() { return acc; }
        h_do_normal(&mut r, 7 * 9 - 9 + 7, 7 * 9 - 9 + 6, 0);
        if !go() { return acc; }
        h_undo_normal(&mut r, 7 * 9 - 9 + 7, 7 * 9 - 9 + 6, 0);
        if !go() { return acc; }
        h_clone(&r, &mut o);
        h_default(&mut o);
    }
    for _ in 0..8 {
        let mut p = Position::default();
        let mut played = Vec::new();
        for _ in 0..300 {
            if !go() { return acc; }
            let l: Vec<Move> = p.legal_moves().iter().copied().collect();
            if l.is_empty() {
                break;
            }
            for &m in &l {
                acc ^= p.is_check_move(m) as u64;
            }
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let m = l[(seed >> 33) as usize % l.len()];
            p.do_move(m);
            acc ^= p.key() ^ p.keys().0 ^ p.in_check() as u64;
            played.push(m);
        }
        if !go() { return acc; }
        let q = p.clone();
        acc ^= q.key();
        for m in played.into_iter().rev() {
            if !go() { return acc; }
            p.undo_move(m);
        }
    }
    go();
    acc
}

/// fills the stack below the caller with a pattern, so that padding copied from it shows itself
#[inline(never)]
fn scrub(x: u8) {
    let mut a = [0u8; 16384];
    for b in a.iter_mut() {
        unsafe { std::ptr::write_volatile(b, x) };
    }
    std::hint::black_box(&a);
}

/// bytes of the position built from `raw`, padding blanked
fn bytes_of(raw: &Raw) -> Vec<u8> {
    let n = std::mem::size_of::<PartialPosition>();
    let run = |x: u8| unsafe {
        let mut pp: MaybeUninit<PartialPosition> = MaybeUninit::uninit();
        std::ptr::write_bytes(pp.as_mut_ptr() as *mut u8, x, n);
        scrub(x);
        h_build(raw, &mut pp);
        std::slice::from_raw_parts(pp.as_ptr() as *const u8, n).to_vec()
    };
    let mut v = run(0);
    for x in [0x5a, 0xff] {
        let w = run(x);
        for i in 0..n {
            if v[i] != w[i] {
                v[i] = 0;
            }
        }
    }
    v
}

/// Text description of how a PartialPosition is laid out: the bytes of an empty position and the
/// bits each single fact contributes, followed by sample positions for checking the encoding.
fn layout(out: &str) {
    use std::fmt::Write;
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let rawb = |r: &Raw| unsafe { std::slice::from_raw_parts(r as *const Raw as *const u8, std::mem::size_of::<Raw>()).to_vec() };
    let base = Raw { side: 1, pad: 0, ply: 1, hands: [[0; 8]; 2], board: [0; 81] };
    let b0 = bytes_of(&base);
    let mut s = String::new();
    writeln!(s, "base {}", hex(&b0)).unwrap();
    let mut diff = |tag: String, r: &Raw| {
        let b = bytes_of(r);
        let mut l = tag;
        for i in 0..b.len() {
            for k in 0..8 {
                if (b[i] ^ b0[i]) >> k & 1 == 1 {
                    write!(l, " {}", i * 8 + k).unwrap();
                }
            }
        }
        writeln!(s, "{l}").unwrap();
    };
    let mut r = base;
    r.side = 2;
    diff("side".into(), &r);
    for j in 0..16 {
        // base ply is 1
        let mut r = base;
        r.ply = if j == 0 { 2 } else { 1 | 1 << j };
        diff(format!("ply {j}"), &r);
    }
    for q in 0..81 {
        for p in (1..15).chain(17..31) {
            let mut r = base;
            r.board[q] = p;
            diff(format!("sq {} {p}", q + 1), &r);
        }
    }
    for c in 0..2 {
        for (k, &n) in [5, 3, 3, 3, 3, 2, 2].iter().enumerate() {
            for j in 0..n {
                let mut r = base;
                r.hands[c][k] = 1 << j;
                diff(format!("hand {c} {k} {j}"), &r);
            }
        }
    }
    let mut seed = 7u64;
    let mut rnd = move |n: u64| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 33) % n
    };
    for _ in 0..64 {
        let mut r = base;
        r.side = 1 + rnd(2) as u8;
        r.ply = 1 + rnd(65534) as u16;
        for c in 0..2 {
            for (k, &m) in [18, 4, 4, 4, 4, 2, 2].iter().enumerate() {
                r.hands[c][k] = rnd(m + 1) as u8;
            }
        }
        let dens = 2 + rnd(8);
        for q in 0..81 {
            if rnd(10) < dens {
                let k = 1 + rnd(14) as u8;
                r.board[q] = if k == 8 { 0 } else { k + 16 * rnd(2) as u8 };
            }
        }
        r.board[rnd(40) as usize] = 8;
        r.board[40 + rnd(41) as usize] = 24;
        writeln!(s, "sample {} {}", hex(&rawb(&r)), hex(&bytes_of(&r))).unwrap();
    }
    std::fs::write(out, s).unwrap();
}

fn main() {
    let out = std::env::args().nth(1).expect("usage: vh <image> [<layout>]");
    if let Some(l) = std::env::args().nth(2) {
        layout(&l);
    }
    if out == "probe" {
        println!("{}", warm_up(usize::MAX, true));
        return;
    }
    // play as far as another process got without failing
    let o = std::process::Command::new("/proc/self/exe").arg("probe").output().expect("probe");
    let n = if o.status.success() {
        usize::MAX
    } else {
        String::from_utf8_lossy(&o.stderr).lines().filter_map(|l| l.strip_prefix("done ")?.parse().ok()).max().unwrap_or(0)
    };
    let acc = warm_up(n, false);
    let mut img: Vec<u8> = Vec::new();
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let exe = exe.to_str().unwrap().to_owned();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    for line in maps.lines() {
        let f: Vec<&str> = line.split_whitespace().collect();
        let name = f.get(5).copied().unwrap_or("");
        let anon_near = name.is_empty();
        if !(name == exe || name == "[heap]" || anon_near) || !f[1].starts_with('r') {
            continue;
        }
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        if b - a > 64 << 20 {
            continue;
        }
        img.extend_from_slice(&(a as u64).to_le_bytes());
        img.extend_from_slice(&((b - a) as u64).to_le_bytes());
        img.extend_from_slice(unsafe { std::slice::from_raw_parts(a as *const u8, b - a) });
    }
    std::fs::write(out, &img).unwrap();
    println!("warm {acc:x}");
    if acc == 0x1234_5678_9abc {
        // keep every entry point reachable
        unsafe {
            let mut p = Position::default();
            let mut k = [0; 2];
            let mut s = [0; 3];
            h_keys(&p, &mut k);
            h_sizes(&mut s);
            println!(
                "{} {} {} {} {:?} {:?}",
                h_key(&p), h_side(&p), h_ply(&p), h_check_drop(&p, 1, 1), k, s
            );
            h_do_drop(&mut p, 1, 1);
            h_undo_drop(&mut p, 1, 1);
        }
    }
}
