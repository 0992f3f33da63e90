//! Runs the real crate, through its public API, on positions and operations read from standard
//! input, one case per line: `<position as 102 bytes of hex> <op> <op> ...`. Every op appends its
//! result to the line printed for the case.
//!   A        side, counter, hands and board as reported by the accessors (same 102-byte format)
//!   L        legal moves, in the order returned
//!   C        in_check
//!   K        keys().0, keys().1, key()
//!   M<code>  is_check_move
//!   D<code>  do_move           U<code>  undo_move
//!   N        replace the position by one constructed from what the accessors report
//!   S        push a clone on a stack     X  exchange with the top of the stack
//!   Z        replace the position by the default one
//! Move codes: from | to<<8 | promote<<16, or 1<<24 | piece | to<<8, in hex.
use shogi_core::{Color, Hand, Move, PartialPosition, Piece, PieceKind, Square};
use std::io::BufRead;
use yasai::Position;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn build(r: &[u8]) -> Position {
    let mut pp = PartialPosition::empty();
    pp.side_to_move_set(if r[0] == 1 { Color::Black } else { Color::White });
    assert!(pp.ply_set(u16::from_le_bytes([r[2], r[3]])), "counter refused by shogi_core");
    for (c, o) in [(Color::Black, 4), (Color::White, 12)] {
        let h = pp.hand_of_a_player_mut(c);
        *h = Hand::default();
        for pk in Hand::all_hand_pieces() {
            for _ in 0..r[o + pk.array_index()] {
                *h = h.added(pk).expect("hand full");
            }
        }
    }
    for i in 0..81 {
        let sq = Square::from_u8(i as u8 + 1).unwrap();
        pp.piece_set(sq, if r[20 + i] == 0 { None } else { Some(pc(r[20 + i]).expect("piece code")) });
    }
    Position::new(pp)
}
fn record(p: &Position) -> Vec<u8> {
    let mut r = vec![0u8; 102];
    r[0] = if p.side_to_move() == Color::Black { 1 } else { 2 };
    r[2..4].copy_from_slice(&p.ply().to_le_bytes());
    for (c, o) in [(Color::Black, 4), (Color::White, 12)] {
        let h = p.hand(c);
        for pk in Hand::all_hand_pieces() {
            r[o + pk.array_index()] = h.count(pk).unwrap_or(0);
        }
    }
    for i in 0..81 {
        let sq = Square::from_u8(i as u8 + 1).unwrap();
        r[20 + i] = p.piece_at(sq).map_or(0, |x| x.as_u8());
    }
    r
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn code(m: Move) -> u32 {
    match m {
        Move::Normal { from, to, promote } => from.index() as u32 | (to.index() as u32) << 8 | (promote as u32) << 16,
        Move::Drop { piece, to } => 1 << 24 | piece.as_u8() as u32 | (to.index() as u32) << 8,
    }
}
fn mv(s: &str) -> Move {
    let c = u32::from_str_radix(s, 16).unwrap();
    let sq = |x: u32| Square::from_u8((x & 255) as u8).unwrap();
    if c >> 24 == 1 {
        Move::Drop { piece: pc(c as u8).unwrap(), to: sq(c >> 8) }
    } else {
        Move::Normal { from: sq(c), to: sq(c >> 8), promote: c >> 16 & 1 == 1 }
    }
}
fn main() {
    let _ = PieceKind::Pawn;
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.is_empty() {
            continue;
        }
        let out = std::sync::Mutex::new(String::new());
        let run = || {
            let put = |s: String| {
                let mut o = out.lock().unwrap();
                o.push(' ');
                o.push_str(&s);
            };
            let mut p = if f[0] == "default" { Position::default() } else { build(&unhex(f[0])) };
            let mut st: Vec<Position> = vec![];
            for op in &f[1..] {
                match &op[..1] {
                    "A" => put(hex(&record(&p))),
                    "L" => put(format!("L{}", p.legal_moves().iter().map(|m| format!("{:x}", code(*m))).collect::<Vec<_>>().join(","))),
                    "C" => put(format!("{}", p.in_check() as u8)),
                    "K" => put(format!("{:016x},{:016x},{:016x}", p.keys().0, p.keys().1, p.key())),
                    "M" => put(format!("{}", p.is_check_move(mv(&op[1..])) as u8)),
                    "D" => p.do_move(mv(&op[1..])),
                    "U" => p.undo_move(mv(&op[1..])),
                    "N" => p = build(&record(&p)),
                    "S" => st.push(p.clone()),
                    "X" => {
                        let k = st.len() - 1;
                        std::mem::swap(&mut p, &mut st[k]);
                    }
                    "Z" => p = Position::default(),
                    _ => panic!("op"),
                }
            }
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run));
        let mut o = out.into_inner().unwrap_or_else(|e| e.into_inner());
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            o.push_str(&format!(" PANIC:{}", m.replace(char::is_whitespace, "_")));
        }
        println!("{}", o.trim_start());
    }
}
fn pc(x: u8) -> Option<Piece> {
    Piece::all().into_iter().find(|p| p.as_u8() == x)
}
