//! Runs a script of statements about the library; exits with 1 if one of them is false.
//!   sfen <sfen> | default        start from this position
//!   has <move> | hasnot <move>   the move is (not) in the list of legal moves
//!   count <n>                    number of legal moves
//!   nodup                        no move is returned twice
//!   check <bool>                 the side to move is in check
//!   gives <move> <bool>          the move is predicted to give check
//!   do <move> | undo             play a move; take back the last one
//!   ply <n>                      the move counter
//!   same                         everything answers like a freshly constructed position
//!   mark | marked                remember all answers; they are as remembered
//!   keydiff <sfen>               the key differs from that position's
//!   keys <sfen>                  both keys equal that position's
//!   keyxor                       key() is the exclusive-or of keys()
use shogi_core::{Color, Hand, Move, PartialPosition, Square};
use shogi_usi_parser::FromUsi;
use yasai::Position;

fn parse(s: &str) -> PartialPosition {
    PartialPosition::from_usi(&format!("sfen {s}")).expect("sfen")
}
fn partial(p: &Position) -> PartialPosition {
    let mut q = PartialPosition::empty();
    q.side_to_move_set(p.side_to_move());
    let _ = q.ply_set(p.ply());
    for c in Color::all() {
        *q.hand_of_a_player_mut(c) = p.hand(c);
    }
    for s in Square::all() {
        q.piece_set(s, p.piece_at(s));
    }
    q
}
fn text(m: Move) -> String {
    let sq = |s: Square| format!("{}{}", s.file(), (b'a' + s.rank() - 1) as char);
    match m {
        Move::Normal { from, to, promote } => format!("{}{}{}", sq(from), sq(to), if promote { "+" } else { "" }),
        Move::Drop { piece, to } => format!("{}*{}", ["P", "L", "N", "S", "G", "B", "R"][piece.piece_kind().array_index()], sq(to)),
    }
}
fn mv(p: &Position, t: &str) -> Move {
    let sq = |a: &str| {
        let b = a.as_bytes();
        Square::new(b[0] - b'0', b[1] - b'a' + 1).unwrap()
    };
    if t.as_bytes()[1] == b'*' {
        let k = "PLNSGBR".find(&t[..1]).unwrap();
        let pk = Hand::all_hand_pieces().find(|x| x.array_index() == k).unwrap();
        Move::Drop { piece: shogi_core::Piece::new(pk, p.side_to_move()), to: sq(&t[2..4]) }
    } else {
        Move::Normal { from: sq(&t[..2]), to: sq(&t[2..4]), promote: t.len() > 4 }
    }
}
fn list(p: &Position) -> Vec<String> {
    let mut v: Vec<String> = p.legal_moves().iter().map(|&m| text(m)).collect();
    v.sort();
    v
}
/// everything that can be asked
fn answers(p: &Position) -> String {
    let l = list(p);
    let g: Vec<String> = p.legal_moves().iter().map(|&m| format!("{}{}", text(m), p.is_check_move(m))).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let b: Vec<String> = Square::all().map(|s| format!("{:?}", p.piece_at(s))).collect();
    let h: Vec<String> = Color::all().into_iter().map(|c| Hand::all_hand_pieces().map(|k| format!("{:?} ", p.hand(c).count(k))).collect()).collect();
    format!("{:?} {} {:?} {} {:?} {:?} {:?} {:?} {:?}", p.side_to_move(), p.ply(), p.keys(), p.key(), p.in_check(), l, g, b, h)
}
fn main() {
    let f = std::env::args().nth(1).expect("script");
    let mut p = Position::default();
    let mut played: Vec<Move> = vec![];
    let mut mark = String::new();
    let mut bad = 0;
    for (n, l) in std::fs::read_to_string(&f).expect("script").lines().enumerate() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let (op, arg) = l.split_once(' ').unwrap_or((l, ""));
        let ok = match op {
            "sfen" => {
                p = Position::new(parse(arg));
                played.clear();
                true
            }
            "default" => {
                p = Position::default();
                played.clear();
                true
            }
            "has" => list(&p).iter().any(|m| m == arg),
            "hasnot" => !list(&p).iter().any(|m| m == arg),
            "count" => list(&p).len() == arg.parse::<usize>().unwrap(),
            "nodup" => {
                let l = list(&p);
                let n = l.len();
                l.into_iter().collect::<std::collections::BTreeSet<_>>().len() == n
            }
            "check" => p.in_check() == (arg == "true"),
            "gives" => {
                let (m, w) = arg.split_once(' ').unwrap();
                p.is_check_move(mv(&p, m)) == (w == "true")
            }
            "do" => {
                let m = mv(&p, arg);
                p.do_move(m);
                played.push(m);
                true
            }
            "undo" => {
                p.undo_move(played.pop().unwrap());
                true
            }
            "ply" => p.ply() == arg.parse::<u16>().unwrap(),
            "same" => answers(&p) == answers(&Position::new(partial(&p))),
            "mark" => {
                mark = answers(&p);
                true
            }
            "marked" => answers(&p) == mark,
            "keydiff" => p.key() != Position::new(parse(arg)).key(),
            "keys" => p.keys() == Position::new(parse(arg)).keys(),
            "keyxor" => p.key() == p.keys().0 ^ p.keys().1,
            _ => panic!("line {}: {l}", n + 1),
        };
        if !ok {
            eprintln!("line {}: false: {l}", n + 1);
            bad = 1;
        }
    }
    std::process::exit(bad);
}
