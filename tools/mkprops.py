import json
def P(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a}
MG="src/movegen.rs"; PO="src/position.rs"; TA="src/tables.rs"; ZO="src/zobrist.rs"; BB="src/bitboard.rs"; CO="src/bitboard/core.rs"; X8="src/bitboard/x86_64.rs"
allpos="every position with at most one king per side in which the side not to move is not in check, no piece stands where it could never move, no side has two unpromoted pawns on a file, and hands hold at most the number of pieces a set contains"
st_ai=("attack information","checkers, squares from which each kind would give check, and pieces shielding each king, stored per history entry",PO+" (State, AttackInfo)")
st_bb=("bitboards","per-colour and per-kind occupancy mirroring the mailbox board",PO+" (PartialPosition)")
ps=[
P("C01","No legal move leaves the mover's own king open to capture",
 "After any move returned by the legal-move query is played, the king of the player who moved is not attacked by any enemy piece. This covers king steps, pinned pieces, discovered lines through the vacated square, and drops while in check.",
 ["inputs"],"Over "+allpos+", and every move the query returns.",
 "The tests look at a few dozen hand-written positions and perft counts at shallow depth from two start positions; a wrong ray or pin mask that needs a particular arrangement of sliders is not reached, while the claim ranges over every arrangement.",
 [MG,PO,TA,BB,CO],[("final legality filter (king destination attacked, pinned piece leaves the line)",MG+" is_legal"),("pin computation",PO+" AttackInfo::new"),("attackers to a square",MG+" attackers_to")],[st_ai,st_bb],["Position::legal_moves"]),
P("C02","Every rule-legal move of a piece on the board is returned when not in check",
 "When the side to move is not in check, every board move permitted by the rules of shogi (piece movement, own-piece blocking, line blocking, no self-check, promotion options) is in the list returned by the legal-move query.",
 ["inputs"],"Over "+allpos+" where the mover is not in check, and every (from, to, promote) triple.",
 "Move counts of sample positions cannot show that no arrangement loses a move; sliding-piece attack arithmetic depends on the full occupancy of up to four rays.",
 [MG,TA,BB,CO,PO],[("per-kind generators",MG+" generate_for_*"),("sliding attacks from occupancy",TA+" SlidingAttackTable, LanceAttackTable"),("bit iteration and shifts",CO)],[st_bb],["Position::legal_moves"]),
P("C03","Returned board moves obey the movement and capture rules",
 "Every board move in the returned list starts on a piece of the side to move, follows that piece's movement, does not jump over pieces unless it is a knight, and does not land on a piece of the same side or off the board.",
 ["inputs"],"Over "+allpos+", and every board move the query returns.",
 "Tests compare counts or small sets for sample boards; a spurious move that appears only for a particular blocker pattern, file edge or word boundary of the board representation stays unseen.",
 [MG,TA,BB,CO],[("per-kind generators and target masks",MG+" generate_for_*"),("tables of step and ray targets",TA)],[st_bb],["Position::legal_moves"]),
P("C04","Promotion is offered exactly where the rules allow and forced where required",
 "For every board move otherwise in the list, the promoting variant is present exactly when the piece is of a promotable kind and the move starts or ends in the promotion zone, and the non-promoting variant is present exactly when the piece would still have a move from its destination.",
 ["inputs"],"Over "+allpos+", both sides, and every (from, to) pair.",
 "The rules split by kind, colour, and both end ranks; the tests pin a handful of squares.",
 [MG,TA],[("promotion-zone table",TA+" PROMOTABLE"),("relative ranks",TA+" RELATIVE_RANKS"),("promotion branches",MG+" generate_for_*")],None,["Position::legal_moves"]),
P("C05","Drops are returned exactly when the rules allow them",
 "A drop is in the returned list exactly when the piece is in the mover's hand, the square is empty, the piece would have a move from there, a pawn does not become the second unpromoted pawn of its side on the file, the mover's king is not left attacked, and it is not a pawn drop giving mate.",
 ["inputs"],"Over "+allpos+", every hand, every kind and square.",
 "Hands times boards is far beyond what tests enumerate; the two-pawn mask is word arithmetic over all nine files at once whose carries are only exercised by particular files.",
 [MG,TA,CO,X8],[("drop generator",MG+" generate_drop"),("vacant-file arithmetic",CO+" vacant_files")],[st_bb],["Position::legal_moves"]),
P("C06","A pawn drop is withheld exactly when it would be checkmate",
 "A pawn drop that gives check and is otherwise legal is missing from the list if and only if the opponent would have no legal reply to it: no king step or capture by the king, and no capture of the pawn by another piece that is free to move.",
 ["inputs"],"Over "+allpos+" with a pawn in hand, and every pawn drop.",
 "The judgement combines defenders, pins, x-rays through the king and escape squares around it; the tests contain a few fixed diagrams.",
 [MG,PO],[("pawn-drop mate judgement",MG+" is_pawn_drop_mate"),("attackers excluding king, lance and pawn",MG+" attackers_to_except_klp")],[st_ai],["Position::legal_moves"]),
P("C07","In check, the list is exactly the set of legal evasions",
 "When the side to move is in check, the returned list contains exactly the moves that end the check: king steps to safe squares, captures of a single checking piece, and interpositions by move or drop; under double check only king moves. An empty list in check means checkmate.",
 ["inputs"],"Over "+allpos+" where the mover is in check by any number of pieces, and every move.",
 "Check patterns (kind, distance, blockers, pins, double checks, promoted sliders) multiply beyond sample diagrams.",
 [MG,PO,TA],[("evasion generator",MG+" generate_evasions"),("squares between",TA+" BETWEEN_TABLE"),("checkers",PO+" AttackInfo::calculate_checkers")],[st_ai],["Position::legal_moves"]),
P("C08","No move is returned twice",
 "The list returned by the legal-move query contains no duplicate move.",
 ["inputs"],"Over "+allpos+", and every pair of list entries.",
 "Perft totals would notice a duplicate only in the sampled positions.",
 [MG],[("disjoint generators and bit iteration",MG)],None,["Position::legal_moves"]),
P("C09","The in-check query tells the truth",
 "The in-check query returns true exactly when the king of the side to move is attacked by at least one enemy piece; it is false when that side has no king.",
 ["inputs"],"Over every arrangement of pieces with at most one king per side and either side to move.",
 "Tests assert it on sample positions; sliding lines with arbitrary blockers are not enumerable.",
 [PO,TA,CO],[("checkers from the king's square",PO+" AttackInfo::calculate_checkers")],[st_ai],["Position::in_check"]),
P("C10","Check prediction for a move matches the position after it",
 "Before a legal move is played, the gives-check query for that move returns true exactly when the opponent's king is attacked once the move has been played, by direct check, by discovered check, or both.",
 ["inputs"],"Over "+allpos+", and every legal move.",
 "Discovered checks need a slider, a shield and a king on one line plus a move that leaves it; tests hold few such diagrams.",
 [PO,TA],[("squares giving check per kind",PO+" AttackInfo::new"),("shielding pieces and line test",PO+" is_check_move")],[st_ai],["Position::is_check_move"]),
P("C11","Playing a legal move yields the position the rules prescribe",
 "After a legal move is played, the board, both hands, the side to move and the move counter are what the rules prescribe: the piece moves (promoted if asked), a captured piece joins the mover's hand unpromoted, a dropped piece leaves the hand, the turn passes and the counter grows by one. Everything else is unchanged.",
 ["inputs","histories"],"Over "+allpos+", every legal move, and so every game by induction.",
 "Tests follow a few games; captures of every promoted kind by every kind at every square are not enumerated.",
 [PO],[("make move",PO+" do_move")],[st_bb],["Position::piece_at","Position::hand","Position::side_to_move","Position::ply"]),
P("C12","Taking back a move restores the previous position completely",
 "Playing any legal move and taking it back restores every observable of the position: board, hands, side to move, counter, keys, in-check state, gives-check answers and legal moves. By last-in-first-out nesting this holds for any sequence of moves.",
 ["inputs","histories"],"Over "+allpos+" reached by any history, and every legal move.",
 "Tests undo a few games; a field that is restored wrongly only for promotions, captures of promoted pieces or drops may not show up.",
 [PO],[("unmake move",PO+" undo_move"),("history stack",PO+" states")],[st_bb,st_ai],["Position::undo_move"]),
P("C13","A position reached by play behaves like the same position built directly",
 "After any legal move, every query (legal moves, in-check, gives-check, accessors) answers as it would for a position constructed directly from the resulting board, hands, side and counter; how the position was reached does not matter.",
 ["inputs","histories"],"Over "+allpos+", every legal move, and so every history by induction.",
 "Incrementally maintained data can drift for rare move kinds (discovered double checks, captures on a shielding square); tests replay few lines.",
 [PO],[("incremental bitboards and attack information",PO+" do_move")],[st_bb,st_ai],["Position::do_move","Position::new"]),
P("C14","The hash key depends only on the position, not on how it was reached",
 "After any sequence of legal moves and take-backs the hash keys equal those of a position constructed directly from the same board, hands and side to move, and the combined key is the exclusive-or of the two partial keys. Positions that agree in board, hands and side therefore always share their keys.",
 ["inputs","histories"],"Over "+allpos+", either side to move, every legal move, and so every pair of histories by induction.",
 "The tests compare keys along a few transpositions that start from the initial position; construction with the second player to move is not compared with play.",
 [PO,ZO],[("incremental key update",PO+" do_move"),("key from scratch",PO+" new"),("key tables",ZO)],None,["Position::key","Position::keys"]),
P("C15","Board and hand keys are separate and notice every single difference",
 "The first partial key depends only on the board and the side to move, the second only on the hands. Two positions that differ only in the side to move, in the content of one square, or in the count of one hand piece have different keys.",
 ["inputs"],"Over all pairs of positions that differ in one such feature.",
 "The tests compare a couple of pairs; a table cell reused for two features is only noticed by a pair that uses both.",
 [ZO,PO],[("random tables with reserved turn bit",ZO),("key from scratch",PO+" new")],None,["Position::key","Position::keys"]),
P("C16","Construction and accessors report exactly the given position",
 "A position built from a given board, hands, side to move and counter reports exactly those values through its accessors; the default position is the standard initial position; a clone answers like the original and is independent of it.",
 ["inputs"],"Over every board content (any piece or none on each of the 81 squares), hands, side and counter.",
 "Tests read back a few squares of a few positions.",
 [PO],[("conversion and accessors",PO+" new, From, piece_at, hand")],[st_bb],["Position::new","Position::default","Position::piece_at","Position::hand","Position::side_to_move","Position::ply"]),
P("C17","No valid input makes the library panic, overflow or break an unsafe contract",
 "For every valid position and every legal move, constructing, querying, playing and taking back complete without panic, arithmetic overflow, out-of-range table access, or violation of a precondition of an unchecked operation (the move counter staying below its maximum, list capacity aside).",
 ["inputs","histories"],"Over "+allpos+", and every legal move.",
 "Unchecked square construction and table indexing are guarded only by debug assertions on the sampled inputs.",
 [PO,MG,TA,CO,ZO],[("unchecked conversions",MG+" from_u8_unchecked; "+CO),("unwraps on board content",PO)],[st_bb],["all public methods"]),
P("C18","The SIMD build answers like the portable build",
 "Built with the SIMD feature on x86-64 with AVX2, the library returns the same legal moves and in-check answers as the rules prescribe, and so as the portable build does, for every valid position.",
 ["inputs","configurations"],"Over "+allpos+", for the portable and the AVX2 backend.",
 "Both test configurations run the same sample positions; byte-wise ray arithmetic with per-lane carries differs from the portable code only for particular occupancy patterns.",
 [X8,CO,BB],[("AVX2 sliding attacks and bit iteration",X8)],[st_bb],["Position::legal_moves","Position::in_check"]),
P("C19","The legal-move list never runs out of room",
 "No valid position has more legal moves (or more candidate moves during generation) than the fixed capacity of the list that holds them.",
 ["inputs"],"Over every valid position with a full set of pieces.",
 "The bound 593 is a combinatorial maximum over all placements of 40 pieces; tests include one such position.",
 [MG],[("list capacity constant",MG+" MAX_LEGAL_MOVES")],None,["Position::legal_moves"]),
P("C20","The other vector backends answer like the portable build",
 "Built with the SIMD feature for AArch64 (NEON) or WebAssembly (simd128), the library answers every query as the portable build does.",
 ["inputs","configurations"],"Over "+allpos+", for the NEON and simd128 backends.",
 "The tests here run only the x86-64 backends.",
 ["src/bitboard/aarch64.rs","src/bitboard/wasm32.rs",BB],[("NEON and simd128 bitboards","src/bitboard/aarch64.rs, src/bitboard/wasm32.rs")],None,["all public methods"]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in ps))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in ps: jsonschema.validate(p,s)
print(len(ps))
