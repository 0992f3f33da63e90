#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
POS = "all valid positions (every board, hand, side and counter the assumptions in the evidence allow); the code's loops run to their own end"
CHECKS = {
 "C01": "Per square of the mover's king: no returned move code together with any way in which that king is attacked afterwards. Bounds: " + POS + ".",
 "C02": "Per square of the mover's king: no rule-legal board move missing while not in check. Bounds: " + POS + ".",
 "C03": "Per square of the mover's king: every (from,to) that is returned is a movement of the piece on from to a square not held by its own side. Bounds: " + POS + ".",
 "C04": "Both promotion variants of every (from,to) against the rule. Bounds: " + POS + ".",
 "C05": "Every drop code equivalent to the drop rule, the pawn-mate clause set apart (C06). Bounds: " + POS + ".",
 "C06": "Per square of the opposing king: the pawn drop in front of it is returned exactly if the rule-level mate formula is false. Quick: that king on files 1, 2, 5, 9; thorough: everywhere. Bounds: " + POS + ".",
 "C07": "Every move code equivalent to rule legality while in check, the pawn-mate clause set apart (C06). Bounds: " + POS + ".",
 "C08": "Every pair of places in the code that can add the same element to the list excluded; the filter compared element-wise on lists of up to three elements. Bounds: " + POS + "; filter interplay of four or more elements rests on the list being walked element by element.",
 "C09": "The in-check answer equivalent to the attack rule. Bounds: " + POS + ".",
 "C10": "Per move: the gives-check answer equivalent to the rule-level attack formula on the successor position, or the move not legal. Quick: moves from 27 squares and all drops; thorough: every move. Bounds: " + POS + ", positions constructed directly.",
 "C11": "Per move: board, hands, side and counter read through the accessors after the move equal to the rule's successor, bit by bit, or the move not legal. Quick: moves from 27 squares and all drops; thorough: every move. Bounds: " + POS + "; one move from a constructed position.",
 "C12": "Per move: the whole state (board, bitboards, hands, side, counter, keys, derived sets, earlier states) after playing and taking back equal to the state before, bit by bit. Quick: moves from 27 squares and all drops; thorough: every move. Bounds: " + POS + "; one move from a constructed position on top of an arbitrary earlier state.",
 "C14": "Per move and captured piece: the three keys after the move, and after taking it back, equal to the keys the constructor computes for the resulting position. Quick: moves from 9 squares and all drops; thorough: every move. Bounds: " + POS + "; one move from a constructed position, longer histories by induction (the keys before the move are the constructor's).",
 "C15": "Two copies of the constructed keys differing in one square's content, one hand count, the side or the counter: the keys that must notice do, the others do not. Bounds: every pair of positions that agree elsewhere.",
 "C16": "Each accessor's every bit after construction equal to the position given; the default position executed and compared with the standard one; a clone's whole state equal to the original's, and each one's whole state unchanged by a move (and its taking back) on the other, for a handful of moves. Bounds: " + POS + ".",
 "C18": "The vector build (x86-64-v3, feature simd) against the same rule formulas as C01-C05, C07 and C09. Quick: mover's king on six squares (corner, edges, centre, absent), everything else symbolic; thorough: every square. The pawn-mate clause is set apart in this build.",
 "C17": "Every failure condition (panic, overflow, out of range, unreachable, bad enum, unchecked precondition) of construction, queries and move application unsatisfiable. Bounds: " + POS + ", one move deep.",
}
EXTRA = json.load(open(V + "/tools/extra_checks.json")) if os.path.exists(V + "/tools/extra_checks.json") else {}
CHECKS.update(EXTRA)
NA = {
 "C13": "the bit-by-bit comparison of the derived attack sets after a move with those of a constructed position is beyond the solver here except on samples (minutes per move); the parts that are decided are claimed elsewhere: accessors after a move (C11), gives-check answers (C10), keys (C14), take-back of the whole state (C12)",
 "C19": "the maximum number of moves over all placements of 40 pieces is a global combinatorial optimum: the cardinality query over about 2,900 move conditions is far beyond the solvers here; known over-full positions are described in DESIGN.md",
 "C20": "no standard library for AArch64 or wasm32 is installed, so /repo cannot be compiled to IR for these targets",
}
checks = []
for p in sorted(CHECKS):
    checks.append({
        "property": p,
        "quick_cmd": f"tools/run.sh {p} quick",
        "thorough_cmd": f"tools/run.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "symbolic execution of the compiled code's LLVM IR to a circuit over symbolic positions; SAT (MiniSat) decides the property's negation; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": CHECKS[p],
    })
m = {"version": 1, "setup_cmd": "tools/setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items()) if p not in CHECKS]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
