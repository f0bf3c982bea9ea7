------------------------------ MODULE MC_Extrude -----------------------------
(* Extrusion of a regular grid with rings of decreasing cell size: the top     *)
(* surface grows ring by ring from its boundary, then its interior, the sides  *)
(* and the bottom are added.  Points are << x, y, layer >> on the fine lattice. *)
EXTENDS Surface
CONSTANTS MAXL, EXTRA, STEPS
VARIABLES lv, cx, cy, ns, buf, str, tris, cnt, phase
vars == << lv, cx, cy, ns, buf, str, tris, cnt, phase >>
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8
Room(l) == IF l = 0 THEN 1 ELSE 2 * (Pow2(l + 1) - 2)        \* rings of all levels on both sides
NX == cx * Pow2(lv)   NY == cy * Pow2(lv)                    \* last index
Init == /\ lv \in 0..MAXL
        /\ \E a, b \in 0..EXTRA : cx = (Room(lv) + Pow2(lv) - 1) \div Pow2(lv) + a /\ cy = (Room(lv) + Pow2(lv) - 1) \div Pow2(lv) + b
        /\ ns \in STEPS /\ buf = 0 /\ str = Pow2(lv) /\ tris = {} /\ cnt = 0 /\ phase = "rings"
T3(a, b, c) == << << a[1], a[2], ns >>, << b[1], b[2], ns >>, << c[1], c[2], ns >> >>
BlTr(x, y, s) == { T3(<<x, y>>, <<x + s, y>>, <<x + s, y + s>>), T3(<<x, y>>, <<x + s, y + s>>, <<x, y + s>>) }
BrTl(x, y, s) == { T3(<<x, y>>, <<x + s, y>>, <<x, y + s>>), T3(<<x + s, y>>, <<x + s, y + s>>, <<x, y + s>>) }
\* a cell with a hanging node on one side (r: 0 right, 1 top, 2 left, 3 bottom), fan around the hanging node
Fan(x, y, s, r) ==
  LET h == s \div 2
      c == << <<x, y>>, <<x + s, y>>, <<x + s, y + s>>, <<x, y + s>> >>
      hang == CASE r = 0 -> <<x + s, y + h>> [] r = 1 -> <<x + h, y + s>> [] r = 2 -> <<x, y + h>> [] r = 3 -> <<x + h, y>>
      k == CASE r = 0 -> 3 [] r = 1 -> 4 [] r = 2 -> 1 [] r = 3 -> 2                    \* corner after the hanging node
      C(i) == c[((k + i - 1) % 4) + 1]
  IN { T3(hang, C(0), C(1)), T3(hang, C(1), C(2)), T3(hang, C(2), C(3)) }
Multiples(a, b, s) == { a + i * s : i \in 0..((b - a - 1) \div s) }
Ring ==
  LET xe == NX - buf - str  ye == NY - buf - str
      xs == Multiples(buf + str, xe, str)  ys == Multiples(buf + str, ye, str) IN
  BlTr(buf, buf, str) \cup BrTl(xe, buf, str) \cup BrTl(buf, ye, str) \cup BlTr(xe, ye, str)
  \cup (IF buf + str < ye THEN UNION { Fan(buf, y, str, 0) \cup Fan(xe, y, str, 2) : y \in ys } ELSE {})
  \cup (IF buf + str < xe THEN UNION { Fan(x, buf, str, 1) \cup Fan(x, ye, str, 3) : x \in xs } ELSE {})
RingCnt == LET i == (NX - 2 * buf - 2 * str) \div str  j == (NY - 2 * buf - 2 * str) \div str IN 8 + 6 * i + 6 * j
AddRing == /\ phase = "rings" /\ str > 1
           /\ tris' = tris \cup Ring /\ cnt' = cnt + RingCnt /\ buf' = buf + str /\ str' = str \div 2
           /\ UNCHANGED << lv, cx, cy, ns, phase >>
AddInner == /\ phase = "rings" /\ str = 1
            /\ tris' = tris \cup UNION { BlTr(x, y, 1) : x \in buf..(NX - buf - 1), y \in buf..(NY - buf - 1) }
            /\ cnt' = cnt + 2 * (NX - 2 * buf) * (NY - 2 * buf)
            /\ phase' = "top" /\ UNCHANGED << lv, cx, cy, ns, buf, str >>
Quad(a, b, c, d) == { << a, b, c >>, << a, c, d >> }
R == Pow2(lv)
Sides == UNION { Quad(<<x, 0, k>>, <<x + R, 0, k>>, <<x + R, 0, k + 1>>, <<x, 0, k + 1>>) \cup Quad(<<x + R, NY, k>>, <<x, NY, k>>, <<x, NY, k + 1>>, <<x + R, NY, k + 1>>)
                 : x \in { i * R : i \in 0..(cx - 1) }, k \in 0..(ns - 1) }
         \cup UNION { Quad(<<0, y + R, k>>, <<0, y, k>>, <<0, y, k + 1>>, <<0, y + R, k + 1>>) \cup Quad(<<NX, y, k>>, <<NX, y + R, k>>, <<NX, y + R, k + 1>>, <<NX, y, k + 1>>)
                 : y \in { i * R : i \in 0..(cy - 1) }, k \in 0..(ns - 1) }
Bottom == UNION { Quad(<<x, y, 0>>, <<x, y + R, 0>>, <<x + R, y + R, 0>>, <<x + R, y, 0>>) : x \in { i * R : i \in 0..(cx - 1) }, y \in { i * R : i \in 0..(cy - 1) } }
AddRest == /\ phase = "top"
           /\ tris' = tris \cup Sides \cup Bottom /\ cnt' = cnt + 4 * (cx + cy) * ns + 2 * cx * cy
           /\ phase' = "done" /\ UNCHANGED << lv, cx, cy, ns, buf, str >>
Next == AddRing \/ AddInner \/ AddRest
Spec == Init /\ [][Next]_vars
\* boundary of the top: coarse edges around the grid, and around the hole which is still open with the current cell size
Loop(b, s, dir) == LET hx == NX - b  hy == NY - b
                       P == { <<x, b>> : x \in Multiples(b, hx, s) } IN
  LET E == { << <<x, b, ns>>, <<x + s, b, ns>> >> : x \in Multiples(b, hx, s) } \cup { << <<hx, y, ns>>, <<hx, y + s, ns>> >> : y \in Multiples(b, hy, s) }
           \cup { << <<x + s, hy, ns>>, <<x, hy, ns>> >> : x \in Multiples(b, hx, s) } \cup { << <<b, y + s, ns>>, <<b, y, ns>> >> : y \in Multiples(b, hy, s) }
  IN IF dir = 1 THEN E ELSE { << e[2], e[1] >> : e \in E }
Hole == buf < NX - buf /\ buf < NY - buf
Rings == phase = "rings" /\ tris # {} /\ Hole => Simple(tris, cnt) /\ Border(tris) = Loop(0, R, 1) \cup Loop(buf, str, 2)
Top == phase = "top" => Simple(tris, cnt) /\ Border(tris) = Loop(0, R, 1)
\* the point of the ring construction: no cell of the top is flipped or degenerate
Up == phase # "done" => \A t \in tris : Area2(t[1], t[2], t[3]) > 0
Watertight == phase = "done" => Closed(tris, cnt) /\ Euler(tris) = 2
Inv == Rings /\ Top /\ Up /\ Watertight
=============================================================================
