------------------------------ MODULE BlockDates ------------------------------
(* Looking up the restore height for a date, at real scale.  A chain is given *)
(* by its length, the time of its first block, the spacing, one gap (every    *)
(* block from there on is later) and one odd block (earlier or later than its *)
(* place).  The search asks the daemon for the times of three blocks at a     *)
(* time.  What it may answer is stated without the search: see Good.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lengths, Steps, Gaps, Odds, Offs, Days    \* Odds with 100000 added, Days with 1

Day == 86400
Base == 16000 * Day                     \* some midnight

VARIABLES c, target, lo, hi, ph, res, calls
vars == <<c, target, lo, hi, ph, res, calls>>

T(ch, h) == ch.t0 + ch.step * h + (IF h >= ch.gapAt THEN ch.gap ELSE 0) + (IF h = ch.oddAt THEN ch.odd ELSE 0)
Tip(ch) == ch.n - 1

(* places worth looking at: ends, middle, quarters and their neighbours *)
Places(n) == {p \in {0, 1, 2, n \div 2 - 1, n \div 2, (n - 1) \div 2, n \div 4, (3 * n) \div 4, n - 1440, n - 1441, 1440, 1441, n - 2, n - 1} : p >= 0 /\ p < n}

Chains == UNION {{[n |-> n, t0 |-> Base + o, step |-> s, gapAt |-> g[1], gap |-> g[2], oddAt |-> d[1], odd |-> d[2]] :
                  o \in Offs, s \in Steps,
                  g \in {<<0, 0>>} \cup {<<p, x>> : p \in Places(n) \ {0}, x \in Gaps},
                  d \in {<<0, 0>>} \cup {<<p, x>> : p \in Places(n), x \in {o - 100000 : o \in Odds}}} : n \in Lengths}

(* dates around interesting moments *)
Near(t) == {((t \div Day) + k - 1) * Day : k \in Days}
Dates(ch) == UNION {Near(T(ch, h)) : h \in {0, Tip(ch), Tip(ch) \div 2, (3 * ch.n) \div 4} \cup {ch.gapAt} \cup (IF ch.gapAt > 0 THEN {ch.gapAt - 1} ELSE {})}

(* only the neighbours of the two irregularities need comparing *)
Ordered(ch) == \A h \in {x \in {ch.gapAt - 1, ch.oddAt - 1, ch.oddAt, 0} : x >= 0 /\ x < Tip(ch)} : T(ch, h) <= T(ch, h + 1)

Init == /\ c \in Chains /\ (c.gap = 0 \/ c.odd = 0 \/ c.gapAt # c.oddAt)
        /\ target \in Dates(c) /\ target > 0
        /\ lo = 0 /\ hi = Tip(c) /\ ph = "search" /\ res = -1 /\ calls = 0

Mid == (lo + hi) \div 2
Answer(h) == ph' = "done" /\ res' = h /\ UNCHANGED <<c, target, lo, hi>>

Search ==
  /\ ph = "search" /\ calls' = calls + 1
  /\ IF ~(T(c, lo) <= T(c, Mid) /\ T(c, Mid) <= T(c, hi)) THEN Answer(lo)
     ELSE IF target > T(c, hi) THEN ph' = "future" /\ UNCHANGED <<c, target, lo, hi, res>>
     ELSE IF target <= T(c, lo) + 2 * Day THEN Answer(lo)
     ELSE LET l == IF target <= T(c, Mid) THEN lo ELSE Mid
              g == IF target <= T(c, Mid) THEN Mid ELSE hi
          IN IF g - l <= 1440 THEN ph' = "done" /\ res' = l /\ lo' = l /\ hi' = g /\ UNCHANGED <<c, target>>
             ELSE lo' = l /\ hi' = g /\ UNCHANGED <<c, target, ph, res>>
Next == Search
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what is promised ---- *)
NotLater(h) == h = 0 \/ T(c, h) <= target
Min(a, b) == IF a < b THEN a ELSE b
NotEarly(h) == target <= T(c, h) + 2 * Day \/ T(c, Min(h + 1440, Tip(c))) >= target
Future == target > T(c, Tip(c))
Good(h) == h >= 0 /\ h <= Tip(c) /\ NotLater(h) /\ (Ordered(c) => NotEarly(h))

Right == ph = "done" => Good(res)
Refuses == /\ (ph = "future" => Future)
           /\ (ph = "done" /\ Future => ~Ordered(c))
Within == ph = "search" => lo <= hi /\ NotLater(lo) /\ calls <= 40
Ends == <>(ph # "search")

(* the earliest and latest height an ordered chain permits, for the record of each case (found by the same monotonicity) *)
RECURSIVE Last(_, _), First(_, _)
Last(a, b) == IF a = b THEN a ELSE LET m == (a + b + 1) \div 2 IN IF T(c, m) <= target THEN Last(m, b) ELSE Last(a, m - 1)
First(a, b) == IF a = b THEN a ELSE LET m == (a + b) \div 2 IN IF NotEarly(m) THEN First(a, m) ELSE First(m + 1, b)
Range == IF Ordered(c) /\ ~Future THEN <<First(0, Tip(c)), Last(0, Tip(c))>> ELSE <<0, Tip(c)>>
RangeRight == (ph = "done" /\ Ordered(c)) => /\ Range[1] <= res /\ res <= Range[2]
                                             /\ (T(c, 0) <= target => NotLater(Range[2]) /\ NotEarly(Range[1]))

Emit == ph # "search" => PrintT("@V " \o ToJson([c |-> c, target |-> target, ordered |-> Ordered(c), future |-> Future,
                                                 first |-> Range[1], last |-> Range[2]]))
=============================================================================
