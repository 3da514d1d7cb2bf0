-------------------------------- MODULE Zones --------------------------------
(* The local timezone of a process: from which instant which offset is in     *)
(* force.  A zone is a sequence of eras [upto, std, dst, rules], upto the     *)
(* instant <<day, second>> at which the next one begins (<<>> for the last),  *)
(* std and dst offsets in seconds, rules <<>> or <<begin, end>> of daylight   *)
(* saving: [m, w, d, s] is second s of the w-th (5: the last) weekday d of    *)
(* month m, by the wall clock until then.                                     *)
EXTENDS Values

MonthDays(y, m) == DaysFromCivil(IF m = 12 THEN y + 1 ELSE y, IF m = 12 THEN 1 ELSE m + 1, 1) - DaysFromCivil(y, m, 1)
RuleDay(y, r) ==
  LET first == DaysFromCivil(y, r.m, 1)
      wd == (first + 4) % 7                       \* 0 is Sunday
      day == 1 + ((r.d + 7 - wd) % 7) + 7 * (r.w - 1)
  IN first + (IF day > MonthDays(y, r.m) THEN day - 7 ELSE day) - 1
Moment(day, s) == LET q == FloorDiv(s, 86400) IN <<day + q, s - q * 86400>>
Sooner(a, b) == LexCmp(SubSeq(a, 1, 2), b, 1) < 0

OffIn(e, i) ==
  IF e.rules = <<>> THEN e.std
  ELSE LET y == WallAt(i, e.std)[1]
           on == Moment(RuleDay(y, e.rules[1]), e.rules[1].s - e.std)
           off == Moment(RuleDay(y, e.rules[2]), e.rules[2].s - e.dst)
           saving == IF Sooner(on, off) THEN ~Sooner(i, on) /\ Sooner(i, off) ELSE ~Sooner(i, on) \/ Sooner(i, off)
       IN IF saving THEN e.dst ELSE e.std
(* the offset in force at an instant *)
OffAt(z, i) == OffIn(z[CHOOSE k \in DOMAIN z : (z[k].upto = <<>> \/ Sooner(i, z[k].upto))
                                             /\ \A j \in 1..(k - 1) : ~Sooner(i, z[j].upto)], i)
(* a wall clock reading is of the first instant showing it; where the clocks  *)
(* skip it, it is read as if they had not been changed yet                    *)
Offsets(z) == {z[k].std : k \in DOMAIN z} \cup {z[k].dst : k \in DOMAIN z}
OffOf(z, w) ==
  LET fit == {o \in Offsets(z) : OffAt(z, InstantAt(w, o)) = o}
  IN IF fit # {} THEN CHOOSE o \in fit : \A p \in fit : p <= o
     ELSE LET i == InstantAt(w, 0) IN OffAt(z, <<i[1] - 1, i[2], i[3]>>)
==============================================================================
