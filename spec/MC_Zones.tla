-------------------------------- MODULE MC_Zones --------------------------------
(* Every quarter of an hour around every change of clocks, in several zones:   *)
(* converting a datetime never changes its instant (C27).                      *)
EXTENDS Fields

CONSTANTS Years, Hours

R(m, w, d, s) == [m |-> m, w |-> w, d |-> d, s |-> s]
E(upto, std, dst, rules) == [upto |-> upto, std |-> std, dst |-> dst, rules |-> rules]
Table ==
  <<<<E(<<>>, 0, 0, <<>>)>>,
    <<E(<<>>, -18000, -14400, <<R(3, 2, 0, 7200), R(11, 1, 0, 7200)>>)>>,
    <<E(<<>>, 3600, 7200, <<R(3, 5, 0, 7200), R(10, 5, 0, 10800)>>)>>,
    <<E(<<>>, 43200, 46800, <<R(9, 5, 0, 7200), R(4, 1, 0, 10800)>>)>>,
    <<E(<<>>, 37800, 39600, <<R(10, 1, 0, 7200), R(4, 1, 0, 7200)>>)>>,
    <<E(<<>>, 3600, 0, <<R(10, 5, 0, 7200), R(3, 5, 0, 3600)>>)>>,
    <<E(<<>>, 20700, 20700, <<>>)>>,
    <<E(InstantAt(<<2011, 3, 26, 23, 0, 0, 0>>, 0), 10800, 14400, <<R(3, 5, 0, 7200), R(10, 5, 0, 10800)>>),
      E(InstantAt(<<2014, 10, 25, 22, 0, 0, 0>>, 0), 14400, 14400, <<>>), E(<<>>, 10800, 10800, <<>>)>>>>
Two(i) == SubSeq(i, 1, 2)
Zone(k) == [j \in DOMAIN Table[k] |-> [Table[k][j] EXCEPT !.upto = IF @ = <<>> THEN <<>> ELSE Two(@)]]
Changes(k) ==
  UNION {LET e == Table[k][j] IN
         (IF e.upto = <<>> THEN {} ELSE {Two(e.upto)}) \cup
         (IF e.rules = <<>> THEN {<<DaysFromCivil(y, 7, 1), 0>> : y \in Years}
          ELSE {Moment(RuleDay(y, e.rules[1]), e.rules[1].s - e.std) : y \in Years}
               \cup {Moment(RuleDay(y, e.rules[2]), e.rules[2].s - e.dst) : y \in Years})
         : j \in DOMAIN Table[k]}
Around(c) == {Moment(c[1], c[2] + 900 * q) \o <<0>> : q \in (-4 * Hours)..(4 * Hours)}

VARIABLES k, i
Init == k = 1 /\ i = <<>>
Next == \/ i = <<>> /\ k' \in DOMAIN Table /\ i' \in UNION {Around(c) : c \in Changes(k')}
Spec == Init /\ [][Next]_<<k, i>>

Z == Zone(k)
Cx == [tz |-> Z]
F(utc) == [utc |-> utc]
On == i # <<>>
Local == WallAt(i, OffAt(Z, i))
Aware(off) == Nd("dt", WallAt(i, off) \o <<1, off>>, <<>>)

(* an aware datetime denotes the same instant once processed, by fields in UTC or local time, and again *)
Keeps == On => \A u \in {0, 1}, w \in {0, 1} : \A off \in {0, 19800, -43200} \cup Offsets(Z) :
  LET a == NormDt(Cx, F(u), Aware(off))[1]
      b == NormDt(Cx, F(w), a)[1]
  IN /\ DtInstant(a) = i /\ DtInstant(b) = i
     /\ u = w => a = b
     /\ u = 1 => a.n[9] = 0
     /\ ParseDateTime(StampText(WallAt(DtInstant(a), 0)))[1] = SubSeq(WallAt(i, 0), 1, 6)
(* a naive local reading means this instant, or an earlier one with the same reading *)
Read == On =>
  LET n == NormDt(Cx, F(0), Nd("dt", Local \o <<0, 0>>, <<>>))[1]
      j == DtInstant(n)
  IN /\ Wall(n) = Local
     /\ OffAt(Z, j) = n.n[9]
     /\ LexCmp(j, i, 1) <= 0
     /\ j # i => LexCmp(<<j[1] + 1, j[2], 0>>, i, 1) > 0
     /\ DtInstant(NormDt(Cx, F(1), Nd("dt", Local \o <<0, 0>>, <<>>))[1]) = InstantAt(Local, 0)
(* the local timezone object: every instant converts to a reading which means it again *)
KM == INSTANCE Clock
Folds == On =>
  LET tz == [k |-> "local", min |-> 0, name |-> <<>>]
      x == KM!ReadIn(Z, tz, i)
      other == KM!LocalOff(Z, x.w, 1 - x.fold)
  IN /\ KM!LocalOff(Z, x.w, x.fold) = x.off /\ InstantAt(x.w, x.off) = i
     /\ ~KM!Skipped(Z, x.w)
     /\ KM!LocalOff(Z, x.w, 0) >= KM!LocalOff(Z, x.w, 1)
     /\ other # x.off => KM!ReadIn(Z, tz, InstantAt(x.w, other)) = [w |-> x.w, off |-> other, fold |-> 1 - x.fold]
     /\ LET sk == WallAt(InstantAt(x.w, -3600), 0) IN    \* an hour later by the clock
        KM!Skipped(Z, sk) => KM!LocalOff(Z, sk, 0) < KM!LocalOff(Z, sk, 1)
(* bounds order instants, however they are written *)
Ordered == On => \A d \in {-900, 0, 900} : \A off \in {0, -43200} \cup Offsets(Z) :
  LET m == Moment(i[1], i[2] + d) \o <<0>>
      bound == Nd("dt", WallAt(m, off) \o <<1, off>>, <<>>)
      stamp == Str(StampText(WallAt(m, 0)))
  IN \A u \in {0, 1} : BoundDt(Cx, F(u), bound) = m /\ BoundDt(Cx, F(u), stamp) = m
=================================================================================
