--------------------------------- MODULE Clock ---------------------------------
(* Timezone objects: fixed offsets, the local timezone, and the current time.  *)
(* A timezone is [k, min, name]: "fixed", so many minutes east, name <<>> or   *)
(* its own; or "local", name the pair used outside and during daylight saving. *)
EXTENDS Zones, TLC

Clause(cond, name) == IF cond THEN {} ELSE {name}

DayBefore(i) == <<i[1] - 1, i[2], i[3]>>
DayAfter(i) == <<i[1] + 1, i[2], i[3]>>
Fit(z, w) == {o \in Offsets(z) : OffAt(z, InstantAt(w, o)) = o}
Skipped(z, w) == Fit(z, w) = {}
(* a reading the clocks show twice is the earlier time unless folded; one they *)
(* skip is read as before the change unless folded                             *)
LocalOff(z, w, fold) ==
  LET f == Fit(z, w)
  IN IF f = {} THEN OffAt(z, IF fold = 0 THEN DayBefore(InstantAt(w, 0)) ELSE DayAfter(InstantAt(w, 0)))
     ELSE IF fold = 0 THEN CHOOSE o \in f : \A p \in f : p <= o
     ELSE CHOOSE o \in f : \A p \in f : o <= p

Saving(z, off) == z[1].dst # z[1].std /\ off = z[1].dst
FixedName(m) ==
  LET a == IF m < 0 THEN -m ELSE m
  IN (IF m < 0 THEN <<45>> ELSE <<43>>) \o Pad(a \div 60, 2) \o (IF a % 60 = 0 THEN <<>> ELSE <<58>> \o Pad(a % 60, 2))

OffsetOf(z, tz, w, fold) == IF tz.k = "fixed" THEN tz.min * 60 ELSE LocalOff(z, w, fold)
SavingOf(z, tz, off) == IF tz.k = "fixed" \/ ~Saving(z, off) THEN 0 ELSE z[1].dst - z[1].std
NameOf(z, tz, off) ==
  IF tz.k = "fixed" THEN (IF tz.name # <<>> THEN tz.name[1] ELSE FixedName(tz.min))
  ELSE tz.name[IF Saving(z, off) THEN 2 ELSE 1]

(* an instant read in a timezone: the wall clock, and whether it shows it again *)
ReadIn(z, tz, i) ==
  LET off == IF tz.k = "fixed" THEN tz.min * 60 ELSE OffAt(z, i)
      w == WallAt(i, off)
  IN [w |-> w, off |-> off, fold |-> IF tz.k = "local" /\ LocalOff(z, w, 0) # off THEN 1 ELSE 0]

ClockVerdict(ev) ==
  Clause(ev.r = "ok", "failed " \o ev.r)
  \cup (IF ev.r # "ok" THEN {}
        ELSE CASE ev.what = "reading" ->
                    LET off == OffsetOf(ev.z, ev.tz, ev.w, ev.fold)
                    IN Clause(ev.out.off = off, "offset: expected " \o ToString(off))
                       \cup (IF ev.named = 0 \/ (ev.tz.k = "local" /\ Skipped(ev.z, ev.w)) THEN {}
                             ELSE Clause(ev.out.dst = SavingOf(ev.z, ev.tz, off), "daylight-saving")
                                  \cup Clause(ev.out.name = NameOf(ev.z, ev.tz, off), "name: expected " \o ToString(NameOf(ev.z, ev.tz, off))))
               [] ev.what = "convert" ->
                    LET x == ReadIn(ev.z, ev.tz, ev.at)
                    IN Clause(ev.out = x, "converted: expected " \o ToString(x))
               [] ev.what = "now" ->
                    LET i == InstantAt(ev.w, ev.out.off)
                    IN Clause(LexCmp(ev.early, i, 1) <= 0 /\ LexCmp(i, ev.late, 1) <= 0, "current-time")
                       \cup Clause(ev.out.off = ReadIn(ev.z, ev.tz, i).off, "timezone-of-current-time"))
================================================================================
