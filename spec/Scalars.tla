------------------------------- MODULE Scalars -------------------------------
(* Outcomes of processing, and the text forms of dates, times, tokens and    *)
(* addresses (see Fields for what a field and cx are).                       *)
EXTENDS Zones, TLC

Dot(name) == <<46>> \o name
Brk(t) == <<91>> \o t \o <<93>>

NoErr == [k |-> "none", toks |-> <<>>, path |-> <<>>, sk |-> "none", sub |-> <<>>, d |-> <<>>]
OkR(v) == [r |-> "ok", v |-> v, e |-> NoErr]
UndefR == [r |-> "undef", v |-> Null, e |-> NoErr]
ErrR(e) == [r |-> "err", v |-> Null, e |-> e]
Leaf(k, tok, path) == [k |-> k, toks |-> <<tok>>, path |-> path, sk |-> "none", sub |-> <<>>, d |-> <<>>]
TypeErr(tok, path) == ErrR(Leaf("type", tok, path))
ValErr(tok, path) == ErrR(Leaf("val", tok, path))
Tree(path, sk, sub) == ErrR([k |-> "val", toks |-> <<>>, path |-> path, sk |-> sk, sub |-> sub, d |-> <<>>])
(* d says who refused what: [f, v, ph, ser, nm], nm the name of the member    *)
(* at fault when it is not the value itself (see Reports)                     *)
Blamed(r, f, v, ph, ser, nm) ==
  IF r.r # "err" \/ r.e.d # <<>> THEN r
  ELSE [r EXCEPT !.e.d = <<[f |-> f, v |-> v, ph |-> ph, ser |-> ser, nm |-> nm]>>]
Sub(key, errs) == [key |-> key, err |-> errs]

(* a conversion done by Python itself: <<>> when it fails, else <<result>> *)
Fact(cx, fn, a) ==
  LET S == {i \in DOMAIN cx.facts : cx.facts[i].f = fn /\ cx.facts[i].a = a}
  IN IF S = {} THEN (IF PrintT(<<"MISSING FACT", fn, a>>) THEN <<Nd("missing", <<>>, <<>>)>> ELSE <<>>)
     ELSE cx.facts[CHOOSE i \in S : TRUE].r
HasFact(cx, fn, a) == \E i \in DOMAIN cx.facts : cx.facts[i].f = fn /\ cx.facts[i].a = a

(* ------------------------------------------------------- text of dates *)
DigitVal(ch) == IF ch \in 48..57 THEN ch - 48
                ELSE IF ch \in 1632..1641 THEN ch - 1632
                ELSE IF ch \in 65296..65305 THEN ch - 65296 ELSE -1
RECURSIVE NumOf(_)
NumOf(s) == IF s = <<>> THEN 0 ELSE NumOf(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitVal(s[Len(s)])
AllDigits(s) == \A i \in DOMAIN s : DigitVal(s[i]) >= 0
(* one or two digits, at most hi; first character ASCII where strptime says so *)
Field2(s, lo, hi) ==
  /\ Len(s) \in {1, 2}
  /\ AllDigits(s)
  /\ NumOf(s) >= lo /\ NumOf(s) <= hi
  /\ (Len(s) = 2 => s[1] \in 48..57)
Asc(s) == \A i \in DOMAIN s : s[i] \in 48..57
MonthOk(s) == Field2(s, 1, 12) /\ Asc(s)
(* day: 3[0-1]|[1-2]\d|0[1-9]|[1-9]| [1-9] *)
DayOk(s) == \/ Field2(s, 1, 31) /\ (Asc(s) \/ (Len(s) = 2 /\ s[1] \in {49, 50}))
            \/ Len(s) = 2 /\ s[1] = 32 /\ s[2] \in 49..57
DayNum(s) == IF s[1] = 32 THEN s[2] - 48 ELSE NumOf(s)
HourOk(s) == Field2(s, 0, 23) /\ (Len(s) = 2 /\ s[1] = 50 => Asc(s))
MinuteOk(s) == Field2(s, 0, 59)
SecondOk(s) == Field2(s, 0, 59)
YearOk(s) == Len(s) = 4 /\ AllDigits(s) /\ NumOf(s) >= 1
CivilOk(y, m, d) == y >= 1 /\ y <= 9999 /\ m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= DaysInMonth(y, m)

(* <<>> or <<<<y, m, d>>>> *)
ParseDate(s) ==
  LET p == SplitOn(s, 45, <<>>)
  IN IF Len(p) = 3 /\ YearOk(p[1]) /\ MonthOk(p[2]) /\ DayOk(p[3])
        /\ CivilOk(NumOf(p[1]), NumOf(p[2]), DayNum(p[3]))
     THEN <<<<NumOf(p[1]), NumOf(p[2]), DayNum(p[3])>>>> ELSE <<>>
ParseTime(s) ==
  LET p == SplitOn(s, 58, <<>>)
  IN IF Len(p) = 3 /\ HourOk(p[1]) /\ MinuteOk(p[2]) /\ SecondOk(p[3])
     THEN <<<<NumOf(p[1]), NumOf(p[2]), NumOf(p[3])>>>> ELSE <<>>
ParseDateTime(s) ==
  LET cut == {i \in DOMAIN s : s[i] \in {84, 116}}
  IN IF Cardinality(cut) # 1 \/ s = <<>> THEN <<>>
     ELSE IF s[Len(s)] \notin {90, 122} THEN <<>>
     ELSE LET k == CHOOSE i \in cut : TRUE
              d == ParseDate(SubSeq(s, 1, k - 1))
              t == ParseTime(SubSeq(s, k + 1, Len(s) - 1))
          IN IF d = <<>> \/ t = <<>> THEN <<>> ELSE <<d[1] \o t[1]>>

DateText(n) == Pad(n[1], 4) \o <<45>> \o Pad(n[2], 2) \o <<45>> \o Pad(n[3], 2)
TimeText(h, m, s) == Pad(h, 2) \o <<58>> \o Pad(m, 2) \o <<58>> \o Pad(s, 2)
StampText(w) == DateText(w) \o <<84>> \o TimeText(w[4], w[5], w[6]) \o <<90>>

(* ------------------------------------------------------- datetimes *)
YearRange(w) == w[1] >= 1 /\ w[1] <= 9999
LocalOffAt(cx, i) == OffAt(cx.tz, i)
LocalOffOf(cx, w) == OffOf(cx.tz, w)
(* the datetime moved into the timezone of f: <<>> when out of range *)
NormDt(cx, f, v) ==
  IF DtAware(v) THEN
    LET i == DtInstant(v)
    IN IF ~YearRange(WallAt(i, 0)) THEN <<>>
       ELSE LET off == IF f.utc = 1 THEN 0 ELSE LocalOffAt(cx, i)
            IN IF ~YearRange(WallAt(i, off)) THEN <<>>
               ELSE <<Nd("dt", WallAt(i, off) \o <<1, off>>, <<>>)>>
  ELSE LET off == IF f.utc = 1 THEN 0 ELSE LocalOffOf(cx, v.n)
       IN <<Nd("dt", Wall(v) \o <<1, off>>, <<>>)>>
BoundDt(cx, f, b) ==          \* an instant
  IF b.t = "str" THEN InstantAt(ParseDateTime(b.n)[1] \o <<0>>, 0)
  ELSE DtInstant(NormDt(cx, f, b)[1])
BoundDate(b) == IF b.t = "str" THEN ParseDate(b.n)[1] ELSE SubSeq(b.n, 1, 3)
BoundTime(b) == IF b.t = "str" THEN ParseTime(b.n)[1] \o <<0>> ELSE SubSeq(b.n, 1, 4)
BoundDec(cx, b) == IF b.t = "str" THEN Fact(cx, "dec", b)[1] ELSE b

(* ------------------------------------------------------------- text *)
IsWord(cx, ch) == ch \in 48..57 \/ ch \in 65..90 \/ ch \in 97..122 \/ ch = 95
                  \/ (ch > 127 /\ \E i \in DOMAIN cx.words : cx.words[i] = ch)
SegmentOk(cx, s) ==
  /\ s # <<>>
  /\ IsWord(cx, s[1]) /\ IsWord(cx, s[Len(s)])
  /\ \A i \in DOMAIN s : s[i] \in {45, 43, 46} \/ IsWord(cx, s[i])
TokenOk(cx, s) == LET p == SplitOn(s, 58, <<>>) IN \A i \in DOMAIN p : SegmentOk(cx, p[i])
HexDigit(ch) == ch \in 48..57 \/ ch \in 97..102
UuidOk(s) ==
  /\ Len(s) = 36
  /\ \A i \in 1..36 : IF i \in {9, 14, 19, 24} THEN s[i] = 45 ELSE HexDigit(s[i])

(* email addresses *)
AtomRE == RSet(<<<<33,33>>, <<35,39>>, <<42,43>>, <<45,45>>, <<47,47>>, <<48,57>>, <<61,61>>,
                 <<63,63>>, <<65,90>>, <<94,126>>>>)
QText == RSet(<<<<1,8>>, <<11,11>>, <<12,12>>, <<14,31>>, <<33,33>>, <<35,91>>, <<93,127>>>>)
QPair == RSet(<<<<1,9>>, <<11,11>>, <<12,12>>, <<14,127>>>>)
AlNum == <<<<48,57>>, <<65,90>>, <<97,122>>>>
Alpha == <<<<65,90>>, <<97,122>>>>
EmailRE ==
  RCat(<<RAlt(<<RCat(<<RPlus(AtomRE), RStar(RCat(<<RCh(46), RPlus(AtomRE)>>))>>),
                RCat(<<RCh(34), RStar(RAlt(<<QText, RCat(<<RCh(92), QPair>>)>>)), RCh(34)>>)>>),
         RCh(64),
         RPlus(RCat(<<RPlus(RSet(AlNum \o <<<<45,45>>>>)), RCh(46)>>)),
         RRep(RSet(Alpha), 2, 6)>>)
EmailOneRE == ROpt(EmailRE)
EmailManyRE == ROpt(RCat(<<EmailRE, RStar(RCat(<<RCh(44), EmailRE>>))>>))
EmailExtRE ==
  ROpt(RAlt(<<RCat(<<RCh(34), RPlus(RNot(<<<<34,34>>>>)), RCh(34), RPlus(RCh(32)), RCh(60), EmailRE, RCh(62)>>),
              RCat(<<RPlus(RNot(<<<<60,60>>>>)), RPlus(RCh(32)), RCh(60), EmailRE, RCh(62)>>),
              EmailRE>>))
Lower(cx, s) ==
  LET one(ch) == IF ch \in 65..90 THEN <<ch + 32>>
                 ELSE IF ch < 128 THEN <<ch>>
                 ELSE LET S == {i \in DOMAIN cx.lows : cx.lows[i][1] = ch}
                      IN IF S = {} THEN <<ch>> ELSE cx.lows[CHOOSE i \in S : TRUE][2]
      RECURSIVE go(_)
      go(i) == IF i > Len(s) THEN <<>> ELSE one(s[i]) \o go(i + 1)
  IN go(1)
AsciiWS == {32, 9, 10, 11, 12, 13}
RECURSIVE JoinSeps(_, _)
JoinSeps(s, insep) ==          \* runs of white space , ; : become one comma
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) \in WS \cup {44, 58, 59}
       THEN (IF insep THEN <<>> ELSE <<44>>) \o JoinSeps(Tail(s), TRUE)
       ELSE <<Head(s)>> \o JoinSeps(Tail(s), FALSE)
EmailCanon(cx, f, s) ==
  IF f.extended = 1 THEN s
  ELSE LET t == Lower(cx, StripSet(s, AsciiWS \cup {44, 58, 59}))
       IN IF f.multiple = 1 THEN JoinSeps(t, FALSE) ELSE t
=============================================================================
