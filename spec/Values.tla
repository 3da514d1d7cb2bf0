------------------------------- MODULE Values -------------------------------
(* Python values as uniform nodes, with the comparisons scheme relies on.    *)
(*                                                                           *)
(* A node is a record [t, n, c]: t is a type tag, n a sequence of integers   *)
(* (the payload), c the sequence of child nodes.  Because every node has the *)
(* same shape, TLC can compare any two of them with "=".                     *)
(*   null                                                                    *)
(*   bool   n = <<0|1>>                                                      *)
(*   int    n = <<sign, limbs...>>     big-endian, base 10000                *)
(*   float  n = <<cls, k1..k4, isint, sign, limbs...>>  cls 3 = not-a-number *)
(*          k1..k4: order-preserving 16 bit limbs; when isint=1 the integral *)
(*          value follows in the layout of int; -0.0 has a child of its own  *)
(*   dec    n = <<cls, sign, exp, digits...>>  cls 0 finite, 1 inf, 3 nan    *)
(*   str    n = code points            bytes  n = byte values                *)
(*   date   n = <<y,m,d>>              time   n = <<h,m,s,us,aware,offset>>  *)
(*   dt     n = <<y,m,d,h,mi,s,us,aware,offset>>  (offset in seconds)        *)
(*   list, tuple  c = items            dict   c = kv nodes, iteration order  *)
(*   odict  like dict, but the order of entries is significant (only used in *)
(*          expected results)                                                *)
(*   obj, field, err ...  anything else, identified by n and c               *)
EXTENDS Integers, Sequences, FiniteSets

Nd(t, n, c) == [t |-> t, n |-> n, c |-> c]
Null      == Nd("null", <<>>, <<>>)
True      == Nd("bool", <<1>>, <<>>)
False     == Nd("bool", <<0>>, <<>>)
Str(n)    == Nd("str", n, <<>>)
KV(k, v)  == Nd("kv", <<>>, <<k, v>>)
List(c)   == Nd("list", <<>>, c)
Tup(c)    == Nd("tuple", <<>>, c)
Dict(c)   == Nd("dict", <<>>, c)

IsNullV(v) == v.t = "null"
IsDict(v)  == v.t \in {"dict", "odict", "surr"}
DKey(kv)   == kv.c[1]
DVal(kv)   == kv.c[2]

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
SgnOf(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

(* ------------------------------------------------------------ orderings *)
RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) ==            \* sequences of equal length
  IF i > Len(a) THEN 0
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE LexCmp(a, b, i + 1)

MagCmp(a, b) ==               \* magnitudes without leading zeros
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LexCmp(a, b, 1)

IntN(n) ==                    \* signed comparison of <<sign, limbs>>
  [s |-> n[1], m |-> Tail(n)]
SIntCmp(a, b) ==
  LET x == IntN(a)
      y == IntN(b)
  IN IF x.s # y.s THEN (IF x.s < y.s THEN -1 ELSE 1)
     ELSE IF x.s = 0 THEN 0
     ELSE x.s * MagCmp(x.m, y.m)

FloatNan(v) == v.n[1] = 3
FloatKey(v) == SubSeq(v.n, 2, 5)
FloatCmp(a, b) == LexCmp(FloatKey(a), FloatKey(b), 1)
FloatIsInt(v) == v.n[6] = 1
FloatInt(v) == SubSeq(v.n, 7, Len(v.n))

Zeros(k) == [i \in 1..k |-> 0]
RECURSIVE StripZeros(_)
StripZeros(d) == IF d # <<>> /\ Head(d) = 0 THEN StripZeros(Tail(d)) ELSE d
DecNan(v) == v.n[1] = 3
DecSgn(v) == IF v.n[1] = 0 /\ Len(v.n) = 3 THEN 0 ELSE v.n[2]
DecMagCmp(a, b) ==            \* both finite and non-zero
  LET da == SubSeq(a.n, 4, Len(a.n))
      db == SubSeq(b.n, 4, Len(b.n))
      aa == a.n[3] + Len(da)
      ab == b.n[3] + Len(db)
      w  == MaxOf(Len(da), Len(db))
  IN IF aa # ab THEN (IF aa < ab THEN -1 ELSE 1)
     ELSE LexCmp(da \o Zeros(w - Len(da)), db \o Zeros(w - Len(db)), 1)
DecCmp(a, b) ==               \* neither is nan
  LET sa == DecSgn(a)
      sb == DecSgn(b)
  IN IF sa # sb THEN (IF sa < sb THEN -1 ELSE 1)
     ELSE IF sa = 0 THEN 0
     ELSE IF a.n[1] = 1 \/ b.n[1] = 1
          THEN sa * (IF a.n[1] = b.n[1] THEN 0 ELSE IF a.n[1] = 1 THEN 1 ELSE -1)
     ELSE sa * DecMagCmp(a, b)

RECURSIVE FlatLimbs(_)
FlatLimbs(l) == IF l = <<>> THEN <<>>
  ELSE <<Head(l) \div 1000, (Head(l) \div 100) % 10, (Head(l) \div 10) % 10, Head(l) % 10>>
       \o FlatLimbs(Tail(l))
IntDigits(n) == StripZeros(FlatLimbs(Tail(n)))      \* decimal digits of |int|
IntAsDec(n) == Nd("dec", <<0, IF n[1] = 0 THEN 1 ELSE n[1], 0>> \o IntDigits(n), <<>>)

(* --------------------------------------------------------- calendar *)
DaysFromCivil(y0, m, d) ==
  LET y   == IF m <= 2 THEN y0 - 1 ELSE y0
      era == IF y >= 0 THEN y \div 400 ELSE (y - 399) \div 400
      yoe == y - era * 400
      mp  == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
CivilFromDays(z0) ==
  LET z   == z0 + 719468
      era == IF z >= 0 THEN z \div 146097 ELSE (z - 146096) \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      y   == yoe + era * 400
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      d   == doy - (153 * mp + 2) \div 5 + 1
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<IF m <= 2 THEN y + 1 ELSE y, m, d>>
LeapYear(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysInMonth(y, m) == IF m = 2 THEN (IF LeapYear(y) THEN 29 ELSE 28)
                     ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
FloorDiv(a, b) == a \div b          \* TLC: floor for positive b
(* the instant of a wall clock reading at an offset: <<days, seconds, us>> *)
InstantAt(n, off) ==
  LET s == n[4] * 3600 + n[5] * 60 + n[6] - off
      q == FloorDiv(s, 86400)
  IN <<DaysFromCivil(n[1], n[2], n[3]) + q, s - q * 86400, n[7]>>
(* the wall clock reading <<y,m,d,h,mi,s,us>> of an instant at an offset *)
WallAt(i, off) ==
  LET s == i[2] + off
      q == FloorDiv(s, 86400)
      r == s - q * 86400
      c == CivilFromDays(i[1] + q)
  IN <<c[1], c[2], c[3], r \div 3600, (r \div 60) % 60, r % 60, i[3]>>
DtAware(v) == v.n[8] = 1
DtInstant(v) == InstantAt(v.n, v.n[9])      \* of an aware datetime
Wall(v) == SubSeq(v.n, 1, 7)

(* ------------------------------------------------------ Python equality *)
NumTags == {"bool", "int", "float", "dec"}
AsInt(v) == IF v.t = "bool" THEN (IF v.n = <<1>> THEN <<1, 1>> ELSE <<0>>) ELSE v.n
(* the exact decimal value of a float, <<>> when it has more than 30 digits *)
FloatAsDec(v) == IF FloatIsInt(v) THEN <<IntAsDec(FloatInt(v))>> ELSE v.c
NumEq(a, b) ==
  CASE a.t \in {"bool", "int"} /\ b.t \in {"bool", "int"} -> AsInt(a) = AsInt(b)
    [] a.t = "float" /\ b.t = "float" -> ~FloatNan(a) /\ ~FloatNan(b) /\ FloatKey(a) = FloatKey(b)
    [] a.t = "float" /\ b.t \in {"bool", "int"} -> FloatIsInt(a) /\ FloatInt(a) = AsInt(b)
    [] b.t = "float" /\ a.t \in {"bool", "int"} -> FloatIsInt(b) /\ FloatInt(b) = AsInt(a)
    [] a.t = "dec" /\ b.t = "dec" -> ~DecNan(a) /\ ~DecNan(b) /\ DecCmp(a, b) = 0
    [] a.t = "dec" /\ b.t \in {"bool", "int"} -> ~DecNan(a) /\ DecCmp(a, IntAsDec(AsInt(b))) = 0
    [] b.t = "dec" /\ a.t \in {"bool", "int"} -> ~DecNan(b) /\ DecCmp(b, IntAsDec(AsInt(a))) = 0
    [] a.t = "dec" /\ b.t = "float" ->
         ~DecNan(a) /\ FloatAsDec(b) # <<>> /\ DecCmp(a, FloatAsDec(b)[1]) = 0
    [] a.t = "float" /\ b.t = "dec" ->
         ~DecNan(b) /\ FloatAsDec(a) # <<>> /\ DecCmp(b, FloatAsDec(a)[1]) = 0

RECURSIVE PyEq(_, _)
PyEq(a, b) ==
  IF a.t \in NumTags /\ b.t \in NumTags THEN NumEq(a, b)
  ELSE IF IsDict(a) /\ IsDict(b) THEN
    /\ Len(a.c) = Len(b.c)
    /\ \A i \in DOMAIN a.c : \E j \in DOMAIN b.c :
          PyEq(DKey(a.c[i]), DKey(b.c[j])) /\ PyEq(DVal(a.c[i]), DVal(b.c[j]))
  ELSE IF a.t # b.t THEN FALSE
  ELSE IF a.t \in {"list", "tuple"} THEN
    Len(a.c) = Len(b.c) /\ \A i \in DOMAIN a.c : PyEq(a.c[i], b.c[i])
  ELSE IF a.t = "dt" THEN
    IF DtAware(a) /\ DtAware(b) THEN DtInstant(a) = DtInstant(b)
    ELSE IF ~DtAware(a) /\ ~DtAware(b) THEN Wall(a) = Wall(b) ELSE FALSE
  ELSE a = b

PyIn(v, seq) == \E i \in DOMAIN seq : PyEq(v, seq[i])

DHas(d, k) == \E i \in DOMAIN d.c : PyEq(DKey(d.c[i]), k)
DGet(d, k) == DVal(d.c[CHOOSE i \in DOMAIN d.c : PyEq(DKey(d.c[i]), k)])

(* d[k] = v of a Python dict: replaces in place or appends *)
DSet(c, k, v) ==
  IF \E i \in DOMAIN c : PyEq(DKey(c[i]), k)
  THEN [i \in DOMAIN c |-> IF PyEq(DKey(c[i]), k) THEN KV(DKey(c[i]), v) ELSE c[i]]
  ELSE Append(c, KV(k, v))

(* ------------------------- equality of an expected and an observed value *)
RECURSIVE Same(_, _)
Same(x, o) ==
  IF x.t = "surr" \/ o.t = "surr" THEN
    /\ x.t = o.t /\ x.n = o.n /\ Len(x.c) = Len(o.c)
    /\ \A i \in DOMAIN x.c : \E j \in DOMAIN o.c :
         Same(DKey(x.c[i]), DKey(o.c[j])) /\ Same(DVal(x.c[i]), DVal(o.c[j]))
  ELSE IF x.t = "odict" \/ o.t = "odict" THEN
    /\ IsDict(x) /\ IsDict(o) /\ Len(x.c) = Len(o.c)
    /\ \A i \in DOMAIN x.c : Same(DKey(x.c[i]), DKey(o.c[i])) /\ Same(DVal(x.c[i]), DVal(o.c[i]))
  ELSE IF x.t # o.t THEN FALSE
  ELSE IF x.t = "dict" THEN
    /\ Len(x.c) = Len(o.c)
    /\ \A i \in DOMAIN x.c : \E j \in DOMAIN o.c :
         Same(DKey(x.c[i]), DKey(o.c[j])) /\ Same(DVal(x.c[i]), DVal(o.c[j]))
  ELSE /\ x.n = o.n
       /\ Len(x.c) = Len(o.c)
       /\ \A i \in DOMAIN x.c : Same(x.c[i], o.c[i])

(* --------------------------------------------------------------- text *)
(* what \s matches, and what str.strip removes (PyPy: other control characters) *)
WS == (9..13) \cup (28..32) \cup {133, 160, 5760} \cup (8192..8202)
      \cup {8232, 8233, 8239, 8287, 12288}
StripWS == (WS \ (28..31)) \cup {6158}
RECURSIVE LStripSet(_, _)
LStripSet(s, S) == IF s # <<>> /\ Head(s) \in S THEN LStripSet(Tail(s), S) ELSE s
RECURSIVE RStripSet(_, _)
RStripSet(s, S) == IF s # <<>> /\ s[Len(s)] \in S THEN RStripSet(SubSeq(s, 1, Len(s) - 1), S) ELSE s
StripSet(s, S) == RStripSet(LStripSet(s, S), S)
Strip(s) == StripSet(s, StripWS)

RECURSIVE NatText(_)
NatText(k) == IF k < 10 THEN <<48 + k>> ELSE Append(NatText(k \div 10), 48 + (k % 10))
Pad(k, w) == LET t == NatText(k) IN [i \in 1..(w - MinOf(w, Len(t))) |-> 48] \o t
IntText(n) ==                  \* str(int)
  IF n[1] = 0 THEN <<48>>
  ELSE (IF n[1] < 0 THEN <<45>> ELSE <<>>) \o [i \in DOMAIN IntDigits(n) |-> 48 + IntDigits(n)[i]]

RECURSIVE NatOf(_)
NatOf(s) == IF s = <<>> THEN 0 ELSE NatOf(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)

RECURSIVE JoinWith(_, _)
JoinWith(parts, sep) ==
  IF parts = <<>> THEN <<>>
  ELSE IF Len(parts) = 1 THEN parts[1]
  ELSE parts[1] \o sep \o JoinWith(Tail(parts), sep)

RECURSIVE SplitOn(_, _, _)
SplitOn(s, ch, acc) ==          \* str.split(ch) for a single character
  IF s = <<>> THEN <<acc>>
  ELSE IF Head(s) = ch THEN <<acc>> \o SplitOn(Tail(s), ch, <<>>)
  ELSE SplitOn(Tail(s), ch, Append(acc, Head(s)))

(* ------------------------------------------------- regular expressions *)
(* [op |-> "set", neg |-> 0|1, r |-> <<<<lo,hi>>...>>], "cat"/"alt" with a, *)
(* [op |-> "rep", lo, hi (-1: unbounded), a |-> <<x>>], "end".              *)
(* Ends(re, s, P): positions reachable after matching re from positions P. *)
InRanges(ch, r) == \E i \in DOMAIN r : r[i][1] <= ch /\ ch <= r[i][2]
RECURSIVE Ends(_, _, _)
RECURSIVE EndsCat(_, _, _, _)
RECURSIVE EndsMany(_, _, _)
RECURSIVE EndsUpTo(_, _, _, _)
Ends(re, s, P) ==
  IF P = {} THEN {}
  ELSE CASE re.op = "set" ->
              {p + 1 : p \in {q \in P : q < Len(s) /\ (InRanges(s[q + 1], re.r) <=> re.neg = 0)}}
         [] re.op = "cat" -> EndsCat(re.a, s, P, 1)
         [] re.op = "alt" -> UNION {Ends(re.a[i], s, P) : i \in DOMAIN re.a}
         [] re.op = "rep" ->
              LET must == EndsUpTo(re.a[1], s, P, re.lo)
              IN IF re.hi = -1 THEN EndsMany(re.a[1], s, must)
                 ELSE UNION {EndsUpTo(re.a[1], s, must, k) : k \in 0..(re.hi - re.lo)}
         [] re.op = "end" -> {p \in P : p = Len(s)}
EndsCat(a, s, P, i) == IF i > Len(a) THEN P ELSE EndsCat(a, s, Ends(a[i], s, P), i + 1)
EndsUpTo(re, s, P, k) == IF k = 0 THEN P ELSE EndsUpTo(re, s, Ends(re, s, P), k - 1)
EndsMany(re, s, P) ==
  LET Q == P \cup Ends(re, s, P) IN IF Q = P THEN P ELSE EndsMany(re, s, Q)
MatchPrefix(re, s) == Ends(re, s, {0}) # {}
MatchAll(re, s) == Len(s) \in Ends(re, s, {0})

RSet(r) == [op |-> "set", neg |-> 0, r |-> r]
RNot(r) == [op |-> "set", neg |-> 1, r |-> r]
RCat(a) == [op |-> "cat", a |-> a]
RAlt(a) == [op |-> "alt", a |-> a]
RRep(x, lo, hi) == [op |-> "rep", lo |-> lo, hi |-> hi, a |-> <<x>>]
RStar(x) == RRep(x, 0, -1)
RPlus(x) == RRep(x, 1, -1)
ROpt(x) == RRep(x, 0, 1)
RCh(ch) == RSet(<<<<ch, ch>>>>)

(* --------------------------------------------------------------- base64 *)
B64Char(k) == IF k < 26 THEN 65 + k ELSE IF k < 52 THEN 71 + k ELSE IF k < 62 THEN k - 4
              ELSE IF k = 62 THEN 45 ELSE 95
B64Val(ch) == IF ch \in 65..90 THEN ch - 65 ELSE IF ch \in 97..122 THEN ch - 71
              ELSE IF ch \in 48..57 THEN ch + 4 ELSE IF ch = 45 THEN 62 ELSE IF ch = 95 THEN 63 ELSE -1
RECURSIVE B64Enc(_)
B64Enc(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF Len(b) = 1 THEN <<B64Char(b[1] \div 4), B64Char((b[1] % 4) * 16), 61, 61>>
  ELSE IF Len(b) = 2 THEN <<B64Char(b[1] \div 4), B64Char((b[1] % 4) * 16 + b[2] \div 16),
                            B64Char((b[2] % 16) * 4), 61>>
  ELSE <<B64Char(b[1] \div 4), B64Char((b[1] % 4) * 16 + b[2] \div 16),
         B64Char((b[2] % 16) * 4 + b[3] \div 64), B64Char(b[3] % 64)>>
       \o B64Enc(SubSeq(b, 4, Len(b)))
RECURSIVE B64Dec(_)
(* <<bytes>> for a canonical encoding, <<>> otherwise *)
B64Dec(s) ==
  IF s = <<>> THEN <<<<>>>>
  ELSE IF Len(s) < 4 THEN <<>>
  ELSE LET a == B64Val(s[1])
           b == B64Val(s[2])
           cc == B64Val(s[3])
           d == B64Val(s[4])
       IN IF a < 0 \/ b < 0 THEN <<>>
          ELSE IF s[3] = 61 /\ s[4] = 61 /\ Len(s) = 4 /\ b % 16 = 0 THEN <<<<a * 4 + b \div 16>>>>
          ELSE IF cc < 0 THEN <<>>
          ELSE IF s[4] = 61 /\ Len(s) = 4 /\ cc % 4 = 0
               THEN <<<<a * 4 + b \div 16, (b % 16) * 16 + cc \div 4>>>>
          ELSE IF d < 0 THEN <<>>
          ELSE LET rest == B64Dec(SubSeq(s, 5, Len(s)))
               IN IF rest = <<>> THEN <<>>
                  ELSE <<<<a * 4 + b \div 16, (b % 16) * 16 + cc \div 4, (cc % 4) * 64 + d>> \o rest[1]>>
=============================================================================
