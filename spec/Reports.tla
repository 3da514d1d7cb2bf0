-------------------------------- MODULE Reports --------------------------------
(* What a reported failure says: which field refused, the value it refused   *)
(* and a message made of the field's name and the limit that was broken.     *)
(* The wording is the implementation's own (the template recorded with each  *)
(* failure); what fills it, and the text printed around it, is specified.    *)
EXTENDS Fields

T_field == <<102, 105, 101, 108, 100>>
T_name == <<110, 97, 109, 101>>
T_minimum == <<109, 105, 110, 105, 109, 117, 109>>
T_maximum == <<109, 97, 120, 105, 109, 117, 109>>
T_min_length == <<109, 105, 110, 95, 108, 101, 110, 103, 116, 104>>
T_max_length == <<109, 97, 120, 95, 108, 101, 110, 103, 116, 104>>
T_length == <<108, 101, 110, 103, 116, 104>>
T_noun == <<110, 111, 117, 110>>
T_values == <<118, 97, 108, 117, 101, 115>>
T_unnamed == <<117, 110, 107, 110, 111, 119, 110, 45, 102, 105, 101, 108, 100>>
T_value == <<118, 97, 108, 117, 101>>
T_item == <<105, 116, 101, 109>>
T_byte == <<98, 121, 116, 101>>
T_character == <<99, 104, 97, 114, 97, 99, 116, 101, 114>>

BoundText(cx, f, b) ==
  CASE f.ty = "integer" -> IntText(b.n)
    [] f.ty = "float" -> Fact(cx, "fmtf", b)[1].n
    [] f.ty = "decimal" -> Fact(cx, "decstr", BoundDec(cx, b))[1].n
    [] f.ty = "date" -> DateText(BoundDate(b))
    [] f.ty = "time" -> LET t == BoundTime(b) IN TimeText(t[1], t[2], t[3])
    [] f.ty = "datetime" -> StampText(WallAt(BoundDt(cx, f, b), 0))
Thing(f) == CASE f.ty = "sequence" -> T_item [] f.ty = "binary" -> T_byte [] OTHER -> T_character
Nouns(f, tok) ==              \* no number is of its own for none at all
  IF tok \notin {"min_length", "max_length"} THEN {<<>>}
  ELSE LET n == IF tok = "min_length" THEN f.minl[1] ELSE f.maxl[1]
           w == Thing(f)
       IN IF n = 0 THEN {w, w \o <<115>>} ELSE IF n = 1 THEN {w} ELSE {w \o <<115>>}
RECURSIVE JoinText(_, _)
JoinText(ts, sep) ==
  IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o JoinText(Tail(ts), sep)

(* what fills a hole of the template *)
Fills(cx, b, o, noun, hole) ==
  LET f == b.f
  IN CASE hole = T_field -> IF f.name = <<>> THEN T_unnamed ELSE f.name[1]
       [] hole = T_name -> KeyText(cx, b.nm[1])
       [] hole = T_minimum -> BoundText(cx, f, f.min[1])
       [] hole = T_maximum -> BoundText(cx, f, f.max[1])
       [] hole = T_min_length -> NatText(f.minl[1])
       [] hole = T_max_length -> NatText(f.maxl[1])
       [] hole = T_length -> NatText(Len(f.values))
       [] hole = T_noun -> noun
       [] hole = T_values -> JoinText(MapSeq(o.enum, LAMBDA v : Fact(cx, "repr", v)[1].n), <<44, 32>>)
       [] hole = T_value -> Fact(cx, "repr", b.v)[1].n        \* a text naming no object
       [] OTHER -> <<63>>
RECURSIVE Filled(_, _, _, _, _, _)
Filled(cx, b, o, noun, segs, i) ==
  IF i > Len(segs) THEN <<>>
  ELSE (IF segs[i].h = 0 THEN segs[i].x ELSE Fills(cx, b, o, noun, segs[i].x)) \o Filled(cx, b, o, noun, segs, i + 1)

(* the value refused: as given, as converted, or as normalised *)
Refused(cx, b, o) ==
  LET f == b.f
      scalar == f.ty \notin {"structure", "sequence", "tuple", "map", "union"}
      u == IF scalar /\ b.ser /\ b.ph = "in" THEN Unser(cx, f, b.v, <<>>) ELSE OkR(b.v)
      p == IF u.r = "ok" THEN PreP(cx, f, u.v, <<>>) ELSE u
      forms == {b.v} \cup (IF u.r = "ok" THEN {u.v} ELSE {}) \cup (IF p.r = "ok" THEN {p.v} ELSE {})
      canon(v) == IF v.t = "str" /\ f.ty = "text" THEN {Str(Strip(v.n))}
                  ELSE IF v.t = "dt" /\ f.ty = "date" THEN {Nd("date", SubSeq(v.n, 1, 3), <<>>)}
                  ELSE IF v.t = "dt" /\ f.ty = "datetime" THEN {NormDt(cx, f, v)[i] : i \in DOMAIN NormDt(cx, f, v)}
                  ELSE {}
  IN \E v \in forms \cup UNION {canon(v) : v \in forms} : Same(v, o.val)

RECURSIVE Indented(_)
Indented(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = 10 THEN <<10, 32, 32, 32, 32, 32>> ELSE <<Head(s)>>) \o Indented(Tail(s))
Caps(n) == IF n = <<>> THEN n ELSE <<(IF n[1] \in 97..122 THEN n[1] - 32 ELSE n[1])>> \o Tail(n)
ErrorAt == <<32, 101, 114, 114, 111, 114, 32, 97, 116, 32>>
FieldLine == <<10, 70, 105, 101, 108, 100, 58, 32>>
ValueLine == <<10, 86, 97, 108, 117, 101, 58, 32>>
First == <<91, 48, 49, 93, 32>>
StartsWith(t, s) == Len(t) >= Len(s) /\ SubSeq(t, 1, Len(s)) = s
ShownText(x, o, m) ==
  First \o Indented(m.title \o ErrorAt \o x.path \o <<58, 32>> \o m.msg
                    \o (IF m.sf = 1 THEN FieldLine \o o.frepr ELSE <<>>)
                    \o (IF m.sv = 1 /\ ~IsNullV(o.val) THEN ValueLine \o o.vrepr ELSE <<>>))

(* x: an expected error, o: as recorded, o.d: [kd, name, val, enum, msgs ...] *)
RECURSIVE Details(_, _, _)
Details(cx, x, o) ==
  LET sub(i) == IF x.sk = "list" THEN {i} ELSE {j \in DOMAIN o.sub : Same(x.sub[i].key, o.sub[j].key)}
      below == UNION {UNION {Details(cx, x.sub[i].err[1], o.sub[j].err[1]) : j \in sub(i)} :
                        i \in {k \in DOMAIN x.sub : x.sub[k].err # <<>>}}
  IN IF x.d = <<>> \/ o.d = <<>> THEN below
     ELSE LET b == x.d[1]
              d == o.d[1]
          IN below
             \cup Clause(d.kd = b.f.ty, "refusing-field") \cup Clause(d.name = b.f.name, "refusing-field-name")
             \cup (IF b.nm # <<>> \/ x.toks = <<"nonnull">> THEN {} ELSE Clause(Refused(cx, b, d), "refused-value"))
             \cup (IF b.f.ty # "enumeration" THEN {}
                   ELSE Clause(Len(d.enum) = Len(b.f.enum) /\ \A i \in DOMAIN d.enum : PyIn(d.enum[i], b.f.enum), "enumeration"))
             \cup UNION {LET m == d.msgs[i]
                         IN Clause(\E noun \in Nouns(b.f, m.tok) : m.msg = Filled(cx, b, d, noun, m.tmpl, 1), "message of " \o m.tok)
                            \cup Clause(StartsWith(m.head, ShownText(x, d, m)), "printed " \o m.tok)
                         : i \in DOMAIN d.msgs}
(* the details of an outcome that otherwise conforms *)
DetailsOf(cx, x, o) == IF x.r = "err" /\ o.r = "err" /\ Judge(x, o) = {} THEN Details(cx, x.e, o.e) ELSE {}
=============================================================================
