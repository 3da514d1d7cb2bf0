------------------------------- MODULE Formats -------------------------------
(* What documents denote.  For each format: a reader from the text (or, for   *)
(* XML and YAML, from what a standard parser made of the text) to the value,  *)
(* and the form in which a serialized value must appear in a document.        *)
EXTENDS Fields

RBad == [ok |-> FALSE, v |-> Null, i |-> 0]
RHit(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
AsciiLow(ch) == IF ch \in 65..90 THEN ch + 32 ELSE ch
LowerAll(s) == [i \in DOMAIN s |-> AsciiLow(s[i])]
W_true == <<116, 114, 117, 101>>
W_false == <<102, 97, 108, 115, 101>>
W_null == <<110, 117, 108, 108>>
NumberText(cx, v) ==              \* str() of a scalar
  CASE v.t = "int" -> IntText(v.n)
    [] v.t = "str" -> v.n
    [] v.t = "bool" -> KeyText(cx, v)
    [] OTHER -> Fact(cx, "pstr", v)[1].n

RECURSIVE FirstOf(_, _, _)        \* first position from i on holding a character of S, or 0
FirstOf(s, i, S) == IF i > Len(s) THEN 0 ELSE IF s[i] \in S THEN i ELSE FirstOf(s, i + 1, S)

(* decimal digits -> limbs *)
RECURSIVE Grouped(_)
Grouped(d) ==
  IF Len(d) <= 4 THEN <<NatOf(d)>>
  ELSE Grouped(SubSeq(d, 1, Len(d) - 4)) \o <<NatOf(SubSeq(d, Len(d) - 3, Len(d)))>>
RECURSIVE DropZeros(_)
DropZeros(d) == IF d # <<>> /\ Head(d) = 48 THEN DropZeros(Tail(d)) ELSE d
IntNode(t) ==                     \* of [-]digits
  LET neg == t[1] = 45
      d == DropZeros(IF neg THEN Tail(t) ELSE t)
  IN Nd("int", IF d = <<>> THEN <<0>> ELSE <<IF neg THEN -1 ELSE 1>> \o Grouped(d), <<>>)

(* ----------------------------------------------------------------- JSON *)
JSpace == {9, 10, 13, 32}
RECURSIVE Skip(_, _)
Skip(s, i) == IF i <= Len(s) /\ s[i] \in JSpace THEN Skip(s, i + 1) ELSE i
HexVal(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 97..102 THEN ch - 87
              ELSE IF ch \in 65..70 THEN ch - 55 ELSE -1
Hex4(s, i) ==
  IF i + 3 > Len(s) \/ \E k \in 0..3 : HexVal(s[i + k]) < 0 THEN -1
  ELSE HexVal(s[i]) * 4096 + HexVal(s[i + 1]) * 256 + HexVal(s[i + 2]) * 16 + HexVal(s[i + 3])
JEsc(ch) == CASE ch = 34 -> 34 [] ch = 92 -> 92 [] ch = 47 -> 47 [] ch = 98 -> 8 [] ch = 102 -> 12
              [] ch = 110 -> 10 [] ch = 114 -> 13 [] ch = 116 -> 9 [] OTHER -> -1
RECURSIVE JStr(_, _, _)           \* from after the opening quote
JStr(s, i, acc) ==
  LET c == At(s, i)
  IN CASE c = 34 -> RHit(Str(acc), i + 1)
       [] c < 32 -> RBad
       [] c # 92 -> JStr(s, i + 1, Append(acc, c))
       [] At(s, i + 1) = 117 ->
            LET h == Hex4(s, i + 2)
                lo == IF At(s, i + 6) = 92 /\ At(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE -1
            IN IF h < 0 THEN RBad
               ELSE IF h \in 55296..56319 /\ lo \in 56320..57343
                    THEN JStr(s, i + 12, Append(acc, 65536 + (h - 55296) * 1024 + (lo - 56320)))
               ELSE JStr(s, i + 6, Append(acc, h))
       [] OTHER -> LET e == JEsc(At(s, i + 1)) IN IF e < 0 THEN RBad ELSE JStr(s, i + 2, Append(acc, e))

JDigit == RSet(<<<<48, 57>>>>)
JIntRE == RCat(<<ROpt(RCh(45)), RAlt(<<RCh(48), RCat(<<RSet(<<<<49, 57>>>>), RStar(JDigit)>>)>>)>>)
JNumRE == RCat(<<JIntRE, ROpt(RCat(<<RCh(46), RPlus(JDigit)>>)),
                 ROpt(RCat(<<RSet(<<<<69, 69>>, <<101, 101>>>>), ROpt(RSet(<<<<43, 43>>, <<45, 45>>>>)), RPlus(JDigit)>>))>>)
JNumCh == (48..57) \cup {43, 45, 46, 69, 101}
RECURSIVE JNumEnd(_, _)
JNumEnd(s, i) == IF i <= Len(s) /\ s[i] \in JNumCh THEN JNumEnd(s, i + 1) ELSE i
JNum(cx, s, i) ==
  LET j == JNumEnd(s, i)
      t == SubSeq(s, i, j - 1)
  IN IF t = <<>> \/ ~MatchAll(JNumRE, t) THEN RBad
     ELSE IF MatchAll(JIntRE, t) THEN RHit(IntNode(t), j)
     ELSE RHit(Fact(cx, "jsonfloat", Str(t))[1], j)
JWord(s, i, w, v) == IF SubSeq(s, i, MinOf(Len(s), i + Len(w) - 1)) = w THEN RHit(v, i + Len(w)) ELSE RBad

RECURSIVE JVal(_, _, _)
RECURSIVE JArr(_, _, _, _)
RECURSIVE JObj(_, _, _, _)
JVal(cx, s, i0) ==
  LET i == Skip(s, i0)
      c == At(s, i)
  IN CASE c = 123 -> LET j == Skip(s, i + 1) IN IF At(s, j) = 125 THEN RHit(Dict(<<>>), j + 1) ELSE JObj(cx, s, j, <<>>)
       [] c = 91 -> LET j == Skip(s, i + 1) IN IF At(s, j) = 93 THEN RHit(List(<<>>), j + 1) ELSE JArr(cx, s, j, <<>>)
       [] c = 34 -> JStr(s, i + 1, <<>>)
       [] c = 116 -> JWord(s, i, W_true, True)
       [] c = 102 -> JWord(s, i, W_false, False)
       [] c = 110 -> JWord(s, i, W_null, Null)
       [] OTHER -> JNum(cx, s, i)
JArr(cx, s, i, acc) ==
  LET r == JVal(cx, s, i)
      j == Skip(s, r.i)
  IN IF ~r.ok THEN RBad
     ELSE IF At(s, j) = 44 THEN JArr(cx, s, j + 1, Append(acc, r.v))
     ELSE IF At(s, j) = 93 THEN RHit(List(Append(acc, r.v)), j + 1)
     ELSE RBad
JObj(cx, s, i0, acc) ==
  LET i == Skip(s, i0)
      k == IF At(s, i) = 34 THEN JStr(s, i + 1, <<>>) ELSE RBad
      c == IF k.ok THEN Skip(s, k.i) ELSE 0
      r == IF k.ok /\ At(s, c) = 58 THEN JVal(cx, s, c + 1) ELSE RBad
      j == IF r.ok THEN Skip(s, r.i) ELSE 0
      all == IF r.ok THEN DSet(acc, k.v, r.v) ELSE acc
  IN IF ~r.ok THEN RBad
     ELSE IF At(s, j) = 44 THEN JObj(cx, s, j + 1, all)
     ELSE IF At(s, j) = 125 THEN RHit(Dict(all), j + 1)
     ELSE RBad
JsonRead(cx, s) ==
  LET r == JVal(cx, s, 1)
  IN IF r.ok /\ Skip(s, r.i) > Len(s) THEN r ELSE RBad

JKey(cx, k) ==
  CASE k.t = "str" -> k
    [] k.t = "int" -> Str(IntText(k.n))
    [] k.t = "bool" -> Str(IF k.n = <<1>> THEN W_true ELSE W_false)
    [] k.t = "null" -> Str(W_null)
    [] OTHER -> Fact(cx, "pstr", k)[1]
RECURSIVE JsonForm(_, _)
JsonForm(cx, v) ==
  CASE v.t = "tuple" -> List(MapSeq(v.c, LAMBDA x : JsonForm(cx, x)))
    [] v.t = "list" -> List(MapSeq(v.c, LAMBDA x : JsonForm(cx, x)))
    [] IsDict(v) -> Dict(MapSeq(v.c, LAMBDA kv : KV(JKey(cx, DKey(kv)), JsonForm(cx, DVal(kv)))))
    [] OTHER -> v

(* ------------------------------------------------------- structured text *)
STEscaped == {91, 93, 123, 125}
STWord(raw, text) ==
  LET w == LowerAll(raw)
  IN IF w = W_true THEN True ELSE IF w = W_false THEN False ELSE IF w = W_null THEN Null ELSE Str(text)
RECURSIVE STText(_, _, _, _)      \* a run of text up to a character of stop: [v |-> text, i]
STText(s, i, stop, acc) ==
  IF i > Len(s) \/ s[i] \in stop THEN [raw |-> <<>>, text |-> acc, i |-> i]
  ELSE IF s[i] = 92 /\ At(s, i + 1) \in STEscaped THEN STText(s, i + 2, stop, Append(acc, s[i + 1]))
  ELSE STText(s, i + 1, stop, Append(acc, s[i]))
RECURSIVE STVal(_, _)
RECURSIVE STList(_, _, _)
RECURSIVE STPairs(_, _, _)
STVal(s, i) ==
  CASE At(s, i) = 123 -> IF At(s, i + 1) = 125 THEN RHit(Dict(<<>>), i + 2) ELSE STPairs(s, i + 1, <<>>)
    [] At(s, i) = 91 -> IF At(s, i + 1) = 93 THEN RHit(List(<<>>), i + 2) ELSE STList(s, i + 1, <<>>)
    [] OTHER -> LET t == STText(s, i, {44, 93, 125, 91, 123}, <<>>)
                IN RHit(STWord(SubSeq(s, i, t.i - 1), t.text), t.i)
STList(s, i, acc) ==
  LET r == STVal(s, i)
  IN IF ~r.ok THEN RBad
     ELSE IF At(s, r.i) = 44 THEN STList(s, r.i + 1, Append(acc, r.v))
     ELSE IF At(s, r.i) = 93 THEN RHit(List(Append(acc, r.v)), r.i + 1) ELSE RBad
STPairs(s, i, acc) ==
  LET c == FirstOf(s, i, {58})
      r == IF c = 0 THEN RBad ELSE STVal(s, c + 1)
      all == IF r.ok THEN DSet(acc, Str(SubSeq(s, i, c - 1)), r.v) ELSE acc
  IN IF ~r.ok THEN RBad
     ELSE IF At(s, r.i) = 44 THEN STPairs(s, r.i + 1, all)
     ELSE IF At(s, r.i) = 125 THEN RHit(Dict(all), r.i + 1) ELSE RBad
STRead(s) ==
  IF s = <<>> THEN RHit(Str(<<>>), 1)
  ELSE IF s[1] \in {91, 123} THEN LET r == STVal(s, 1) IN IF r.ok /\ r.i = Len(s) + 1 THEN r ELSE RBad
  ELSE LET t == STText(s, 1, {}, <<>>) IN RHit(STWord(s, t.text), t.i)
(* with parse_numbers, text which reads as a number is one *)
RECURSIVE STNumbers(_, _)
STNumbers(cx, v) ==
  CASE v.t = "list" -> List(MapSeq(v.c, LAMBDA x : STNumbers(cx, x)))
    [] v.t = "dict" -> Dict(MapSeq(v.c, LAMBDA kv : KV(DKey(kv), STNumbers(cx, DVal(kv)))))
    [] v.t = "str" -> LET r == Fact(cx, "stnum", v) IN IF r = <<>> THEN v ELSE r[1]
    [] OTHER -> v
RECURSIVE STForm(_, _)            \* every number is text
STForm(cx, v) ==
  CASE v.t \in {"tuple", "list"} -> List(MapSeq(v.c, LAMBDA x : STForm(cx, x)))
    [] IsDict(v) -> Dict(MapSeq(v.c, LAMBDA kv : KV(Str(KeyText(cx, DKey(kv))), STForm(cx, DVal(kv)))))
    [] v.t \in {"bool", "null", "str"} -> v
    [] OTHER -> Str(NumberText(cx, v))

(* ---------------------------------------------------------- URL encoding *)
RECURSIVE Octets(_, _, _)
Octets(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = 43 THEN Octets(s, i + 1, Append(acc, 32))
  ELSE IF s[i] = 37 /\ i + 2 <= Len(s) /\ HexVal(s[i + 1]) >= 0 /\ HexVal(s[i + 2]) >= 0
       THEN Octets(s, i + 3, Append(acc, HexVal(s[i + 1]) * 16 + HexVal(s[i + 2])))
  ELSE Octets(s, i + 1, Append(acc, s[i]))
RECURSIVE Utf8(_, _, _)           \* of well-formed UTF-8
Utf8(b, i, acc) ==
  LET k(j) == b[i + j] - 128
  IN IF i > Len(b) THEN acc
     ELSE IF b[i] < 128 THEN Utf8(b, i + 1, Append(acc, b[i]))
     ELSE IF b[i] < 224 /\ i + 1 <= Len(b) THEN Utf8(b, i + 2, Append(acc, (b[i] - 192) * 64 + k(1)))
     ELSE IF b[i] < 240 /\ i + 2 <= Len(b) THEN Utf8(b, i + 3, Append(acc, (b[i] - 224) * 4096 + k(1) * 64 + k(2)))
     ELSE IF i + 3 <= Len(b) THEN Utf8(b, i + 4, Append(acc, (b[i] - 240) * 262144 + k(1) * 4096 + k(2) * 64 + k(3)))
     ELSE Append(acc, 65533)
Unquoted(s) == Utf8(Octets(s, 1, <<>>), 1, <<>>)
RECURSIVE UrlPairs(_, _)
UrlPairs(parts, acc) ==
  IF parts = <<>> THEN RHit(Dict(acc), 0)
  ELSE IF parts[1] = <<>> THEN UrlPairs(Tail(parts), acc)
  ELSE LET p == parts[1]
           e == FirstOf(p, 1, {61})
           k == Unquoted(IF e = 0 THEN p ELSE SubSeq(p, 1, e - 1))
           r == STRead(Unquoted(IF e = 0 THEN <<>> ELSE SubSeq(p, e + 1, Len(p))))
       IN IF ~r.ok THEN RBad ELSE UrlPairs(Tail(parts), DSet(acc, Str(k), r.v))
UrlRead(s) == UrlPairs(SplitOn(s, 38, <<>>), <<>>)

(* ------------------------------------------------------------------- CSV *)
RECURSIVE CsvCells(_, _, _, _, _, _)  \* mode 0: before a cell, 1: in one, 2: in quotes
CsvCells(s, i, mode, cell, row, rows) ==
  LET c == At(s, i)
      eol == c = 13 \/ c = 10 \/ c = -1
      next == IF c = 13 /\ At(s, i + 1) = 10 THEN i + 2 ELSE i + 1
  IN IF mode = 2 THEN
       IF c = -1 THEN <<>>
       ELSE IF c = 34 THEN (IF At(s, i + 1) = 34 THEN CsvCells(s, i + 2, 2, Append(cell, 34), row, rows)
                            ELSE CsvCells(s, i + 1, 1, cell, row, rows))
       ELSE CsvCells(s, i + 1, 2, Append(cell, c), row, rows)
     ELSE IF eol THEN
       LET blank == mode = 0 /\ row = <<>>
           all == IF blank THEN rows ELSE Append(rows, Append(row, cell))
       IN IF c = -1 THEN all ELSE CsvCells(s, next, 0, <<>>, <<>>, all)
     ELSE IF c = 44 THEN CsvCells(s, i + 1, 3, <<>>, Append(row, cell), rows)
     ELSE IF c = 34 /\ mode # 1 THEN CsvCells(s, i + 1, 2, cell, row, rows)
     ELSE CsvCells(s, i + 1, 1, Append(cell, c), row, rows)
CsvTable(s) == CsvCells(s, 1, 0, <<>>, <<>>, <<>>)

RECURSIVE SeqLess(_, _)
SeqLess(a, b) ==
  IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE SeqLess(Tail(a), Tail(b))
RECURSIVE Sorted(_)
Sorted(ks) ==
  IF ks = <<>> THEN <<>>
  ELSE LET i == CHOOSE j \in DOMAIN ks : \A k \in DOMAIN ks : ~SeqLess(ks[k], ks[j])
       IN <<ks[i]>> \o Sorted(SubSeq(ks, 1, i - 1) \o SubSeq(ks, i + 1, Len(ks)))
Structurals == {"structure", "sequence", "tuple", "map", "union"}
MemberOf(f, k) == LET S == {i \in DOMAIN f.struct : f.struct[i].k = k}
                  IN IF S = {} THEN <<>> ELSE <<f.struct[CHOOSE i \in S : TRUE].f>>
CsvCell(cx, v) ==
  CASE IsNullV(v) -> <<>>
    [] v.t = "bool" -> IF v.n = <<1>> THEN W_true ELSE W_false
    [] OTHER -> NumberText(cx, v)
(* columns: <<>> or the list of names asked for *)
CsvColumns(f, columns) ==
  LET names == IF columns = <<>> THEN Sorted(MapSeq(f.item.struct, LAMBDA m : m.k)) ELSE columns
      ok(k) == MemberOf(f.item, k) # <<>> /\ MemberOf(f.item, k)[1].ty \notin Structurals
  IN SelectSeq(names, ok)
CsvForm(cx, f, v, columns) ==
  LET cols == CsvColumns(f, columns)
      row(d) == MapSeq(cols, LAMBDA k : IF DHas(d, Str(k)) THEN CsvCell(cx, DGet(d, Str(k))) ELSE <<>>)
  IN <<cols>> \o MapSeq(v.c, row)
(* the value a table denotes: empty cells are absent *)
CsvValue(cx, f, table) ==
  IF f.ty # "sequence" \/ table = <<>> THEN RBad
  ELSE IF f.item.ty # "structure" \/ \E i \in DOMAIN table : Len(table[i]) # Len(table[1]) THEN RBad
  ELSE IF \E i \in DOMAIN table[1] : MemberOf(f.item, table[1][i]) = <<>> THEN RBad
  ELSE LET head == table[1]
           conv(k, t) ==
             LET ty == MemberOf(f.item, k)[1].ty
             IN CASE ty = "boolean" -> IF t = W_true THEN True ELSE False
                  [] OTHER -> Str(t)
           RECURSIVE cells(_, _)
           cells(r, i) == IF i > Len(head) THEN <<>>
                          ELSE (IF r[i] = <<>> THEN <<>> ELSE <<KV(Str(head[i]), conv(head[i], r[i]))>>) \o cells(r, i + 1)
       IN RHit(List(MapSeq(Tail(table), LAMBDA r : Dict(cells(r, 1)))), 0)

(* ------------------------------------------------------------------- XML *)
(* an element: [tag, null, text, kids]; expected ones also say whether the  *)
(* order of the kids matters                                                *)
El(tag, null, text, kids, ord) == [tag |-> tag, null |-> null, text |-> text, kids |-> kids, ord |-> ord]
N_item == <<105, 116, 101, 109>>
N_value == <<118, 97, 108, 117, 101>>
N_root == <<114, 111, 111, 116>>
NameOr(f, k) == IF f.name = <<>> THEN k ELSE f.name[1]
RECURSIVE XmlForm(_, _, _, _)
XmlForm(cx, f, v, tag) ==
  CASE IsNullV(v) -> El(tag, 1, <<>>, <<>>, 0)
    [] f.ty = "boolean" -> El(tag, 0, IF v.n = <<1>> THEN W_true ELSE W_false, <<>>, 0)
    [] f.ty = "structure" ->
         LET defs == IF f.poly = <<>> THEN f.struct
                     ELSE LET id == DGet(v, Str(DiscName(f)))
                              i == CHOOSE i \in DOMAIN f.variants :
                                     Same(JKey(cx, f.variants[i].id), JKey(cx, id))
                          IN VariantDefs(f, i)
             def(k) == defs[CHOOSE i \in DOMAIN defs : defs[i].k = k.n].f
         IN El(tag, 0, <<>>, MapSeq(v.c, LAMBDA kv : XmlForm(cx, def(DKey(kv)), DVal(kv), DKey(kv).n)), 0)
    [] f.ty = "map" -> El(tag, 0, <<>>, MapSeq(v.c, LAMBDA kv : XmlForm(cx, f.value, DVal(kv), KeyText(cx, DKey(kv)))), 0)
    [] f.ty = "sequence" -> El(tag, 0, <<>>, MapSeq(v.c, LAMBDA y : XmlForm(cx, f.item, y, NameOr(f.item, N_item))), 1)
    [] f.ty = "tuple" ->
         El(tag, 0, <<>>, TLCEval([i \in DOMAIN v.c |-> XmlForm(cx, f.values[i], v.c[i], NameOr(f.values[i], N_value))]), 1)
    [] OTHER -> El(tag, 0, NumberText(cx, v), <<>>, 0)
RECURSIVE SameXml(_, _)
SameXml(x, o) ==
  /\ x.tag = o.tag /\ x.null = o.null
  /\ Len(x.kids) = Len(o.kids)
  /\ (x.kids = <<>> /\ x.null = 0 => x.text = o.text)
  /\ IF x.ord = 1 THEN \A i \in DOMAIN x.kids : SameXml(x.kids[i], o.kids[i])
     ELSE \A i \in DOMAIN x.kids : \E j \in DOMAIN o.kids : SameXml(x.kids[i], o.kids[j])
(* does the element have the form the field's elements take *)
XmlDefs(cx, f, e) ==              \* the declared members of a structure's element
  IF f.poly = <<>> THEN f.struct
  ELSE LET S == {i \in DOMAIN e.kids : e.kids[i].tag = DiscName(f)}
           id == IF S = {} THEN <<>> ELSE e.kids[CHOOSE i \in S : TRUE].text
           V == {i \in DOMAIN f.variants : S # {} /\ JKey(cx, f.variants[i].id).n = id}
       IN IF V = {} THEN <<[k |-> DiscName(f), f |-> Disc(f)]>> ELSE VariantDefs(f, CHOOSE i \in V : TRUE)
RECURSIVE XmlFits(_, _, _)
XmlFits(cx, f, e) ==
  CASE e.null = 1 -> TRUE
    [] f.ty = "structure" ->
         LET defs == XmlDefs(cx, f, e)
         IN \A j \in DOMAIN e.kids : \E i \in DOMAIN defs :
              defs[i].k = e.kids[j].tag /\ XmlFits(cx, defs[i].f, e.kids[j])
    [] f.ty = "map" -> \A j \in DOMAIN e.kids : XmlFits(cx, f.value, e.kids[j])
    [] f.ty = "sequence" -> \A j \in DOMAIN e.kids : XmlFits(cx, f.item, e.kids[j])
    [] f.ty = "tuple" -> Len(e.kids) <= Len(f.values) /\ \A j \in DOMAIN e.kids : XmlFits(cx, f.values[j], e.kids[j])
    [] f.ty = "union" -> FALSE
    [] f.ty = "boolean" -> e.text # <<>>
    [] OTHER -> TRUE
RECURSIVE XmlValue(_, _, _)
XmlValue(cx, f, e) ==
  CASE e.null = 1 -> Null
    [] f.ty = "boolean" -> IF LowerAll(e.text) = W_true THEN True ELSE False
    [] f.ty = "structure" ->
         LET tags == MapSeq(e.kids, LAMBDA k : k.tag)
             defs == XmlDefs(cx, f, e)
             def(k) == defs[CHOOSE i \in DOMAIN defs : defs[i].k = k].f
             RECURSIVE go(_, _)
             go(i, acc) == IF i > Len(e.kids) THEN acc
                           ELSE go(i + 1, DSet(acc, Str(tags[i]), XmlValue(cx, def(tags[i]), e.kids[i])))
         IN Dict(go(1, <<>>))
    [] f.ty = "map" ->
         LET RECURSIVE go(_, _)
             go(i, acc) == IF i > Len(e.kids) THEN acc
                           ELSE go(i + 1, DSet(acc, Str(e.kids[i].tag), XmlValue(cx, f.value, e.kids[i])))
         IN Dict(go(1, <<>>))
    [] f.ty = "sequence" -> List(MapSeq(e.kids, LAMBDA k : XmlValue(cx, f.item, k)))
    [] f.ty = "tuple" ->
         Tup(TLCEval([i \in DOMAIN e.kids |-> XmlValue(cx, f.values[i], e.kids[i])]))
    [] OTHER -> Str(e.text)

(* ------------------------------------------------------------------ YAML *)
(* what a standard reader made of the document against the serialized form *)
RECURSIVE SameY(_, _)
SameY(x, o) ==
  CASE x.t \in {"tuple", "list"} ->
         o.t = "list" /\ Len(x.c) = Len(o.c) /\ \A i \in DOMAIN x.c : SameY(x.c[i], o.c[i])
    [] IsDict(x) ->
         /\ o.t = "dict" /\ Len(x.c) = Len(o.c)
         /\ \A i \in DOMAIN x.c : \E j \in DOMAIN o.c :
              SameY(DKey(x.c[i]), DKey(o.c[j])) /\ SameY(DVal(x.c[i]), DVal(o.c[j]))
    [] OTHER -> Same(x, o)

(* --------------------------------------------------------------- verdicts *)
(* the value a document denotes; doc: a standard parser's reading, if any   *)
DocValue(cx, f, fmt, text, doc) ==
  CASE fmt = "json" -> JsonRead(cx, text)
    [] fmt = "structuredtext" -> STRead(text)
    [] fmt = "urlencoded" -> UrlRead(text)
    [] fmt = "csv" -> CsvValue(cx, f, CsvTable(text))
    [] fmt = "xml" -> IF doc = <<>> \/ ~XmlFits(cx, f, doc[1]) THEN RBad ELSE RHit(XmlValue(cx, f, doc[1]), 0)
    [] fmt = "yaml" -> IF doc = <<>> THEN RBad ELSE RHit(doc[1], 0)
(* does the document hold the serialized value s? *)
Holds(cx, f, fmt, text, doc, s, columns) ==
  CASE fmt = "json" -> LET r == JsonRead(cx, text) IN r.ok /\ Same(JsonForm(cx, s), r.v)
    [] fmt = "structuredtext" -> LET r == STRead(text) IN r.ok /\ Same(STForm(cx, s), r.v)
    [] fmt = "urlencoded" -> LET r == UrlRead(text) IN r.ok /\ Same(STForm(cx, s), r.v)
    [] fmt = "csv" -> CsvTable(text) = CsvForm(cx, f, s, columns)
    [] fmt = "xml" -> doc # <<>> /\ SameXml(XmlForm(cx, f, s, NameOr(f, N_root)), doc[1])
    [] fmt = "yaml" -> doc # <<>> /\ SameY(s, doc[1])
RECURSIVE DownPath(_, _)             \* a sequence of rows inside structures
DownPath(f, path) == IF path = <<>> THEN f ELSE DownPath(MemberOf(f, path[1])[1], Tail(path))
RECURSIVE DownValue(_, _)
DownValue(v, path) == IF path = <<>> THEN v ELSE DownValue(DGet(v, Str(path[1])), Tail(path))
WriteVerdict(ev) ==
  LET x == Process(ev.cx, ev.f, ev.v, "out", TRUE, FALSE)
  IN IF x.r # "ok" THEN Judge(x, ev.out)
     ELSE IF ev.out.r # "ok" THEN {"cannot-write " \o ev.out.r \o " " \o ev.out.x}
     ELSE IF ev.out.v.t # "str" THEN {"document-is-not-text"}
     ELSE Clause(Holds(ev.cx, DownPath(ev.f, ev.path), ev.fmt, ev.out.v.n, ev.doc, DownValue(x.v, ev.path), ev.columns),
                 ev.fmt \o "-document")
          \cup Clause(ev.printed = <<>>, "printed-something")
(* exact: the value written, when the format should give it back unchanged; *)
(* values for which the plain conversion is not the identity are left out   *)
Identity(cx, f, v) ==
  LET x == Process(cx, f, v, "out", TRUE, FALSE)
  IN x.r = "ok" /\ LET y == Process(cx, f, x.v, "in", TRUE, FALSE) IN y.r = "ok" /\ Same(y.v, v)
ReadVerdict(ev) ==
  LET d == DocValue(ev.cx, ev.f, ev.fmt, ev.text, ev.doc)
      u == IF d.ok /\ ev.numbers = 1 THEN STNumbers(ev.cx, d.v) ELSE d.v
      x == IF d.ok THEN Process(ev.cx, ev.f, u, "in", TRUE, FALSE) ELSE [r |-> "none"]
  IN (IF ~d.ok THEN {}             \* not a document of the format: nothing is claimed
      ELSE IF x.r # "ok" /\ ev.fmt \in {"csv", "xml"}
           THEN Clause(ev.out.r # "ok", "accepted-invalid-document")
      ELSE Judge(x, ev.out))
     \cup (IF ev.exact = <<>> \/ ~Identity(ev.cx, ev.f, ev.exact[1]) THEN {}
           ELSE Clause(ev.out.r = "ok" /\ Same(ev.exact[1], ev.out.v), ev.fmt \o "-round-trip"))
=============================================================================
