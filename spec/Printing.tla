------------------------------- MODULE Printing --------------------------------
(* Texts about values: laying out a nested structure over lines, masking       *)
(* entries of it, and the small operations on text of scheme/util.py.          *)
(* A layout is [one, t]: a single line, or lines of which the first is to be   *)
(* put behind whatever introduces the value.                                   *)
EXTENDS Values, TLC

Clause(cond, name) == IF cond THEN {} ELSE {name}

Alnum(ch) == ch \in (48..57) \cup (65..90) \cup (97..122) \cup {233}

(* ------------------------------------------------------------ literals *)
Hex(k) == IF k < 10 THEN 48 + k ELSE 87 + k
Escaped(ch, q) ==
  CASE ch = q -> <<92, ch>>
    [] ch = 92 -> <<92, 92>>
    [] ch = 9 -> <<92, 116>>
    [] ch = 10 -> <<92, 110>>
    [] ch = 13 -> <<92, 114>>
    [] ch < 32 \/ ch = 127 -> <<92, 120, Hex(ch \div 16), Hex(ch % 16)>>
    [] OTHER -> <<ch>>
RECURSIVE EscapeAll(_, _)
EscapeAll(s, q) == IF s = <<>> THEN <<>> ELSE Escaped(Head(s), q) \o EscapeAll(Tail(s), q)
Quoted(s) ==
  LET has(ch) == \E i \in DOMAIN s : s[i] = ch
      q == IF has(39) /\ ~has(34) THEN 34 ELSE 39
  IN <<q>> \o EscapeAll(s, q) \o <<q>>

(* reps: the literals of Python's other scalars *)
RepOf(reps, v) == LET k == CHOOSE i \in DOMAIN reps : reps[i][1] = v IN reps[k][2]
Literal(reps, v) ==
  CASE v.t = "null" -> <<78, 111, 110, 101>>
    [] v = True -> <<84, 114, 117, 101>>
    [] v = False -> <<70, 97, 108, 115, 101>>
    [] v.t = "int" -> IntText(v.n)
    [] OTHER -> RepOf(reps, v)

(* -------------------------------------------------------- abbreviation *)
RECURSIVE CutEnd(_)
CutEnd(s) == IF s # <<>> /\ ~Alnum(s[Len(s)]) THEN CutEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE CutStart(_)
CutStart(s) == IF s # <<>> /\ ~Alnum(Head(s)) THEN CutStart(Tail(s)) ELSE s
Abbreviated(s, limit) ==
  LET m == MaxOf(limit, 4)
      half == (m - 3) \div 2
  IN IF Len(s) <= m THEN s
     ELSE CutEnd(SubSeq(s, 1, half)) \o <<46, 46, 46>> \o CutStart(SubSeq(s, Len(s) - half + 1, Len(s)))

(* -------------------------------------------------------------- layout *)
(* o: [indent, abbr, masks]; masks a sequence of texts *)
Spaces(k) == [i \in 1..k |-> 32]
Masked == <<42, 42, 42>> \o <<77, 65, 83, 75, 69, 68>> \o <<42, 42, 42>>
KeyText(k) == IF k.t = "str" THEN k.n ELSE IntText(k.n)
KeyLess(a, b) ==
  IF a.t = "int" THEN SIntCmp(a.n, b.n) < 0
  ELSE LET w == MinOf(Len(a.n), Len(b.n))
           c == LexCmp(SubSeq(a.n, 1, w), SubSeq(b.n, 1, w), 1)
       IN c < 0 \/ (c = 0 /\ Len(a.n) < Len(b.n))
Sorted(c) == [i \in DOMAIN c |-> CHOOSE x \in {c[j] : j \in DOMAIN c} :
                                   Cardinality({j \in DOMAIN c : KeyLess(c[j].c[1], x.c[1])}) = i - 1]
RECURSIVE Concat(_)
Concat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Concat(Tail(xs))

(* lines of d introduced by intro, at an indentation *)
Entry(ind, intro, d) ==
  LET n == Len(d.t) IN
  IF d.one THEN <<ind \o intro \o d.t[1] \o <<44>>>>
  ELSE <<ind \o intro \o d.t[1]>> \o SubSeq(d.t, 2, n - 1) \o <<ind \o d.t[n] \o <<44>>>>

RECURSIVE Layout(_, _, _, _)
Layout(o, reps, v, lvl) ==
  LET ind == Spaces(o.indent * (lvl + 1))
      single(x) == [one |-> TRUE, t |-> <<x>>]
  IN
  IF IsDict(v) THEN
    LET es == Sorted(v.c)
        ds == TLCEval([i \in DOMAIN es |->
                LET k == KeyText(es[i].c[1])
                    d == IF \E j \in DOMAIN o.masks : o.masks[j] = k THEN single(Masked) ELSE Layout(o, reps, es[i].c[2], lvl + 1)
                IN [one |-> d.one, t |-> Entry(ind, Quoted(k) \o <<58, 32>>, d)]])
        of(b) == Concat([i \in DOMAIN ds |-> IF ds[i].one = b THEN ds[i].t ELSE <<>>])
    IN [one |-> FALSE, t |-> <<<<123>>>> \o of(TRUE) \o of(FALSE) \o <<<<125>>>>]
  ELSE IF v.t \in {"list", "tuple"} THEN
    LET ends == IF v.t = "list" THEN <<91, 93>> ELSE <<40, 41>>
        ds == TLCEval([i \in DOMAIN v.c |-> Layout(o, reps, v.c[i], lvl + 1)])
        flat == <<ends[1]>> \o JoinWith([i \in DOMAIN ds |-> ds[i].t[1]], <<44, 32>>) \o <<ends[2]>>
    IN IF (\A i \in DOMAIN ds : ds[i].one) /\ Len(flat) <= 60 THEN single(flat)
       ELSE [one |-> FALSE, t |-> <<<<ends[1]>>>> \o Concat([i \in DOMAIN ds |-> Entry(ind, <<>>, ds[i])]) \o <<<<ends[2]>>>>]
  ELSE IF v.t = "str" THEN single(Quoted(IF o.abbr = 1 THEN Abbreviated(v.n, 0) ELSE v.n))
  ELSE single(Literal(reps, v))

Printed(o, reps, v, lvl) == JoinWith(Layout(o, reps, v, lvl).t, <<10>>)

(* ------------------------------------------------------ texts, otherwise *)
Indented(s, by, first) ==
  LET ls == SplitOn(s, 10, <<>>)
  IN JoinWith([i \in DOMAIN ls |-> IF i = 1 /\ ~first THEN ls[i] ELSE by \o ls[i]], <<10>>)

RECURSIVE Collapse(_, _)
Collapse(s, gap) ==           \* gap: directly behind whitespace
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) \in WS THEN (IF gap THEN <<>> ELSE <<32>>) \o Collapse(Tail(s), TRUE)
  ELSE <<Head(s)>> \o Collapse(Tail(s), FALSE)
Minimized(s) == StripSet(Collapse(s, FALSE), {32})

EndsWith(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
Vowels == {97, 101, 105, 111, 117}
Plural(w) ==
  LET n == Len(w)
      but(k) == SubSeq(w, 1, n - k)
  IN CASE EndsWith(w, <<105, 102, 101>>) -> but(3) \o <<105, 118, 101, 115>>
       [] EndsWith(w, <<101, 97, 117>>) -> w \o <<120>>
       [] EndsWith(w, <<108, 102>>) -> but(1) \o <<118, 101, 115>>
       [] n > 0 /\ w[n] \in {115, 120, 122} -> w \o <<101, 115>>
       [] n > 1 /\ w[n] = 104 /\ w[n - 1] \notin Vowels \cup {100, 103, 107, 112, 114, 116} -> w \o <<101, 115>>
       [] n > 1 /\ w[n] = 121 /\ (w[n - 1] \notin Vowels \/ EndsWith(w, <<113, 117, 121>>)) -> but(1) \o <<105, 101, 115>>
       [] OTHER -> w \o <<115>>
Pluralized(w, q) == IF PyEq(q, Nd("int", <<1, 1>>, <<>>)) THEN w ELSE Plural(w)

(* ---------------------------------------------------------------- steps *)
PrintVerdict(ev) ==
  Clause(ev.r = "ok", "failed " \o ev.r)
  \cup (IF ev.r # "ok" THEN {}
        ELSE LET x == CASE ev.what = "format" -> Printed(ev.o, ev.reps, ev.v, ev.lvl)
                        [] ev.what = "abbreviate" -> Abbreviated(ev.v.n, ev.lvl)
                        [] ev.what = "indent" -> Indented(ev.v.n, ev.by, ev.o.first = 1)
                        [] ev.what = "minimize" -> Minimized(ev.v.n)
                        [] ev.what = "pluralize" -> Pluralized(ev.v.n, ev.q)
             IN Clause(ev.out = x, ev.what \o ": expected " \o ToString(x)))
  \cup Clause(ev.mut = <<>>, "argument-changed")
================================================================================
