------------------------------ MODULE MC_Printing ------------------------------
(* Every small structure and every short text: what printing, masking,         *)
(* abbreviating and minimizing never do (C36).                                  *)
EXTENDS Printing

CONSTANTS Depth, TextLen, Limits

Num(k) == Nd("int", IF k = 0 THEN <<0>> ELSE <<1, k>>, <<>>)
Ka == Str(<<97>>)
Kb == Str(<<98>>)
Secret == Str(<<33, 33>>)          \* a text in nothing else of the layout
Leaves == {Num(5), Secret}
Alphabet == {97, 46, 32, 10}

RECURSIVE Structures(_)
Structures(d) ==
  IF d = 0 THEN Leaves
  ELSE LET S == Structures(d - 1) IN
       S \cup {Dict(<<>>), List(<<>>)} \cup {Dict(<<KV(k, x)>>) : k \in {Ka, Kb}, x \in S}
         \cup {Dict(<<KV(Kb, x), KV(Ka, y)>>) : x \in S, y \in S}
         \cup {List(<<x>>) : x \in S} \cup {List(<<x, y>>) : x \in S, y \in S}
         \cup {Tup(<<x>>) : x \in S}
Texts == UNION {[1..n -> Alphabet] : n \in 0..TextLen}

VARIABLES kind, v, s
vars == <<kind, v, s>>
Init == kind = "" /\ v = Null /\ s = <<>>
Next == kind = "" /\ \/ kind' = "structure" /\ v' \in Structures(Depth) /\ UNCHANGED s
                     \/ kind' = "text" /\ s' \in Texts /\ UNCHANGED v
Spec == Init /\ [][Next]_vars

O(masks) == [indent |-> 2, abbr |-> 0, masks |-> masks]
Contains(t, part) == \E n \in 0..(Len(t) - Len(part)) : SubSeq(t, n + 1, n + Len(part)) = part
RECURSIVE Has(_, _)
Has(x, y) == x = y \/ \E n \in DOMAIN x.c : Has(IF IsDict(x) THEN DVal(x.c[n]) ELSE x.c[n], y)
(* without what is under the masked key, at every depth *)
RECURSIVE Without(_, _)
Without(x, k) ==
  IF IsDict(x) THEN Dict(TLCEval([n \in DOMAIN x.c |-> IF DKey(x.c[n]) = k THEN KV(k, Null) ELSE KV(DKey(x.c[n]), Without(DVal(x.c[n]), k))]))
  ELSE IF x.t \in {"list", "tuple"} THEN Nd(x.t, <<>>, TLCEval([n \in DOMAIN x.c |-> Without(x.c[n], k)]))
  ELSE x
Lines(t) == SplitOn(t, 10, <<>>)
Margin(l) == IF \A n \in DOMAIN l : l[n] = 32 THEN Len(l) ELSE CHOOSE n \in 0..Len(l) : l[n + 1] # 32 /\ \A j \in 1..n : l[j] = 32
Count(t, ch) == Cardinality({n \in DOMAIN t : t[n] = ch})

(* nothing under a masked key shows, all the rest does *)
Hidden == kind = "structure" =>
  LET plain == Printed(O(<<>>), <<>>, v, 0)
      masked == Printed(O(<<Ka.n>>), <<>>, v, 0)
  IN /\ Contains(plain, Secret.n) <=> Has(v, Secret)
     /\ Contains(masked, Secret.n) <=> Has(Without(v, Ka), Secret)
     /\ Contains(masked, Masked) <=> Without(v, Ka) # v
(* brackets balance; every line is indented by its depth *)
Shaped == kind = "structure" =>
  LET t == Printed(O(<<>>), <<>>, v, 0)
      ls == Lines(t)
      open(n) == LET u == Concat(SubSeq(ls, 1, n)) IN Count(u, 123) + Count(u, 91) + Count(u, 40) - Count(u, 125) - Count(u, 93) - Count(u, 41)
      closes(l) == l[Margin(l) + 1] \in {125, 93, 41}
  IN /\ open(Len(ls)) = 0
     /\ \A n \in DOMAIN ls : Margin(ls[n]) = 2 * (IF n = 1 THEN 0 ELSE open(n - 1) - (IF closes(ls[n]) THEN 1 ELSE 0))
(* the level only moves what is inside to the right *)
Moved == kind = "structure" =>
  LET ls == Lines(Printed(O(<<>>), <<>>, v, 0))
      ms == Lines(Printed(O(<<>>), <<>>, v, 1))
      n == Len(ls)
  IN Len(ms) = n /\ ms[1] = ls[1] /\ ms[n] = ls[n] /\ \A k \in 2..(n - 1) : ms[k] = Spaces(2) \o ls[k]

Short == kind = "text" => \A m \in Limits :
  LET a == Abbreviated(s, m)
      lim == MaxOf(m, 4)
  IN /\ Len(a) <= lim
     /\ (a = s <=> Len(s) <= lim \/ s = <<46, 46, 46>>)
     /\ Len(s) > lim => \E k \in 0..Len(a) : \E j \in 0..Len(a) :
          /\ a = SubSeq(s, 1, k) \o <<46, 46, 46>> \o SubSeq(s, Len(s) - j + 1, Len(s))
          /\ k > 0 => Alnum(a[k])
          /\ j > 0 => Alnum(a[k + 4])
Tidy == kind = "text" =>
  LET m == Minimized(s)
      solid(t) == SelectSeq(t, LAMBDA c : c \notin WS)
  IN /\ Minimized(m) = m /\ solid(m) = solid(s)
     /\ \A n \in DOMAIN m : m[n] \in WS => m[n] = 32 /\ n > 1 /\ n < Len(m) /\ m[n + 1] \notin WS
Outdent == kind = "text" =>
  LET t == Indented(s, <<62>>, TRUE)
      ls == Lines(t)
  IN /\ JoinWith([n \in DOMAIN ls |-> Tail(ls[n])], <<10>>) = s
     /\ \A n \in DOMAIN ls : Head(ls[n]) = 62
     /\ Indented(s, <<62>>, FALSE) = Tail(t)
(* one word has one plural, another word another one, unless it ends otherwise *)
Plurals == kind = "text" => Plural(s) # s /\ Plural(s)[Len(Plural(s))] \in {115, 120}
================================================================================
