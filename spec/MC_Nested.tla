------------------------------- MODULE MC_Nested -------------------------------
(* Every pair of small nested mappings: setting and merging have exactly the  *)
(* stated effect on every path (C31).                                         *)
EXTENDS Nested

CONSTANTS Depth, Values2

Num(k) == Nd("int", IF k = 0 THEN <<0>> ELSE <<1, k>>, <<>>)
K1 == Str(<<97>>)
K2 == Str(<<98>>)
Keys == {K1, K2}
Leaves == {Num(k) : k \in 0..Values2}
None == "none"
(* mappings over both keys, each key absent or holding something of S *)
Over(S) == {Dict((IF x = Null THEN <<>> ELSE <<KV(K1, x)>>) \o (IF y = Null THEN <<>> ELSE <<KV(K2, y)>>)) :
              x \in S \cup {Null}, y \in S \cup {Null}}
RECURSIVE Maps(_)
Maps(d) == IF d = 1 THEN Over(Leaves) ELSE Over({Num(0)} \cup Maps(d - 1))
Paths == UNION {[1..n -> Keys] : n \in 1..(Depth + 1)}

VARIABLES a, b
vars == <<a, b>>
Init == a \in Maps(Depth) /\ b = Null
Next == b = Null /\ b' \in Maps(Depth) /\ a' = a
Spec == Init /\ [][Next]_vars

A == Alloc(<<>>, a)
B == Alloc(A.hp, b)
Hp == B.hp
Is(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Apart(p, q) == ~Is(p, q) /\ ~Is(q, p)
Seen(hp, x, p) == LET g == Get(hp, x, p) IN IF g.r = "ok" THEN <<Tree(hp, g.x)>> ELSE <<>>

SetGet == b # Null =>
  \A p \in Paths : \A y \in {Leaf(Num(7)), B.x} :
    LET s == Set(Hp, A.x, p, y)
        up == Get(Hp, A.x, Front(p))
    IN /\ s.r = "ok" <=> (up.r = "ok" /\ IsMap(up.x))
       /\ s.r # "ok" => s.hp = Hp
       /\ s.r = "ok" => /\ Seen(s.hp, A.x, p) = <<Tree(Hp, y)>>
                        /\ \A q \in Paths : Apart(p, q) => Seen(s.hp, A.x, q) = Seen(Hp, A.x, q)
                        /\ Tree(s.hp, B.x) = b

MergeLaw == b # Null =>
  LET hp == Merge(Hp, A.x.m, B.x.m)
  IN /\ Tree(hp, B.x) = b
     /\ Same(Tree(hp, A.x), MergedTree(a, b))
     /\ \A q \in Paths :
          LET x == Seen(Hp, A.x, q)
              y == Seen(Hp, B.x, q)
              z == Seen(hp, A.x, q)
          IN /\ y # <<>> /\ ~IsDict(y[1]) => z = y
             /\ y # <<>> /\ IsDict(y[1]) => z # <<>> /\ IsDict(z[1])
             /\ x # <<>> /\ y = <<>> /\ (\A n \in 1..(Len(q) - 1) :
                   LET w == Seen(Hp, B.x, SubSeq(q, 1, n)) IN w = <<>> \/ IsDict(w[1])) => z = x

Expected == b # Null => Same(Tree(Hp, A.x), a) /\ Same(Tree(Hp, B.x), b)
================================================================================
