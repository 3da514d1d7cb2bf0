-------------------------------- MODULE MC_Docs --------------------------------
(* Every small description: the document made of it can be read back into the  *)
(* blocks it is made of, and these are the fields inside, each at its depth     *)
(* and under its name (C38).                                                    *)
EXTENDS Docs

CONSTANTS Depth, Wide

D(ty, kvs) == Dict(<<KV(Str(W("fieldtype")), Str(Txt(ty)))>> \o kvs)
E(k, v) == KV(Str(W(k)), v)
N(k) == Nd("int", IF k = 0 THEN <<0>> ELSE <<1, k>>, <<>>)
A == <<97>>
B == <<98>>

Leaves ==
  {D("text", <<E("required", True), E("max_length", N(3))>>), D("boolean", <<E("description", Str(<<97, 32, 10, 98>>)), E("required", True)>>)}
  \cup IF Wide THEN {D("integer", <<E("minimum", N(0))>>), D("date", <<E("minimum", Str(A)), E("nonnull", False)>>),
                     D("enumeration", <<E("enumeration", List(<<Str(B), Str(A)>>)), E("title", Str(<<>>))>>),
                     D("float", <<E("minimum", N(1)), E("maximum", N(2)), E("default", N(0))>>)} ELSE {}
Structural(d) == Dict(Append(d.c, E("structural", True)))
RECURSIVE Descriptions(_)
Descriptions(d) ==
  IF d = 0 THEN Leaves
  ELSE LET S == Descriptions(d - 1)
           st(m) == Structural(D("structure", <<E("structure", m)>>))
       IN S \cup {st(Dict(<<>>))}
            \cup {st(Dict(<<KV(Str(B), x), KV(Str(A), y)>>)) : x \in S, y \in S}
            \cup {Structural(D("sequence", <<E("item", x), E("unique", True)>>)) : x \in S}
            \cup {Structural(D("map", <<E("value", x), E("required_keys", List(<<Str(B), Str(A)>>))>>)) : x \in S}
            \cup {Structural(D("tuple", <<E("values", List(<<x, y>>))>>)) : x \in S, y \in Leaves}
            \cup {Structural(D("union", <<E("fields", List(<<x, y>>))>>)) : x \in Leaves, y \in S}
            \cup {Structural(D("structure", <<E("polymorphic_on", D("enumeration", <<E("name", Str(W("type")))>>)),
                                   E("structure", Dict(<<KV(Str(B), Dict(<<KV(Str(A), x), KV(Str(W("type")), y)>>)), KV(Str(A), Dict(<<>>))>>))>>))
                    : x \in S, y \in Leaves}

All == Descriptions(Depth)
VARIABLES f, role, blocks
vars == <<f, role, blocks>>

Reps == <<<<N(0), <<48>>, <<48>>>>, <<N(1), <<49>>, <<49>>>>, <<N(2), <<50>>, <<50>>>>, <<N(3), <<51>>, <<51>>>>>>
Tree(d, ro) == Doc([role |-> ro, reps |-> Reps], A, d, FALSE, <<>>)

(* blocks in order, with their depths *)
RECURSIVE Flat(_, _)
Flat(b, lvl) == <<<<lvl, b.a, b.p>>>> \o Concat([i \in DOMAIN b.c |-> Flat(b.c[i], lvl + 1)])

(* a description, of which the blocks are worked out in a step of its own *)
Init == f = Null /\ role = <<>> /\ blocks = <<>>
Next == \/ IsNullV(f) /\ f' \in All /\ role' \in {<<>>, W("schema")} /\ UNCHANGED blocks
        \/ ~IsNullV(f) /\ blocks = <<>> /\ blocks' = Flat(Tree(f, role), 0) /\ UNCHANGED <<f, role>>
Spec == Init /\ [][Next]_vars

(* the same, read from the text *)
Margin(l) == IF \A n \in DOMAIN l : l[n] = 32 THEN Len(l) ELSE CHOOSE n \in 0..Len(l) : l[n + 1] # 32 /\ \A j \in 1..n : l[j] = 32
Starts(l, w) == Len(l) >= Len(w) /\ SubSeq(l, 1, Len(w)) = w
RECURSIVE ReadBlocks(_, _)
ReadBlocks(ls, bs) ==
  IF ls = <<>> THEN bs
  ELSE LET l == Head(ls)
           m == Margin(l)
           b == SubSeq(l, m + 1, Len(l))
           last == bs[Len(bs)]
           put(p) == SubSeq(bs, 1, Len(bs) - 1) \o <<<<last[1], last[2], p>>>>
       IN IF b = <<>> THEN ReadBlocks(Tail(ls), bs)
          ELSE IF Starts(b, W(".. field:: ")) THEN ReadBlocks(Tail(ls), Append(bs, <<m \div 4, SubSeq(b, 12, Len(b)), <<>>>>))
          ELSE IF Head(b) = 58 THEN LET e == CHOOSE n \in 2..Len(b) : b[n] = 58 /\ \A j \in 2..(n - 1) : b[j] # 58
                                   IN ReadBlocks(Tail(ls), put(Append(last[3], <<SubSeq(b, 2, e - 1), SubSeq(b, e + 2, Len(b))>>)))
          ELSE LET q == last[3][Len(last[3])]
               IN ReadBlocks(Tail(ls), put(SubSeq(last[3], 1, Len(last[3]) - 1) \o <<<<q[1], q[2] \o <<10>> \o b>>>>))
Done == blocks # <<>>
Readable == Done => ReadBlocks(SplitOn(Rst(Tree(f, role), 0), 10, <<>>), <<>>) = blocks

(* the fields inside *)
RECURSIVE Inside(_)
Inside(d) ==
  LET ty == Get(d, "fieldtype").n
      is(k) == ty = KindNames[k]
      all(vs) == 1 + LET RECURSIVE Sum(_)
                         Sum(s) == IF s = <<>> THEN 0 ELSE Inside(Head(s)) + Sum(Tail(s))
                     IN Sum(vs)
      vals(m) == [i \in DOMAIN m.c |-> m.c[i].c[2]]
  IN CASE is("sequence") -> all(<<Get(d, "item")>>)
       [] is("map") -> IF Get(d, "value") \in Leaves /\ ~Has(Get(d, "value"), "description") THEN 1 ELSE all(<<Get(d, "value")>>)
       [] is("tuple") -> all(Get(d, "values").c)
       [] is("union") -> all(Get(d, "fields").c)
       [] is("structure") /\ Has(d, "polymorphic_on") -> 2 + all(vals(vals(Get(d, "structure"))[1]))
       [] is("structure") -> all(vals(Get(d, "structure")))
       [] OTHER -> 1
Whole == Done => Len(blocks) = Inside(f)

(* every block says what it is, and a schema's fields are not said to be required *)
Said == Done =>
  \A i \in DOMAIN blocks :
    LET p == blocks[i][3]
        says(k) == \E j \in DOMAIN p : p[j][1] = W(k)
    IN /\ says("type") # says("polymorphic_discriminator")
       /\ role = W("schema") => ~says("required")
       /\ ~says("nonnull")
================================================================================
