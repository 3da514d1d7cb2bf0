------------------------------- MODULE MC_Depict --------------------------------
(* The text of every small field: it nests properly, it has in it the texts of  *)
(* the fields inside, and no two fields share it unless they differ only in     *)
(* what a text does not show (C39).                                             *)
EXTENDS MC_Construct
T == INSTANCE Depict

(* the characters outside quotes *)
RECURSIVE Outside(_, _)
Outside(s, q) ==
  IF s = <<>> THEN (IF q = 0 THEN <<>> ELSE <<0>>)
  ELSE LET ch == Head(s)
       IN IF q = 0 THEN (IF ch \in {34, 39} THEN Outside(Tail(s), ch) ELSE <<ch>> \o Outside(Tail(s), 0))
          ELSE IF ch = 92 THEN Outside(SubSeq(s, 3, Len(s)), q)
          ELSE Outside(Tail(s), IF ch = q THEN 0 ELSE q)
Closing(ch) == CASE ch = 40 -> 41 [] ch = 91 -> 93 [] ch = 123 -> 125 [] OTHER -> -1
RECURSIVE Nests(_, _)
Nests(s, open) ==
  IF s = <<>> THEN open = <<>>
  ELSE LET ch == Head(s)
       IN IF ch \in {40, 91, 123} THEN Nests(Tail(s), <<ch>> \o open)
          ELSE IF ch \in {41, 93, 125} THEN open # <<>> /\ Closing(open[1]) = ch /\ Nests(Tail(s), Tail(open))
          ELSE ch # 0 /\ Nests(Tail(s), open)

(* the fields a field is made of *)
Parts(x) ==
  CASE x.ty = "sequence" -> <<x.item>>
    [] x.ty = "map" -> x.key \o <<x.value>>
    [] x.ty = "tuple" -> x.values
    [] x.ty = "union" -> x.fields
    [] x.ty = "structure" /\ x.poly = <<>> -> [i \in DOMAIN x.struct |-> x.struct[i].f]
    [] OTHER -> <<>>
Within(a, b) == \E i \in 0..(Len(b) - Len(a)) : SubSeq(b, i + 1, i + Len(a)) = a

(* a field in full: every variant with the common fields and the discriminator *)
RECURSIVE Full(_)
FullMember(m) == [k |-> m.k, f |-> Full(m.f)]
Full(x) ==
  CASE x.ty = "sequence" -> [x EXCEPT !.item = Full(@)]
    [] x.ty = "map" -> [x EXCEPT !.value = Full(@)]
    [] x.ty = "tuple" -> [x EXCEPT !.values = MapSeq(@, Full)]
    [] x.ty = "union" -> [x EXCEPT !.fields = MapSeq(@, Full)]
    [] x.ty = "structure" ->
         [x EXCEPT !.struct = MapSeq(@, FullMember),
                   !.variants = TLCEval([i \in DOMAIN x.variants |-> [id |-> x.variants[i].id, s |-> MapSeq(VariantDefs(x, i), FullMember)]])]
    [] OTHER -> x

(* what a text shows, every other parameter as if it were not there *)
RECURSIVE Shown(_)
Member(m) == [k |-> m.k, f |-> Shown(m.f)]
Shown(x) ==
  LET h == [x EXCEPT !.asp = <<>>, !.texts = IF T!Truthy(x.texts[1]) THEN <<x.texts[1]>> ELSE <<<<>>>>,
                     !.constant = IF @ = <<>> THEN <<>> ELSE <<Null>>]
  IN CASE x.ty = "sequence" -> [h EXCEPT !.item = Shown(@)]
       [] x.ty = "map" -> [h EXCEPT !.value = Shown(@), !.key = IF @ = <<>> THEN <<>> ELSE <<Shown(@[1])>>]
       [] x.ty = "tuple" -> [h EXCEPT !.values = TLCEval([i \in DOMAIN x.values |-> Shown(x.values[i])])]
       [] x.ty = "union" -> [h EXCEPT !.fields = TLCEval([i \in DOMAIN x.fields |-> Shown(x.fields[i])])]
       [] x.ty = "enumeration" -> [h EXCEPT !.ign = <<>>]
       [] x.ty = "definition" -> [h EXCEPT !.valid = <<>>]
       [] x.ty = "structure" ->
            LET members(ms) == TLCEval([i \in DOMAIN ms |-> Member(ms[i])])
            IN [h EXCEPT !.struct = members(@), !.poly = IF @ = <<>> THEN <<>> ELSE <<DiscName(x)>>, !.common = <<>>,
                         !.variants = TLCEval([i \in DOMAIN x.variants |-> [id |-> x.variants[i].id, s |-> members(x.variants[i].s)]])]
       [] OTHER -> h

Known == <<<<Nd("date", <<2020, 1, 2>>, <<>>), <<68>>>>, <<Nd("time", <<1, 2, 3, 0, 0, 0>>, <<>>), <<84>>>>>>
Said(x) == T!Text(Known, x)

VARIABLE said
Start == f \in Fields1 /\ back = <<>> /\ said = <<>>
Say == said = <<>> /\ said' = Said(Full(f)) /\ UNCHANGED <<f, back>>
Saying == Start /\ [][Say]_<<f, back, said>>

Nested == said # <<>> => Nests(Outside(said, 0), <<>>)
Inside == said # <<>> => \A i \in DOMAIN Parts(f) : Within(Said(Full(Parts(f)[i])), said)
(* as many texts as there are fields that a text can tell apart *)
All == TLCEval({Full(x) : x \in Fields1})
ASSUME Cardinality({Said(x) : x \in All}) = Cardinality({Shown(x) : x \in All})
=================================================================================
