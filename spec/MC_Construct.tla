------------------------------ MODULE MC_Construct ------------------------------
(* Every small field: its description is a definition, the field that makes   *)
(* is the one rebuilt, and describing that again says the same (C18, C33).    *)
EXTENDS Shapes

CONSTANTS Deep

Cx == [tz |-> <<>>, facts |-> <<>>]
A  == <<97>>
Zed == <<122>>
Num(k) == Nd("int", IF k = 0 THEN <<0>> ELSE <<1, k>>, <<>>)
K_of(ty) ==
  CASE ty = "boolean" -> <<98,111,111,108,101,97,110>>
    [] ty = "integer" -> <<105,110,116,101,103,101,114>>
    [] ty = "text" -> <<116,101,120,116>>
    [] ty = "email" -> <<101,109,97,105,108>>
    [] ty = "token" -> <<116,111,107,101,110>>
    [] ty = "enumeration" -> <<101,110,117,109,101,114,97,116,105,111,110>>
    [] ty = "date" -> <<100,97,116,101>>
    [] ty = "time" -> <<116,105,109,101>>
    [] ty = "definition" -> <<100,101,102,105,110,105,116,105,111,110>>
    [] ty = "structure" -> <<115,116,114,117,99,116,117,114,101>>
    [] ty = "sequence" -> <<115,101,113,117,101,110,99,101>>
    [] ty = "map" -> <<109,97,112>>
    [] ty = "tuple" -> <<116,117,112,108,101>>
    [] ty = "union" -> <<117,110,105,111,110>>
Flags == {0, 1}
Head0(ty) == [ty |-> ty, tyn |-> K_of(ty), name |-> <<>>, nonnull |-> 0, required |-> 0, ignull |-> 0, default |-> <<>>,
              constant |-> <<>>, pre |-> "none", inst |-> 0, extr |-> 0, asp |-> <<>>, texts |-> <<<<>>, <<>>, <<>>>>]
(* every combination of the parameters all fields have, one of each *)
Heads(ty, defaults) ==
  {[Head0(ty) EXCEPT !.name = nm, !.nonnull = nn, !.required = rq, !.ignull = ig, !.default = d, !.texts = <<t, <<>>, t>>, !.asp = a] :
     nm \in {<<>>, <<A>>}, nn \in Flags, rq \in Flags, ig \in Flags, d \in {<<>>} \cup defaults,
     t \in {<<>>, <<Str(Zed)>>}, a \in {<<>>, <<<<"label", Str(<<>>), Zed>>>>}}
Few(ty, defaults) == {[Head0(ty) EXCEPT !.name = nm, !.nonnull = nn, !.default = d] : nm \in {<<>>, <<A>>}, nn \in Flags, d \in {<<>>} \cup defaults}

Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Ints(H) == {h @@ [min |-> a, max |-> b] : h \in H, a \in Opt({Num(0), Num(2)}), b \in Opt({Num(2)})}
Texts(H) == {h @@ [minl |-> a, maxl |-> b, strip |-> s, pat |-> <<>>] : h \in H, a \in Opt({0, 1}), b \in Opt({3}), s \in Flags}
Emails(H) == {h @@ [minl |-> a, maxl |-> <<>>, multiple |-> m, extended |-> e] : h \in H, a \in Opt({1}), m \in Flags, e \in Flags}
Bools(H) == H
Enums(H) == {h @@ [enum |-> e, ign |-> g] : h \in H, e \in {<<Str(A)>>, <<Num(0), Null, True>>}, g \in {<<>>, <<<<Str(Zed)>>>>}}
Tokens(H) == {h @@ [segs |-> s] : h \in H, s \in Opt({1})}
Dates(H) == {h @@ [min |-> a, max |-> <<>>] : h \in H, a \in Opt({Nd("date", <<2020, 1, 2>>, <<>>), Str(<<50,48,50,48,45,48,49,45,48,50>>)})}
Times(H) == {h @@ [min |-> <<>>, max |-> a] : h \in H, a \in Opt({Nd("time", <<1, 2, 3, 0, 0, 0>>, <<>>)})}
Kinds(H) == {h @@ [valid |-> v] : h \in H, v \in {<<>>, <<<<K_of("integer")>>>>, <<<<K_of("text"), K_of("map")>>>>}}

Scalars1 ==
  Ints(Heads("integer", {<<Num(2)>>})) \cup Texts(Heads("text", {<<Str(A)>>})) \cup Bools(Heads("boolean", {<<False>>}))
  \cup Enums(Heads("enumeration", {})) \cup Tokens(Heads("token", {})) \cup Dates(Heads("date", {})) \cup Times(Heads("time", {}))
  \cup Kinds(Heads("definition", {}))
  \cup {e \in Emails(Heads("email", {})) : ~(e.multiple = 1 /\ e.extended = 1)}
Small == {[h EXCEPT !.name = nm] @@ [min |-> <<>>, max |-> b] : h \in Few("integer", {<<Num(2)>>}), nm \in {<<>>, <<A>>}, b \in Opt({Num(2)})}
         \cup Bools(Few("boolean", {}))
(* one level of structure over a set of fields *)
Members(S) == {<<>>} \cup {<<[k |-> A, f |-> x]>> : x \in S} \cup {<<[k |-> A, f |-> x], [k |-> Zed, f |-> y]>> : x \in S, y \in Bools({Head0("boolean")})}
Seqs(H, S) == {h @@ [minl |-> a, maxl |-> <<>>, unique |-> u, item |-> x] : h \in H, a \in Opt({0}), u \in Flags, x \in S}
Maps(H, S) == {h @@ [value |-> x, key |-> k, reqkeys |-> r] : h \in H, x \in S, k \in {<<>>, <<Head0("boolean")>>}, r \in {<<>>, <<<<Str(A)>>>>}}
Tups(H, S) == {h @@ [values |-> v] : h \in H, v \in {<<x>> : x \in S} \cup {<<x, Head0("boolean")>> : x \in S}}
Unis(H, S) == {h @@ [fields |-> v] : h \in H, v \in {<<x, Head0("boolean")>> : x \in S}}
Structs(H, S) == {h @@ [strict |-> s, korder |-> o, poly |-> <<>>, common |-> <<>>, variants |-> <<>>, struct |-> m] :
                    h \in H, s \in Flags, o \in {<<>>, <<<<Zed, A>>>>}, m \in Members(S)}
Discs == {[Head0("integer") EXCEPT !.name = <<Zed>>, !.nonnull = nn, !.required = rq] @@ [min |-> <<>>, max |-> <<>>] : nn \in Flags, rq \in Flags}
Polys(H, S) == {h @@ [strict |-> 1, korder |-> <<>>, poly |-> <<d>>, common |-> c, struct |-> <<>>,
                      variants |-> <<[id |-> Num(0), s |-> v], [id |-> Num(1), s |-> <<>>]>>] :
                  h \in H, d \in Discs, c \in {<<>>, <<[k |-> <<99>>, f |-> Head0("boolean")]>>},
                  v \in {<<>>} \cup {<<[k |-> A, f |-> x]>> : x \in S}}
Over(H(_), S) == Seqs(H("sequence"), S) \cup Maps(H("map"), S) \cup Tups(H("tuple"), S) \cup Unis(H("union"), S)
                 \cup Structs(H("structure"), S) \cup Polys(H("structure"), S)
One(ty) == {Head0(ty)}
Plain(ty) == Few(ty, {})
Fields1 == Scalars1 \cup Over(Plain, Small) \cup (IF Deep = 1 THEN Over(One, Over(One, {Head0("boolean")})) ELSE {})

VARIABLES f, back
vars == <<f, back>>
Init == f \in Fields1 /\ back = <<>>
Next == back = <<>> /\ \E vb \in BOOLEAN : back' = <<vb, FromDef(Cx, Desc(Cx, f, vb))>> /\ f' = f
Spec == Init /\ [][Next]_vars

Made1 == back # <<>> => back[2].ok
SameField == back # <<>> /\ back[2].ok => SameShape(Rebuilt(Cx, f), Norm(Cx, back[2].f))
SaysTheSame == back # <<>> /\ back[2].ok => Same(Desc(Cx, back[2].f, back[1]), Desc(Cx, f, back[1]))
(* the kind of every field inside is known, and no definition without a kind makes a field *)
Kinded == back # <<>> =>
  LET d == Desc(Cx, f, back[1])
  IN ~FromDef(Cx, [d EXCEPT !.c = Tail(@)]).ok /\ ~FromDef(Cx, [d EXCEPT !.c = <<KV(Str(K_fieldtype), Str(Zed))>> \o Tail(@)]).ok
(* taking away what a field is made of leaves nothing that makes one *)
Needed(ty) == CASE ty = "sequence" -> {"item"} [] ty = "map" -> {"value"} [] ty = "tuple" -> {"values"} [] ty = "union" -> {"fields"}
                [] ty = "structure" -> {"structure"} [] ty = "enumeration" -> {"enumeration"} [] OTHER -> {}
Indispensable == back # <<>> =>
  \A k \in Needed(f.ty) : LET d == Desc(Cx, f, back[1])
                         IN ~FromDef(Cx, [d EXCEPT !.c = SelectSeq(@, LAMBDA kv : DKey(kv) # Str(K(k)))]).ok
=================================================================================
