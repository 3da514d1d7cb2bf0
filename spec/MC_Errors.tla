------------------------------- MODULE MC_Errors -------------------------------
(* Every history of a few errors built, extended, attached and written (C35). *)
EXTENDS Errors

CONSTANTS MaxErrors, MaxSteps

D1 == Dict(<<KV(TokenKey, Str(<<120>>))>>)
T1 == Str(<<98>>)
K1 == Str(<<97>>)
K2 == Str(<<99>>)
Val == Nd("int", <<1, 7>>, <<>>)

VARIABLES h, n, given          \* given[i]: the serialized forms handed out for error i, in order
vars == <<h, n, given>>

RECURSIVE LeadsTo(_, _, _)
Subs(st) == IF st = <<>> THEN {} ELSE {st[1].c[i].n[1] : i \in {j \in DOMAIN st[1].c : st[1].c[j].t = "ref"}}
                                      \cup {DVal(st[1].c[i]).n[1] : i \in {j \in DOMAIN st[1].c : st[1].c[j].t = "kv" /\ DVal(st[1].c[j]).t = "ref"}}
LeadsTo(g, a, b) == a = b \/ \E x \in Subs(g[a].st) : LeadsTo(g, x, b)

HoldsError(st) == st.c = <<>> \/ Subs(<<st>>) # {}     \* as the structures fields report do
Structures(ids) ==
  LET at == {Ref2(i) : i \in ids} \cup {Null, Val}
  IN {st \in {List(<<>>), Dict(<<>>)} \cup {List(<<x>>) : x \in at} \cup {List(<<x, y>>) : x \in at, y \in at}
     \cup {Dict(<<KV(K1, x)>>) : x \in at} \cup {Dict(<<KV(K1, x), KV(K2, y)>>) : x \in at, y \in at} : HoldsError(st)}

Init == h = <<>> /\ n = 0 /\ given = <<>>
New(errs, st) == /\ Len(h) < MaxErrors
                 /\ h' = Append(h, NewError(errs, st, 0)) /\ given' = Append(given, <<>>)
Read(i) == /\ Len(h) < MaxErrors /\ h[i].cache # <<>>
           /\ h' = Append(h, Unwritten(h[i].cache[1])) /\ given' = Append(given, <<>>)
Extend(i, e) == Len(h[i].errs) < 2 /\ h' = [h EXCEPT ![i].errs = Append(@, e)] /\ UNCHANGED given
Attach(i, st) == /\ \A x \in Subs(<<st>>) : ~LeadsTo(h, x, i)
                 /\ h' = [h EXCEPT ![i].st = <<st>>, ![i].raw = 0] /\ UNCHANGED given
Write(i, force) == LET w == WrittenOnce(h, i, force)
                   IN h' = [h EXCEPT ![i].cache = <<w>>] /\ given' = [given EXCEPT ![i] = Append(@, [w |-> w, f |-> force])]
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E errs \in {<<>>, <<D1>>, <<T1>>} : New(errs, <<>>)
           \/ \E st \in Structures(DOMAIN h) : New(<<>>, <<st>>)
           \/ \E i \in DOMAIN h : \/ \E e \in {D1, T1} : Extend(i, e)
                                  \/ \E st \in Structures(DOMAIN h) : Attach(i, st)
                                  \/ \E force \in BOOLEAN : Write(i, force)
                                  \/ Read(i)
Spec == Init /\ [][Next]_vars

(* what is written can be read, and reading and writing it again changes nothing *)
ReadBack == \A i \in DOMAIN h :
  LET w == Written(h, h[i])
      back == Unwritten(w)
  IN IsWritten(w) /\ Same(Written(<<>>, back), w) /\ Substantive(back) = Substantive(h[i])
(* only mappings are written as errors: a message becomes one *)
RECURSIVE Proper(_)
ProperList(v) == v.t = "list" /\ \A i \in DOMAIN v.c : v.c[i].t = "dict"
Proper(v) == \/ v.t = "list" /\ \A i \in DOMAIN v.c : v.c[i].t = "null" \/ ProperList(v.c[i]) \/ Proper(v.c[i])
             \/ v.t = "dict" /\ \A i \in DOMAIN v.c : ProperList(DVal(v.c[i])) \/ Proper(DVal(v.c[i]))
WellWritten == \A i \in DOMAIN h : LET w == Written(h, h[i]) IN
  (IsNullV(w.c[1]) \/ ProperList(w.c[1])) /\ (IsNullV(w.c[2]) \/ Proper(w.c[2]))
(* no error inside a structure is lost: as many places as there were errors *)
Places(v) == IF v.t = "dict" THEN Len(v.c) ELSE Cardinality({i \in DOMAIN v.c : v.c[i].t # "null"})
NothingLost == \A i \in DOMAIN h : h[i].raw = 0 /\ ~Hollow(h[i].st) =>
  Places(Written(h, h[i]).c[2]) = IF h[i].st[1].t = "dict"
     THEN Cardinality({j \in DOMAIN h[i].st[1].c : DVal(h[i].st[1].c[j]).t = "ref"})
     ELSE Cardinality({j \in DOMAIN h[i].st[1].c : h[i].st[1].c[j].t = "ref"})
(* the serialized form stays what it was until it is forced *)
Stable == \A i \in DOMAIN given : \A k \in 2..Len(given[i]) : given[i][k].f \/ given[i][k].w = given[i][k - 1].w
================================================================================
