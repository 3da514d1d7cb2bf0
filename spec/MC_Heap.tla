--------------------------------- MODULE MC_Heap ---------------------------------
(* Every history of a few derivations and edits over small schemas: the       *)
(* operations of Heap.tla have exactly the stated effects (C20) and leave     *)
(* originals and derived schemas independent (C19).                           *)
EXTENDS Heap

CONSTANTS MaxSteps, MaxHandles

Plain(ty, name) == [ty |-> ty, tyn |-> <<120>>, name |-> name, nonnull |-> 0, required |-> 0, ignull |-> 0,
                    default |-> <<>>, constant |-> <<>>, pre |-> "none"]
KA == <<97>>
KB == <<98>>
KC == <<99>>
Names == {KA, KB, KC}
Struct(ms) == Plain("structure", <<>>) @@ [strict |-> 1, korder |-> <<>>, poly |-> <<>>, struct |-> ms,
                                           variants |-> <<>>, common |-> <<>>]
Inner == Struct(<<[k |-> KB, f |-> Plain("boolean", <<>>)]>>)
Start == <<Struct(<<[k |-> KA, f |-> Plain("boolean", <<>>)], [k |-> KB, f |-> Inner]>>),
           Plain("boolean", <<KC>>)>>

VARIABLES heap, hnd, n, act
vars == <<heap, hnd, n, act>>

Init ==
  LET a == AllocSeq(<<>>, Start)
  IN heap = a.heap /\ hnd = a.ids /\ n = 0 /\ act = [op |-> "start", h |-> 0, x |-> 0, k |-> KA, over |-> FALSE, r |-> 0]

IsStruct(h) == heap[hnd[h]].ty = "structure"
(* putting x inside h never gives one tree the same field twice *)
Free(h, x) ==
  /\ hnd[h] \notin Reach(heap, hnd[x])
  /\ \A i \in DOMAIN hnd : hnd[h] \in Reach(heap, hnd[i]) => Reach(heap, hnd[i]) \cap Reach(heap, hnd[x]) = {}
Gets(r, a) ==
  /\ heap' = r.heap
  /\ hnd' = IF r.id = 0 \/ (\E i \in DOMAIN hnd : hnd[i] = r.id) THEN hnd ELSE Append(hnd, r.id)
  /\ Len(hnd') <= MaxHandles
  /\ n' = n + 1
  /\ act' = [a EXCEPT !.r = r.id]
A(op, h, x, k, over) == [op |-> op, h |-> h, x |-> x, k |-> k, over |-> over, r |-> 0]
Nothing(h) == [heap |-> h, id |-> 0]
M(k, x) == <<[k |-> k, f |-> hnd[x]]>>

DoClone == \E h \in DOMAIN hnd : Gets(Clone(heap, hnd[h]), A("clone", h, 0, KA, FALSE))
DoChild == \E h \in DOMAIN hnd : IsStruct(h) /\ \E i \in DOMAIN heap[hnd[h]].struct :
             Gets([heap |-> heap, id |-> heap[hnd[h]].struct[i].f], A("child", h, 0, heap[hnd[h]].struct[i].k, FALSE))
DoExtend == \E h, x \in DOMAIN hnd, k \in Names :
              IsStruct(h) /\ Gets(Extend(heap, hnd[h], M(k, x)), A("extend", h, x, k, FALSE))
DoReplace == \E h, x \in DOMAIN hnd, k \in Names :
              IsStruct(h) /\ Gets(Replace(heap, hnd[h], M(k, x)), A("replace", h, x, k, FALSE))
DoInsert == \E h, x \in DOMAIN hnd, over \in BOOLEAN :
              IsStruct(h) /\ Free(h, x) /\ heap[hnd[x]].name # <<>>
              /\ Gets(Nothing(Insert(heap, hnd[h], hnd[x], over)), A("insert", h, x, heap[hnd[x]].name[1], over))
DoMerge == \E h, x \in DOMAIN hnd, k \in Names, over \in BOOLEAN :
              IsStruct(h) /\ Free(h, x)
              /\ Gets(Nothing(Merge(heap, hnd[h], M(k, x), over, 1)), A("merge", h, x, k, over))
DoRemove == \E h \in DOMAIN hnd, k \in Names :
              IsStruct(h) /\ Gets(Nothing(Remove(heap, hnd[h], <<k>>)), A("remove", h, 0, k, FALSE))
DoSet == \E h \in DOMAIN hnd :
              heap[hnd[h]].nonnull = 0
              /\ Gets(Nothing([heap EXCEPT ![hnd[h]].nonnull = 1]), A("set", h, 0, KA, FALSE))
Next == n < MaxSteps /\ (DoClone \/ DoChild \/ DoExtend \/ DoReplace \/ DoInsert \/ DoMerge \/ DoRemove \/ DoSet)
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
ATree(id) ==                  \* no field occurs twice in one tree
  LET RECURSIVE size(_)
      size(i) == 1 + LET ks == heap[i].struct IN
                       IF heap[i].ty # "structure" THEN 0
                       ELSE LET RECURSIVE sum(_)
                                sum(j) == IF j > Len(ks) THEN 0 ELSE size(ks[j].f) + sum(j + 1)
                            IN sum(1)
  IN size(id) = Cardinality(Reach(heap, id))
TreesOnly == \A h \in DOMAIN hnd : ATree(hnd[h])

NamesOf(hp, id) == {hp[id].struct[i].k : i \in DOMAIN hp[id].struct}
At(hp, id, k) == hp[id].struct[CHOOSE i \in DOMAIN hp[id].struct : hp[id].struct[i].k = k].f
Bare2(f) == [f EXCEPT !.name = <<>>]
Derives == act'.op \in {"clone", "extend", "replace"}

(* C19: deriving changes nothing but the name of a field handed over *)
OriginalUntouched == [][Derives =>
   \A h \in DOMAIN hnd :
      \/ Expand(heap', hnd[h]) = Expand(heap, hnd[h])
      \/ act'.x # 0 /\ hnd[act'.x] \in Reach(heap, hnd[h])]_vars
(* C19: the derived schema shares nothing with any other but what was handed over *)
NothingShared == [][Derives /\ ~(act'.op = "replace" /\ act'.r = hnd[act'.h]) =>
   \A h \in DOMAIN hnd :
      Reach(heap', act'.r) \cap Reach(heap', hnd[h])
        \subseteq (IF act'.x = 0 THEN {} ELSE Reach(heap', hnd[act'.x]))]_vars
(* C19: an edit is seen by exactly the schemas that contain what was edited *)
EditsAreLocal == [][act'.op \in {"insert", "merge", "remove", "set"} =>
   \A h \in DOMAIN hnd :
      hnd[act'.h] \notin Reach(heap, hnd[h]) => Expand(heap', hnd[h]) = Expand(heap, hnd[h])]_vars
(* C19: a clone looks like the original *)
CloneLooksAlike == [][act'.op = "clone" => Expand(heap', act'.r) = Expand(heap', hnd[act'.h])]_vars

(* C20 *)
Others(id, id2) == \A k \in NamesOf(heap, id) \ {act'.k} :
   k \in NamesOf(heap', id2) /\ Expand(heap', At(heap', id2, k)) = Expand(heap, At(heap, id, k))
InsertEffect == [][act'.op = "insert" =>
   LET id == hnd[act'.h]
   IN /\ NamesOf(heap', id) = NamesOf(heap, id) \cup {act'.k}
      /\ Others(id, id)
      /\ IF act'.k \in NamesOf(heap, id) /\ ~act'.over THEN heap' = heap
         ELSE At(heap', id, act'.k) = hnd[act'.x]]_vars
MergeEffect == [][act'.op = "merge" =>
   LET id == hnd[act'.h]
   IN /\ NamesOf(heap', id) = NamesOf(heap, id) \cup {act'.k}
      /\ Others(id, id)
      /\ IF act'.k \in NamesOf(heap, id) /\ ~act'.over THEN heap' = heap
         ELSE LET f == At(heap', id, act'.k)
              IN heap'[f].name = <<act'.k>>
                 /\ Bare2(Expand(heap', f)) = Bare2(Expand(heap, hnd[act'.x]))
      /\ heap'[hnd[act'.x]].name = heap[hnd[act'.x]].name]_vars
RemoveEffect == [][act'.op = "remove" =>
   LET id == hnd[act'.h] IN NamesOf(heap', id) = NamesOf(heap, id) \ {act'.k} /\ Others(id, id)]_vars
ExtendEffect == [][act'.op \in {"extend", "replace"} =>
   LET id == hnd[act'.h]
       out == act'.r
   IN IF act'.op = "replace" /\ act'.k \notin NamesOf(heap, id) THEN out = id /\ heap' = heap
      ELSE /\ out # id
           /\ NamesOf(heap', out) = NamesOf(heap, id) \cup {act'.k}
           /\ At(heap', out, act'.k) = hnd[act'.x]
           /\ heap'[hnd[act'.x]].name = <<act'.k>>
           /\ Others(id, out)]_vars
=============================================================================
