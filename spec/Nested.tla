-------------------------------- MODULE Nested -------------------------------
(* Nested mappings addressed by dotted paths: setting, reading and merging.  *)
(* Mappings are objects: a heap maps numbers to [k, v] lists, and a value is *)
(* either a leaf node or a reference to a mapping.                           *)
EXTENDS Values, TLC

Clause(cond, name) == IF cond THEN {} ELSE {name}

Leaf(v) == [m |-> 0, v |-> v]
Ref(a) == [m |-> a, v |-> Null]
IsMap(x) == x.m # 0

(* heap: sequence of mappings; mapping: sequence of [k, x], k a node *)
MHas(mp, k) == \E i \in DOMAIN mp : PyEq(mp[i].k, k)
MGet(mp, k) == mp[CHOOSE i \in DOMAIN mp : PyEq(mp[i].k, k)].x
MSet(mp, k, x) ==
  IF MHas(mp, k) THEN [i \in DOMAIN mp |-> IF PyEq(mp[i].k, k) THEN [mp[i] EXCEPT !.x = x] ELSE mp[i]]
  ELSE Append(mp, [k |-> k, x |-> x])

RECURSIVE Tree(_, _)          \* the value an object stands for
Tree(hp, x) ==
  IF ~IsMap(x) THEN x.v
  ELSE Dict(TLCEval([i \in DOMAIN hp[x.m] |-> KV(hp[x.m][i].k, Tree(hp, hp[x.m][i].x))]))

RECURSIVE Reach(_, _)
Reach(hp, x) == IF ~IsMap(x) THEN {} ELSE {x.m} \cup UNION {Reach(hp, hp[x.m][i].x) : i \in DOMAIN hp[x.m]}

(* a nested value put on the heap, every mapping a new object: [hp, x] *)
RECURSIVE Alloc(_, _)
RECURSIVE AllocAll(_, _, _, _)
Alloc(hp, v) ==
  IF ~IsDict(v) THEN [hp |-> hp, x |-> Leaf(v)]
  ELSE LET r == AllocAll(hp, v.c, 1, <<>>)
       IN [hp |-> Append(r.hp, r.m), x |-> Ref(Len(r.hp) + 1)]
AllocAll(hp, c, i, m) ==
  IF i > Len(c) THEN [hp |-> hp, m |-> m]
  ELSE LET r == Alloc(hp, DVal(c[i]))
       IN AllocAll(r.hp, c, i + 1, Append(m, [k |-> DKey(c[i]), x |-> r.x]))

(* reading: [r: ok | key | type, x] *)
RECURSIVE Get(_, _, _)
Get(hp, x, path) ==
  IF path = <<>> THEN [r |-> "ok", x |-> x]
  ELSE IF ~IsMap(x) THEN [r |-> "type", x |-> x]
  ELSE IF ~MHas(hp[x.m], Head(path)) THEN [r |-> "key", x |-> x]
  ELSE Get(hp, MGet(hp[x.m], Head(path)), Tail(path))

Front(s) == SubSeq(s, 1, Len(s) - 1)
(* setting: everything but the last segment must lead to a mapping: [r, hp] *)
Set(hp, x, path, y) ==
  LET at == Get(hp, x, Front(path))
  IN IF at.r # "ok" THEN [r |-> at.r, hp |-> hp]
     ELSE IF ~IsMap(at.x) THEN [r |-> "type", hp |-> hp]
     ELSE [r |-> "ok", hp |-> [hp EXCEPT ![at.x.m] = MSet(@, path[Len(path)], y)]]

(* merging: mappings present on both sides merge in place, all else is taken over *)
RECURSIVE Merge(_, _, _)
RECURSIVE MergeAll(_, _, _, _)
Merge(hp, a, b) == MergeAll(hp, a, hp[b], 1)
MergeAll(hp, a, adds, i) ==
  IF i > Len(adds) THEN hp
  ELSE LET k == adds[i].k
           x == adds[i].x
           both == MHas(hp[a], k) /\ IsMap(MGet(hp[a], k)) /\ IsMap(x)
           hp2 == IF both THEN Merge(hp, MGet(hp[a], k).m, x.m) ELSE [hp EXCEPT ![a] = MSet(@, k, x)]
       IN MergeAll(hp2, a, adds, i + 1)

(* what merging means for trees, on its own terms *)
RECURSIVE MergedTree(_, _)
MergedTree(a, b) ==
  LET over(kv) ==
        LET k == DKey(kv)
        IN IF DHas(b, k)
           THEN KV(k, IF IsDict(DVal(kv)) /\ IsDict(DGet(b, k)) THEN MergedTree(DVal(kv), DGet(b, k)) ELSE DGet(b, k))
           ELSE kv
  IN Dict(TLCEval([i \in DOMAIN a.c |-> over(a.c[i])]) \o SelectSeq(b.c, LAMBDA kv : ~DHas(a, DKey(kv))))

(* ------------------------------------------------------- recorded histories *)
(* hs: the mappings in the harness's hands, as references.  Every step says   *)
(* what it did, how it ended and what all the mappings look like afterwards.  *)
RECURSIVE NestedVerdict(_, _, _, _)
NestedVerdict(hp, hs, steps, n) ==
  IF n > Len(steps) THEN {}
  ELSE
    LET st == steps[n]
        name == "step " \o ToString(n) \o " " \o st.op \o ": "
        val == IF st.ref # 0 THEN [hp |-> hp, x |-> hs[st.ref]] ELSE Alloc(hp, st.v)
        got == IF st.op = "get" THEN Get(hp, hs[st.h], st.path) ELSE [r |-> "ok", x |-> Leaf(Null)]
        set == IF st.op = "set" THEN Set(val.hp, hs[st.h], st.path, val.x) ELSE [r |-> "ok", hp |-> hp]
        hp2 == CASE st.op = "new" -> val.hp
                 [] st.op = "set" -> IF set.r = "ok" THEN set.hp ELSE hp
                 [] st.op = "merge" -> Merge(hp, hs[st.h].m, hs[st.ref].m)
                 [] OTHER -> hp
        hs2 == IF st.op = "new" THEN Append(hs, val.x) ELSE hs
        r == CASE st.op = "get" -> got.r [] st.op = "set" -> set.r [] OTHER -> "ok"
        bad == Clause(r = st.r, "outcome: expected " \o r \o ", was " \o st.r)
               \cup (IF st.op = "get" /\ r = "ok" /\ st.r = "ok"
                     THEN Clause(Same(Tree(hp, got.x), st.out), "value-read") ELSE {})
               \cup (IF st.op = "merge" THEN Clause(st.self = 1, "merge-returns-another-mapping") ELSE {})
               \cup {"mapping " \o ToString(i) \o " afterwards" :
                       i \in {j \in DOMAIN hs2 : ~Same(Tree(hp2, hs2[j]), st.obs[j])}}
    IN IF bad # {} THEN {name \o c : c \in bad}
       ELSE NestedVerdict(hp2, hs2, steps, n + 1)
=============================================================================
