---------------------------------- MODULE Heap ----------------------------------
(* Fields as mutable objects.  The state is a heap of field objects, each a   *)
(* field specification whose nested fields are references (numbers), and the  *)
(* handles a program holds.  The operations that derive and edit schemas are  *)
(* functions from heap to heap: what they allocate and what they share is     *)
(* what C19 and C20 are about.                                                *)
EXTENDS Shapes

(* ------------------------------------------------- references and trees *)
KidSlots(o) ==                \* the references an object holds
  CASE o.ty = "sequence" -> {o.item}
    [] o.ty = "map" -> {o.value} \cup {o.key[i] : i \in DOMAIN o.key}
    [] o.ty = "tuple" -> {o.values[i] : i \in DOMAIN o.values}
    [] o.ty = "union" -> {o.fields[i] : i \in DOMAIN o.fields}
    [] o.ty = "structure" -> {o.struct[i].f : i \in DOMAIN o.struct}
                             \cup UNION {{o.variants[i].s[j].f : j \in DOMAIN o.variants[i].s} : i \in DOMAIN o.variants}
    [] OTHER -> {}
RECURSIVE Reach(_, _)
Reach(heap, id) == {id} \cup UNION {Reach(heap, k) : k \in KidSlots(heap[id])}

(* o with every nested field g replaced by Op(g) *)
WithKids(o, Op(_)) ==
  LET mem(ms) == MapSeq(ms, LAMBDA m : [k |-> m.k, f |-> Op(m.f)])
  IN CASE o.ty = "sequence" -> [o EXCEPT !.item = Op(o.item)]
       [] o.ty = "map" -> [o EXCEPT !.value = Op(o.value), !.key = MapSeq(o.key, Op)]
       [] o.ty = "tuple" -> [o EXCEPT !.values = MapSeq(o.values, Op)]
       [] o.ty = "union" -> [o EXCEPT !.fields = MapSeq(o.fields, Op)]
       [] o.ty = "structure" -> [o EXCEPT !.struct = mem(o.struct),
                                          !.variants = MapSeq(o.variants, LAMBDA v : [id |-> v.id, s |-> mem(v.s)])]
       [] OTHER -> o

(* the specification of the field an object is now *)
RECURSIVE Expand(_, _)
Expand(heap, id) == WithKids(heap[id], LAMBDA k : Expand(heap, k))

(* allocation of a whole tree of new objects: [heap, id] *)
RECURSIVE Alloc(_, _)
RECURSIVE AllocSeq(_, _)      \* [heap, ids]
AllocSeq(heap, fs) ==
  IF fs = <<>> THEN [heap |-> heap, ids |-> <<>>]
  ELSE LET a == Alloc(heap, Head(fs))
           b == AllocSeq(a.heap, Tail(fs))
       IN [heap |-> b.heap, ids |-> <<a.id>> \o b.ids]
NameIt(f, k) == IF f.name = <<>> THEN [f EXCEPT !.name = <<k>>] ELSE f
AllocMembers(heap, ms) ==
  LET a == AllocSeq(heap, MapSeq(ms, LAMBDA m : NameIt(m.f, m.k)))
  IN [heap |-> a.heap, ms |-> TLCEval([i \in DOMAIN ms |-> [k |-> ms[i].k, f |-> a.ids[i]]])]
Push(heap, o) == [heap |-> Append(heap, o), id |-> Len(heap) + 1]
RECURSIVE AllocVariants(_, _)
AllocVariants(heap, vs) ==
  IF vs = <<>> THEN [heap |-> heap, vs |-> <<>>]
  ELSE LET a == AllocMembers(heap, Head(vs).s)
           b == AllocVariants(a.heap, Tail(vs))
       IN [heap |-> b.heap, vs |-> <<[id |-> Head(vs).id, s |-> a.ms]>> \o b.vs]
Alloc(heap, f) ==
  CASE f.ty = "sequence" ->
         LET a == Alloc(heap, f.item) IN Push(a.heap, [f EXCEPT !.item = a.id])
    [] f.ty = "map" ->
         LET a == Alloc(heap, f.value)
             b == AllocSeq(a.heap, f.key)
         IN Push(b.heap, [f EXCEPT !.value = a.id, !.key = b.ids])
    [] f.ty = "tuple" -> LET a == AllocSeq(heap, f.values) IN Push(a.heap, [f EXCEPT !.values = a.ids])
    [] f.ty = "union" -> LET a == AllocSeq(heap, f.fields) IN Push(a.heap, [f EXCEPT !.fields = a.ids])
    [] f.ty = "structure" ->
         LET a == AllocMembers(heap, f.struct)
             b == AllocVariants(a.heap, f.variants)
         IN Push(b.heap, [f EXCEPT !.struct = a.ms, !.variants = b.vs])
    [] OTHER -> Push(heap, f)

(* -------------------------------------------------------------- operations *)
(* each gives [heap, id]: the heap afterwards and the object returned        *)
SetAttr(o, attr, v) == [x \in DOMAIN o \cup {attr} |-> IF x = attr THEN v ELSE o[x]]
SetAsp(o, name, item) ==      \* an extension attribute; item: <<>> or <<entry>>
  LET a == AspOf(o)
      kept == SelectSeq(a, LAMBDA e : e[1] # name)
  IN SetAttr(o, "asp", kept \o item)
RECURSIVE SetAll(_, _, _)
SetAll(o, ov, i) ==           \* ov: sequence of [a |-> attribute, v |-> value] in the model's own terms
  IF i > Len(ov) THEN o
  ELSE SetAll(IF ov[i].a = "asp" THEN SetAsp(o, ov[i].n, ov[i].v)
              ELSE IF ov[i].a = "texts"
                   THEN SetAttr(o, "texts", [TextsOf(o) EXCEPT ![ov[i].n] = ov[i].v])
              ELSE SetAttr(o, ov[i].a, ov[i].v), ov, i + 1)
Rename(heap, id, k) == [heap EXCEPT ![id].name = <<k>>]
Adopt(heap, id, k) == IF heap[id].name = <<>> THEN Rename(heap, id, k) ELSE heap
RECURSIVE AdoptAll(_, _, _)
AdoptAll(heap, ms, i) == IF i > Len(ms) THEN heap ELSE AdoptAll(Adopt(heap, ms[i].f, ms[i].k), ms, i + 1)

Clone(heap, id) == Alloc(heap, Expand(heap, id))
CloneWith(heap, id, ov) ==
  LET c == Clone(heap, id) IN [heap |-> [c.heap EXCEPT ![c.id] = SetAll(@, ov, 1)], id |-> c.id]
(* kids: the nested fields given in place of the copied ones *)
CloneKids(heap, id, ov, slot, kids) ==
  LET c == CloneWith(heap, id, ov)
  IN CASE slot = "none" -> c
       [] slot = "struct" ->
            [heap |-> [AdoptAll(c.heap, kids, 1) EXCEPT ![c.id].struct = kids], id |-> c.id]
       [] slot = "item" -> [heap |-> [c.heap EXCEPT ![c.id].item = kids[1].f], id |-> c.id]
       [] slot = "value" -> [heap |-> [c.heap EXCEPT ![c.id].value = kids[1].f], id |-> c.id]
       [] slot = "values" -> [heap |-> [c.heap EXCEPT ![c.id].values = MapSeq(kids, LAMBDA m : m.f)], id |-> c.id]
       [] slot = "fields" -> [heap |-> [c.heap EXCEPT ![c.id].fields = MapSeq(kids, LAMBDA m : m.f)], id |-> c.id]

HasName(o, k) == \E i \in DOMAIN o.struct : o.struct[i].k = k
PutMember(heap, id, k, f) == [heap EXCEPT ![id].struct = PutField(@, k, f)]
RECURSIVE ExtendIn(_, _, _, _, _)
ExtendIn(heap, id, ms, i, known) ==        \* known: only names already there
  IF i > Len(ms) THEN heap
  ELSE LET m == ms[i]
           h1 == Rename(heap, m.f, m.k)
       IN ExtendIn(IF known /\ ~HasName(h1[id], m.k) THEN h1 ELSE PutMember(h1, id, m.k, m.f), id, ms, i + 1, known)
Extend(heap, id, ms) ==
  LET c == Clone(heap, id) IN [heap |-> ExtendIn(c.heap, c.id, ms, 1, FALSE), id |-> c.id]
Replace(heap, id, ms) ==
  IF ~(\E i \in DOMAIN ms : HasName(heap[id], ms[i].k)) THEN [heap |-> heap, id |-> id]
  ELSE LET c == Clone(heap, id) IN [heap |-> ExtendIn(c.heap, c.id, ms, 1, TRUE), id |-> c.id]
Insert(heap, id, f, overwrite) ==          \* the field must have a name
  LET k == heap[f].name[1]
  IN IF overwrite \/ ~HasName(heap[id], k) THEN PutMember(heap, id, k, f) ELSE heap
RECURSIVE Merge(_, _, _, _, _)
Merge(heap, id, ms, prefer, i) ==
  IF i > Len(ms) THEN heap
  ELSE LET m == ms[i]
       IN IF HasName(heap[id], m.k) /\ ~prefer THEN Merge(heap, id, ms, prefer, i + 1)
          ELSE IF heap[m.f].name = <<m.k>> THEN Merge(PutMember(heap, id, m.k, m.f), id, ms, prefer, i + 1)
          ELSE LET c == CloneWith(heap, m.f, <<[a |-> "name", v |-> <<m.k>>]>>)
               IN Merge(PutMember(c.heap, id, m.k, c.id), id, ms, prefer, i + 1)
Remove(heap, id, ks) ==
  [heap EXCEPT ![id].struct = SelectSeq(@, LAMBDA m : ~(\E i \in DOMAIN ks : ks[i] = m.k))]
RECURSIVE Dedup(_, _, _)
Dedup(s, i, acc) == IF i > Len(s) THEN acc ELSE Dedup(s, i + 1, IF PyIn(s[i], acc) THEN acc ELSE Append(acc, s[i]))
Redefine(heap, id, vals, append) ==
  [heap EXCEPT ![id].enum = Dedup(IF append THEN heap[id].enum \o vals ELSE vals, 1, <<>>)]

(* ------------------------------------------------- filters and transforms *)
(* both give the field itself when nothing inside it changes, else a copy    *)
(* into which the fields that stay are put as they are: what is kept is      *)
(* shared with the original, the containers holding it are not               *)
GiveMembers(heap, id, ms) == CloneKids(heap, id, <<>>, "struct", ms)
GiveVariants(heap, id, vs) ==
  LET c == Clone(heap, id)
      all == IF vs = <<>> THEN <<>> ELSE Cat(MapSeq(vs, LAMBDA v : v.s))
  IN [heap |-> [AdoptAll(c.heap, all, 1) EXCEPT ![c.id].variants = vs], id |-> c.id]
HRes(heap, r, id) == [heap |-> heap, r |-> r, id |-> id]
Gave(c) == HRes(c.heap, "new", c.id)
One(id) == <<[k |-> <<>>, f |-> id]>>
DiscShape(shape, i) ==     \* the discriminator of a variant, as its shape
  LET w == shape.variants[i].s
      dn == shape.poly[1].name[1]
  IN w[CHOOSE j \in DOMAIN w : w[j].k = dn].f

(* job: a filter or a transform; Done is what it makes of the field id:      *)
(* [heap, r, id] with r "same", "new", "drop" or "fail"                      *)
RECURSIVE Done(_, _, _, _)
(* the fields ids after the job has been applied to each, in order           *)
RECURSIVE Each(_, _, _, _)
Each(cx, heap, ids, job) ==
  IF ids = <<>> THEN [heap |-> heap, rs |-> <<>>]
  ELSE LET a == Done(cx, heap, Head(ids), job)
           b == Each(cx, a.heap, Tail(ids), job)
       IN [heap |-> b.heap, rs |-> <<[r |-> a.r, id |-> a.id]>> \o b.rs]
RECURSIVE EachOf(_, _, _, _)
EachOf(cx, heap, vs, job) ==
  IF vs = <<>> THEN [heap |-> heap, rs |-> <<>>]
  ELSE LET a == Each(cx, heap, MapSeq(Head(vs).s, LAMBDA m : m.f), job)
           b == EachOf(cx, a.heap, Tail(vs), job)
       IN [heap |-> b.heap, rs |-> <<a.rs>> \o b.rs]
Some(rs, what) == \E i \in DOMAIN rs : rs[i].r \in what
Kept(ms, rs) ==
  LET put == TLCEval([i \in DOMAIN ms |-> [k |-> ms[i].k, f |-> rs[i].id, r |-> rs[i].r]])
  IN MapSeq(SelectSeq(put, LAMBDA m : m.r \in {"same", "new"}), LAMBDA m : [k |-> m.k, f |-> m.f])

(* disc: does some discriminator count as changed *)
Rework(cx, heap, id, job, disc, strictly) ==
  LET o == heap[id]
      bad == IF strictly THEN {"drop", "fail"} ELSE {"fail"}
  IN CASE o.ty \in {"sequence", "map"} ->
            LET a == Done(cx, heap, IF o.ty = "map" THEN o.value ELSE o.item, job)
            IN IF a.r \in bad THEN HRes(heap, "fail", id)
               ELSE IF a.r = "same" THEN HRes(heap, "same", id)
               ELSE Gave(CloneKids(a.heap, id, <<>>, IF o.ty = "map" THEN "value" ELSE "item", One(a.id)))
       [] o.ty \in {"tuple", "union"} ->
            LET ids == IF o.ty = "tuple" THEN o.values ELSE o.fields
                a == Each(cx, heap, ids, job)
            IN IF Some(a.rs, bad) THEN HRes(heap, "fail", id)
               ELSE IF ~Some(a.rs, {"new"}) THEN HRes(heap, "same", id)
               ELSE Gave(CloneKids(a.heap, id, <<>>, IF o.ty = "tuple" THEN "values" ELSE "fields",
                                   MapSeq(a.rs, LAMBDA r : [k |-> <<>>, f |-> r.id])))
       [] o.ty = "structure" /\ o.poly = <<>> ->
            LET a == Each(cx, heap, MapSeq(o.struct, LAMBDA m : m.f), job)
            IN IF Some(a.rs, {"fail"}) THEN HRes(heap, "fail", id)
               ELSE IF ~Some(a.rs, {"new", "drop"}) THEN HRes(heap, "same", id)
               ELSE Gave(GiveMembers(a.heap, id, Kept(o.struct, a.rs)))
       [] o.ty = "structure" ->
            LET a == EachOf(cx, heap, o.variants, job)
            IN IF \E i \in DOMAIN a.rs : Some(a.rs[i], {"fail"}) THEN HRes(heap, "fail", id)
               ELSE IF ~disc /\ ~(\E i \in DOMAIN a.rs : Some(a.rs[i], {"new", "drop"})) THEN HRes(heap, "same", id)
               ELSE Gave(GiveVariants(a.heap, id, TLCEval([i \in DOMAIN o.variants |->
                           [id |-> o.variants[i].id, s |-> Kept(o.variants[i].s, a.rs[i])]])))
       [] OTHER -> HRes(heap, "same", id)

FilterJob(params, all) == [job |-> "filter", params |-> params, all |-> all]
(* the callback puts a new field nf in place of every field of type tt *)
TransformJob(tt, nf) == [job |-> "transform", tt |-> tt, nf |-> nf]
Done(cx, heap, id, job) ==
  LET shape == Norm(cx, Expand(heap, id))
      poly == shape.ty = "structure" /\ shape.poly # <<>>
      match(s) == FilterMatch(s, job.params, job.all)
  IN IF job.job = "filter"
     THEN IF ~match(shape) THEN HRes(heap, "drop", id)
          ELSE IF shape.ty = "union" THEN HRes(heap, "same", id)
          ELSE Rework(cx, heap, id, job,
                      poly /\ \E i \in DOMAIN shape.variants : ~match(DiscShape(shape, i)), TRUE)
     ELSE IF shape.ty = job.tt THEN Gave(Alloc(heap, job.nf))
          ELSE Rework(cx, heap, id, job, poly /\ shape.poly[1].ty = job.tt, FALSE)

(* the members of a structure or of one of its variants, edited in place *)
Edited(heap, id, at, Op(_)) ==
  IF at.s = "variant" THEN [heap EXCEPT ![id].variants[at.n].s = Op(@)] ELSE [heap EXCEPT ![id].struct = Op(@)]

(* the nested field at a position *)
Child(heap, id, step) ==
  LET o == heap[id]
  IN CASE step.s = "item" -> o.item
       [] step.s = "value" -> o.value
       [] step.s = "key" -> o.key[1]
       [] step.s = "values" -> o.values[step.n]
       [] step.s = "fields" -> o.fields[step.n]
       [] step.s = "struct" -> o.struct[CHOOSE i \in DOMAIN o.struct : o.struct[i].k = step.k].f
       [] step.s = "variant" ->
            LET v == o.variants[step.n] IN v.s[CHOOSE i \in DOMAIN v.s : v.s[i].k = step.k].f

(* --------------------------------------------------- recorded histories *)
(* steps[i]: [op, h, ...]; x: how it ended ("ok" or an exception); obs: the  *)
(* shape of every handle that looks different than before, by its number     *)
Kids(hnd, ms) == MapSeq(ms, LAMBDA m : [k |-> m.k, f |-> hnd[m.h]])
Act(cx, heap, hnd, st) ==     \* [heap, id] with id 0 when nothing is returned
  LET id == IF st.h = 0 THEN 0 ELSE hnd[st.h]
      none(h) == [heap |-> h, id |-> 0]
      given(r) == IF r.r \in {"same", "new"} THEN [heap |-> r.heap, id |-> r.id] ELSE none(heap)
  IN CASE st.op = "new" -> Alloc(heap, st.f)
       [] st.op = "child" -> [heap |-> heap, id |-> Child(heap, id, st.at)]
       [] st.op = "clone" -> CloneKids(heap, id, st.ov, st.slot, Kids(hnd, st.ms))
       [] st.op = "extend" -> Extend(heap, id, Kids(hnd, st.ms))
       [] st.op = "replace" -> Replace(heap, id, Kids(hnd, st.ms))
       [] st.op = "insert" -> none(Insert(heap, id, hnd[st.wth], st.over = 1))
       [] st.op = "merge" -> none(Merge(heap, id, Kids(hnd, st.ms), st.over = 1, 1))
       [] st.op = "remove" -> none(Remove(heap, id, st.ks))
       [] st.op = "set" -> none([heap EXCEPT ![id] = SetAll(@, st.ov, 1)])
       [] st.op = "filter" -> given(Done(cx, heap, id, FilterJob(st.fp, st.over = 1)))
       [] st.op = "transform" -> given(Done(cx, heap, id, TransformJob(st.tt, st.f)))
       [] st.op = "put" -> none(Edited(heap, id, st.at, LAMBDA ms : PutField(ms, st.at.k, hnd[st.wth])))
       [] st.op = "del" -> none(Edited(heap, id, st.at, LAMBDA ms : SelectSeq(ms, LAMBDA m : m.k # st.at.k)))
       [] st.op = "redefine" -> none(Redefine(heap, id, st.vals, st.over = 1))
       [] OTHER -> none(heap)

HowEnds(cx, heap, hnd, st) ==    \* the ways an operation may end
  IF st.op = "insert" /\ heap[hnd[st.wth]].name = <<>> THEN "refused"
  ELSE IF st.op = "refuse" THEN "refused"        \* an operation on something it cannot be done with
  ELSE IF st.op = "absent"                       \* asking for a nested field by a key there is none for
       THEN IF heap[hnd[st.h]].ty \in {"structure", "tuple"} THEN "returned NoneType" ELSE "TypeError"
  ELSE IF st.op = "filter"
       THEN LET r == Done(cx, heap, hnd[st.h], FilterJob(st.fp, st.over = 1)).r
            IN IF r = "drop" THEN "returned NoneType" ELSE IF r = "fail" THEN "CannotFilterError" ELSE "ok"
  ELSE "ok"

(* does a value of this structure have to name some field *)
Needs(shape) ==
  \/ shape.poly # <<>>
  \/ \E i \in DOMAIN shape.struct : shape.struct[i].f.required = 1 /\ shape.struct[i].f.default = <<>>

ObsOf(obs, h) == {o \in {obs[i] : i \in DOMAIN obs} : o.h = h}
RECURSIVE HeapVerdict(_, _, _, _, _)
HeapVerdict(cx, heap, hnd, steps, i) ==
  IF i > Len(steps) THEN {}
  ELSE LET st == steps[i]
           end == HowEnds(cx, heap, hnd, st)
           r == IF end # "ok" THEN [heap |-> heap, id |-> 0] ELSE Act(cx, heap, hnd, st)
           hnd1 == IF r.id = 0 THEN hnd ELSE Append(hnd, r.id)
           at == " (step " \o ToString(i) \o " " \o st.op \o ")"
           (* what each handle looked like, and looks like now *)
           was(h) == Norm(cx, Expand(heap, hnd1[h]))
           is(h) == Norm(cx, Expand(r.heap, hnd1[h]))
           bad == {h \in DOMAIN hnd1 :
                     IF ObsOf(st.obs, h) # {}
                     THEN ~SameShape(is(h), (CHOOSE o \in ObsOf(st.obs, h) : TRUE).shape)
                     ELSE h > Len(hnd) \/ (r.heap # heap /\ Expand(heap, hnd1[h]) # Expand(r.heap, hnd1[h])
                                           /\ ~SameShape(was(h), is(h)))}
           here == Clause(IF end = "refused" THEN st.x # "ok" ELSE st.x = end, "outcome " \o st.x \o at)
                   \cup UNION {{"handle " \o ToString(h) \o at} : h \in bad}
                   \cup (IF r.id = 0 \/ st.x # "ok" THEN {}
                         ELSE Clause((\E h \in DOMAIN hnd : hnd[h] = r.id) = (st.same = 1), "identity of the result" \o at))
                   \cup (IF st.op # "needs" THEN {}
                         ELSE Clause(st.over = (IF Needs(Norm(cx, Expand(heap, hnd[st.h]))) THEN 1 ELSE 0), "required fields" \o at))
                   \cup (IF st.op # "process" THEN {}
                         ELSE LET y == Process(cx, Expand(heap, hnd[st.h]), st.v, st.ph, st.ser = 1, FALSE)
                              IN {c \o at : c \in Judge(y, st.out) \cup DetailsOf(cx, y, st.out)})
       IN IF here # {} THEN here ELSE HeapVerdict(cx, r.heap, hnd1, steps, i + 1)
=============================================================================
