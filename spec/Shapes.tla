-------------------------------- MODULE Shapes --------------------------------
(* Fields as structures themselves: what a field looks like from outside,    *)
(* how it is described, filtered, transformed and compared.                  *)
(*                                                                           *)
(* A shape is what harness/shape.py reads off the public attributes of a     *)
(* real field; Norm(f) is the shape of the field built from specification f. *)
EXTENDS Ops

(* ----------------------------------------------------------- normal form *)
TextsOf(f) == IF "texts" \in DOMAIN f THEN f.texts ELSE <<<<>>, <<>>, <<>>>>
NormBound(cx, f, b) ==
  CASE f.ty = "decimal" -> BoundDec(cx, b)
    [] f.ty = "date" -> Nd("date", BoundDate(b), <<>>)
    [] f.ty = "time" -> IF b.t = "str" THEN Nd("time", ParseTime(b.n)[1] \o <<0, 0, 0>>, <<>>) ELSE b
    [] f.ty = "datetime" ->
         IF b.t = "str" THEN NormDt(cx, f, Nd("dt", ParseDateTime(b.n)[1] \o <<0, 1, 0>>, <<>>))[1]
         ELSE NormDt(cx, f, b)[1]
    [] OTHER -> b
NormBounds(cx, f, s) == IF s = <<>> THEN <<>> ELSE <<NormBound(cx, f, s[1])>>

Base(f) ==
  [ty |-> f.ty, name |-> f.name, nonnull |-> f.nonnull, required |-> f.required, ignull |-> f.ignull,
   default |-> f.default, constant |-> f.constant, asp |-> AspOf(f),
   inst |-> InstOf(f), extr |-> ExtrOf(f), pre |-> IF f.pre = "none" THEN "none" ELSE "some", texts |-> TextsOf(f)]
Named(s, k) == IF s.name # <<>> \/ s.ty = "undefined" THEN s ELSE [s EXCEPT !.name = <<k>>]

RECURSIVE Norm(_, _)
NormMembers(cx, ms) == MapSeq(ms, LAMBDA m : [k |-> m.k, f |-> Named(Norm(cx, m.f), m.k)])
Norm(cx, f) ==
  CASE f.ty = "undefined" -> [ty |-> "undefined", name |-> <<>>]
    [] f.ty = "ref" -> [ty |-> "loop", name |-> <<>>]
    [] f.ty \in {"integer", "float", "decimal", "date", "time"} ->
         Base(f) @@ [min |-> NormBounds(cx, f, f.min), max |-> NormBounds(cx, f, f.max)]
    [] f.ty = "datetime" ->
         Base(f) @@ [min |-> NormBounds(cx, f, f.min), max |-> NormBounds(cx, f, f.max), utc |-> f.utc]
    [] f.ty = "text" ->
         Base(f) @@ [minl |-> f.minl, maxl |-> f.maxl, strip |-> f.strip, pats |-> IF f.pat = <<>> THEN "" ELSE f.pats]
    [] f.ty = "email" ->
         Base(f) @@ [minl |-> f.minl, maxl |-> f.maxl, multiple |-> f.multiple, extended |-> f.extended]
    [] f.ty = "binary" -> Base(f) @@ [minl |-> f.minl, maxl |-> f.maxl]
    [] f.ty = "token" -> Base(f) @@ [segs |-> f.segs]
    [] f.ty = "enumeration" -> Base(f) @@ [enum |-> f.enum, ign |-> f.ign]
    [] f.ty = "sequence" ->
         Base(f) @@ [minl |-> f.minl, maxl |-> f.maxl, item |-> Norm(cx, f.item), unique |-> f.unique]
    [] f.ty = "tuple" -> Base(f) @@ [values |-> MapSeq(f.values, LAMBDA g : Norm(cx, g))]
    [] f.ty = "union" -> Base(f) @@ [fields |-> MapSeq(f.fields, LAMBDA g : Norm(cx, g))]
    [] f.ty = "map" ->
         Base(f) @@ [value |-> Norm(cx, f.value), key |-> MapSeq(f.key, LAMBDA g : Norm(cx, g)), reqkeys |-> f.reqkeys]
    [] f.ty = "structure" ->
         Base(f) @@
         (IF f.poly = <<>>
          THEN [strict |-> f.strict, korder |-> f.korder, poly |-> <<>>,
                struct |-> NormMembers(cx, f.struct), variants |-> <<>>]
          ELSE [strict |-> f.strict, korder |-> f.korder, poly |-> <<[Norm(cx, f.poly[1]) EXCEPT !.required = 1]>>,
                struct |-> <<>>,
                variants |-> TLCEval([i \in DOMAIN f.variants |->
                               [id |-> f.variants[i].id, s |-> NormMembers(cx, VariantDefs(f, i))]])])
    [] f.ty \in {"surrogate", "definition"} -> Base(f) @@ [valid |-> f.valid]
    [] OTHER -> Base(f)

(* ------------------------------------------------------ equality of shapes *)
SameOpt(x, o) == Len(x) = Len(o) /\ \A i \in DOMAIN x : Same(x[i], o[i])
SameNodes(x, o) == Len(x) = Len(o) /\ \A i \in DOMAIN x : Same(x[i], o[i])
SameSet(x, o) ==               \* of nodes
  Len(x) = Len(o) /\ (\A i \in DOMAIN x : PyIn(x[i], o)) /\ (\A i \in DOMAIN o : PyIn(o[i], x))
SameAsp(x, o) ==
  Len(x) = Len(o) /\ \A i \in DOMAIN x : \E j \in DOMAIN o : x[i][3] = o[j][3] /\ Same(x[i][2], o[j][2])

RECURSIVE SameShape(_, _)
SameMembers(x, o) ==
  Len(x) = Len(o) /\ \A i \in DOMAIN x : \E j \in DOMAIN o : x[i].k = o[j].k /\ SameShape(x[i].f, o[j].f)
SameShape(x, o) ==
  /\ x.ty = o.ty
  /\ x.name = o.name
  /\ DOMAIN x = DOMAIN o
  /\ \A k \in DOMAIN x \ {"ty", "name"} :
       CASE k \in {"default", "constant", "min", "max"} -> SameOpt(x[k], o[k])
         [] k = "texts" -> \A i \in 1..3 : SameOpt(x[k][i], o[k][i])
         [] k = "asp" -> SameAsp(x[k], o[k])
         [] k = "enum" -> SameSet(x[k], o[k])
         [] k \in {"ign", "reqkeys"} -> Len(x[k]) = Len(o[k]) /\ \A i \in DOMAIN x[k] : SameNodes(x[k][i], o[k][i])
         [] k \in {"item", "value"} -> SameShape(x[k], o[k])
         [] k \in {"values", "fields", "key", "poly"} ->
              Len(x[k]) = Len(o[k]) /\ \A i \in DOMAIN x[k] : SameShape(x[k][i], o[k][i])
         [] k = "struct" -> SameMembers(x[k], o[k])
         [] k = "variants" ->
              Len(x[k]) = Len(o[k]) /\ \A i \in DOMAIN x[k] : \E j \in DOMAIN o[k] :
                 Same(x[k][i].id, o[k][j].id) /\ SameMembers(x[k][i].s, o[k][j].s)
         [] OTHER -> x[k] = o[k]

(* the first difference, for reading: a path of attribute names *)
RECURSIVE Diff(_, _)
Diff(x, o) ==
  IF SameShape(x, o) THEN <<>>
  ELSE IF x.ty # o.ty \/ DOMAIN x # DOMAIN o THEN <<"type " \o x.ty \o " was " \o o.ty>>
  ELSE IF x.name # o.name THEN <<"name">>
  ELSE LET bad == {k \in DOMAIN x : ~SameShape([o EXCEPT ![k] = x[k]], o) \/ (k \in {"struct"} /\ ~SameShape(x, [x EXCEPT ![k] = o[k]]))}
       IN IF bad = {} THEN <<"several">>
          ELSE LET k == CHOOSE b \in bad : TRUE
               IN IF k \in {"item", "value"} THEN <<k>> \o Diff(x[k], o[k]) ELSE <<k>>

(* ------------------------------------------------------------ description *)
Asc1(s) == Str(s)
RECURSIVE NativeV(_)           \* natively serializable, all the way down
NativeV(v) ==
  CASE v.t \in {"null", "bool", "int", "float", "str"} -> TRUE
    [] v.t \in {"list", "tuple", "dict", "odict"} ->
         \A i \in DOMAIN v.c : IF v.t \in {"dict", "odict"} THEN NativeV(DVal(v.c[i])) ELSE NativeV(v.c[i])
    [] OTHER -> FALSE
RECURSIVE DeepNative(_)        \* keys too
DeepNative(v) ==
  CASE v.t \in {"null", "bool", "int", "float", "str"} -> TRUE
    [] v.t \in {"list", "tuple", "dict", "odict", "kv"} -> \A i \in DOMAIN v.c : DeepNative(v.c[i])
    [] OTHER -> FALSE
RECURSIVE PlainDict(_)         \* descriptions hold plain containers
PlainDict(v) == [v EXCEPT !.t = IF @ = "odict" THEN "dict" ELSE @, !.c = MapSeq(v.c, PlainDict)]

RECURSIVE Bare(_)              \* without entries that are null, which say nothing
Bare(v) == [v EXCEPT !.c = MapSeq(SelectSeq(v.c, LAMBDA x : ~(x.t = "kv" /\ IsNullV(DVal(x)))), Bare)]

DStr(d, k) == DGet(d, Str(K(k)))
DHasK(d, k) == DHas(d, Str(K(k)))
NatNode(n) == Nd("int", IF n = 0 THEN <<0>> ELSE IF n < 10000 THEN <<1, n>> ELSE <<1, n \div 10000, n % 10000>>, <<>>)
Ent(k, v) == <<KV(Str(K(k)), v)>>
EntN(k, v) == IF NativeV(v) THEN Ent(k, PlainDict(v)) ELSE <<>>
EntO(k, opt) == IF opt = <<>> THEN <<>> ELSE EntN(k, opt[1])
Flag(k, on, dflt, verbose) == IF verbose \/ on # dflt THEN Ent(k, BoolV(on)) ELSE <<>>
LenO(k, opt) == IF opt = <<>> THEN <<>> ELSE Ent(k, NatNode(opt[1]))

(* serialized form of a default or a bound, with the model's own Process *)
OutOf(cx, f, v) == P(cx, f, v, "out", TRUE, <<>>)

StructTypes == {"structure", "sequence", "tuple", "map", "union"}
MergeEnt(c, d) == MergeKV(c, d)

(* f: a specification with fully merged variants is not needed; kids carry *)
(* the name they are stored under                                          *)
KidName(f, k) == IF f.ty = "undefined" \/ f.name # <<>> THEN f ELSE [f EXCEPT !.name = <<k>>]
RECURSIVE Desc(_, _, _)
DescMembers(cx, ms, vb) == Dict(MapSeq(ms, LAMBDA m : KV(Str(m.k), Desc(cx, KidName(m.f, m.k), vb))))
Desc(cx, f, vb) ==
  LET head == <<KV(Str(K_fieldtype), Str(f.tyn))>>
      a == AspOf(f)
      RECURSIVE asps(_)
      asps(i) == IF i > Len(a) THEN <<>>
                 ELSE (IF NativeV(a[i][2]) /\ ~IsNullV(a[i][2]) THEN <<KV(Str(a[i][3]), PlainDict(a[i][2]))>> ELSE <<>>)
                      \o asps(i + 1)
      bnd(k, s) == IF s = <<>> THEN <<>>
                   ELSE LET b == NormBound(cx, f, s[1])
                        IN CASE f.ty = "decimal" -> Ent(k, Fact(cx, "decstr", b)[1])
                             [] f.ty = "date" -> Ent(k, Str(DateText(b.n)))
                             [] f.ty = "time" -> Ent(k, Str(TimeText(b.n[1], b.n[2], b.n[3])))
                             [] f.ty = "datetime" -> Ent(k, Str(StampText(WallAt(DtInstant(b), 0))))
                             [] OTHER -> Ent(k, b)
      dflt == IF f.default = <<>> THEN <<>>
              ELSE LET d == f.default[1]
                   IN CASE f.ty = "sequence" -> EntN("default", List(MapSeq(d.c, LAMBDA y : OutOf(cx, f.item, y).v)))
                        [] f.ty = "tuple" ->
                             EntN("default", Tup(TLCEval([i \in DOMAIN f.values |-> OutOf(cx, f.values[i], d.c[i]).v])))
                        [] f.ty = "map" ->
                             EntN("default", Dict(MapSeq(d.c, LAMBDA kv : KV(IF f.key = <<>> THEN DKey(kv) ELSE OutOf(cx, f.key[1], DKey(kv)).v,
                                                         OutOf(cx, f.value, DVal(kv)).v))))
                        [] f.ty = "structure" ->
                             LET defs == IF f.poly = <<>> THEN f.struct
                                         ELSE VariantDefsOf(f, DGet(d, Str(DiscName(f))))[1]
                                 def(k) == defs[CHOOSE i \in DOMAIN defs : PyEq(Str(defs[i].k), k)].f
                             IN EntN("default", Dict(MapSeq(d.c, LAMBDA kv :
                                  KV(DKey(kv), OutOf(cx, def(DKey(kv)), DVal(kv)).v))))
                        [] OTHER -> EntN("default", d)
      base == EntO("name", IF f.name = <<>> THEN <<>> ELSE <<Str(f.name[1])>>)
              \o EntO("constant", f.constant)
              \o EntO("title", TextsOf(f)[1]) \o EntO("description", TextsOf(f)[2]) \o EntO("notes", TextsOf(f)[3])
              \o dflt
              \o Flag("nonnull", f.nonnull, 0, vb) \o Flag("ignore_null", f.ignull, 0, vb)
              \o Flag("required", f.required, 0, vb)
              \o Flag("structural", IF f.ty \in StructTypes THEN 1 ELSE 0, 0, vb)
      own ==
        CASE f.ty \in {"integer", "float", "decimal", "date", "time"} -> bnd("minimum", f.min) \o bnd("maximum", f.max)
          [] f.ty = "datetime" -> bnd("minimum", f.min) \o bnd("maximum", f.max) \o Flag("utc", f.utc, 0, vb)
          [] f.ty = "text" ->
               LenO("min_length", f.minl) \o LenO("max_length", f.maxl) \o Flag("strip", f.strip, 1, vb)
          [] f.ty = "email" ->
               LenO("min_length", f.minl) \o LenO("max_length", f.maxl) \o Flag("strip", 0, 0, vb)
               \o Flag("multiple", f.multiple, 0, vb) \o Flag("extended", f.extended, 0, vb)
          [] f.ty = "binary" -> LenO("min_length", f.minl) \o LenO("max_length", f.maxl)
          [] f.ty = "token" -> LenO("segments", f.segs)
          [] f.ty = "enumeration" ->
               EntN("enumeration", List(f.enum)) \o (IF f.ign = <<>> THEN <<>> ELSE EntN("ignored_values", List(f.ign[1])))
          [] f.ty = "sequence" ->
               LenO("min_length", f.minl) \o LenO("max_length", f.maxl) \o Flag("unique", f.unique, 0, vb)
               \o Ent("item", Desc(cx, f.item, vb))
          [] f.ty = "tuple" -> Ent("values", List(MapSeq(f.values, LAMBDA g : Desc(cx, g, vb))))
          [] f.ty = "union" -> Ent("fields", List(MapSeq(f.fields, LAMBDA g : Desc(cx, g, vb))))
          [] f.ty = "map" ->
               (IF f.reqkeys = <<>> THEN <<>> ELSE EntN("required_keys", List(f.reqkeys[1])))
               \o Ent("value", Desc(cx, f.value, vb))
               \o (IF f.key = <<>> THEN <<>> ELSE Ent("key", Desc(cx, f.key[1], vb)))
          [] f.ty = "structure" ->
               Flag("strict", f.strict, 1, vb)
               \o (IF f.korder = <<>> THEN <<>> ELSE Ent("key_order", List(MapSeq(f.korder[1], Str))))
               \o (IF f.poly = <<>> THEN Ent("structure", DescMembers(cx, f.struct, vb))
                   ELSE Ent("structure", Dict(TLCEval([i \in DOMAIN f.variants |->
                              KV(OutOf(cx, Disc(f), f.variants[i].id).v, DescMembers(cx, VariantDefs(f, i), vb))])))
                        \o Ent("polymorphic_on", Desc(cx, [Disc(f) EXCEPT !.required = 1], vb)))
          [] f.ty = "surrogate" ->
               IF f.valid = <<>> THEN <<>> ELSE Ent("valid_surrogates", Tup(MapSeq(f.valid[1], Str)))
          [] f.ty = "definition" ->
               IF f.valid = <<>> THEN <<>> ELSE Ent("valid_fields", Tup(MapSeq(f.valid[1], Str)))
          [] OTHER -> <<>>
  IN Dict(MergeEnt(MergeEnt(head, asps(1)), base \o own))

(* the fields of an outcome: one just made is known by its description *)
RECURSIVE Seen(_, _)
Seen(cx, v) ==
  CASE v.t = "made" -> Nd("made", <<>>, <<Bare(Desc(cx, FieldOf(cx, v), TRUE))>>)
    [] v.t = "described" -> Desc(cx, FieldOf(cx, v.c[1]), FALSE)
    [] OTHER -> [v EXCEPT !.c = MapSeq(@, LAMBDA x : Seen(cx, x))]
SeenIn(cx, x) == IF "fields" \in DOMAIN cx THEN [x EXCEPT !.v = Seen(cx, @)] ELSE x

(* where two descriptions differ, for reading *)
RECURSIVE DescDiff(_, _)
DescDiff(x, o) ==
  IF Same(x, o) THEN <<>>
  ELSE IF ~(x.t = o.t /\ x.t \in {"dict", "list", "tuple"}) THEN <<x, o>>
  ELSE IF x.t # "dict" THEN
    IF Len(x.c) # Len(o.c) THEN <<"length">>
    ELSE LET i == CHOOSE j \in DOMAIN x.c : ~Same(x.c[j], o.c[j]) IN <<i>> \o DescDiff(x.c[i], o.c[i])
  ELSE LET bad == {i \in DOMAIN x.c : ~DHas(o, DKey(x.c[i])) \/ ~Same(DVal(x.c[i]), DGet(o, DKey(x.c[i])))}
           extra == {i \in DOMAIN o.c : ~DHas(x, DKey(o.c[i]))}
       IN IF extra # {} THEN <<"extra", DKey(o.c[CHOOSE i \in extra : TRUE]).n>>
          ELSE IF bad = {} THEN <<"?">>
          ELSE LET i == CHOOSE j \in bad : TRUE
               IN <<DKey(x.c[i]).n>> \o (IF DHas(o, DKey(x.c[i])) THEN DescDiff(DVal(x.c[i]), DGet(o, DKey(x.c[i]))) ELSE <<"missing">>)

(* the shape of the field reconstructed from the description: what cannot  *)
(* be described is gone, defaults of containers are in serialized form      *)
KeptOpt(s) == IF s = <<>> \/ ~NativeV(s[1]) THEN <<>> ELSE <<PlainDict(s[1])>>
DescDefault(cx, f) ==
  LET d == Desc(cx, f, FALSE) IN IF DHasK(d, "default") THEN <<DStr(d, "default")>> ELSE <<>>
RECURSIVE Rebuilt(_, _)
RebuiltMembers(cx, ms) == MapSeq(ms, LAMBDA m : [k |-> m.k, f |-> Named(Rebuilt(cx, m.f), m.k)])
Rebuilt(cx, f) ==
  LET s == Norm(cx, f)
      t == [s EXCEPT !.constant = KeptOpt(@), !.default = DescDefault(cx, f), !.inst = 0, !.extr = 0, !.pre = "none",
                     !.asp = SelectSeq(@, LAMBDA a : NativeV(a[2]) /\ ~IsNullV(a[2])), !.texts = MapSeq(@, KeptOpt)]
  IN CASE s.ty = "text" -> [t EXCEPT !.pats = ""]
       [] s.ty = "sequence" -> [t EXCEPT !.item = Rebuilt(cx, f.item)]
       [] s.ty = "map" -> [t EXCEPT !.value = Rebuilt(cx, f.value), !.key = MapSeq(f.key, LAMBDA g : Rebuilt(cx, g))]
       [] s.ty = "tuple" -> [t EXCEPT !.values = MapSeq(f.values, LAMBDA g : Rebuilt(cx, g))]
       [] s.ty = "union" -> [t EXCEPT !.fields = MapSeq(f.fields, LAMBDA g : Rebuilt(cx, g))]
       [] s.ty = "structure" ->
            IF f.poly = <<>> THEN [t EXCEPT !.struct = RebuiltMembers(cx, f.struct)]
            ELSE [t EXCEPT !.poly = <<[Rebuilt(cx, Disc(f)) EXCEPT !.required = 1]>>,
                           !.variants = TLCEval([i \in DOMAIN f.variants |->
                              [id |-> OutOf(cx, Disc(f), f.variants[i].id).v,
                               s |-> RebuiltMembers(cx, VariantDefs(f, i))]])]
       [] OTHER -> t

(* ------------------------------------------------------ screen and filter *)
(* a missing attribute counts as False *)
FilterMatch(s, params, all) ==
  LET a(i) == LET x == Attr(s, params[i][1]) IN IF IsNullV(x) THEN False ELSE x
      hit(i) == PyEq(a(i), params[i][2])
  IN IF params = <<>> THEN TRUE
     ELSE IF all THEN \A i \in DOMAIN params : hit(i) ELSE \E i \in DOMAIN params : hit(i)

(* [r, s]: "same" object, "new" shape s, "drop", or "fail" *)
FRes(r, s) == [r |-> r, s |-> s]
RECURSIVE Filter(_, _, _)
FilterMembers(ms, params, all) ==
  MapSeq(ms, LAMBDA m : [k |-> m.k, f |-> m.f, res |-> Filter(m.f, params, all)])
Filter(s, params, all) ==
  IF s.ty = "undefined" THEN FRes("fail", s)
  ELSE IF ~FilterMatch(s, params, all) THEN FRes("drop", s)
  ELSE CASE s.ty = "sequence" ->
              LET r == Filter(s.item, params, all)
              IN IF r.r = "same" THEN FRes("same", s)
                 ELSE IF r.r = "new" THEN FRes("new", [s EXCEPT !.item = r.s]) ELSE FRes("fail", s)
         [] s.ty = "map" ->
              LET r == Filter(s.value, params, all)
              IN IF r.r = "same" THEN FRes("same", s)
                 ELSE IF r.r = "new" THEN FRes("new", [s EXCEPT !.value = r.s]) ELSE FRes("fail", s)
         [] s.ty = "tuple" ->
              LET rs == MapSeq(s.values, LAMBDA g : Filter(g, params, all))
              IN IF \E i \in DOMAIN rs : rs[i].r \in {"drop", "fail"} THEN FRes("fail", s)
                 ELSE IF \E i \in DOMAIN rs : rs[i].r = "new"
                      THEN FRes("new", [s EXCEPT !.values = MapSeq(rs, LAMBDA r : r.s)])
                 ELSE FRes("same", s)
         [] s.ty = "structure" ->
              LET keep(rs) == MapSeq(SelectSeq(rs, LAMBDA m : m.res.r \in {"same", "new"}),
                                     LAMBDA m : [k |-> m.k, f |-> m.res.s])
                  changed(rs) == \E i \in DOMAIN rs : rs[i].res.r # "same"
                  broken(rs) == \E i \in DOMAIN rs : rs[i].res.r = "fail"
              IN IF s.poly = <<>> THEN
                   LET rs == FilterMembers(s.struct, params, all)
                   IN IF broken(rs) THEN FRes("fail", s)
                      ELSE IF changed(rs) THEN FRes("new", [s EXCEPT !.struct = keep(rs)]) ELSE FRes("same", s)
                 ELSE
                   LET vs == MapSeq(s.variants, LAMBDA w : FilterMembers(w.s, params, all))
                       dn == s.poly[1].name[1]
                       disc(i) == s.variants[i].s[CHOOSE j \in DOMAIN s.variants[i].s : s.variants[i].s[j].k = dn].f
                   IN IF \E i \in DOMAIN vs : broken(vs[i]) THEN FRes("fail", s)
                      ELSE IF \E i \in DOMAIN vs : changed(vs[i])
                           THEN FRes("new", [s EXCEPT !.variants = TLCEval([i \in DOMAIN @ |->
                                  [id |-> s.variants[i].id, s |-> PutField(keep(vs[i]), dn, disc(i))]])])
                      ELSE FRes("same", s)
         [] OTHER -> FRes("same", s)

(* -------------------------------------------------------------- transform *)
(* what the callback does with a field: its aspect "act" -- 0 or absent:    *)
(* nothing, 1: returns the replacement, 2: returns False, 3: returns the     *)
(* field itself, 4: returns True.  [same, s, seen]: seen lists the "id" of   *)
(* every field the callback was given                                        *)
TRes(same, s, seen) == [same |-> same, s |-> s, seen |-> seen]
ActOf(s) == LET a == Attr(s, "act") IN IF a.t = "int" THEN (IF a.n = <<0>> THEN 0 ELSE a.n[2]) ELSE 0
IdOf(s) == LET a == Attr(s, "id") IN IF a.t = "int" THEN (IF a.n = <<0>> THEN 0 ELSE a.n[2]) ELSE -1
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Tr(_, _)
Tr(s, new) ==
  LET me == <<IdOf(s)>>
      act == ActOf(s)
  IN CASE act = 1 -> TRes(FALSE, new, me)
       [] act \in {2, 3} -> TRes(TRUE, s, me)
       [] s.ty = "sequence" ->
            LET r == Tr(s.item, new)
            IN TRes(r.same, IF r.same THEN s ELSE [s EXCEPT !.item = r.s], me \o r.seen)
       [] s.ty = "map" ->
            LET r == Tr(s.value, new)
            IN TRes(r.same, IF r.same THEN s ELSE [s EXCEPT !.value = r.s], me \o r.seen)
       [] s.ty = "tuple" ->
            LET rs == MapSeq(s.values, LAMBDA g : Tr(g, new))
                same == \A i \in DOMAIN rs : rs[i].same
            IN TRes(same, IF same THEN s ELSE [s EXCEPT !.values = MapSeq(rs, LAMBDA r : r.s)],
                    me \o Cat(MapSeq(rs, LAMBDA r : r.seen)))
       [] s.ty = "union" ->
            LET rs == MapSeq(s.fields, LAMBDA g : Tr(g, new))
                same == \A i \in DOMAIN rs : rs[i].same
            IN TRes(same, IF same THEN s ELSE [s EXCEPT !.fields = MapSeq(rs, LAMBDA r : r.s)],
                    me \o Cat(MapSeq(rs, LAMBDA r : r.seen)))
       [] s.ty = "structure" ->
            LET tr(ms) == MapSeq(ms, LAMBDA m : [k |-> m.k, f |-> m.f, res |-> Tr(m.f, new)])
                same(rs) == \A i \in DOMAIN rs : rs[i].res.same
                put(rs) == MapSeq(rs, LAMBDA m : [k |-> m.k, f |-> IF m.res.same THEN m.f ELSE Named(m.res.s, m.k)])
                seen(rs) == Cat(MapSeq(rs, LAMBDA m : m.res.seen))
            IN IF s.poly = <<>> THEN
                 LET rs == tr(s.struct)
                 IN TRes(same(rs), IF same(rs) THEN s ELSE [s EXCEPT !.struct = put(rs)], me \o seen(rs))
               ELSE
                 LET vs == MapSeq(s.variants, LAMBDA w : tr(w.s))
                     dn == s.poly[1].name[1]
                     disc(i) == s.variants[i].s[CHOOSE j \in DOMAIN s.variants[i].s : s.variants[i].s[j].k = dn].f
                     allsame == \A i \in DOMAIN vs : same(vs[i])
                 IN TRes(allsame,
                         IF allsame THEN s
                         ELSE [s EXCEPT !.variants = TLCEval([i \in DOMAIN @ |->
                                [id |-> s.variants[i].id, s |-> PutField(put(vs[i]), dn, disc(i))]])],
                         me \o Cat(MapSeq(vs, seen)))
       [] OTHER -> TRes(TRUE, s, me)
SameBag(a, b) ==
  Len(a) = Len(b) /\ \A i \in DOMAIN a :
    Cardinality({j \in DOMAIN a : a[j] = a[i]}) = Cardinality({j \in DOMAIN b : b[j] = a[i]})

(* ------------------------------------------------------------------ visit *)
(* the callback marks what it is given *)
Mark(v) == Tup(<<Str(<<33>>), v>>)
Marked(d) == Dict(MapSeq(d.c, LAMBDA kv : KV(DKey(kv), Mark(DVal(kv)))))
Visit(d) ==
  LET ty == DGet(d, Str(K_fieldtype)).n
  IN IF ty = K("structure") THEN
       Dict(Ent("structure",
         IF DHasK(d, "polymorphic_on")
         THEN Dict(MapSeq(DStr(d, "structure").c, LAMBDA kv : KV(DKey(kv), Marked(DVal(kv)))))
         ELSE Marked(DStr(d, "structure"))))
     ELSE IF DHasK(d, "item") THEN Dict(Ent("item", Mark(DStr(d, "item"))))
     ELSE IF DHasK(d, "values") THEN Dict(Ent("values", Tup(MapSeq(DStr(d, "values").c, Mark))))
     ELSE IF DHasK(d, "fields") THEN Dict(Ent("fields", Tup(MapSeq(DStr(d, "fields").c, Mark))))
     ELSE IF DHasK(d, "value")
          THEN Dict(Ent("value", Mark(DStr(d, "value")))
                    \o (IF DHasK(d, "key") THEN Ent("key", Mark(DStr(d, "key"))) ELSE <<>>))
     ELSE Dict(<<>>)
=============================================================================
