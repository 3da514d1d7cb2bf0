--------------------------------- MODULE Ops ---------------------------------
(* Extraction, instantiation and interpolation of values by a field.         *)
(*                                                                           *)
(* An outcome is [k, v]: k the set of acceptable kinds of outcome ("ok"      *)
(* alone when the call must succeed with v).                                 *)
(*                                                                           *)
(* Fields may carry, besides the parameters of Fields.tla,                   *)
(*   inst   0, or the tag of an instantiator which wraps the value:          *)
(*          Nd("inst", <<tag>>, <<value, key>>)                              *)
(*   extr   0, or > 0 for an extractor taking such a wrapper apart and       *)
(*          failing on anything else, or -1 for one that always fails        *)
(*   asp    extension aspects, a sequence of <<name, node>>                  *)
(*   elem   0, or the number of the class whose schema this is               *)
(* An object with attributes is Nd("ns", <<>>, kvs).                         *)
EXTENDS Reports

Got(v) == [k |-> {"ok"}, v |-> v]
Fail(k) == [k |-> {k}, v |-> Null]
IsOk(x) == x.k = {"ok"}

InstOf(f) == IF "inst" \in DOMAIN f THEN f.inst ELSE 0
ExtrOf(f) == IF "extr" \in DOMAIN f THEN f.extr ELSE 0
ElemOf(f) == IF "elem" \in DOMAIN f THEN f.elem ELSE 0
AspOf(f) == IF "asp" \in DOMAIN f THEN f.asp ELSE <<>>
BoolV(b) == IF b = 1 THEN True ELSE False

(* the attribute k of a field, null when it has none *)
TextOr(opt) == IF opt = <<>> THEN Null ELSE Str(opt[1])
NodeOr(opt) == IF opt = <<>> THEN Null ELSE opt[1]
Attr(f, k) ==
  LET a == AspOf(f)
      S == {i \in DOMAIN a : a[i][1] = k}
  IN CASE k = "name" -> TextOr(f.name)
       [] k = "required" -> BoolV(f.required)
       [] k = "nonnull" -> BoolV(f.nonnull)
       [] k = "ignore_null" -> BoolV(f.ignull)
       [] k = "unique" /\ f.ty = "sequence" -> BoolV(f.unique)
       [] k = "strict" /\ f.ty = "structure" -> BoolV(f.strict)
       [] k = "title" /\ "texts" \in DOMAIN f -> NodeOr(f.texts[1])
       [] OTHER -> IF S = {} THEN Null ELSE a[CHOOSE i \in S : TRUE][2]

(* screening: every attribute asked for (not null) is equal *)
ScreenOk(f, params) ==
  \A i \in DOMAIN params : IsNullV(params[i][2]) \/ PyEq(Attr(f, params[i][1]), params[i][2])

(* the outcomes of the parts of a container, into one *)
AllOk(rs) == \A i \in DOMAIN rs : IsOk(rs[i].out)
Failures(rs) == [k |-> UNION {rs[i].out.k : i \in {j \in DOMAIN rs : ~IsOk(rs[j].out)}}, v |-> Null]
FirstFailure(rs) ==
  rs[CHOOSE i \in DOMAIN rs : ~IsOk(rs[i].out) /\ \A j \in 1..(i - 1) : IsOk(rs[j].out)].out
Part(key, out) == [key |-> key, out |-> out]
PartVals(rs) == TLCEval([i \in DOMAIN rs |-> rs[i].out.v])
PartKVs(rs) == TLCEval([i \in DOMAIN rs |-> KV(rs[i].key, rs[i].out.v)])
Keep(rs, kind) == SelectSeq(rs, LAMBDA t : t.out.k # {kind})

VariantDefsOf(f, id) ==       \* <<>> or <<defs>>, for a raw discriminator value
  LET vs == VariantOf(f, id) IN IF vs = {} THEN <<>> ELSE <<VariantDefs(f, CHOOSE i \in vs : TRUE)>>

RECURSIVE MergeKV(_, _)        \* later entries take the place of earlier ones
MergeKV(c, d) == IF d = <<>> THEN c ELSE MergeKV(DSet(c, DKey(Head(d)), DVal(Head(d))), Tail(d))

(* ------------------------------------------------------------ extraction *)
Keyed(v) == IsDict(v) \/ v.t = "ns"
RECURSIVE X(_, _, _, _, _)
X(cx, f, v, strict, params) ==
  IF f.ty = "undefined" THEN Fail("undef")
  ELSE IF f.ty = "ref" THEN X(cx, ResolveRef(cx, f), v, strict, params)
  ELSE IF params # <<>> /\ ~ScreenOk(f, params) THEN Fail("excluded")
  ELSE IF IsNullV(v) THEN Got(Null)
  ELSE
    LET e == ExtrOf(f)
        s == IF ElemOf(f) > 0 THEN
               IF v.t # "elem" THEN Fail("extract")
               ELSE IF f.ty = "structure" THEN Got(v.c[1])
               ELSE IF DHas(v.c[1], Str(f.name[1])) THEN Got(DGet(v.c[1], Str(f.name[1]))) ELSE Fail("extract")
             ELSE IF e = 0 THEN Got(v)
             ELSE IF e > 0 /\ v.t = "inst" THEN Got(v.c[1]) ELSE Fail("extract")
    IN IF ~IsOk(s) THEN s
       ELSE CASE f.ty = "structure" ->
              IF ~IsDict(s.v) /\ strict THEN Fail("extract")
              ELSE LET has(k) == Keyed(s.v) /\ DHas(s.v, Str(k))
                       get(k) == DGet(s.v, Str(k))
                       dn == IF f.poly = <<>> THEN <<>> ELSE DiscName(f)
                       defs == IF f.poly = <<>> THEN <<f.struct>>
                               ELSE IF ~has(dn) THEN <<>> ELSE VariantDefsOf(f, get(dn))
                   IN IF defs = <<>> THEN Fail("extract")
                      ELSE LET use == SelectSeq(defs[1], LAMBDA d : has(d.k) /\ ~IsNullV(get(d.k)))
                               rs == Keep(MapSeq(use, LAMBDA d :
                                            Part(Str(d.k), X(cx, d.f, get(d.k), strict, params))), "excluded")
                           IN IF AllOk(rs) THEN Got(Dict(PartKVs(rs))) ELSE Failures(rs)
            [] f.ty = "sequence" ->
              IF s.v.t \notin {"list", "tuple"} THEN Fail("extract")
              ELSE LET rs == Keep(MapSeq(s.v.c, LAMBDA y : Part(Null, X(cx, f.item, y, strict, params))), "excluded")
                   IN IF AllOk(rs) THEN Got(List(PartVals(rs))) ELSE FirstFailure(rs)
            [] f.ty = "tuple" ->
              IF s.v.t \notin {"list", "tuple"} THEN Fail("extract")
              ELSE IF Len(s.v.c) < Len(f.values) THEN Fail("extract")
              ELSE LET rs == Keep(TLCEval([i \in DOMAIN f.values |->
                                    Part(Null, X(cx, f.values[i], s.v.c[i], strict, params))]), "excluded")
                   IN IF AllOk(rs) THEN Got(Tup(PartVals(rs))) ELSE FirstFailure(rs)
            [] f.ty = "map" ->
              IF ~IsDict(s.v) THEN Fail("extract")
              ELSE LET rs == Keep(MapSeq(s.v.c, LAMBDA kv :
                                    Part(DKey(kv), X(cx, f.value, DVal(kv), strict, params))), "excluded")
                   IN IF AllOk(rs) THEN Got(Dict(PartKVs(rs))) ELSE Failures(rs)
            [] f.ty = "union" ->
              LET RECURSIVE try(_)
                  try(i) == IF i > Len(f.fields) THEN Fail("extract")
                            ELSE LET r == X(cx, f.fields[i], s.v, strict, params)
                                 IN IF r.k = {"extract"} THEN try(i + 1)
                                    ELSE IF "extract" \in r.k      \* which failure comes first is open
                                         THEN [r EXCEPT !.k = @ \cup try(i + 1).k] ELSE r
              IN try(1)
            [] OTHER -> s

(* ------------------------------------------------- objects (see Elements) *)
(* generate_defaults: every field's default, else its constant *)
DefaultsOf(defs, sparse) ==
  LET dv(d) == IF d.f.default # <<>> THEN d.f.default[1]
               ELSE IF d.f.constant # <<>> THEN d.f.constant[1] ELSE Null
      use == IF sparse THEN SelectSeq(defs, LAMBDA d : ~IsNullV(dv(d))) ELSE defs
  IN Dict(MapSeq(use, LAMBDA d : KV(Str(d.k), dv(d))))
RootOf(cx, k) == IF cx.classes[k].base > 0 THEN cx.classes[k].base ELSE k
(* what the schema says an object has, before anything is given; id: a discriminator *)
Blank(f, id) ==
  IF f.ty # "structure" THEN Dict(<<KV(Str(f.name[1]), IF f.default = <<>> THEN Null ELSE f.default[1])>>)
  ELSE IF f.poly = <<>> THEN DefaultsOf(f.struct, FALSE)
  ELSE DefaultsOf(VariantDefsOf(f, id)[1], FALSE)
(* an object of class k made from params, by the schema of class root *)
Made(cx, root, k, params) ==
  LET f == cx.classes[root].f
      id == IF f.ty = "structure" /\ f.poly # <<>> THEN DGet(params, Str(DiscName(f))) ELSE Null
      blank == Blank(f, id)
  IN Nd("elem", <<k>>, <<[blank EXCEPT !.c = MapSeq(@, LAMBDA kv :
                            IF DHas(params, DKey(kv)) THEN KV(DKey(kv), DGet(params, DKey(kv))) ELSE kv)]>>)
(* the last class made for a discriminator, or the class itself *)
ImplOf(cx, k, id) ==
  LET S == {i \in DOMAIN cx.classes : cx.classes[i].base = k /\ PyEq(cx.classes[i].ident[1], id)}
  IN IF S = {} THEN k ELSE CHOOSE i \in S : \A j \in S : j <= i
MadeOf(cx, f, v, key) ==
  LET root == f.elem
      params == IF f.ty = "structure" THEN v ELSE Dict(<<KV(Str(f.name[1]), v)>>)
      k == IF f.ty = "structure" /\ f.poly # <<>> THEN ImplOf(cx, root, DGet(v, Str(DiscName(f)))) ELSE root
      o == Made(cx, root, k, params)
      ka == cx.classes[root].key
  IN IF IsNullV(key) \/ ka = <<>> THEN o ELSE [o EXCEPT !.c[1].c = DSet(@, Str(ka[1]), key)]

(* --------------------------------------------------------- instantiation *)
RECURSIVE I(_, _, _, _)
I(cx, f, v, key) ==
  IF f.ty = "undefined" THEN Fail("undef")
  ELSE IF f.ty = "ref" THEN I(cx, ResolveRef(cx, f), v, key)
  ELSE IF IsNullV(v) THEN Got(Null)
  ELSE
    LET inner ==
          CASE f.ty = "structure" ->
                 LET defs == IF f.poly = <<>> THEN f.struct
                             ELSE VariantDefsOf(f, DGet(v, Str(DiscName(f))))[1]
                     def(k) == defs[CHOOSE i \in DOMAIN defs : PyEq(Str(defs[i].k), k)].f
                     rs == MapSeq(v.c, LAMBDA kv : Part(DKey(kv), I(cx, def(DKey(kv)), DVal(kv), DKey(kv))))
                 IN IF AllOk(rs) THEN Got(Dict(PartKVs(rs))) ELSE Failures(rs)
            [] f.ty = "sequence" ->
                 LET rs == MapSeq(v.c, LAMBDA y : Part(Null, I(cx, f.item, y, Null)))
                 IN IF AllOk(rs) THEN Got(List(PartVals(rs))) ELSE FirstFailure(rs)
            [] f.ty = "tuple" ->
                 LET rs == TLCEval([i \in DOMAIN f.values |-> Part(Null, I(cx, f.values[i], v.c[i], Null))])
                 IN IF AllOk(rs) THEN Got(Tup(PartVals(rs))) ELSE FirstFailure(rs)
            [] f.ty = "map" ->
                 LET rs == MapSeq(v.c, LAMBDA kv : Part(DKey(kv), I(cx, f.value, DVal(kv), DKey(kv))))
                 IN IF AllOk(rs) THEN Got(Dict(PartKVs(rs))) ELSE Failures(rs)
            [] OTHER -> Got(v)
    IN IF ~IsOk(inner) THEN inner
       ELSE IF ElemOf(f) > 0 THEN Got(MadeOf(cx, f, inner.v, key))
       ELSE IF InstOf(f) = 0 THEN inner
       ELSE Got(Nd("inst", <<InstOf(f)>>, <<inner.v, key>>))

(* how often the instantiator of each tag runs: once per wrapper made *)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Wraps(_, _)
Wraps(v, tag) ==
  (IF v.t = "inst" /\ v.n = <<tag>> THEN 1 ELSE 0) + SumSeq(MapSeq(v.c, LAMBDA y : Wraps(y, tag)))
RECURSIVE Tags(_)
Tags(v) == (IF v.t = "inst" THEN {v.n[1]} ELSE {}) \cup UNION {Tags(v.c[i]) : i \in DOMAIN v.c}
CountIn(log, tag) == Cardinality({i \in DOMAIN log : log[i] = tag})
CallsOk(v, log) ==
  /\ \A i \in DOMAIN log : log[i] \in Tags(v)
  /\ \A t \in Tags(v) : CountIn(log, t) = Wraps(v, t)

(* what extraction gives back for an instantiated value: null entries of   *)
(* structures are dropped, everything else returns                         *)
RECURSIVE DropNulls(_, _, _)
DropNulls(cx, f, v) ==
  IF f.ty = "ref" THEN DropNulls(cx, ResolveRef(cx, f), v)
  ELSE IF IsNullV(v) THEN v
  ELSE CASE f.ty = "structure" ->
              LET defs == IF f.poly = <<>> THEN f.struct
                          ELSE VariantDefsOf(f, DGet(v, Str(DiscName(f))))[1]
                  def(k) == defs[CHOOSE i \in DOMAIN defs : PyEq(Str(defs[i].k), k)].f
              IN Dict(MapSeq(SelectSeq(v.c, LAMBDA kv : ~IsNullV(DVal(kv))),
                             LAMBDA kv : KV(DKey(kv), DropNulls(cx, def(DKey(kv)), DVal(kv)))))
         [] f.ty = "sequence" -> List(MapSeq(v.c, LAMBDA y : DropNulls(cx, f.item, y)))
         [] f.ty = "tuple" -> Tup(TLCEval([i \in DOMAIN f.values |-> DropNulls(cx, f.values[i], v.c[i])]))
         [] f.ty = "map" -> Dict(MapSeq(v.c, LAMBDA kv : KV(DKey(kv), DropNulls(cx, f.value, DVal(kv)))))
         [] OTHER -> v

(* --------------------------------------------------------- interpolation *)
IdStart(ch) == ch \in 65..90 \/ ch \in 97..122 \/ ch = 95
IdChar(ch) == IdStart(ch) \/ ch \in 48..57
Ident(s) == s # <<>> /\ IdStart(s[1]) /\ \A i \in DOMAIN s : IdChar(s[i])
PathOf(s) == SplitOn(s, 46, <<>>)
PathOk(s) == \A i \in DOMAIN PathOf(s) : Ident(PathOf(s)[i])

(* a dotted reference: [st |-> "val" | "undef" | "deep", v] -- "deep" when  *)
(* an attribute of something undefined is asked for                          *)
RECURSIVE Follow(_, _, _)
Follow(v, path, i) ==
  IF i > Len(path) THEN [st |-> "val", v |-> v]
  ELSE IF IsDict(v) /\ DHas(v, Str(path[i])) THEN Follow(DGet(v, Str(path[i])), path, i + 1)
  ELSE [st |-> IF i = Len(path) THEN "undef" ELSE "deep", v |-> Null]

(* A reference may pipe its value through filters: "path|name|name".  Filters *)
(* are the interpolator's: each by its name, with what it makes of a value.    *)
RefParts(s) == MapSeq(SplitOn(s, 124, <<>>), Strip)
Filters(cx) == IF "filters" \in DOMAIN cx THEN cx.filters ELSE <<>>
FilterNamed(cx, name) == {i \in DOMAIN Filters(cx) : Filters(cx)[i].name = name}
RefOk(cx, s) ==
  LET p == RefParts(s)
  IN PathOk(p[1]) /\ \A i \in 2..Len(p) : FilterNamed(cx, p[i]) # {}
Filtered(kind, v) ==
  CASE kind = "box"  -> List(<<v>>)
    [] kind = "key"  -> Dict(<<KV(Str(<<107>>), v)>>)
    [] kind = "none" -> Null
    [] kind = "word" -> Str(<<119>>)
    [] kind = "item" -> IF v.t \in {"list", "tuple"} /\ v.c # <<>> THEN v.c[1] ELSE v
    [] OTHER         -> v
RECURSIVE Through(_, _, _, _)
Through(cx, p, i, v) ==
  IF i > Len(p) THEN v
  ELSE LET n == CHOOSE x \in FilterNamed(cx, p[i]) : TRUE
       IN Through(cx, p, i + 1, Filtered(Filters(cx)[n].kind, v))
RefValue(cx, s, params) ==
  LET p == RefParts(s)
      r == Follow(params, PathOf(p[1]), 1)
  IN IF r.st = "val" THEN [r EXCEPT !.v = Through(cx, p, 2, r.v)] ELSE r

(* "${ path }" alone: <<path>>, else <<>> *)
Lone(s) ==
  LET t == StripSet(s, WS)
      inner == SubSeq(t, 3, Len(t) - 1)
  IN IF Len(t) >= 4 /\ t[1] = 36 /\ t[2] = 123 /\ t[Len(t)] = 125
        /\ (\A i \in DOMAIN inner : inner[i] # 125)
     THEN <<Strip(inner)>> ELSE <<>>
Simple(cx, v, params) ==
  IF v.t # "str" THEN Fail("exc")
  ELSE IF v.n = <<>> THEN Got(v)
  ELSE IF Lone(v.n) = <<>> THEN Got(v)
  ELSE IF ~RefOk(cx, Lone(v.n)[1]) THEN Fail("exc")
  ELSE LET r == RefValue(cx, Lone(v.n)[1], params)
       IN IF r.st = "val" THEN Got(r.v) ELSE Fail("param")

(* text with references in it *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, ch, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = ch THEN i ELSE IndexFrom(s, ch, i + 1)
RECURSIVE Render(_, _, _, _, _)
Render(cx, s, params, i, acc) ==
  IF i > Len(s) THEN Got(Str(acc))
  ELSE IF s[i] = 36 /\ i < Len(s) /\ s[i + 1] = 123 THEN
    LET e == IndexFrom(s, 125, i + 2)
        ref == Strip(SubSeq(s, i + 2, e - 1))
    IN IF e = 0 \/ ~RefOk(cx, ref) THEN Fail("exc")
       ELSE LET r == RefValue(cx, ref, params)
            IN IF r.st = "deep" THEN Fail("exc")
               ELSE Render(cx, s, params, e + 1, acc \o (IF r.st = "undef" THEN <<>> ELSE KeyText(cx, r.v)))
  ELSE Render(cx, s, params, i + 1, Append(acc, s[i]))
Template(cx, v, params) ==
  IF v.t # "str" THEN Fail("exc") ELSE Render(cx, v.n, params, 1, <<>>)

Converted(cx, fn, tag, x) ==
  IF ~IsOk(x) THEN x
  ELSE IF x.v.t = tag THEN x
  ELSE IF fn = "int" /\ x.v.t = "bool" THEN Got(Nd("int", AsInt(x.v), <<>>))
  ELSE LET p == Fact(cx, fn, x.v) IN IF p = <<>> THEN Fail("exc") ELSE Got(p[1])

Equivalent(f) ==
  CASE f.ty = "boolean" -> {"bool"}
    [] f.ty = "binary" -> {"bytes"}
    [] f.ty = "date" -> {"date", "dt"}
    [] f.ty = "time" -> {"time"}
    [] f.ty = "datetime" -> {"dt"}
    [] OTHER -> {}

RECURSIVE N(_, _, _, _)
RECURSIVE SurrN(_, _, _)
N(cx, f, v, params) ==
  IF f.ty = "undefined" THEN Fail("undef")
  ELSE IF f.ty = "ref" THEN N(cx, ResolveRef(cx, f), v, params)
  ELSE IF IsNullV(v) THEN Got(Null)
  ELSE CASE f.ty = "integer" ->
              Converted(cx, "int", "int", IF v.t \in {"int", "bool", "float"} THEN Got(v) ELSE Simple(cx, v, params))
         [] f.ty = "float" ->
              Converted(cx, "float", "float", IF v.t \in {"int", "bool", "float"} THEN Got(v) ELSE Simple(cx, v, params))
         [] f.ty = "decimal" ->
              Converted(cx, "dec", "dec", IF v.t = "dec" THEN Got(v) ELSE Simple(cx, v, params))
         [] f.ty \in {"text", "email", "token"} -> Template(cx, v, params)
         [] f.ty = "enumeration" ->
              IF PyIn(v, f.enum) THEN Got(v)
              ELSE LET s == Simple(cx, v, params)
                   IN IF IsOk(s) /\ ~PyIn(s.v, f.enum) THEN Fail("interp") ELSE s
         [] f.ty = "structure" ->
              LET s == IF v.t = "str" THEN Simple(cx, v, params) ELSE Got(v)
              IN IF ~IsOk(s) THEN s
                 ELSE IF ~IsDict(s.v) THEN Fail("interp")
                 ELSE LET has(k) == DHas(s.v, Str(k))
                          get(k) == DGet(s.v, Str(k))
                          defs == IF f.poly = <<>> THEN <<f.struct>>
                                  ELSE IF ~has(DiscName(f)) THEN <<>> ELSE VariantDefsOf(f, get(DiscName(f)))
                      IN IF defs = <<>> THEN Fail("interp")
                         ELSE LET use == SelectSeq(defs[1], LAMBDA d : has(d.k))
                                  rs == Keep(MapSeq(use, LAMBDA d :
                                               Part(Str(d.k), N(cx, d.f, get(d.k), params))), "param")
                              IN IF AllOk(rs) THEN Got(Dict(PartKVs(rs))) ELSE Failures(rs)
         [] f.ty = "map" ->
              LET s == IF v.t = "str" THEN Simple(cx, v, params) ELSE Got(v)
              IN IF ~IsOk(s) THEN s
                 ELSE IF ~IsDict(s.v) THEN Fail("interp")
                 ELSE LET rs == Keep(MapSeq(s.v.c, LAMBDA kv :
                                   Part(DKey(kv), N(cx, f.value, DVal(kv), params))), "param")
                      IN IF AllOk(rs) THEN Got(Dict(PartKVs(rs))) ELSE Failures(rs)
         [] f.ty = "sequence" ->
              LET s == IF v.t = "str" THEN Simple(cx, v, params) ELSE Got(v)
              IN IF ~IsOk(s) THEN s
                 ELSE IF s.v.t \notin {"list", "tuple"} THEN Fail("interp")
                 ELSE LET rs == MapSeq(s.v.c, LAMBDA y : Part(Null, N(cx, f.item, y, params)))
                      IN IF AllOk(rs) THEN Got(List(PartVals(rs))) ELSE FirstFailure(rs)
         [] f.ty = "tuple" ->
              LET s == IF v.t = "str" THEN Simple(cx, v, params) ELSE Got(v)
              IN IF ~IsOk(s) THEN s
                 ELSE IF s.v.t \notin {"list", "tuple"} THEN Fail("interp")
                 ELSE IF Len(s.v.c) < Len(f.values) THEN Fail("interp")
                 ELSE LET rs == TLCEval([i \in DOMAIN f.values |-> Part(Null, N(cx, f.values[i], s.v.c[i], params))])
                      IN IF AllOk(rs) THEN Got(Tup(PartVals(rs))) ELSE FirstFailure(rs)
         [] f.ty = "union" ->
              LET s == IF v.t = "str" THEN Simple(cx, v, params) ELSE Got(v)
                  RECURSIVE try(_)
                  try(i) == IF i > Len(f.fields) THEN Fail("interp")
                            ELSE LET r == N(cx, f.fields[i], s.v, params)
                                 IN IF r.k = {"interp"} THEN try(i + 1)
                                    ELSE IF "interp" \in r.k
                                         THEN [r EXCEPT !.k = @ \cup try(i + 1).k] ELSE r
              IN IF ~IsOk(s) THEN s ELSE try(1)
         [] f.ty = "surrogate" ->
              LET s == IF v.t = "str" THEN Simple(cx, v, params) ELSE Got(v)
              IN IF ~IsOk(s) THEN s
                 ELSE IF s.v.t = "surr" THEN s
                 ELSE IF IsDict(s.v) THEN SurrN(cx, s.v, params) ELSE Fail("exc")
         [] OTHER -> IF v.t \in Equivalent(f) THEN Got(v) ELSE Simple(cx, v, params)

(* what an implementation adds to every value it is constructed from *)
Stamped(cx, k, v) ==
  IF cx.impls[k].stamp = <<>> THEN v
  ELSE [v EXCEPT !.c = DSet(@, Str(cx.impls[k].stamp[1]), cx.impls[k].stamp[2])]
SurrN(cx, v, params) ==
  LET k == SurrImpl(cx, v)
      w == DDel(v, K_impl)
      d == DynOf(cx, DGet(w, K_schema))
      sn == Len(cx.impls[k].schemas)
      given == DHas(w, K_version) /\ ~IsNullV(DGet(w, K_version))
      ver == IF given THEN VersionNo(cx.impls[k], DGet(w, K_version)) ELSE sn
      made(f, u, i, j) == LET r == N(cx, f, u, params)
                          IN IF IsOk(r) THEN Got(Surr(k, i, j, Stamped(cx, k, r.v))) ELSE r
  IN IF DHas(w, K_schema)
     THEN IF d = 0 THEN Fail("exc") ELSE made(cx.dyn[d].f, DDel(w, K_schema), 0, d)
     ELSE IF sn = 0 THEN Fail("exc")
     ELSE IF given /\ ~VersionOk(cx.impls[k], DGet(w, K_version)) THEN Fail("exc")
     ELSE made(cx.impls[k].schemas[ver], DDel(w, K_version), ver, 0)

(* constructing; value: <<>> or <<node>>, dyn and ver 0 for not given *)
SurrMake(cx, k, given, dyn, ver, params) ==
  LET impl == cx.impls[k]
      value == MapSeq(given, LAMBDA v : IF v.t = "surr" THEN Dict(v.c) ELSE v)
      n == Len(impl.schemas)
      at == IF dyn > 0 \/ n = 0 THEN 0 ELSE IF ver = 0 THEN n ELSE ver
      fs == IF dyn > 0 THEN <<cx.dyn[dyn].f>> ELSE IF n = 0 THEN <<>> ELSE <<impl.schemas[at]>>
      r == IF value = <<>> THEN (IF params.c = <<>> THEN Fail("exc") ELSE Got(params))
           ELSE IF IsDict(value[1]) THEN (IF fs = <<>> THEN Got(value[1]) ELSE X(cx, fs[1], value[1], TRUE, <<>>))
           ELSE IF fs = <<>> THEN Fail("exc") ELSE X(cx, fs[1], value[1], FALSE, <<>>)
  IN IF dyn > 0 /\ n > 0 THEN Fail("exc")
     ELSE IF n > 0 /\ ~(at \in 1..n) THEN Fail("exc")
     ELSE IF ~IsOk(r) THEN r
     ELSE Got(Surr(k, at, dyn, Stamped(cx, k, IF value = <<>> THEN r.v ELSE [r.v EXCEPT !.c = MergeKV(@, params.c)])))

(* -------------------------------------------------------------- defaults *)
(* id: <<>> or <<node>>; [k, v] *)
GenDefaults(f, id, sparse) ==
  IF f.poly = <<>> THEN (IF id = <<>> THEN Got(DefaultsOf(f.struct, sparse)) ELSE Fail("exc"))
  ELSE IF id = <<>>
       THEN Got(Dict(TLCEval([i \in DOMAIN f.variants |->
                  KV(f.variants[i].id, DefaultsOf(VariantDefs(f, i), sparse))])))
  ELSE LET d == VariantDefsOf(f, id[1]) IN IF d = <<>> THEN Fail("exc") ELSE Got(DefaultsOf(d[1], sparse))

(* ------------------------------------------------------- recorded calls *)
JudgeOp(x, o) ==
  IF IsOk(x) THEN (IF o.r = "ok" THEN Clause(Same(x.v, o.v), "result-value")
                   ELSE {"failed: " \o o.r \o " " \o o.x})
  ELSE IF "ok" \in x.k THEN {}         \* a union whose member fails in one of two ways, either first
  ELSE IF o.r = "ok" THEN {"succeeded but must fail"}
  ELSE IF "exc" \in x.k THEN {}
  ELSE Clause(o.r \in x.k, "wrong kind of failure: " \o o.r \o " " \o o.x)
=============================================================================
