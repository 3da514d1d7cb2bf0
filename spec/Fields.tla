------------------------------- MODULE Fields -------------------------------
(* The field model: what Field.process does with a value.                    *)
(*                                                                           *)
(* A field is a record                                                       *)
(*   ty    kind (see P below)         tyn   type name, as code points        *)
(*   name  <<>> or <<code points>>    nonnull, required, ignull   0 or 1     *)
(*   default, constant                <<>> or <<node>>                       *)
(*   pre   preprocessor: "none", "ident", "raise", "const" (value in prev)   *)
(* plus the parameters of its kind.  [ty |-> "ref", id |-> i, name |-> n] is *)
(* the i-th schema of cx.env renamed n (recursive schemas); "undefined" is a *)
(* placeholder nobody defined yet.                                           *)
(*                                                                           *)
(* cx carries what the model takes from the environment of one event:        *)
(*   facts  results of Python's own conversions (int(), float(), Decimal()   *)
(*          ...) as [f, a, r] with r = <<>> when the conversion fails        *)
(*   words  non-ASCII characters counting as \w;  lows  their lower case     *)
(*   env    named schemas;  tz   the local timezone (see Zones)              *)
EXTENDS Construct

(* ------------------------------------------------------ one scalar field *)
FromParse(p, tag, path) == IF p = <<>> THEN TypeErr("invalid", path) ELSE OkR(Nd(tag, p[1], <<>>))
FromFact(p, path) == IF p = <<>> THEN TypeErr("invalid", path) ELSE OkR(p[1])

(* fields as values: Nd("obj", key, <<>>) one of cx.fields ([k, f]),         *)
(* Nd("made", <<>>, <<d>>) the one made of definition d, Nd("described",     *)
(* <<>>, <<v>>) the description of one (worked out in Shapes); and errors:   *)
(* Nd("obj", key, <<>>) one of cx.faults (see Errors), Nd("read", <<>>,       *)
(* <<e, s>>) one read from its serialized form                                *)
FieldOf(cx, v) ==
  IF v.t = "made" THEN Definition(cx, v.c[1]).f
  ELSE cx.fields[CHOOSE i \in DOMAIN cx.fields : cx.fields[i].k = v.n].f
KindIn(cx, v) == FieldOf(cx, v).tyn
FaultAt(cx, v) ==
  LET at == IF v.t = "obj" THEN {i \in DOMAIN cx.faults : cx.faults[i].k = v.n} ELSE {}
  IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE

Unser(cx, f, v, path) ==
  CASE f.ty = "integer" -> IF v.t = "bool" THEN TypeErr("invalid", path)
                           ELSE IF v.t = "int" THEN OkR(v)
                           ELSE FromFact(Fact(cx, "int", v), path)
    [] f.ty = "float" -> IF v.t = "float" THEN OkR(v) ELSE FromFact(Fact(cx, "float", v), path)
    [] f.ty = "decimal" -> IF v.t = "dec" THEN OkR(v) ELSE FromFact(Fact(cx, "dec", v), path)
    [] f.ty = "binary" ->
         IF v.t # "bytes" THEN TypeErr("invalid", path)
         ELSE LET d == B64Dec(v.n)
              IN IF d # <<>> THEN OkR(Nd("bytes", d[1], <<>>)) ELSE FromFact(Fact(cx, "b64", v), path)
    [] f.ty = "date" ->
         IF v.t = "dt" THEN OkR(Nd("date", SubSeq(v.n, 1, 3), <<>>))
         ELSE IF v.t = "date" THEN OkR(v)
         ELSE IF v.t = "str" THEN FromParse(ParseDate(v.n), "date", path)
         ELSE TypeErr("invalid", path)
    [] f.ty = "time" ->
         IF v.t = "time" THEN OkR(v)
         ELSE IF v.t = "str"
              THEN LET p == ParseTime(v.n)
                   IN IF p = <<>> THEN TypeErr("invalid", path)
                      ELSE OkR(Nd("time", p[1] \o <<0, 0, 0>>, <<>>))
         ELSE TypeErr("invalid", path)
    [] f.ty = "datetime" ->
         IF v.t = "dt" THEN OkR(v)
         ELSE IF v.t = "str"
              THEN LET p == ParseDateTime(v.n)
                   IN IF p = <<>> THEN TypeErr("invalid", path)
                      ELSE OkR(Nd("dt", p[1] \o <<0, 1, 0>>, <<>>))
         ELSE TypeErr("invalid", path)
    [] f.ty = "object" ->
         IF v.t # "str" THEN OkR(v)
         ELSE LET p == Fact(cx, "import", v)
              IN IF p = <<>> THEN ValErr("import", path) ELSE OkR(p[1])
    [] f.ty = "definition" ->
         IF v.t = "obj" THEN OkR(v)
         ELSE IF Definition(cx, v).ok THEN OkR(Nd("made", <<>>, <<v>>)) ELSE ValErr("invalid", path)
    [] f.ty = "error" ->
         IF FaultAt(cx, v) # 0 THEN OkR(v)
         ELSE IF IsWritten(v) THEN OkR(Nd("read", <<>>, <<List(v.c[1].c), v.c[2]>>)) ELSE TypeErr("invalid", path)
    [] OTHER -> OkR(v)

PreP(cx, f, v, path) ==
  CASE f.pre = "raise" -> TypeErr("invalid", path)
    [] f.pre = "const" -> OkR(f.prev)
    [] f.pre = "none" /\ f.ty = "email" /\ f.extended = 0 ->
         IF v.t = "str" THEN OkR(Str(EmailCanon(cx, f, v.n))) ELSE TypeErr("invalid", path)
    [] OTHER -> OkR(v)

(* bounds: cmp(bound) is the sign of value - bound *)
Bounded(f, v, cmp(_), path) ==
  IF f.min # <<>> /\ cmp(f.min[1]) < 0 THEN ValErr("minimum", path)
  ELSE IF f.max # <<>> /\ cmp(f.max[1]) > 0 THEN ValErr("maximum", path)
  ELSE OkR(v)
Sized(f, v, len, path) ==
  IF f.minl # <<>> /\ len < f.minl[1] THEN ValErr("min_length", path)
  ELSE IF f.maxl # <<>> /\ len > f.maxl[1] THEN ValErr("max_length", path)
  ELSE OkR(v)

ValidP(cx, f, v, path) ==
  CASE f.ty = "boolean" -> IF v.t = "bool" THEN OkR(v) ELSE TypeErr("invalid", path)
    [] f.ty = "integer" ->
         IF v.t # "int" THEN TypeErr("invalid", path)
         ELSE Bounded(f, v, LAMBDA b : SIntCmp(v.n, b.n), path)
    [] f.ty = "float" ->
         IF v.t # "float" THEN TypeErr("invalid", path)
         ELSE IF FloatNan(v) THEN OkR(v)
         ELSE Bounded(f, v, LAMBDA b : FloatCmp(v, b), path)
    [] f.ty = "decimal" ->
         IF v.t # "dec" THEN TypeErr("invalid", path)
         ELSE IF DecNan(v) THEN (IF f.min = <<>> /\ f.max = <<>> THEN OkR(v) ELSE ValErr("invalid", path))
         ELSE Bounded(f, v, LAMBDA b : DecCmp(v, BoundDec(cx, b)), path)
    [] f.ty \in {"text", "email"} ->
         IF v.t # "str" THEN TypeErr("invalid", path)
         ELSE LET s == IF f.ty = "text" /\ f.strip = 1 THEN Strip(v.n) ELSE v.n
                  z == Sized(f, Str(s), Len(s), path)
              IN IF z.r # "ok" THEN z
                 ELSE IF f.ty = "email"
                      THEN (IF MatchAll(IF f.multiple = 1 THEN EmailManyRE
                                        ELSE IF f.extended = 1 THEN EmailExtRE ELSE EmailOneRE, s)
                            THEN z ELSE ValErr("pattern", path))
                 ELSE IF f.pat # <<>> /\ ~MatchPrefix(f.pat[1], s) THEN ValErr("pattern", path)
                 ELSE z
    [] f.ty = "token" ->
         IF v.t # "str" THEN TypeErr("invalid", path)
         ELSE IF ~TokenOk(cx, v.n) THEN TypeErr("invalid", path)
         ELSE IF f.segs # <<>> /\ Len(SplitOn(v.n, 58, <<>>)) # f.segs[1] THEN ValErr("invalid", path)
         ELSE OkR(v)
    [] f.ty = "uuid" -> IF v.t = "str" /\ UuidOk(v.n) THEN OkR(v) ELSE TypeErr("invalid", path)
    [] f.ty = "enumeration" -> IF PyIn(v, f.enum) THEN OkR(v) ELSE TypeErr("invalid", path)
    [] f.ty = "binary" ->
         IF v.t # "bytes" THEN TypeErr("invalid", path) ELSE Sized(f, v, Len(v.n), path)
    [] f.ty = "date" ->
         IF v.t \notin {"date", "dt"} THEN TypeErr("invalid", path)
         ELSE LET d == SubSeq(v.n, 1, 3)
              IN Bounded(f, Nd("date", d, <<>>), LAMBDA b : LexCmp(d, BoundDate(b), 1), path)
    [] f.ty = "time" ->
         IF v.t # "time" THEN TypeErr("invalid", path)
         ELSE Bounded(f, v, LAMBDA b : LexCmp(SubSeq(v.n, 1, 4), BoundTime(b), 1), path)
    [] f.ty = "datetime" ->
         IF v.t # "dt" THEN TypeErr("invalid", path)
         ELSE LET w == NormDt(cx, f, v)
              IN IF w = <<>> THEN ValErr("overflow", path)
                 ELSE Bounded(f, w[1], LAMBDA b : LexCmp(DtInstant(w[1]), BoundDt(cx, f, b), 1), path)
    [] f.ty = "definition" ->
         IF v.t \notin {"obj", "made"} THEN TypeErr("invalid", path)
         ELSE IF f.valid # <<>> /\ ~\E i \in DOMAIN f.valid[1] : f.valid[1][i] = KindIn(cx, v) THEN ValErr("invalidfield", path)
         ELSE OkR(v)
    [] f.ty = "error" -> IF v.t = "read" \/ FaultAt(cx, v) # 0 THEN OkR(v) ELSE TypeErr("invalid", path)
    [] OTHER -> OkR(v)

SerP(cx, f, v, path) ==
  CASE f.ty = "decimal" -> OkR(Fact(cx, "decstr", v)[1])
    [] f.ty = "binary" -> OkR(Nd("bytes", B64Enc(v.n), <<>>))
    [] f.ty = "date" -> OkR(Str(DateText(v.n)))
    [] f.ty = "time" -> OkR(Str(TimeText(v.n[1], v.n[2], v.n[3])))
    [] f.ty = "datetime" ->
         LET w == WallAt(DtInstant(v), 0)
         IN IF YearRange(w) THEN OkR(Str(StampText(w))) ELSE ValErr("overflow", path)
    [] f.ty = "object" ->
         IF v.t = "str" THEN OkR(v)
         ELSE LET p == Fact(cx, "ident", v)
              IN IF p = <<>> THEN TypeErr("invalid", <<40, 117, 110, 107, 110, 111, 119, 110, 41>>) ELSE OkR(p[1])
    [] f.ty = "definition" -> OkR(Nd("described", <<>>, <<v>>))
    [] f.ty = "error" ->
         OkR(IF v.t = "read" THEN Written(<<>>, Unwritten(v)) ELSE WrittenOnce(cx.faults, FaultAt(cx, v), FALSE))
    [] OTHER -> OkR(v)

PScalar(cx, f, v, ph, ser, path) ==
  LET u == IF ser /\ ph = "in" THEN Unser(cx, f, v, path) ELSE OkR(v)
  IN IF u.r # "ok" THEN u
     ELSE LET p == PreP(cx, f, u.v, path)
     IN IF p.r # "ok" THEN p
        ELSE IF f.constant # <<>> /\ ~PyEq(p.v, f.constant[1]) THEN TypeErr("invalid", path)
        ELSE LET w == ValidP(cx, f, p.v, path)
             IN IF w.r # "ok" \/ ~(ser /\ ph = "out") THEN w ELSE SerP(cx, f, w.v, path)

(* ------------------------------------------------------------ structures *)
FieldName(f) == IF f.name = <<>> THEN <<40>> \o f.tyn \o <<41>> ELSE f.name[1]

KeyText(cx, k) ==             \* str(key)
  CASE k.t = "str" -> k.n
    [] k.t = "int" -> IntText(k.n)
    [] k.t = "bool" -> IF k.n = <<1>> THEN <<84, 114, 117, 101>> ELSE <<70, 97, 108, 115, 101>>
    [] k.t = "null" -> <<78, 111, 110, 101>>
    [] k.t = "date" -> DateText(k.n)
    [] OTHER -> Fact(cx, "pstr", k)[1].n

(* the order in which declared fields are handled *)
OrderedDefs(f, defs) ==
  IF f.korder = <<>> THEN defs
  ELSE LET ko == f.korder[1]
           idx(k) == CHOOSE i \in DOMAIN defs : defs[i].k = k
           isdef(k) == \E i \in DOMAIN defs : defs[i].k = k
           first == SelectSeq(ko, isdef)
           rest(d) == ~(\E j \in DOMAIN ko : ko[j] = d.k)
       IN [j \in DOMAIN first |-> defs[idx(first[j])]] \o SelectSeq(defs, rest)

Tag(res, key) == [key |-> key, res |-> res]
IsUndef(t) == t.res.r = "undef"
IsErr(t) == t.res.r = "err"
IsOkT(t) == t.res.r = "ok"
AnyT(ts, Test(_)) == \E i \in DOMAIN ts : Test(ts[i])

AsSub(t) == Sub(t.key, <<t.res.e>>)

RECURSIVE P(_, _, _, _, _, _)
RECURSIVE PAny(_, _, _, _, _, _)
RECURSIVE PStruct(_, _, _, _, _, _, _)
RECURSIVE PDefs(_, _, _, _, _, _, _, _)
RECURSIVE PEntries(_, _, _, _, _, _, _, _)
RECURSIVE PUnion(_, _, _, _, _, _, _)
RECURSIVE SurrUn(_, _, _)
RECURSIVE SurrSer(_, _)

IsNullFor(f, v) == IsNullV(v) \/ (f.ty = "enumeration" /\ f.ign # <<>> /\ PyIn(v, f.ign[1]))

ResolveRef(cx, f) == [cx.env[f.id] EXCEPT !.name = IF f.name = <<>> THEN @ ELSE f.name]

P(cx, f, v, ph, ser, path) == Blamed(PAny(cx, f, v, ph, ser, path), f, v, ph, ser, <<>>)
PAny(cx, f, v, ph, ser, path) ==
  IF f.ty = "undefined" THEN UndefR
  ELSE IF f.ty = "ref" THEN P(cx, ResolveRef(cx, f), v, ph, ser, path)
  ELSE IF IsNullFor(f, v) THEN (IF f.nonnull = 1 THEN ValErr("nonnull", path) ELSE OkR(Null))
  ELSE CASE f.ty = "structure" -> PStruct(cx, f, v, ph, ser, path, FALSE)
         [] f.ty = "sequence" ->
              IF v.t # "list" THEN TypeErr("invalid", path)
              ELSE LET p == PreP(cx, f, v, path)
              IN IF p.r # "ok" THEN p
                 ELSE LET z == Sized(f, p.v, Len(p.v.c), path)
                 IN IF z.r # "ok" THEN z
                    ELSE LET rs == TLCEval([i \in DOMAIN p.v.c |->
                                   Tag(P(cx, f.item, p.v.c[i], ph, ser, path \o Brk(NatText(i - 1))), Null)])
                         IN IF AnyT(rs, IsUndef) THEN UndefR
                            ELSE IF AnyT(rs, IsErr)
                                 THEN Tree(path, "list", TLCEval([i \in DOMAIN rs |->
                                        Sub(Null, IF IsErr(rs[i]) THEN <<rs[i].res.e>> ELSE <<>>)]))
                            ELSE LET out == TLCEval([i \in DOMAIN rs |-> rs[i].res.v])
                                 IN IF f.unique = 1 /\ \E i, j \in DOMAIN out : i < j /\ PyEq(out[i], out[j])
                                    THEN ValErr("duplicate", path) ELSE OkR(List(out))
         [] f.ty = "tuple" ->
              IF v.t \notin {"list", "tuple"} THEN TypeErr("invalid", path)
              ELSE LET p == PreP(cx, f, v, path)
              IN IF p.r # "ok" THEN p
                 ELSE IF Len(p.v.c) # Len(f.values) THEN ValErr("length", path)
                 ELSE LET rs == TLCEval([i \in DOMAIN p.v.c |->
                                Tag(P(cx, f.values[i], p.v.c[i], ph, ser, path \o Brk(NatText(i - 1))), Null)])
                      IN IF AnyT(rs, IsUndef) THEN UndefR
                         ELSE IF AnyT(rs, IsErr)
                              THEN Tree(path, "list", TLCEval([i \in DOMAIN rs |->
                                     Sub(Null, IF IsErr(rs[i]) THEN <<rs[i].res.e>> ELSE <<>>)]))
                         ELSE OkR(Tup(TLCEval([i \in DOMAIN rs |-> rs[i].res.v])))
         [] f.ty = "map" ->
              IF ~IsDict(v) THEN TypeErr("invalid", path)
              ELSE LET p == PreP(cx, f, v, path)
              IN IF p.r # "ok" THEN p ELSE PEntries(cx, f, p.v.c, ph, ser, path, 1, <<>>)
         [] f.ty = "union" -> PUnion(cx, f, v, ph, ser, path, 1)
         [] f.ty = "surrogate" ->
              LET u == IF ~(ser /\ ph = "in") \/ v.t = "surr" THEN OkR(v)
                       ELSE IF IsDict(v) THEN SurrUn(cx, v, path) ELSE TypeErr("invalid", path)
                  p == IF u.r = "ok" THEN PreP(cx, f, u.v, path) ELSE u
              IN IF u.r = "exc" THEN TypeErr("invalid", path)
                 ELSE IF p.r # "ok" THEN p
                 ELSE IF p.v.t # "surr" THEN TypeErr("invalid", path)
                 ELSE IF f.valid # <<>> /\ ~(\E i \in DOMAIN f.valid[1] : f.valid[1][i] = cx.impls[p.v.n[1]].id)
                      THEN ValErr("invalid-surrogate", path)
                 ELSE IF ser /\ ph = "out" THEN SurrSer(cx, p.v) ELSE p
         [] OTHER -> PScalar(cx, f, v, ph, ser, path)

(* surrogates: Nd("surr", <<implementation, version, dynamic schema>>, kvs),   *)
(* numbers referring to cx.impls, the schemas there and     *)
(* cx.dyn, 0 for none.  cx.impls: [id, schemas, stamp], the first the plain   *)
(* surrogate; cx.dyn: [f, desc], a schema and its description.                *)
Surr(k, ver, dyn, v) == Nd("surr", <<k, ver, dyn>>, v.c)
DDel(v, k) == [v EXCEPT !.c = SelectSeq(@, LAMBDA kv : ~PyEq(DKey(kv), k))]
K_impl == Str(<<95>>)
K_schema == Str(<<95, 95, 115, 99, 104, 101, 109, 97, 95, 95>>)
K_version == Str(<<95, 95, 118, 101, 114, 115, 105, 111, 110, 95, 95>>)
ExcR == [OkR(Null) EXCEPT !.r = "exc"]
(* the implementation a mapping names, the plain surrogate when it names none *)
SurrImpl(cx, v) ==
  LET tok == IF DHas(v, K_impl) THEN DGet(v, K_impl) ELSE Null
      S == {i \in DOMAIN cx.impls : Str(cx.impls[i].id) = tok}
  IN IF S = {} THEN 1 ELSE CHOOSE i \in S : TRUE
DynOf(cx, d) == LET S == {i \in DOMAIN cx.dyn : Same(cx.dyn[i].desc, d)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
VersionOk(impl, ver) == ver.t = "int" /\ \E i \in DOMAIN impl.schemas : NatText(i) = IntText(ver.n)
VersionNo(impl, ver) == CHOOSE i \in DOMAIN impl.schemas : NatText(i) = IntText(ver.n)
AtPathOr(f, path) == IF path = <<>> THEN FieldName(f) ELSE path
SurrUn(cx, v, path) ==
  LET k == SurrImpl(cx, v)
      w == DDel(v, K_impl)
  IN IF DHas(w, K_schema)
     THEN LET d == DynOf(cx, DGet(w, K_schema))
          IN IF d = 0 THEN ExcR
             ELSE LET r == P(cx, cx.dyn[d].f, DDel(w, K_schema), "in", TRUE, AtPathOr(cx.dyn[d].f, path))
                  IN IF r.r = "ok" THEN OkR(Surr(k, 0, d, r.v)) ELSE r
     ELSE IF cx.impls[k].schemas = <<>> THEN OkR(Surr(k, 0, 0, w))
     ELSE LET ver == IF DHas(w, K_version) THEN DGet(w, K_version) ELSE Nd("int", <<1, 1>>, <<>>)
          IN IF ~VersionOk(cx.impls[k], ver) THEN ExcR
             ELSE LET i == VersionNo(cx.impls[k], ver)
                      r == P(cx, cx.impls[k].schemas[i], DDel(w, K_version), "in", TRUE,
                             AtPathOr(cx.impls[k].schemas[i], path))
                  IN IF r.r = "ok" THEN OkR(Surr(k, i, 0, r.v)) ELSE r
SurrSer(cx, s) ==
  LET k == s.n[1]
      f == IF s.n[3] > 0 THEN cx.dyn[s.n[3]].f ELSE cx.impls[k].schemas[s.n[2]]
      r == IF s.n[3] = 0 /\ cx.impls[k].schemas = <<>> THEN OkR(Dict(s.c))
           ELSE P(cx, f, Dict(s.c), "out", TRUE, FieldName(f))
      with(v, key, x) == [v EXCEPT !.c = DSet(@, key, x)]
      m == IF s.n[3] > 0 THEN with(r.v, K_schema, cx.dyn[s.n[3]].desc)
           ELSE IF s.n[2] > 1 THEN with(r.v, K_version, Nd("int", <<1, s.n[2]>>, <<>>))
           ELSE r.v
  IN IF r.r # "ok" THEN r ELSE OkR(with(m, K_impl, Str(cx.impls[k].id)))

PUnion(cx, f, v, ph, ser, path, i) ==
  IF i > Len(f.fields) THEN TypeErr("invalid", path)
  ELSE LET r == P(cx, f.fields[i], v, ph, ser, path)
       IN IF r.r = "err" /\ r.e.k = "type" THEN PUnion(cx, f, v, ph, ser, path, i + 1) ELSE r

(* acc: every [key, res] so far; a repeated key replaces in place *)
PutTag(acc, t) ==
  IF \E i \in DOMAIN acc : PyEq(acc[i].key, t.key)
  THEN [i \in DOMAIN acc |-> IF PyEq(acc[i].key, t.key) THEN [t EXCEPT !.key = acc[i].key] ELSE acc[i]]
  ELSE Append(acc, t)
PEntries(cx, f, kvs, ph, ser, path, i, acc) ==
  IF i > Len(kvs) THEN
    LET cur == acc
        RECURSIVE req(_, _)
        req(a, j) == IF f.reqkeys = <<>> THEN a
                     ELSE IF j > Len(f.reqkeys[1]) THEN a
                     ELSE LET k == f.reqkeys[1][j]
                          IN IF \E m \in DOMAIN a : PyEq(a[m].key, k) THEN req(a, j + 1)
                             ELSE req(Append(a, [key |-> k, res |-> Blamed(ValErr("required", path), f, Null, ph, ser, <<k>>)]), j + 1)
        fin == req([m \in DOMAIN cur |-> [key |-> cur[m].key, res |-> cur[m].res]], 1)
    IN IF (\E m \in DOMAIN cur : cur[m].tainted) \/ AnyT(fin, IsErr)
       THEN Tree(path, "dict", MapSeq(SelectSeq(fin, IsErr), AsSub))
       ELSE OkR(Dict(MapSeq(fin, LAMBDA t : KV(t.key, t.res.v))))
  ELSE
    LET raw == DKey(kvs[i])
        kr == IF f.key = <<>>
              THEN (IF raw.t = "str" THEN OkR(raw) ELSE ValErr("invalidkeys", path))
              ELSE LET r == P(cx, f.key[1], raw, ph, ser, path \o Brk(KeyText(cx, raw)))
                   IN IF r.r = "err" THEN ValErr("invalidkeys", path) ELSE r
    IN IF kr.r # "ok" THEN kr
       ELSE LET r == P(cx, f.value, DVal(kvs[i]), ph, ser, path \o Brk(KeyText(cx, kr.v)))
            IN IF r.r = "undef" THEN UndefR
               ELSE LET was == \E m \in DOMAIN acc : PyEq(acc[m].key, kr.v) /\ (acc[m].tainted \/ IsErr(acc[m]))
                    IN PEntries(cx, f, kvs, ph, ser, path, i + 1,
                                PutTag(acc, [key |-> kr.v, res |-> r, tainted |-> was]))

PStruct(cx, f, v, ph, ser, path, partial) ==
  IF IsNullV(v) THEN (IF f.nonnull = 1 THEN ValErr("nonnull", path) ELSE OkR(Null))
  ELSE IF ~IsDict(v) THEN TypeErr("invalid", path)
  ELSE LET p == PreP(cx, f, v, path)
  IN IF p.r # "ok" THEN p
     ELSE IF f.poly = <<>> THEN PDefs(cx, f, f.struct, p.v, ph, ser, path, partial)
     ELSE LET dn == Str(DiscName(f))
              raw == IF DHas(p.v, dn) THEN DGet(p.v, dn) ELSE Null
          IN IF IsNullV(raw) THEN Blamed(ValErr("required", path), f, v, ph, ser, <<dn>>)
             ELSE LET id == P(cx, Disc(f), raw, ph, ser /\ ph = "in", path \o Dot(DiscName(f)))
                  IN IF id.r # "ok" THEN id
                     ELSE LET vs == VariantOf(f, id.v)
                          IN IF vs = {} THEN Blamed(ValErr("unrecognized", path), f, id.v, ph, FALSE, <<>>)
                             ELSE PDefs(cx, f, VariantDefs(f, CHOOSE i \in vs : TRUE), p.v, ph, ser, path, partial)

PDefs(cx, f, defs0, v, ph, ser, path, partial) ==
  LET defs == OrderedDefs(f, defs0)
      has(d) == DHas(v, Str(d.k))
      one(d) ==          \* <<>> when the field leaves no trace, else <<[key, res]>>
        LET g == IF d.f.ty = "ref" THEN ResolveRef(cx, d.f) ELSE d.f
            key == Str(d.k)
            given == has(d)
        IN IF ~given /\ partial THEN <<>>
           ELSE IF g.ty = "undefined" THEN <<Tag(UndefR, key)>>
           ELSE IF ~given /\ ~(ph = "in" /\ g.default # <<>>)
                THEN (IF g.required = 1 THEN <<Tag(Blamed(ValErr("required", path), f, v, ph, ser, <<key>>), key)>> ELSE <<>>)
           ELSE LET x == IF given THEN DGet(v, key) ELSE g.default[1]
                IN IF g.ignull = 1 /\ IsNullV(x) THEN <<>>
                   ELSE <<Tag(P(cx, IF g.name = <<>> THEN [g EXCEPT !.name = <<d.k>>] ELSE g, x, ph, ser, path \o Dot(d.k)), key)>>
      RECURSIVE walk(_)
      walk(i) == IF i > Len(defs) THEN <<>> ELSE one(defs[i]) \o walk(i + 1)
      done == TLCEval(walk(1))
      undeclared(kv) == ~(\E i \in DOMAIN defs : PyEq(DKey(kv), Str(defs[i].k)))
      unknown == IF f.strict = 1
                 THEN MapSeq(SelectSeq(v.c, undeclared), LAMBDA kv : Tag(Blamed(ValErr("unknown", path), f, v, ph, ser, <<DKey(kv)>>), DKey(kv)))
                 ELSE <<>>
      all == done \o unknown
  IN IF AnyT(done, IsUndef) THEN UndefR
     ELSE IF AnyT(all, IsErr) THEN Tree(path, "dict", MapSeq(SelectSeq(all, IsErr), AsSub))
     ELSE OkR(Nd(IF f.korder = <<>> THEN "dict" ELSE "odict", <<>>,
                 MapSeq(done, LAMBDA t : KV(t.key, t.res.v))))

(* the public call: no ancestry given *)
Process(cx, f, v, ph, ser, partial) ==
  LET g == IF f.ty = "ref" THEN ResolveRef(cx, f) ELSE f
  IN IF g.ty = "undefined" THEN UndefR
     ELSE IF g.ty = "structure" THEN Blamed(PStruct(cx, g, v, ph, ser, FieldName(g), partial), g, v, ph, ser, <<>>)
     ELSE P(cx, g, v, ph, ser, FieldName(g))

(* -------------------------------------------------------- error reports *)
(* every failure of the tree, in order, as its path *)
RECURSIVE Leaves(_)
Leaves(e) ==
  IF e.sk = "none" THEN [i \in DOMAIN e.toks |-> [tok |-> e.toks[i], path |-> e.path]]
  ELSE LET RECURSIVE go(_)
           go(i) == IF i > Len(e.sub) THEN <<>>
                    ELSE (IF e.sub[i].err = <<>> THEN <<>> ELSE Leaves(e.sub[i].err[1])) \o go(i + 1)
       IN go(1)

(* -------------------------------- a recorded outcome against the model *)
RECURSIVE SameErr(_, _)
SameErr(x, o) ==
  /\ x.k = o.k /\ x.toks = o.toks /\ x.path = o.path /\ x.sk = o.sk
  /\ Len(x.sub) = Len(o.sub)
  /\ IF x.sk = "list"
     THEN \A i \in DOMAIN x.sub :
            /\ Len(x.sub[i].err) = Len(o.sub[i].err)
            /\ x.sub[i].err # <<>> => SameErr(x.sub[i].err[1], o.sub[i].err[1])
     ELSE \A i \in DOMAIN x.sub : \E j \in DOMAIN o.sub :
            /\ Same(x.sub[i].key, o.sub[j].key)
            /\ SameErr(x.sub[i].err[1], o.sub[j].err[1])
RECURSIVE SameSer(_, _)       \* the serialized error has the shape of the tree
SameSer(x, o) ==
  /\ x.sk = o.sk /\ (x.sk = "none" => x.toks = o.toks) /\ (x.sk # "none" => o.toks = <<>>)
  /\ Len(x.sub) = Len(o.sub)
  /\ IF x.sk = "list"
     THEN \A i \in DOMAIN x.sub :
            /\ Len(x.sub[i].err) = Len(o.sub[i].err)
            /\ x.sub[i].err # <<>> => SameSer(x.sub[i].err[1], o.sub[i].err[1])
     ELSE \A i \in DOMAIN x.sub : \E j \in DOMAIN o.sub :
            /\ Same(x.sub[i].key, o.sub[j].key)
            /\ SameSer(x.sub[i].err[1], o.sub[j].err[1])
(* the printed report: numbered from 1, one entry per failure, at its path *)
AtPath(text, path) ==
  LET p == path \o <<58, 32>> IN Len(text) >= Len(p) /\ SubSeq(text, 1, Len(p)) = p
ReportOk(e, rep) ==
  LET ls == Leaves(e)
      count(p) == Cardinality({i \in DOMAIN ls : ls[i].path = p})
  IN /\ Len(rep) = Len(ls)
     /\ \A i \in DOMAIN rep : rep[i][1] = i
     /\ \A i \in DOMAIN rep : \E j \in DOMAIN ls : AtPath(rep[i][2], ls[j].path)
     /\ \A j \in DOMAIN ls :
          Cardinality({i \in DOMAIN rep : AtPath(rep[i][2], ls[j].path)}) >= count(ls[j].path)

Clause(cond, name) == IF cond THEN {} ELSE {name}
(* names of the clauses a recorded outcome o violates, given the expected result x *)
Judge(x, o) ==
  IF o.r = "exc" THEN {"other-exception " \o o.x}
  ELSE IF x.r # o.r THEN
    (CASE x.r = "ok" /\ o.r = "err" -> {"rejected-valid-value"}
       [] x.r = "err" /\ o.r = "ok" -> {"accepted-invalid-value"}
       [] OTHER -> {"outcome: expected " \o x.r \o ", was " \o o.r})
  ELSE CASE x.r = "ok" -> Clause(Same(x.v, o.v), "result-value")
         [] x.r = "err" -> Clause(SameErr(x.e, o.e), "error-tree")
                           \cup Clause(SameSer(x.e, o.s), "serialized-error")
                           \cup Clause(ReportOk(x.e, o.rep), "printed-report")
         [] OTHER -> {}
=============================================================================
