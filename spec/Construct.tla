------------------------------- MODULE Construct -----------------------------
(* Which definitions make a field, and which field they make.                *)
(*                                                                           *)
(* A definition is a mapping naming a kind of field under "fieldtype", the   *)
(* rest of it the parameters of the field, definitions again where a field   *)
(* is wanted; or the name of a kind alone.  FromDef gives [ok, f], f a field *)
(* as in Fields, ok FALSE for a definition that has to be refused.           *)
EXTENDS Scalars, Errors

MapSeq(s, Op(_)) == TLCEval([i \in DOMAIN s |-> Op(s[i])])

(* the declared fields of a variant: its own, then the common ones, then the *)
(* discriminator; a later one takes the place of an earlier one of that name *)
RECURSIVE PutField(_, _, _)
PutField(s, k, f) ==
  IF \E i \in DOMAIN s : s[i].k = k
  THEN [i \in DOMAIN s |-> IF s[i].k = k THEN [k |-> k, f |-> f] ELSE s[i]]
  ELSE Append(s, [k |-> k, f |-> f])
RECURSIVE PutAll(_, _, _)
PutAll(s, t, i) == IF i > Len(t) THEN s ELSE PutAll(PutField(s, t[i].k, t[i].f), t, i + 1)
Disc(f) == f.poly[1]
DiscName(f) == Disc(f).name[1]
VariantDefs(f, i) ==
  LET own == PutAll(f.variants[i].s, f.common, 1)
      d == [Disc(f) EXCEPT !.constant = <<f.variants[i].id>>, !.required = 1]
  IN PutField(own, DiscName(f), d)
VariantOf(f, id) == {i \in DOMAIN f.variants : PyEq(f.variants[i].id, id)}
Defs(f, i) == IF f.poly = <<>> THEN f.struct ELSE VariantDefs(f, i)


K_fieldtype == <<102,105,101,108,100,116,121,112,101>>
K(s) == CASE s = "name" -> <<110,97,109,101>>
          [] s = "constant" -> <<99,111,110,115,116,97,110,116>>
          [] s = "description" -> <<100,101,115,99,114,105,112,116,105,111,110>>
          [] s = "default" -> <<100,101,102,97,117,108,116>>
          [] s = "nonnull" -> <<110,111,110,110,117,108,108>>
          [] s = "ignore_null" -> <<105,103,110,111,114,101,95,110,117,108,108>>
          [] s = "required" -> <<114,101,113,117,105,114,101,100>>
          [] s = "title" -> <<116,105,116,108,101>>
          [] s = "notes" -> <<110,111,116,101,115>>
          [] s = "structural" -> <<115,116,114,117,99,116,117,114,97,108>>
          [] s = "minimum" -> <<109,105,110,105,109,117,109>>
          [] s = "maximum" -> <<109,97,120,105,109,117,109>>
          [] s = "min_length" -> <<109,105,110,95,108,101,110,103,116,104>>
          [] s = "max_length" -> <<109,97,120,95,108,101,110,103,116,104>>
          [] s = "strip" -> <<115,116,114,105,112>>
          [] s = "multiple" -> <<109,117,108,116,105,112,108,101>>
          [] s = "extended" -> <<101,120,116,101,110,100,101,100>>
          [] s = "segments" -> <<115,101,103,109,101,110,116,115>>
          [] s = "enumeration" -> <<101,110,117,109,101,114,97,116,105,111,110>>
          [] s = "ignored_values" -> <<105,103,110,111,114,101,100,95,118,97,108,117,101,115>>
          [] s = "utc" -> <<117,116,99>>
          [] s = "unique" -> <<117,110,105,113,117,101>>
          [] s = "item" -> <<105,116,101,109>>
          [] s = "values" -> <<118,97,108,117,101,115>>
          [] s = "fields" -> <<102,105,101,108,100,115>>
          [] s = "value" -> <<118,97,108,117,101>>
          [] s = "key" -> <<107,101,121>>
          [] s = "required_keys" -> <<114,101,113,117,105,114,101,100,95,107,101,121,115>>
          [] s = "strict" -> <<115,116,114,105,99,116>>
          [] s = "key_order" -> <<107,101,121,95,111,114,100,101,114>>
          [] s = "structure" -> <<115,116,114,117,99,116,117,114,101>>
          [] s = "valid_surrogates" -> <<118,97,108,105,100,95,115,117,114,114,111,103,97,116,101,115>>
          [] s = "polymorphic_on" -> <<112,111,108,121,109,111,114,112,104,105,99,95,111,110>>
          [] s = "nonempty" -> <<110,111,110,101,109,112,116,121>>
          [] s = "generate_default" -> <<103,101,110,101,114,97,116,101,95,100,101,102,97,117,108,116>>
          [] s = "valid_fields" -> <<118,97,108,105,100,95,102,105,101,108,100,115>>
          [] s = "errors" -> <<101,114,114,111,114,115>>
          [] s = "instantiator" -> <<105,110,115,116,97,110,116,105,97,116,111,114>>
          [] s = "extractor" -> <<101,120,116,114,97,99,116,111,114>>
          [] s = "preprocessor" -> <<112,114,101,112,114,111,99,101,115,115,111,114>>
          [] s = "aspects" -> <<97,115,112,101,99,116,115>>
          [] s = "pattern" -> <<112,97,116,116,101,114,110>>

KindOf(ty) ==                  \* "" when there is no such kind
  CASE
             ty = <<98,111,111,108,101,97,110>> -> "boolean"
          [] ty = <<105,110,116,101,103,101,114>> -> "integer"
          [] ty = <<102,108,111,97,116>> -> "float"
          [] ty = <<100,101,99,105,109,97,108>> -> "decimal"
          [] ty = <<116,101,120,116>> -> "text"
          [] ty = <<101,109,97,105,108>> -> "email"
          [] ty = <<116,111,107,101,110>> -> "token"
          [] ty = <<117,117,105,100>> -> "uuid"
          [] ty = <<101,110,117,109,101,114,97,116,105,111,110>> -> "enumeration"
          [] ty = <<98,105,110,97,114,121>> -> "binary"
          [] ty = <<100,97,116,101>> -> "date"
          [] ty = <<116,105,109,101>> -> "time"
          [] ty = <<100,97,116,101,116,105,109,101>> -> "datetime"
          [] ty = <<102,105,101,108,100>> -> "field"
          [] ty = <<111,98,106,101,99,116>> -> "object"
          [] ty = <<101,114,114,111,114>> -> "error"
          [] ty = <<100,101,102,105,110,105,116,105,111,110>> -> "definition"
          [] ty = <<115,117,114,114,111,103,97,116,101>> -> "surrogate"
          [] ty = <<115,116,114,117,99,116,117,114,101>> -> "structure"
          [] ty = <<115,101,113,117,101,110,99,101>> -> "sequence"
          [] ty = <<109,97,112>> -> "map"
          [] ty = <<116,117,112,108,101>> -> "tuple"
          [] ty = <<117,110,105,111,110>> -> "union"
          [] OTHER -> ""

BaseKeys == {"name", "description", "default", "nonnull", "ignore_null", "required", "constant", "errors", "title", "notes",
             "nonempty", "instantiator", "extractor", "preprocessor", "aspects", "structural"}
OwnKeys(kind) ==
  CASE kind \in {"integer", "float", "decimal", "date", "time"} -> {"minimum", "maximum"}
    [] kind = "datetime" -> {"minimum", "maximum", "utc"}
    [] kind = "text" -> {"min_length", "max_length", "strip", "pattern"}
    [] kind = "email" -> {"min_length", "max_length", "strip", "pattern", "multiple", "extended"}
    [] kind = "binary" -> {"min_length", "max_length"}
    [] kind = "token" -> {"segments"}
    [] kind = "enumeration" -> {"enumeration", "ignored_values"}
    [] kind = "sequence" -> {"item", "min_length", "max_length", "unique"}
    [] kind = "tuple" -> {"values"}
    [] kind = "union" -> {"fields"}
    [] kind = "map" -> {"value", "key", "required_keys"}
    [] kind = "structure" -> {"structure", "strict", "polymorphic_on", "generate_default", "key_order"}
    [] kind = "surrogate" -> {"valid_surrogates"}
    [] kind = "definition" -> {"valid_fields"}
    [] OTHER -> {}

Truthy(v) ==
  CASE v.t = "null" -> FALSE
    [] v.t = "bool" -> v.n = <<1>>
    [] v.t = "int" -> v.n # <<0>>
    [] v.t = "float" -> ~(FloatIsInt(v) /\ FloatInt(v) = <<0>>)
    [] v.t \in {"str", "bytes"} -> v.n # <<>>
    [] v.t \in {"list", "tuple", "dict", "odict"} -> v.c # <<>>
    [] OTHER -> TRUE
Bit(b) == IF b THEN 1 ELSE 0
NativeTags == {"null", "bool", "int", "float", "str", "list", "tuple", "dict", "odict"}
Words(v) == MapSeq(SplitOn(v.n, 32, <<>>), Str)         \* a space-delimited string
RECURSIVE ValueOfNat(_)
ValueOfNat(n) == IF n = <<>> THEN 0 ELSE ValueOfNat(SubSeq(n, 1, Len(n) - 1)) * 10000 + n[Len(n)]
CountOf(v) == IF v.n = <<0>> THEN 0 ELSE ValueOfNat(Tail(v.n))

NoField == [ty |-> "none"]
NotMade == [ok |-> FALSE, f |-> NoField]
Makes(f) == [ok |-> TRUE, f |-> f]

(* how a bound of a field of this kind is refused *)
BoundTaken(cx, kind, v) ==
  \/ IsNullV(v)
  \/ kind = "integer" /\ v.t \in {"int", "bool"}
  \/ kind = "float" /\ v.t = "float"
  \/ kind = "decimal" /\ (v.t = "dec" \/ (v.t = "str" /\ Fact(cx, "dec", v) # <<>>))
  \/ kind = "date" /\ (v.t \in {"date", "dt"} \/ (v.t = "str" /\ ParseDate(v.n) # <<>>))
  \/ kind = "time" /\ (v.t = "time" \/ (v.t = "str" /\ ParseTime(v.n) # <<>>))
  \/ kind = "datetime" /\ (v.t = "dt" \/ (v.t = "str" /\ ParseDateTime(v.n) # <<>>))
SizeTaken(v) == IsNullV(v) \/ (v.t = "int" /\ v.n[1] >= 0)

ByDefault(f) == IF f.default # <<>> THEN f.default[1] ELSE IF f.constant # <<>> THEN f.constant[1] ELSE Null
DefaultEntries(defs) ==
  Dict(MapSeq(SelectSeq(defs, LAMBDA d : ~IsNullV(ByDefault(d.f))), LAMBDA d : KV(Str(d.k), ByDefault(d.f))))

RECURSIVE FromDef(_, _)
RECURSIVE Bld(_, _, _)
(* fields in a sequence or under the keys of a mapping *)
AllMake(rs) == \A i \in DOMAIN rs : rs[i].ok
MembersMake(cx, d) == IsDict(d) /\ \A i \in DOMAIN d.c : FromDef(cx, DVal(d.c[i])).ok
(* a member of a variant under a name the common members take as well: only a definition that cannot be made matters *)
Ignorable(cx, v) == IsDict(v) /\ DHas(v, Str(K_fieldtype)) /\ DGet(v, Str(K_fieldtype)).t = "str" => FromDef(cx, v).ok
VariantMakes(cx, d, common) ==
  IsDict(d) /\ \A i \in DOMAIN d.c :
    IF DHas(common, DKey(d.c[i])) THEN Ignorable(cx, DVal(d.c[i])) ELSE FromDef(cx, DVal(d.c[i])).ok
MembersOf(cx, d) == MapSeq(d.c, LAMBDA kv : [k |-> DKey(kv).n, f |-> FromDef(cx, DVal(kv)).f])
FromDef(cx, d) ==
  IF d.t = "str" THEN NotMade
  ELSE IF ~IsDict(d) THEN NotMade
  ELSE IF ~DHas(d, Str(K_fieldtype)) THEN NotMade
  ELSE LET t == DGet(d, Str(K_fieldtype))
       IN IF t.t # "str" THEN NotMade
          ELSE IF KindOf(t.n) = "" \/ \E i \in DOMAIN d.c : DKey(d.c[i]).t # "str" THEN NotMade
          ELSE Bld(cx, t.n, SelectSeq(d.c, LAMBDA kv : DKey(kv) # Str(K_fieldtype)))
Bld(cx, tyn, c) ==
  LET kind == KindOf(tyn)
      p == Dict(c)
      g(k) == IF DHas(p, Str(K(k))) THEN DGet(p, Str(K(k))) ELSE Null
      given(k) == DHas(p, Str(K(k)))
      opt(k) == IF IsNullV(g(k)) THEN <<>> ELSE <<g(k)>>
      on(k) == Bit(Truthy(g(k)))
      known == {K(k) : k \in BaseKeys \cup OwnKeys(kind)}
      extra == SelectSeq(c, LAMBDA kv : DKey(kv).n \notin known /\ ~IsNullV(DVal(kv)) /\ DKey(kv).n[1] # 95)
      full == Truthy(g("nonempty"))
      base == [ty |-> kind, tyn |-> tyn, name |-> MapSeq(opt("name"), LAMBDA v : v.n),
               nonnull |-> Bit(full \/ Truthy(g("nonnull"))), required |-> Bit(full \/ Truthy(g("required"))),
               ignull |-> on("ignore_null"), default |-> opt("default"), constant |-> opt("constant"), pre |-> "none",
               texts |-> <<opt("title"), opt("description"), opt("notes")>>,
               asp |-> MapSeq(extra, LAMBDA kv : <<"", DVal(kv), DKey(kv).n>>)]
      bounds == BoundTaken(cx, kind, g("minimum")) /\ BoundTaken(cx, kind, g("maximum"))
      withBounds == base @@ [min |-> opt("minimum"), max |-> opt("maximum")]
      sizes == SizeTaken(g("min_length")) /\ SizeTaken(g("max_length"))
      least == IF kind \in {"text", "email", "binary"} /\ full /\ IsNullV(g("min_length")) THEN <<1>>
               ELSE MapSeq(opt("min_length"), CountOf)
      withSizes == base @@ [minl |-> least, maxl |-> MapSeq(opt("max_length"), CountOf)]
      strs(v) == MapSeq(IF v.t = "str" THEN Words(v) ELSE v.c, LAMBDA x : x.n)
      fieldAt(v) == FromDef(cx, v)
  IN CASE kind \in {"integer", "float", "decimal", "date", "time"} -> IF bounds THEN Makes(withBounds) ELSE NotMade
       [] kind = "datetime" -> IF bounds THEN Makes(withBounds @@ [utc |-> on("utc")]) ELSE NotMade
       [] kind = "text" ->
            IF sizes THEN Makes(withSizes @@ [strip |-> IF given("strip") THEN on("strip") ELSE 1, pat |-> <<>>]) ELSE NotMade
       [] kind = "email" ->
            IF sizes /\ ~(Truthy(g("multiple")) /\ Truthy(g("extended")))
            THEN Makes(withSizes @@ [multiple |-> on("multiple"), extended |-> on("extended")]) ELSE NotMade
       [] kind = "binary" -> IF sizes THEN Makes(withSizes) ELSE NotMade
       [] kind = "token" -> Makes(base @@ [segs |-> MapSeq(opt("segments"), CountOf)])
       [] kind = "enumeration" ->
            LET e == g("enumeration")
                i == g("ignored_values")
                native(v) == \A j \in DOMAIN v.c : v.c[j].t \in NativeTags
                values(v) == IF v.t = "str" THEN Words(v) ELSE v.c
            IN IF e.t \notin {"str", "list", "tuple"} \/ i.t \notin {"null", "str", "list"} THEN NotMade
               ELSE IF ~native(e) \/ ~native(i) THEN NotMade
               ELSE Makes(base @@ [enum |-> values(e), ign |-> MapSeq(opt("ignored_values"), values)])
       [] kind = "sequence" ->
            IF ~sizes \/ ~fieldAt(g("item")).ok THEN NotMade
            ELSE Makes(withSizes @@ [item |-> fieldAt(g("item")).f, unique |-> on("unique")])
       [] kind \in {"tuple", "union"} ->
            LET vs == g(IF kind = "tuple" THEN "values" ELSE "fields")
                rs == MapSeq(vs.c, fieldAt)
            IN IF vs.t \notin {"list", "tuple"} \/ vs.c = <<>> THEN NotMade
               ELSE IF ~AllMake(rs) THEN NotMade
               ELSE LET fs == MapSeq(rs, LAMBDA r : r.f)
                    IN IF kind = "tuple" THEN Makes(base @@ [values |-> fs]) ELSE Makes(base @@ [fields |-> fs])
       [] kind = "map" ->
            IF ~fieldAt(g("value")).ok THEN NotMade
            ELSE IF ~IsNullV(g("key")) /\ ~fieldAt(g("key")).ok THEN NotMade
            ELSE IF g("required_keys").t \notin {"null", "str", "list", "tuple"} THEN NotMade
            ELSE Makes(base @@ [value |-> fieldAt(g("value")).f, key |-> MapSeq(opt("key"), LAMBDA v : fieldAt(v).f),
                                reqkeys |-> MapSeq(opt("required_keys"), LAMBDA v : IF v.t = "str" THEN Words(v) ELSE v.c)])
       [] kind = "structure" ->
            LET st == g("structure")
                po == g("polymorphic_on")
                poly == Truthy(po)
                star == Str(<<42>>)
                ents == SelectSeq(st.c, LAMBDA kv : ~PyEq(DKey(kv), star))
                common == IF DHas(st, star) THEN DGet(st, star) ELSE Dict(<<>>)
                auto == [ty |-> "enumeration", tyn |-> K("enumeration"), name |-> <<po.n>>, nonnull |-> 1, required |-> 1, ignull |-> 0,
                         default |-> <<>>, constant |-> <<>>, pre |-> "none", enum |-> MapSeq(ents, DKey), ign |-> <<>>]
                disc == IF po.t = "str" THEN Makes(auto) ELSE fieldAt(po)
                ko == g("key_order")
                gd == g("generate_default")
                f0 == base @@ [strict |-> IF given("strict") THEN on("strict") ELSE 1,
                               korder |-> IF Truthy(ko) THEN <<strs(ko)>> ELSE <<>>]
                f1 == IF ~poly THEN f0 @@ [poly |-> <<>>, common |-> <<>>, variants |-> <<>>, struct |-> MembersOf(cx, st)]
                      ELSE f0 @@ [poly |-> <<[disc.f EXCEPT !.required = 1]>>, struct |-> <<>>,
                                  common |-> IF ents = <<>> THEN <<>> ELSE MembersOf(cx, common),
                                  variants |-> MapSeq(ents, LAMBDA kv : [id |-> DKey(kv), s |-> MembersOf(cx, DVal(kv))])]
                generate == Truthy(gd) /\ ~Truthy(g("default"))
                made == IF ~poly THEN DefaultEntries(f1.struct)
                        ELSE DefaultEntries(VariantDefs(f1, CHOOSE i \in VariantOf(f1, gd) : TRUE))
            IN IF ~IsDict(st) THEN NotMade
               ELSE IF Truthy(ko) /\ ko.t \notin {"str", "list"} THEN NotMade
               ELSE IF ~poly /\ ~MembersMake(cx, st) THEN NotMade
               ELSE IF poly /\ (~disc.ok \/ (ents # <<>> /\ ~MembersMake(cx, common))) THEN NotMade
               ELSE IF poly /\ \E i \in DOMAIN ents : ~VariantMakes(cx, DVal(ents[i]), common) THEN NotMade
               ELSE IF generate /\ (IF poly THEN VariantOf(f1, gd) = {} ELSE gd # True) THEN NotMade
               ELSE IF generate THEN Makes([f1 EXCEPT !.default = <<made>>])
               ELSE Makes(f1)
       [] kind = "surrogate" ->
            IF Truthy(g("valid_surrogates")) THEN Makes(base @@ [valid |-> <<strs(g("valid_surrogates"))>>]) ELSE Makes(base @@ [valid |-> <<>>])
       [] kind = "definition" ->
            LET v == g("valid_fields")
            IN IF v.t # "str" /\ ~Truthy(v) THEN Makes(base @@ [valid |-> <<>>])
               ELSE IF v.t \notin {"str", "list", "tuple"} THEN NotMade
               ELSE IF \E i \in DOMAIN strs(v) : KindOf(strs(v)[i]) = "" THEN NotMade
               ELSE Makes(base @@ [valid |-> <<strs(v)>>])
       [] OTHER -> Makes(base)

(* a definition as Field.reconstruct takes it: a name of a kind will do too *)
Definition(cx, d) ==
  IF d.t = "str" THEN (IF KindOf(d.n) = "" THEN NotMade ELSE Bld(cx, d.n, <<>>)) ELSE FromDef(cx, d)
=============================================================================
