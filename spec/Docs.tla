--------------------------------- MODULE Docs ----------------------------------
(* The documentation generated from the description of a field: a block for   *)
(* the field saying its type, texts, flags, values and constraints, holding    *)
(* one block for every field inside it, laid out as a reST document.           *)
(* A block is [a, p, c]: what follows the directive, parameters <<name, text>> *)
(* and the blocks inside.                                                      *)
EXTENDS Printing

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Txt(s) == [i \in 1..Len(s) |-> 31 + CHOOSE k \in 1..95 : SubSeq(Ascii, k, k) = SubSeq(s, i, i)]
Words == TLCEval([s \in {"fieldtype", "sectional", "type", "description", "notes", "nonnull", "ignore_null", "required", "schema", "constant",
                         "default", "title", "constraints", "minimum", "maximum", "min=", "max=", "utc", "utc=True", "enumeration", "values",
                         "required_keys", "key", "value", "text", "structural", "subtype", ": ", "unique", "min_length", "max_length", "item",
                         "structure", "polymorphic_on", "polymorphic", "name", "polymorphic_discriminator", "strip", "strip=false",
                         "min_length=", "max_length=", "pattern", "fields", ", ", " ", "=", ".. field:: ", ":", "field"} |-> Txt(s)])
W(s) == Words[s]

Truth(v) ==
  CASE v.t = "null" -> FALSE
    [] v.t = "bool" -> v.n = <<1>>
    [] v.t = "int" -> v.n # <<0>>
    [] v.t = "str" -> v.n # <<>>
    [] v.t \in {"list", "tuple", "dict", "odict"} -> v.c # <<>>
    [] OTHER -> TRUE

Has(d, k) == \E i \in DOMAIN d.c : d.c[i].c[1] = Str(W(k))
Get(d, k) == IF Has(d, k) THEN d.c[CHOOSE i \in DOMAIN d.c : d.c[i].c[1] = Str(W(k))].c[2] ELSE Null

(* reps: <<value, literal, text>> *)
Rep(reps, v) == LET k == CHOOSE i \in DOMAIN reps : reps[i][1] = v IN reps[k][2]
Say(reps, v) == IF v.t = "str" THEN v.n ELSE LET k == CHOOSE i \in DOMAIN reps : reps[i][1] = v IN reps[k][3]

TextLess(a, b) ==
  LET w == MinOf(Len(a), Len(b))
      c == LexCmp(SubSeq(a, 1, w), SubSeq(b, 1, w), 1)
  IN c < 0 \/ (c = 0 /\ Len(a) < Len(b))
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF TextLess(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
RECURSIVE Ordered(_)
Ordered(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), Ordered(Tail(s)))
Texts(vs) == [i \in DOMAIN vs |-> vs[i].n]

MapSeq(s, Op(_)) == TLCEval([i \in DOMAIN s |-> Op(s[i])])
Maybe(cond, x) == IF cond THEN <<x>> ELSE <<>>
Param(k, t) == <<W(k), t>>
Block(a, p, c) == [a |-> a, p |-> p, c |-> c]

Bounded(kind, v) ==
  CASE kind = "date" -> v.t \in {"date", "dt"}
    [] kind = "datetime" -> v.t = "dt"
    [] kind = "time" -> v.t = "time"
    [] OTHER -> ~IsNullV(v)
KindNames == TLCEval([k \in {"date", "datetime", "time", "integer", "float", "decimal"} \cup {"enumeration", "map", "sequence", "structure", "text", "tuple", "union"} |-> Txt(k)])

(* o: [role, reps] *)
RECURSIVE Doc(_, _, _, _, _)
Doc(o, name, f, sectional, key) ==
  LET ty == Get(f, "fieldtype").n
      is(k) == KindNames[k] = ty
      g(k) == Get(f, k)
      flag(k) == Maybe(Truth(g(k)), Param(k, <<>>))
      texts(k) == Maybe(Truth(g(k)), Param(k, Say(o.reps, g(k))))
      lit(k) == Maybe(~IsNullV(g(k)), Param(k, Rep(o.reps, g(k))))
      inner(n, d) == Doc(o, n, d, FALSE, <<>>)
      together(xs, sep) == Maybe(xs # <<>>, Param("constraints", JoinWith(xs, sep)))
      bound(k, intro, shown(_)) == Maybe(shown(g(k)), W(intro) \o (IF is("date") \/ is("datetime") \/ is("time") THEN Say(o.reps, g(k)) ELSE Rep(o.reps, g(k))))
      bounds(kind) == LET s(v) == Bounded(kind, v) IN bound("minimum", "min=", s) \o bound("maximum", "max=", s)
      num(k, intro) == Maybe(g(k).t \in {"int", "float", "bool"}, W(intro) \o Rep(o.reps, g(k)))
      size(k, intro) == Maybe(~IsNullV(g(k)), W(intro) \o Rep(o.reps, g(k)))
      all(vs) == MapSeq(vs.c, LAMBDA d : inner(<<>>, d))
      named(d) == LET ns == Ordered([i \in DOMAIN d.c |-> d.c[i].c[1].n])
                  IN [i \in DOMAIN ns |-> [n |-> ns[i], f |-> d.c[CHOOSE j \in DOMAIN d.c : d.c[j].c[1].n = ns[i]].c[2]]]
      first(ns, n) == SelectSeq(ns, LAMBDA x : x.n = n) \o SelectSeq(ns, LAMBDA x : x.n # n)
      members(ns) == MapSeq(ns, LAMBDA x : inner(x.n, x.f))
      keyed == IF Truth(g("key")) THEN Get(g("key"), "fieldtype").n ELSE W("text")
      valued == g("value")
      nested == Truth(Get(valued, "structural")) \/ Truth(Get(valued, "description"))
      own == CASE is("date") -> together(bounds("date"), W(", "))
               [] is("time") -> together(bounds("time"), W(", "))
               [] is("datetime") -> together(bounds("datetime") \o Maybe(Truth(g("utc")), W("utc=True")), W(", "))
               [] is("integer") \/ is("decimal") -> together(bounds("integer"), W(", "))
               [] is("float") -> together(bounds("float"), W(" "))
               [] is("enumeration") ->
                    Maybe(IsNullV(g("constant")),
                          Param("values", JoinWith(Ordered(MapSeq(g("enumeration").c, LAMBDA v : Say(o.reps, v))), W(" "))))
               [] is("text") ->
                    together(num("min_length", "min_length=") \o num("max_length", "max_length=")
                             \o Maybe(Has(f, "strip") /\ ~Truth(g("strip")), W("strip=false")), W(", "))
                    \o texts("pattern")
               [] is("sequence") -> flag("unique") \o together(size("min_length", "min=") \o size("max_length", "max="), W(", "))
               [] is("map") ->
                    (IF ~Truth(g("required_keys")) THEN <<>>
                     ELSE <<Param("required_keys", <<91>> \o JoinWith(MapSeq(Ordered(Texts(g("required_keys").c)), Quoted), W(", ")) \o <<93>>)>>)
                    \o Maybe(~nested, Param("subtype", keyed \o W(": ") \o Get(valued, "fieldtype").n))
               [] is("structure") -> Maybe(Truth(g("structure")) /\ Truth(g("polymorphic_on")), Param("polymorphic", <<>>))
               [] OTHER -> <<>>
      inside == CASE is("sequence") -> <<inner(<<>>, g("item"))>>
                  [] is("tuple") -> all(g("values"))
                  [] is("union") -> all(g("fields"))
                  [] is("map") -> IF nested THEN <<Doc(o, <<>>, valued, FALSE, keyed)>> ELSE <<>>
                  [] is("structure") ->
                       IF ~Truth(g("structure")) THEN <<>>
                       ELSE IF ~Truth(g("polymorphic_on")) THEN members(named(g("structure")))
                       ELSE MapSeq(named(g("structure")),
                                   LAMBDA v : Block(Get(g("polymorphic_on"), "name").n \o W("=") \o Quoted(v.n),
                                                    <<Param("polymorphic_discriminator", <<>>)>>,
                                                    members(first(named(v.f), W("type")))))
                  [] OTHER -> <<>>
  IN Block(name,
           Maybe(sectional, Param("sectional", <<>>))
           \o <<Param("type", IF key = <<>> THEN ty ELSE key \o W(": ") \o ty)>>
           \o texts("description") \o texts("notes") \o flag("nonnull") \o flag("ignore_null")
           \o (IF o.role = W("schema") THEN <<>> ELSE flag("required"))
           \o lit("constant") \o lit("default") \o Maybe(~IsNullV(g("title")), Param("title", Say(o.reps, g("title"))))
           \o own,
           inside)

(* ------------------------------------------------------------- layout *)
Tabs(k) == Spaces(4 * k)
RECURSIVE Rst(_, _)
Rst(b, lvl) ==
  LET in == Tabs(lvl + 1)
      lines(t) == LET ls == SplitOn(t, 10, <<>>)
                  IN JoinWith([i \in DOMAIN ls |-> IF i = 1 THEN ls[i] ELSE in \o Tabs(1) \o ls[i]], <<10>>)
      params == JoinWith([i \in DOMAIN b.p |-> in \o <<58>> \o b.p[i][1] \o <<58, 32>> \o lines(b.p[i][2])], <<10>>)
      blocks == TLCEval([i \in DOMAIN b.c |-> Rst(b.c[i], lvl + 1)])
  IN <<10>> \o Tabs(lvl) \o W(".. field:: ") \o b.a \o <<10>> \o params \o <<10, 10>> \o JoinWith(blocks, <<10, 10>>)

DocVerdict(ev) ==
  Clause(ev.r = "ok", "failed " \o ev.r)
  \cup (IF ev.r # "ok" THEN {}
        ELSE LET b == Doc([role |-> ev.role, reps |-> ev.reps], ev.name, ev.v, ev.sect = 1, ev.key)
             IN Clause(ev.out = Rst(b, ev.lvl), "document"))
  \cup Clause(ev.mut = <<>>, "argument-changed")
================================================================================
