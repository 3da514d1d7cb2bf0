-------------------------------- MODULE Depict ---------------------------------
(* The texts of fields, objects and surrogates themselves: what repr() shows,   *)
(* and every report of a failure under "Field:".  A text names the class of the *)
(* field and every aspect it has, nested fields included; a field reached again  *)
(* within itself is an ellipsis.                                                 *)
EXTENDS Scalars
P == INSTANCE Printing

Dots == <<46, 46, 46>>
Commas(ts) == JoinWith(ts, <<44, 32>>)
Wrap(a, t, b) == a \o t \o b
TrueText == <<84, 114, 117, 101>>
FalseText == <<70, 97, 108, 115, 101>>

(* a value, as Python writes it *)
RECURSIVE ReprOf(_, _)
ReprEntry(reps, k, v) == ReprOf(reps, k) \o <<58, 32>> \o ReprOf(reps, v)
ReprOf(reps, v) ==
  CASE v.t = "str" -> P!Quoted(v.n)
    [] v.t = "list" -> Wrap(<<91>>, Commas(TLCEval([i \in DOMAIN v.c |-> ReprOf(reps, v.c[i])])), <<93>>)
    [] v.t = "tuple" -> Wrap(<<40>>, Commas(TLCEval([i \in DOMAIN v.c |-> ReprOf(reps, v.c[i])])),
                             IF Len(v.c) = 1 THEN <<44, 41>> ELSE <<41>>)
    [] v.t = "dict" -> Wrap(<<123>>, Commas(TLCEval([i \in DOMAIN v.c |-> ReprEntry(reps, v.c[i].c[1], v.c[i].c[2])])), <<125>>)
    [] OTHER -> P!Literal(reps, v)

(* the names: of the classes, and of the aspects *)
Names == [boolean |-> "Boolean", integer |-> "Integer", float |-> "Float", decimal |-> "Decimal", text |-> "Text",
          email |-> "Email", token |-> "Token", uuid |-> "UUID", binary |-> "Binary", date |-> "Date", time |-> "Time",
          datetime |-> "DateTime", enumeration |-> "Enumeration", object |-> "Object", field |-> "Field",
          definition |-> "Definition", error |-> "Error", surrogate |-> "Surrogate", sequence |-> "Sequence",
          tuple |-> "Tuple", map |-> "Map", union |-> "Union", structure |-> "Structure"]

D == INSTANCE Docs
Chars == TLCEval([s \in {Names[k] : k \in DOMAIN Names}
                         \cup {"name", "minimum", "maximum", "min_length", "max_length", "utc", "strip", "multiple", "extended", "segments",
                               "enumeration", "item", "unique", "values", "fields", "key", "value", "required_keys", "structure",
                               "polymorphic_on", "strict", "key_order", "valid_surrogates", "constant", "default", "nonnull", "required",
                               "ignore_null", "title"} |-> D!Txt(s)])
Is(key, text) == <<Chars[key] \o <<61>> \o text>>
On(flag, key, text) == IF flag THEN Is(key, text) ELSE <<>>
Opt(s, key, Fmt(_)) == IF s = <<>> THEN <<>> ELSE Is(key, Fmt(s[1]))
Size(s, key) == IF s = <<>> THEN <<>> ELSE Is(key, NatText(s[1]))

RECURSIVE KeysInOrder(_)
KeysInOrder(ks) ==        \* duplicates stay
  IF ks = <<>> THEN <<>>
  ELSE LET i == CHOOSE x \in DOMAIN ks : \A y \in DOMAIN ks : ~P!KeyLess(ks[y], ks[x])
       IN <<ks[i]>> \o KeysInOrder([j \in 1..(Len(ks) - 1) |-> IF j < i THEN ks[j] ELSE ks[j + 1]])

Truthy(s) == s # <<>> /\ s[1] # Str(<<>>)

RECURSIVE Text(_, _)
Members(reps, ms) ==
  Wrap(<<123>>, Commas(TLCEval([i \in DOMAIN ms |-> P!Quoted(ms[i].k) \o <<58, 32>> \o Text(reps, ms[i].f)])), <<125>>)
Several(reps, fs) ==
  Wrap(<<40>>, Commas(TLCEval([i \in DOMAIN fs |-> Text(reps, fs[i])])), IF Len(fs) = 1 THEN <<44, 41>> ELSE <<41>>)
Bound(reps, ty, b) ==
  CASE ty = "date" -> P!Quoted(DateText(b.n))
    [] ty = "datetime" -> P!Quoted(StampText(WallAt(DtInstant(b), 0)))
    [] OTHER -> ReprOf(reps, b)
Own(reps, f) ==        \* the aspects of the kind of field
  LET limits == Opt(f.min, "minimum", LAMBDA b : Bound(reps, f.ty, b)) \o Opt(f.max, "maximum", LAMBDA b : Bound(reps, f.ty, b))
      sizes == Size(f.minl, "min_length") \o Size(f.maxl, "max_length")
      texts(xs) == List(TLCEval([i \in DOMAIN xs |-> Str(xs[i])]))
  IN CASE f.ty \in {"integer", "float", "decimal", "date", "time"} -> limits
       [] f.ty = "datetime" -> limits \o On(f.utc = 1, "utc", TrueText)
       [] f.ty = "text" -> sizes \o On(f.strip = 0, "strip", FalseText)
       [] f.ty = "email" -> On(f.multiple = 1, "multiple", TrueText) \o On(f.extended = 1, "extended", TrueText) \o sizes
                            \o Is("strip", FalseText)
       [] f.ty = "binary" -> sizes
       [] f.ty = "token" -> Size(f.segs, "segments")
       [] f.ty = "enumeration" -> Is("enumeration", ReprOf(reps, List(f.enum)))
       [] f.ty = "sequence" -> Is("item", Text(reps, f.item)) \o sizes \o On(f.unique = 1, "unique", TrueText)
       [] f.ty = "tuple" -> Is("values", Several(reps, f.values))
       [] f.ty = "union" -> Is("fields", Several(reps, f.fields))
       [] f.ty = "map" ->
            (IF f.key = <<>> THEN <<>> ELSE Is("key", Text(reps, f.key[1]))) \o Is("value", Text(reps, f.value))
            \o (IF f.reqkeys = <<>> THEN <<>> ELSE IF f.reqkeys[1] = <<>> THEN <<>>
                ELSE Is("required_keys", ReprOf(reps, List(KeysInOrder(f.reqkeys[1])))))
       [] f.ty = "structure" ->
            Is("structure",
               IF f.poly = <<>> THEN Members(reps, f.struct)
               ELSE Wrap(<<123>>, Commas(TLCEval([i \in DOMAIN f.variants |->
                           ReprOf(reps, f.variants[i].id) \o <<58, 32>> \o Members(reps, f.variants[i].s)])), <<125>>))
            \o (IF f.poly = <<>> THEN <<>> ELSE Is("polymorphic_on", P!Quoted(f.poly[1].name[1])))
            \o On(f.strict = 0, "strict", FalseText)
            \o (IF f.korder = <<>> THEN <<>> ELSE IF f.korder[1] = <<>> THEN <<>> ELSE Is("key_order", ReprOf(reps, texts(f.korder[1]))))
       [] f.ty = "surrogate" ->
            IF f.valid = <<>> THEN <<>>
            ELSE Is("valid_surrogates", ReprOf(reps, List(KeysInOrder(texts(f.valid[1]).c))))
       [] OTHER -> <<>>
Text(reps, f) ==
  IF f.ty = "loop" THEN Dots
  ELSE Chars[Names[f.ty]]
       \o Wrap(<<40>>,
               Commas((IF f.name = <<>> THEN <<>> ELSE IF f.name[1] = <<>> THEN <<>> ELSE Is("name", P!Quoted(f.name[1])))
                      \o Own(reps, f)
                      \o On(f.constant # <<>>, "constant", TrueText)
                      \o Opt(f.default, "default", LAMBDA v : ReprOf(reps, v))
                      \o On(f.nonnull = 1, "nonnull", TrueText)
                      \o On(f.required = 1, "required", TrueText)
                      \o On(f.ignull = 1, "ignore_null", TrueText)
                      \o (IF Truthy(f.texts[1]) THEN Is("title", ReprOf(reps, f.texts[1][1])) ELSE <<>>)),
               <<41>>)

(* an object of a schema shows whichever of its id, name and title it has *)
ElementText(reps, ev) ==
  LET has == SelectSeq(ev.attrs, LAMBDA a : a[2].t # "null")
  IN ev.cls \o Wrap(<<40>>, Commas(TLCEval([i \in DOMAIN has |-> has[i][1] \o <<61>> \o ReprOf(reps, has[i][2])])), <<41>>)

DepictVerdict(ev) ==
  P!Clause(ev.r = "ok", "failed " \o ev.r)
  \cup (IF ev.r # "ok" THEN {}
        ELSE LET x == CASE ev.what = "field" -> Text(ev.reps, ev.shape)
                        [] ev.what = "element" -> ElementText(ev.reps, ev)
                        [] ev.what = "surrogate" -> ev.cls \o Wrap(<<40>>, ReprOf(ev.reps, ev.v), <<41>>)
             IN P!Clause(ev.out = x, ev.what \o ": expected " \o ToString(x)))
  \cup P!Clause(ev.mut = <<>>, "argument-changed")
================================================================================
