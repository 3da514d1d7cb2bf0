------------------------------- MODULE Registry -------------------------------
(* Field classes, the errors and parameters they declare, the table of types, *)
(* and fields with errors and attributes of their own.                        *)
(*                                                                            *)
(* cs: sequence of classes                                                    *)
(*   [name, plain, bases, mro, errs, params, ctor, fixed, attrs, single, multi]*)
(* plain 1 for a class which is not a field class; bases and mro are numbers  *)
(* of classes; errs, params, ctor and attrs are entries of mappings: what the *)
(* class declares itself, the arguments its constructor adds with their       *)
(* defaults, and its class attributes; fixed are arguments it ignores; single *)
(* and multi are the errors an email field puts on itself.                    *)
(* ts: sequence of [low, cls], later entries replace earlier ones.            *)
(* A field is [cls, own, asp, errs]: what was assigned to it (first of all    *)
(* the arguments of its constructor), its extension attributes, its errors.   *)
(* An error is Nd("ferr", <<show field, show value>>, <<title, segments>>), a *)
(* segment Str(text) or Nd("hole", name, <<>>).                               *)
EXTENDS Fields

Named(n) == Str(n)
HasK(c, k) == \E i \in DOMAIN c : DKey(c[i]) = k
ValK(c, k) == DVal(c[CHOOSE i \in DOMAIN c : DKey(c[i]) = k])
Put(c, k, v) ==
  IF HasK(c, k) THEN TLCEval([i \in DOMAIN c |-> IF DKey(c[i]) = k THEN KV(k, v) ELSE c[i]]) ELSE Append(c, KV(k, v))
RECURSIVE Over(_, _)
Over(c, e) == IF e = <<>> THEN c ELSE Over(TLCEval(Put(c, DKey(Head(e)), DVal(Head(e)))), Tail(e))

LowC(n) == TLCEval([i \in DOMAIN n |-> IF n[i] \in 65..90 THEN n[i] + 32 ELSE n[i]])
TypeName(cs, k) == LowC(cs[k].name)

(* what a class has: that of its bases, the first of them last, and its own; *)
(* cs keeps what each class has, to which a new one adds                     *)
RECURSIVE ErrsUp(_, _, _, _)
ErrsUp(cs, bs, i, acc) == IF i = 0 THEN acc ELSE ErrsUp(cs, bs, i - 1, Over(acc, cs[bs[i]].errs))
RECURSIVE ParamsUp(_, _, _, _)
ParamsUp(cs, bs, i, acc) == IF i = 0 THEN acc ELSE ParamsUp(cs, bs, i - 1, Over(acc, cs[bs[i]].params))
RECURSIVE CtorUp(_, _, _, _)
CtorUp(cs, ms, i, acc) == IF i = 0 THEN acc ELSE CtorUp(cs, ms, i - 1, Over(acc, cs[ms[i]].ctor))
CtorOf(cs, k) == CtorUp(cs, cs[k].mro, Len(cs[k].mro), <<>>)
Full(cs, c) ==
  TLCEval([c EXCEPT !.errs = Over(ErrsUp(cs, c.bases, Len(c.bases), <<>>), @),
                    !.params = Over(ParamsUp(cs, c.bases, Len(c.bases), <<>>), @)])
ErrsOf(cs, k) == cs[k].errs
ParamsOf(cs, k) == cs[k].params
RECURSIVE AllFull(_, _)
AllFull(cs, acc) == IF Len(acc) = Len(cs) THEN acc ELSE AllFull(cs, Append(acc, Full(acc, cs[Len(acc) + 1])))
IsFixed(cs, k, a) == \E i \in DOMAIN cs[k].mro : \E j \in DOMAIN cs[cs[k].mro[i]].fixed : Named(cs[cs[k].mro[i]].fixed[j]) = a

(* ---------------------------------------------------------------- fields *)
Pattern == Named(<<112, 97, 116, 116, 101, 114, 110>>)
Multiple == Named(<<109, 117, 108, 116, 105, 112, 108, 101>>)
EmailErrs(cs, k, own) ==
  LET ms == SelectSeq(cs[k].mro, LAMBDA m : cs[m].single # <<>>)
  IN IF ms = <<>> THEN <<>>
     ELSE LET e == cs[ms[1]]
              text == e.bases[1]
          IN IF ValK(ErrsOf(cs, k), Pattern) # ValK(ErrsOf(cs, text), Pattern) THEN <<>>
             ELSE IF ValK(own, Multiple) = True THEN e.multi ELSE e.single

Create(cs, k, params, errs, asp) ==
  LET ctor == CtorOf(cs, k)
      own == TLCEval([i \in DOMAIN ctor |->
               LET a == DKey(ctor[i]) IN IF HasK(params, a) /\ ~IsFixed(cs, k, a) THEN KV(a, ValK(params, a)) ELSE ctor[i]])
      more == SelectSeq(params, LAMBDA kv : ~HasK(ctor, DKey(kv)) /\ ~IsNullV(DVal(kv)) /\ DKey(kv).n[1] # 95)
  IN TLCEval([cls |-> k, own |-> own, asp |-> Over(asp, more), errs |-> Over(Over(ErrsOf(cs, k), EmailErrs(cs, k, own)), errs)])

(* errs: <<>> where none were given *)
CloneOf(cs, f, params, errs) ==
  Create(cs, f.cls, Over(f.own, params), IF errs = <<>> THEN f.errs ELSE errs[1], f.asp)

RECURSIVE FirstAttr(_, _, _, _)
FirstAttr(cs, ms, i, a) ==
  IF i > Len(ms) THEN <<>>
  ELSE IF HasK(cs[ms[i]].attrs, a) THEN <<ValK(cs[ms[i]].attrs, a)>> ELSE FirstAttr(cs, ms, i + 1, a)
Reads(cs, f, a) ==
  IF HasK(f.own, a) THEN ValK(f.own, a)
  ELSE LET c == FirstAttr(cs, cs[f.cls].mro, 1, a)
       IN IF c # <<>> THEN c[1] ELSE IF HasK(f.asp, a) THEN ValK(f.asp, a) ELSE Null

(* ----------------------------------------------------------- description *)
RECURSIVE Told(_)
Told(v) ==
  IF v.t \in {"null", "bool", "int", "float", "str"} THEN TRUE
  ELSE IF v.t \in {"list", "tuple"} THEN \A i \in DOMAIN v.c : Told(v.c[i])
  ELSE IF v.t = "dict" THEN \A i \in DOMAIN v.c : Told(DVal(v.c[i]))
  ELSE FALSE
Fieldtype == Named(<<102, 105, 101, 108, 100, 116, 121, 112, 101>>)
Tells(cs, f, ps, verbose, params) ==
  LET read == TLCEval([i \in DOMAIN ps |-> Reads(cs, f, DKey(ps[i]))])
      on == {i \in DOMAIN ps : /\ ~HasK(params, DKey(ps[i])) /\ ~IsNullV(read[i])
                               /\ (verbose \/ read[i] # DVal(ps[i])) /\ Told(read[i])}
      RECURSIVE Go(_)
      Go(i) == IF i > Len(ps) THEN <<>> ELSE (IF i \in on THEN <<KV(DKey(ps[i]), read[i])>> ELSE <<>>) \o Go(i + 1)
  IN Go(1)
Described(cs, f, extra, verbose, params) ==
  LET start == <<KV(Fieldtype, Named(TypeName(cs, f.cls)))>>
      aspects == SelectSeq(f.asp, LAMBDA kv : ~IsNullV(DVal(kv)) /\ Told(DVal(kv)))
  IN Over(Over(Over(Over(start, aspects), Tells(cs, f, ParamsOf(cs, f.cls), verbose, params)), Tells(cs, f, extra, verbose, params)),
          SelectSeq(params, LAMBDA kv : Told(DVal(kv))))

RECURSIVE Latest(_, _, _)
Latest(ts, low, i) == IF i = 0 THEN 0 ELSE IF ts[i].low = low THEN ts[i].cls ELSE Latest(ts, low, i - 1)
TypeOf(ts, low) == Latest(ts, low, Len(ts))

Builds(cs, ts, d) ==      \* the field a description stands for: <<>> or <<field>>
  IF ~HasK(d, Fieldtype) THEN <<>>
  ELSE LET k == TypeOf(ts, ValK(d, Fieldtype).n)
       IN IF k = 0 THEN <<>> ELSE <<Create(cs, k, SelectSeq(d, LAMBDA kv : DKey(kv) # Fieldtype), <<>>, <<>>)>>

(* ---------------------------------------------------------------- reports *)
NameK == Named(<<110, 97, 109, 101>>)
FieldK == Named(<<102, 105, 101, 108, 100>>)
Unknown == <<117, 110, 107, 110, 111, 119, 110, 45, 102, 105, 101, 108, 100>>
RECURSIVE Says(_, _, _, _)
Says(segs, params, name, i) ==
  IF i > Len(segs) THEN <<>>
  ELSE LET s == segs[i]
           w == IF s.t = "str" THEN s.n
                ELSE IF HasK(params, Named(s.n)) THEN ValK(params, Named(s.n)).n
                ELSE IF Named(s.n) = FieldK THEN name ELSE <<63>>
       IN w \o Says(segs, params, name, i + 1)
Caps(n) == IF n = <<>> THEN n ELSE <<(IF n[1] \in 97..122 THEN n[1] - 32 ELSE n[1])>> \o Tail(n)
ErrorAt == <<32, 101, 114, 114, 111, 114, 32, 97, 116, 32>>

(* out: [r, tok, title, msg, path, head, field, value] *)
ToldOk(f, tok, params, valued, out) ==
  IF out.r # "ok" THEN {"no-report " \o out.r}
  ELSE
  LET e == ValK(f.errs, Named(tok))
      own == ValK(f.own, NameK)
      msg == Says(e.c[2].c, params, IF IsNullV(own) THEN Unknown ELSE own.n, 1)
  IN Clause(out.tok = tok, "report-token") \cup Clause(out.title = e.c[1].n, "report-title") \cup Clause(out.msg = msg, "report-message")
     \cup Clause(out.head = Caps(e.c[1].n) \o ErrorAt \o out.path \o <<58, 32>> \o msg, "report-text")
     \cup Clause(out.field = e.n[1], "report-shows-field") \cup Clause(out.value = (IF valued = 1 THEN e.n[2] ELSE 0), "report-shows-value")

(* ------------------------------------------------------------ observation *)
SameKV(x, o) == Len(x) = Len(o) /\ {x[i] : i \in DOMAIN x} = {o[i] : i \in DOMAIN o}
ClassesOk(cs, all) ==
  \A k \in DOMAIN all : IF cs[k].plain = 1 THEN TRUE
                        ELSE /\ SameKV(ErrsOf(cs, k), all[k].errs) /\ SameKV(ParamsOf(cs, k), all[k].params) /\ all[k].type = TypeName(cs, k)
FieldOk(cs, f, o) ==
  Clause(o.cls = f.cls, "class-of-field") \cup Clause(SameKV(f.errs, o.errs), "errors-of-field")
  \cup Clause(\A i \in DOMAIN o.reads : Reads(cs, f, DKey(o.reads[i])) = DVal(o.reads[i]), "attributes-of-field")
  \cup Clause(SameKV(Described(cs, f, <<>>, FALSE, <<>>), o.desc), "description-of-field")
(* a field which is as before and looks as before needs no other look *)
SnapOk(cs, ts, old, was, fs, seen, s) ==
  Clause((Len(s.classes) \in {0, Len(cs)}) /\ ClassesOk(cs, TLCEval([k \in DOMAIN s.classes |-> seen[s.classes[k]]])), "classes")
  \cup Clause(\A i \in DOMAIN s.types : TypeOf(ts, s.types[i].low) = s.types[i].cls, "table-of-types")
  \cup (IF Len(s.fields) # Len(fs) THEN {"number-of-fields"} ELSE UNION {IF i \in DOMAIN old /\ was[i] = s.fields[i] /\ old[i] = fs[i] THEN {} ELSE FieldOk(cs, fs[i], seen[s.fields[i]]) : i \in DOMAIN fs})

RegStep(cs, ts, fs, s) ==   \* [cs, ts, fs, bad]
  LET st(c, t, f, b) == [cs |-> c, ts |-> t, fs |-> f, bad |-> b]
      made(x) == st(cs, ts, Append(fs, x), Clause(s.out.r = "ok", "failed " \o s.out.r))
  IN CASE s.op = "class" ->
            st(Append(cs, Full(cs, s.class)), IF s.class.plain = 1 THEN ts ELSE Append(ts, [low |-> LowC(s.class.name), cls |-> Len(cs) + 1]), fs,
               Clause(s.out.r = "ok", "failed " \o s.out.r))
       [] s.op = "new" -> made(Create(cs, s.k, s.params, s.errs, s.asp))
       [] s.op = "clone" -> made(CloneOf(cs, fs[s.o], s.params, IF s.given = 1 THEN <<s.errs>> ELSE <<>>))
       [] s.op = "set" -> st(cs, ts, [fs EXCEPT ![s.o].own = Over(@, s.params)], Clause(s.out.r = "ok", "failed " \o s.out.r))
       [] s.op = "aspect" -> st(cs, ts, [fs EXCEPT ![s.o].asp = Over(@, s.params)], Clause(s.out.r = "ok", "failed " \o s.out.r))
       [] s.op = "wrap" ->      \* becomes part of a structure: takes a name
            LET f2 == IF s.named = 1 /\ IsNullV(ValK(fs[s.o].own, NameK)) THEN [fs EXCEPT ![s.o].own = Put(@, NameK, Named(s.as))] ELSE fs
            IN st(cs, ts, f2, Clause(s.out.r = "ok", "failed " \o s.out.r))
       [] s.op = "describe" ->
            st(cs, ts, fs, Clause(s.out.r = "ok" /\ SameKV(Described(cs, fs[s.o], s.asp, s.given = 1, s.params), s.out.v), "description"))
       [] s.op = "build" ->
            LET b == Builds(cs, ts, s.params)
            IN IF b = <<>> THEN st(cs, ts, fs, Clause(s.out.r = "ValueError", "reconstructed from " \o s.out.r)) ELSE made(b[1])
       [] s.op = "rebuild" ->
            LET b == Builds(cs, ts, Described(cs, fs[s.o], <<>>, FALSE, <<>>))
            IN IF b = <<>> THEN st(cs, ts, fs, Clause(s.out.r = "ValueError", "reconstructed from " \o s.out.r)) ELSE made(b[1])
       [] s.op = "fail" -> st(cs, ts, fs, ToldOk(fs[s.o], s.tok, s.params, s.given, s.out))
       [] OTHER -> st(cs, ts, fs, Clause(s.out.r = "ok", "failed " \o s.out.r))

RECURSIVE RegistryVerdict(_, _, _, _, _, _)
RegistryVerdict(cs, ts, fs, seen, steps, n) ==
  IF n > Len(steps) THEN {}
  ELSE LET s == steps[n]
           x == TLCEval(RegStep(cs, ts, fs, s))
           bad == IF x.bad # {} THEN x.bad ELSE SnapOk(x.cs, x.ts, fs, IF n = 1 THEN <<>> ELSE steps[n - 1].snap.fields, x.fs, seen, s.snap)
       IN IF bad # {} THEN {"step " \o ToString(n) \o " " \o s.op \o ": " \o b : b \in bad}
          ELSE RegistryVerdict(x.cs, x.ts, x.fs, seen, steps, n + 1)

===============================================================================
