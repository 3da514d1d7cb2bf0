-------------------------------- MODULE Trace --------------------------------
(* Checks recorded calls of the real library, one event per call, against    *)
(* the model.  Verdicts are total: every event either conforms or is printed *)
(* with the names of the clauses it violates, and checking goes on.          *)
EXTENDS Alias, Files, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

NM == INSTANCE Nested
OM == INSTANCE Objects
EM == INSTANCE Elements
SM == INSTANCE Surrogates
RM == INSTANCE Registry
CM == INSTANCE Concurrent
PM == INSTANCE Printing
KM == INSTANCE Clock
DM == INSTANCE Docs
TM == INSTANCE Depict

VARIABLES l, nbad
vars == <<l, nbad>>

Unchanged(ev) == Clause(ev.mut = <<>>, "argument-or-schema-changed")

(* a value the field accepted and processed, taken through both directions *)
TripVerdict(ev) ==
  LET ser == Process(ev.cx, ev.f, ev.v, "out", TRUE, FALSE)
      step(x, o, what) == {what \o ": " \o c : c \in Judge(x, o)}
      back == IF ser.r = "ok" THEN Process(ev.cx, ev.f, ser.v, "in", TRUE, FALSE) ELSE ser
      is(o, what) == Clause(o.r = "ok" /\ Same(ev.v, o.v), what)
  IN step(ser, ev.s, "serialize")
     \cup (IF ev.s.r = "ok" /\ ser.r = "ok" THEN step(back, ev.b, "unserialize") ELSE {})
     \cup step(Process(ev.cx, ev.f, ev.v, "in", FALSE, FALSE), ev.again, "processed again")
     \cup step(Process(ev.cx, ev.f, ev.v, "out", FALSE, FALSE), ev.out, "processed outbound")
     \cup (IF ev.dom = 0 THEN {}
           ELSE Clause(ev.s.r = "ok", "accepted-value-cannot-be-serialized")
                \cup (IF ev.s.r # "ok" THEN {} ELSE Clause(ev.native = 0 \/ DeepNative(ev.s.v), "serialized-form-not-native"))
                \cup is(ev.b, "round-trip") \cup is(ev.again, "processing-again-changes") \cup is(ev.out, "processing-outbound-changes"))
     \cup Clause(ev.mut = <<>>, "argument-changed")

RECURSIVE Verdict(_)
Verdict(ev) ==
  CASE ev.op = "process" ->
         LET x == SeenIn(ev.cx, Process(ev.cx, ev.f, ev.v, ev.ph, ev.ser = 1, ev.partial = 1))
         IN Judge(x, ev.out) \cup Unchanged(ev) \cup DetailsOf(ev.cx, x, ev.out)
    [] ev.op = "instantiate" ->
         LET x == I(ev.cx, ev.f, ev.v, ev.key)
         IN JudgeOp(x, ev.out) \cup Unchanged(ev)
            \cup (IF IsOk(x) THEN Clause(CallsOk(x.v, ev.log), "instantiator-calls") ELSE {})
    [] ev.op = "extract" ->
         LET x == X(ev.cx, ev.f, ev.v, ev.strict = 1, ev.params)
         IN JudgeOp(x, ev.out) \cup Unchanged(ev)
            \cup (IF ev.orig = <<>> THEN {}
                  ELSE Clause(IsOk(x) /\ Same(DropNulls(ev.cx, ev.f, ev.orig[1]), x.v), "model: extraction inverts"))
    [] ev.op = "interpolate" -> JudgeOp(N(ev.cx, ev.f, ev.v, ev.params), ev.out) \cup Unchanged(ev)
    [] ev.op = "defaults" -> JudgeOp(GenDefaults(ev.f, ev.id, ev.sparse = 1), ev.out)
    [] ev.op = "unchanged" -> Clause(SameShape(ev.before, ev.after), ev.what \o "-changed")
    [] ev.op = "describe" ->
         (IF ev.out.r # "ok" THEN {"cannot-describe " \o ev.out.x}
          ELSE (IF ev.verbose = 1
                THEN LET d == Bare(Desc(ev.cx, ev.f, TRUE)) IN Clause(Same(d, Bare(ev.out.v)), "verbose-description " \o ToString(DescDiff(d, Bare(ev.out.v))))
                ELSE LET d == Desc(ev.cx, ev.f, FALSE) IN Clause(Same(d, ev.out.v), "description " \o ToString(DescDiff(d, ev.out.v))))
               \cup Clause(DeepNative(ev.out.v), "description-not-native"))
    [] ev.op = "reconstruct" ->
         (IF ev.x # "" THEN {"cannot-reconstruct " \o ev.x}
          ELSE LET x == Rebuilt(ev.cx, ev.f)
               IN Clause(SameShape(x, ev.shape), "reconstructed-field " \o ToString(Diff(x, ev.shape)))
                  \cup Clause(Same(ev.desc, ev.again), "describes-differently") \cup Unchanged(ev))
    [] ev.op = "construct" ->
         LET x == FromDef(ev.cx, ev.d)
         IN IF ~x.ok THEN Clause(ev.r = "refused", "malformed-definition-accepted")
            ELSE IF ev.r # "ok" THEN {"definition-refused " \o ev.x}
            ELSE Clause(SameShape(Norm(ev.cx, x.f), ev.shape), "constructed-field " \o ToString(Diff(Norm(ev.cx, x.f), ev.shape))) \cup Unchanged(ev)
    [] ev.op = "screen" ->
         Clause(ev.out.r = "ok" /\ ev.out.v = BoolV(IF ScreenOk(ev.f, ev.params) THEN 1 ELSE 0), "screen")
    [] ev.op = "filter" ->
         LET x == Filter(Norm(ev.cx, ev.f), ev.params, ev.all = 1)
         IN IF x.r = "fail" THEN Clause(ev.r = "filter", "filter-must-fail")
            ELSE IF ev.r # "ok" THEN {"filter-failed " \o ev.r \o " " \o ev.x}
            ELSE Clause(x.r = ev.res, "filter: expected " \o x.r \o ", was " \o ev.res)
                 \cup (IF x.r \in {"same", "new"} /\ ev.res \in {"same", "new"}
                       THEN Clause(SameShape(x.s, ev.shape), "filtered-field") ELSE {})
    [] ev.op = "transform" ->
         LET x == Tr(Norm(ev.cx, ev.f), Norm(ev.cx, ev.new))
         IN IF ev.r # "ok" THEN {"transform-failed " \o ev.r \o " " \o ev.x}
            ELSE Clause(x.same <=> ev.same = 1, "transform-identity")
                 \cup Clause(SameShape(x.s, ev.shape), "transformed-field")
                 \cup Clause(SameBag(x.seen, ev.seen), "transformer-calls")
    [] ev.op = "visit" ->
         (IF ev.out.r # "ok" THEN {"visit-failed " \o ev.out.x}
          ELSE Clause(Same(Visit(ev.desc), ev.out.v), "visit") \cup Unchanged(ev))
    [] ev.op = "write" -> WriteVerdict(ev) \cup Unchanged(ev)
    [] ev.op = "read" -> ReadVerdict(ev) \cup Unchanged(ev)
    [] ev.op = "files" -> FilesVerdict(<<>>, <<>>, ev.steps, 1)
    [] ev.op = "trip" -> TripVerdict(ev)
    [] ev.op = "heap" -> HeapVerdict(ev.cx, <<>>, <<>>, ev.steps, 1)
    [] ev.op = "fresh" -> FreshVerdict(ev)
    [] ev.op = "again" -> Clause(Same(ev.a, ev.b), ev.what \o "-differs") \cup Unchanged(ev)
    [] ev.op = "errors" -> ErrorsVerdict(<<>>, ev.steps, 1)
    [] ev.op = "print" -> PM!PrintVerdict(ev)
    [] ev.op = "depict" -> TM!DepictVerdict(ev)
    [] ev.op = "document" -> DM!DocVerdict(ev)
    [] ev.op = "clock" -> KM!ClockVerdict(ev)
    [] ev.op = "nested" -> NM!NestedVerdict(<<>>, <<>>, ev.steps, 1)
    [] ev.op = "objects" -> OM!ObjectsVerdict(ev.w, {}, ev.steps, 1)
    [] ev.op = "surrogates" ->
         Clause(SM!DescsOk(ev.cx), "description-of-dynamic-schema") \cup SM!SurrogatesVerdict(ev.cx, <<>>, ev.steps, 1)
    [] ev.op = "elements" -> EM!ElementsVerdict(ev.cx, <<>>, ev.steps, 1)
    [] ev.op = "registry" -> RM!RegistryVerdict(RM!AllFull(ev.cs, <<>>), ev.ts, <<>>, ev.seen, ev.steps, 1)
    [] ev.op = "concurrent" ->     \* every call as if alone, what it gave never changing afterwards
         Clause(CM!HistoryOk(ev.hist, ev.n), "history")
         \cup UNION {{"call " \o ToString(ev.calls[i].call) \o " " \o ev.calls[i].op \o ": " \o c : c \in Verdict(ev.calls[i])} : i \in DOMAIN ev.calls}
         \cup Clause(\A i \in DOMAIN ev.held : ev.held[i].early = ev.held[i].late, "outcome-changed-later")
         \cup Clause(SameShape(ev.before, ev.after), "schema-changed")
    [] ev.op = "build" -> {"cannot-build-valid-schema " \o ev.x}
    [] ev.op = "crash" -> {"unexpected-exception " \o ev.x}
    [] OTHER -> {"unknown-event"}

Init == l = 1 /\ nbad = 0
Next ==
  /\ l <= Len(TraceLog)
  /\ LET v == Verdict(TraceLog[l])
     IN /\ IF v = {} THEN TRUE ELSE PrintT("BAD " \o ToString(l) \o " " \o ToJson(v))
        /\ nbad' = nbad + (IF v = {} THEN 0 ELSE 1)
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars

Complete == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
