-------------------------------- MODULE Alias --------------------------------
(* Where the containers of a result come from.  Every list and dict of the   *)
(* arguments carries a number (in n); the model's conversions build fresh    *)
(* containers, which carry none, and hand over a caller's container only     *)
(* where a position is opaque to the schema.  A container of a real result   *)
(* which is one of the caller's must be so in the model too; containers of   *)
(* the schema, of earlier results and of the library are numbered from 1000  *)
(* on and appear in no model result.                                         *)
EXTENDS Heap

Boxes == {"list", "dict", "odict"}
RECURSIVE Untag(_)
Untag(v) ==
  LET c == TLCEval([i \in DOMAIN v.c |-> Untag(v.c[i])])
  IN Nd(v.t, IF v.t \in Boxes THEN <<>> ELSE v.n, c)

RECURSIVE TagsOk(_, _)       \* x: expected, o: the same value as observed
TagsOk(x, o) ==
  IF o.t \in Boxes /\ o.n # <<>> THEN x.n = o.n
  ELSE IF IsDict(o) THEN
    \A i \in DOMAIN o.c : \E j \in DOMAIN x.c :
       /\ Same(Untag(DKey(x.c[j])), Untag(DKey(o.c[i])))
       /\ TagsOk(DVal(x.c[j]), DVal(o.c[i]))
  ELSE \A i \in DOMAIN o.c : TagsOk(x.c[i], o.c[i])

UntagRes(x) == IF x.r = "ok" THEN [x EXCEPT !.v = Untag(@)] ELSE x
UntagOut(o) == [o EXCEPT !.v = Untag(@)]

(* a call made several times over, its results spoilt in between *)
FreshVerdict(ev) ==
  LET p == [i \in DOMAIN ev.outs |-> ev.outs[i]]
      isP == ev.call = "process"
      xp == IF isP THEN Process(ev.cx, ev.f, ev.v, ev.ph, ev.ser = 1, ev.partial = 1) ELSE OkR(Null)
      xo == CASE isP -> Got(Null)
              [] ev.call = "extract" -> X(ev.cx, ev.f, ev.v, ev.strict = 1, ev.params)
              [] ev.call = "instantiate" -> I(ev.cx, ev.f, ev.v, ev.key)
              [] ev.call = "interpolate" -> N(ev.cx, ev.f, ev.v, ev.params)
      ok == IF isP THEN xp.r = "ok" ELSE IsOk(xo)
      val == IF isP THEN xp.v ELSE xo.v
      judge(o) == IF isP THEN Judge(UntagRes(xp), UntagOut(o))
                  ELSE JudgeOp(IF IsOk(xo) THEN [xo EXCEPT !.v = Untag(@)] ELSE xo, UntagOut(o))
      one(i) ==
        LET o == p[i]
            j == judge(o)
        IN {(IF i = 1 THEN "first call: " ELSE "repeated call: ") \o c : c \in j}
           \cup (IF j = {} /\ ok /\ o.r = "ok" THEN Clause(TagsOk(val, o.v), "result-shares-a-container") ELSE {})
  IN UNION {one(i) : i \in DOMAIN p}
     \cup Clause(ev.mut = <<>>, "argument-or-schema-changed")
     \cup Clause(SameShape(ev.before, ev.after), "schema-changed")
=============================================================================
