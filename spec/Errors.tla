-------------------------------- MODULE Errors -------------------------------
(* Errors as values: what an error holds, what its serialized form is, and    *)
(* how both change as errors are built, extended, attached to one another,    *)
(* written out and read back (C35).                                           *)
(*                                                                            *)
(* An error is [errs, st, raw, cache]: its own errors (nodes, in order), its  *)
(* structure (<<>> or a list/dict node in which Nd("ref", <<n>>, <<>>) is the *)
(* n-th error), raw = 1 when that structure was read from a serialized form,  *)
(* and the serialized form it has already given away, <<>> when none.         *)
EXTENDS Values, TLC

MessageKey == Str(<<109, 101, 115, 115, 97, 103, 101>>)
TokenKey   == Str(<<116, 111, 107, 101, 110>>)

Ref2(n) == Nd("ref", <<n>>, <<>>)
NewError(errs, st, raw) == [errs |-> errs, st |-> st, raw |-> raw, cache |-> <<>>]

(* an error which is not a mapping is a message *)
WrittenError(e) == IF e.t = "dict" THEN e ELSE Dict(<<KV(MessageKey, e)>>)
WrittenErrors(errs) == List(TLCEval([i \in DOMAIN errs |-> WrittenError(errs[i])]))

(* a structure is written with every error in it written; places holding no  *)
(* error are null in a list and left out of a mapping                         *)
RECURSIVE WrittenStructure(_, _), WrittenNested(_, _)
WrittenStructure(h, o) ==
  LET st == o.st[1]
  IN IF o.raw = 1 THEN st
     ELSE IF st.t = "list"
     THEN List(TLCEval([i \in DOMAIN st.c |-> IF st.c[i].t = "ref" THEN WrittenNested(h, h[st.c[i].n[1]]) ELSE Null]))
     ELSE LET at == SelectSeq(st.c, LAMBDA kv : DVal(kv).t = "ref")
          IN Dict(TLCEval([i \in DOMAIN at |-> KV(DKey(at[i]), WrittenNested(h, h[DVal(at[i]).n[1]]))]))
WrittenNested(h, o) == IF o.st # <<>> THEN WrittenStructure(h, o) ELSE WrittenErrors(o.errs)

Hollow(st) == st = <<>> \/ st[1].c = <<>>
Substantive(o) == o.errs # <<>> \/ ~Hollow(o.st)
Written(h, o) ==
  Tup(<<IF o.errs = <<>> THEN Null ELSE WrittenErrors(o.errs),
        IF Hollow(o.st) THEN Null ELSE WrittenStructure(h, o)>>)

(* the serialized form is made once; force makes it again *)
WrittenOnce(h, n, force) == IF h[n].cache # <<>> /\ ~force THEN h[n].cache[1] ELSE Written(h, h[n])

(* which values are the serialized form of an error, and of which *)
IsWritten(v) ==
  /\ v.t \in {"list", "tuple"} /\ Len(v.c) = 2
  /\ v.c[1].t \in {"null", "list", "tuple"}
  /\ v.c[2].t \in {"null", "list", "dict"}
Unwritten(v) == NewError(v.c[1].c, IF IsNullV(v.c[2]) THEN <<>> ELSE <<v.c[2]>>, 1)

(* ------------------------------------------------------- recorded histories *)
(* Every step says what it did, what came of it, and what every error looks  *)
(* like afterwards: [errs, st, sub].                                          *)
Appears(h, i, o) == Same(List(h[i].errs), o.errs) /\ (o.sub = 1) = Substantive(h[i])
                    /\ Same(IF h[i].st = <<>> THEN Null ELSE h[i].st[1], o.st)

RECURSIVE ErrorsVerdict(_, _, _)
ErrorsVerdict(h, steps, n) ==
  IF n > Len(steps) THEN {}
  ELSE
    LET s == steps[n]
        name == "step " \o ToString(n) \o " " \o s.op \o ": "
        read == s.op \in {"unserialize", "accept"}
        fits == IsWritten(s.v)
        r == IF s.op = "accept" /\ ~fits THEN "err" ELSE "ok"
        w == IF s.op \in {"serialize", "emit"} THEN WrittenOnce(h, s.o, s.force = 1) ELSE Null
        h2 == CASE s.op = "new" -> Append(h, NewError(s.errs, s.st, 0))
                [] s.op = "append" -> [h EXCEPT ![s.o].errs = Append(@, s.errs[1])]
                [] s.op = "merge" -> [h EXCEPT ![s.o].errs = @ \o h[s.with].errs]
                [] s.op = "attach" -> [h EXCEPT ![s.o].st = s.st, ![s.o].raw = 0]
                [] s.op \in {"serialize", "emit"} -> [h EXCEPT ![s.o].cache = <<w>>]
                [] read /\ fits /\ r = "ok" -> Append(h, Unwritten(s.v))
                [] OTHER -> h
        bad == (IF r = s.r THEN {} ELSE {"outcome: expected " \o r \o ", was " \o s.r})
               \cup (IF r = "err" /\ s.r = "err" /\ s.tok # "invalid" THEN {"refused-with " \o s.tok} ELSE {})
               \cup (IF s.op \in {"append", "merge", "attach", "pass"} /\ s.same # 1 THEN {"gives-another-error"} ELSE {})
               \cup (IF s.op \in {"serialize", "emit"} /\ ~Same(w, s.out) THEN {"serialized-form"} ELSE {})
               \cup (IF Len(s.obs) # Len(h2) THEN {"number-of-errors"}
                     ELSE {"error " \o ToString(i) \o " afterwards" : i \in {j \in DOMAIN h2 : ~Appears(h2, j, s.obs[j])}})
    IN IF bad # {} THEN {name \o c : c \in bad} ELSE ErrorsVerdict(h2, steps, n + 1)
==============================================================================
