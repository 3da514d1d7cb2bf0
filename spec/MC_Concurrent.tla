---------------------------- MODULE MC_Concurrent ----------------------------
(* Calls on one schema of N members, every interleaving of them at the calls   *)
(* back into user code, with further calls made inside those.  A call keeps    *)
(* what it has found in a frame of its own; Keep = "schema" keeps it with the  *)
(* schema instead, which TLC refutes.                                          *)
EXTENDS Concurrent
CONSTANTS Threads, N, Nesting, Keep

Kinds == {"good", "bad", "none"}     \* a member's value is accepted, refused, or missing and replaced by the default
Inputs == [1..N -> Kinds]
Alone(in) == [errs |-> {i \in 1..N : in[i] = "bad"}, out |-> [i \in 1..N |-> IF in[i] = "none" THEN "default" ELSE in[i]]]

VARIABLES stack,   \* thread -> its frames [c, in, i, errs, out]
          left,    \* thread -> calls it may still make inside others
          pot,     \* what is kept with the schema
          done,    \* finished calls [c, in, errs, out]
          hist
vars == <<stack, left, pot, done, hist>>

Frame(c, in) == [c |-> c, in |-> in, i |-> 1, errs |-> {}, out |-> [j \in {} |-> ""]]
Calls == {hist[i][1] : i \in DOMAIN hist}
Init == stack = [t \in Threads |-> <<>>] /\ left = [t \in Threads |-> Nesting] /\ pot = {} /\ done = {} /\ hist = <<>>

Push(t, in) ==
  LET c == Cardinality(Calls) + 1
  IN /\ stack' = [stack EXCEPT ![t] = Append(@, Frame(c, in))]
     /\ hist' = Append(hist, <<c, 1, t>>)
     /\ pot' = {}
     /\ UNCHANGED done
Begin(t) == stack[t] = <<>> /\ (\A i \in DOMAIN hist : hist[i][3] # t) /\ (\E in \in Inputs : Push(t, in)) /\ UNCHANGED left
Nest(t) == stack[t] # <<>> /\ Top(stack[t]).i \in 2..N /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ (\E in \in Inputs : Push(t, in))
Member(t) ==
  /\ stack[t] # <<>> /\ Top(stack[t]).i <= N
  /\ LET f == Top(stack[t])
         k == f.in[f.i]
         errs == IF k = "bad" THEN {f.i} ELSE {}
         g == [f EXCEPT !.i = @ + 1, !.errs = IF Keep = "call" THEN @ \cup errs ELSE @,
                        !.out = [j \in 1..f.i |-> IF j < f.i THEN f.out[j] ELSE IF k = "none" THEN "default" ELSE k]]
     IN stack' = [stack EXCEPT ![t] = Append(SubSeq(@, 1, Len(@) - 1), g)] /\ pot' = pot \cup errs
  /\ UNCHANGED <<left, done, hist>>
End(t) ==
  /\ stack[t] # <<>> /\ Top(stack[t]).i > N
  /\ LET f == Top(stack[t])
     IN /\ done' = done \cup {[c |-> f.c, in |-> f.in, errs |-> IF Keep = "call" THEN f.errs ELSE pot, out |-> f.out]}
        /\ hist' = Append(hist, <<f.c, 0, t>>)
        /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<left, pot>>
Next == \E t \in Threads : Begin(t) \/ Nest(t) \/ Member(t) \/ End(t)
Spec == Init /\ [][Next]_vars

AsIfAlone == \A d \in done : d.errs = Alone(d.in).errs /\ d.out = Alone(d.in).out
Quiet == \A t \in Threads : stack[t] = <<>>
Histories == Quiet => HistoryOk(hist, Cardinality(Calls))
==============================================================================
