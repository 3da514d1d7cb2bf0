------------------------------ MODULE Concurrent ------------------------------
(* Histories of calls on one schema.  A call belongs to a thread; a call made  *)
(* inside a callback of another one of the same thread ends before that goes   *)
(* on.  hist is a sequence of <<call, 1 begins or 0 ends, thread>>.            *)
EXTENDS Integers, Sequences, FiniteSets

Top(st) == st[Len(st)]
(* open: thread -> its stack of calls in progress *)
CanBegin(seen, c) == c \notin seen
CanEnd(stack, c) == stack # <<>> /\ Top(stack) = c
RECURSIVE Walk(_, _, _, _)
Walk(hist, i, seen, open) ==
  IF i > Len(hist) THEN \A t \in DOMAIN open : open[t] = <<>>
  ELSE LET h == hist[i]
           stack == open[h[3]]
       IN IF h[2] = 1
          THEN CanBegin(seen, h[1]) /\ Walk(hist, i + 1, seen \cup {h[1]}, [open EXCEPT ![h[3]] = Append(@, h[1])])
          ELSE CanEnd(stack, h[1]) /\ Walk(hist, i + 1, seen, [open EXCEPT ![h[3]] = SubSeq(@, 1, Len(@) - 1)])
HistoryOk(hist, n) ==
  /\ Walk(hist, 1, {}, [t \in {hist[i][3] : i \in DOMAIN hist} |-> <<>>])
  /\ {hist[i][1] : i \in DOMAIN hist} = 1..n
================================================================================
