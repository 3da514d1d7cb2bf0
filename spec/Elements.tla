------------------------------ MODULE Elements ------------------------------
(* Schema-based objects.  cx.classes is a sequence of                         *)
(*   [f, base, ident, key]                                                    *)
(* f the schema, base 0 or the number of the class this one implements for    *)
(* identity ident, key <<>> or <<name>>, the attribute given an object's key. *)
(* An object is Nd("elem", <<class>>, <<Dict(attributes)>>); the state of a   *)
(* history is the sequence of objects made.                                   *)
EXTENDS Ops

(* what is put where the path leads: into an object, a mapping or a list;    *)
(* a step is an attribute or key, or Nd("at", <<i>>, <<>>) for a list          *)
With(d, k, x) == [d EXCEPT !.c = DSet(@, k, x)]
Into(v, k, x) ==
  IF v.t = "elem" THEN [v EXCEPT !.c = <<With(v.c[1], k, x)>>]
  ELSE IF IsDict(v) THEN With(v, k, x)
  ELSE [v EXCEPT !.c = Append(@, x)]
RECURSIVE Change(_, _, _, _)
Change(v, path, k, x) ==
  IF path = <<>> THEN Into(v, k, x)
  ELSE LET s == Head(path)
           sub(y) == Change(y, Tail(path), k, x)
       IN IF v.t = "elem" THEN [v EXCEPT !.c = <<With(v.c[1], s, sub(DGet(v.c[1], s)))>>]
          ELSE IF IsDict(v) THEN With(v, s, sub(DGet(v, s)))
          ELSE [v EXCEPT !.c[s.n[1]] = sub(v.c[s.n[1]])]

Objects(st, all) == Len(st) = Len(all) /\ \A i \in DOMAIN st : Same(st[i], all[i])

RECURSIVE ElementsVerdict(_, _, _, _)
ElementsVerdict(cx, st, steps, n) ==
  IF n > Len(steps) THEN {}
  ELSE
    LET s == steps[n]
         in == Process(cx, cx.classes[s.cls].f, s.v, "in", TRUE, FALSE)
        made == I(cx, cx.classes[s.cls].f, in.v, Null)
        subject == st[s.o]
        kept == X(cx, cx.classes[RootOf(cx, s.cls)].f, subject, TRUE, <<>>)
        out == Process(cx, cx.classes[RootOf(cx, s.cls)].f, kept.v, "out", TRUE, FALSE)
        cx2 == IF s.op = "impl" THEN [cx EXCEPT !.classes = Append(@, s.class)] ELSE cx
        bad == CASE s.op = "new" -> Clause(s.out.r = "ok", "cannot-construct " \o s.out.x)
                 [] s.op = "unser" -> IF in.r # "ok" THEN Judge(in, s.out) ELSE JudgeOp(made, s.out)
                 [] s.op = "ser" -> IF IsOk(kept) THEN Judge(out, s.out) ELSE JudgeOp(kept, s.out)
                 [] s.op = "refuse" ->      \* neither a class nor anything left behind of it
                      Clause(s.out.r = "exc" /\ s.out.x = (IF s.how = "other" THEN "TypeError" ELSE "ValueError"), s.how \o " declared: " \o s.out.r \o s.out.x)
                      \cup Clause(s.left = 0, "schema-changed")
                 [] OTHER -> Clause(s.out.r = "ok", "failed " \o s.out.x)
        st2 == CASE s.op = "new" -> Append(st, Made(cx, RootOf(cx, s.cls), s.cls, s.v))
                 [] s.op = "unser" -> IF in.r = "ok" /\ IsOk(made) /\ made.v.t = "elem" THEN Append(st, made.v) ELSE st
                 [] s.op = "put" -> [st EXCEPT ![s.o] = Change(@, s.path, s.k, s.v)]
                 [] OTHER -> st
        name == "step " \o ToString(n) \o " " \o s.op \o ": "
        bad2 == IF bad # {} THEN bad ELSE Clause(Objects(st2, s.all), "objects")
    IN IF bad2 # {} THEN {name \o c : c \in bad2}
       ELSE ElementsVerdict(cx2, st2, steps, n + 1)
=============================================================================
