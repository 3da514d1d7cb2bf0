----------------------------- MODULE Surrogates -----------------------------
(* Histories of surrogates: implementations gain versions, surrogates are     *)
(* constructed, changed, serialized, read back, processed by surrogate fields *)
(* and interpolated.  The state is cx.impls with the versions so far and the  *)
(* sequence of surrogates made.                                               *)
EXTENDS Shapes

Kept(st, x) == IF IsOk(x) /\ x.v.t = "surr" THEN Append(st, x.v) ELSE st
KeptR(st, x) == IF x.r = "ok" /\ x.v.t = "surr" THEN Append(st, x.v) ELSE st

RECURSIVE SurrogatesVerdict(_, _, _, _)
SurrogatesVerdict(cx, st, steps, n) ==
  IF n > Len(steps) THEN {}
  ELSE
    LET s == steps[n]
        made == SurrMake(cx, s.k, s.v, s.dyn, s.ver, s.par)
        got == IF cx.impls[s.k].schemas = <<>> THEN Fail("exc")
               ELSE IF s.v # <<>> /\ s.v[1].t = "surr" THEN Got(s.v[1])
               ELSE SurrMake(cx, s.k, s.v, 0, IF s.ver = 0 THEN Len(cx.impls[s.k].schemas) ELSE s.ver, Dict(<<>>))
        un == SurrUn(cx, s.v[1], <<>>)
        pr == Process(cx, s.f, s.v[1], s.ph, s.ser = 1, FALSE)
        ip == N(cx, s.f, s.v[1], s.par)
        ip0 == SurrN(cx, s.v[1], s.par)
        rexc(x) == IF x.r = "exc" THEN Clause(s.out.r # "ok", "succeeded but must fail") ELSE Judge(x, s.out)
        bad == CASE s.op = "construct" -> JudgeOp(made, s.out)
                 [] s.op = "acquire" -> JudgeOp(got, s.out)
                 [] s.op = "serialize" -> rexc(SurrSer(cx, st[s.o]))
                 [] s.op = "unserialize" -> rexc(un)
                 [] s.op = "process" -> rexc(pr)
                 [] s.op = "interpolate" -> JudgeOp(ip, s.out)
                 [] s.op = "interpolate0" -> JudgeOp(ip0, s.out)
                 [] OTHER -> Clause(s.out.r = "ok", "failed " \o s.out.x)
        st2 == CASE s.op = "construct" -> Kept(st, made)
                 [] s.op = "acquire" -> IF s.v # <<>> /\ s.v[1].t = "surr" THEN st ELSE Kept(st, got)
                 [] s.op = "unserialize" -> KeptR(st, un)
                 [] s.op = "process" -> IF s.ph = "in" /\ s.ser = 1 /\ s.v[1].t # "surr" THEN KeptR(st, pr) ELSE st
                 [] s.op = "interpolate" -> IF s.v[1].t \in {"dict", "odict"} THEN Kept(st, ip) ELSE st
                 [] s.op = "interpolate0" -> Kept(st, ip0)
                 [] s.op = "put" -> [st EXCEPT ![s.o].c = DSet(@, s.key, s.v[1])]
                 [] OTHER -> st
        cx2 == IF s.op = "grow" THEN [cx EXCEPT !.impls[s.k].schemas = Append(@, s.f)] ELSE cx
        name == "step " \o ToString(n) \o " " \o s.op \o ": "
        bad2 == IF bad # {} THEN bad
                ELSE Clause(Len(st2) = Len(s.all) /\ \A i \in DOMAIN st2 : Same(st2[i], s.all[i]), "surrogates")
                     \cup Clause(s.mut = <<>>, "argument-changed")
    IN IF bad2 # {} THEN {name \o c : c \in bad2}
       ELSE SurrogatesVerdict(cx2, st2, steps, n + 1)

(* the descriptions of the dynamic schemas are what the model takes them for *)
DescsOk(cx) == \A i \in DOMAIN cx.dyn : Same(Desc(cx, cx.dyn[i].f, FALSE), cx.dyn[i].desc)
=============================================================================
