-------------------------------- MODULE Objects -------------------------------
(* A world of modules and objects, what importing a dotted path does in it    *)
(* and how objects are named.  The state is the set of modules loaded: a      *)
(* submodule is an attribute of its package only once loaded, and then hides  *)
(* an attribute of the same name.                                             *)
(*                                                                            *)
(* world.mods: sequence of [path, pkg, load, needs, attrs]; path is a         *)
(* sequence of names, load is "ok", "gone" (a dependency is missing) or       *)
(* "fail" (its code raises), needs the modules it imports itself, attrs a     *)
(* sequence of [n, o].  world.objs: sequence of [kind, key, mod, qual, attrs].*)
(* Objects are numbered as in world.objs; module m is object -m.              *)
EXTENDS Reports

RECURSIVE Segs(_, _)
Segs(s, c) ==
  IF ~(\E i \in DOMAIN s : s[i] = c) THEN <<s>>
  ELSE LET i == CHOOSE j \in DOMAIN s : s[j] = c /\ \A k \in 1..(j - 1) : s[k] # c
       IN <<SubSeq(s, 1, i - 1)>> \o Segs(SubSeq(s, i + 1, Len(s)), c)
RECURSIVE JoinDots(_)
JoinDots(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<46>> \o JoinDots(Tail(p))

ModAt(w, path) == {m \in DOMAIN w.mods : w.mods[m].path = path}
ModNo(w, path) == CHOOSE m \in ModAt(w, path) : TRUE

(* loading one module whose parents are loaded, and all it needs: [r, loaded] *)
RECURSIVE Load(_, _, _)
RECURSIVE LoadAll(_, _, _, _)
RECURSIVE ImportFrom(_, _, _, _)
Load(w, loaded, m) ==
  IF m \in loaded THEN [r |-> "ok", loaded |-> loaded]
  ELSE LET n == LoadAll(w, loaded, w.mods[m].needs, 1)
       IN IF n.r # "ok" THEN n
          ELSE IF w.mods[m].load # "ok" THEN [r |-> w.mods[m].load, loaded |-> n.loaded]
          ELSE [r |-> "ok", loaded |-> n.loaded \cup {m}]
LoadAll(w, loaded, paths, i) ==
  IF i > Len(paths) THEN [r |-> "ok", loaded |-> loaded]
  ELSE LET x == ImportFrom(w, loaded, paths[i], 1)
       IN IF x.r # "ok" THEN x ELSE LoadAll(w, x.loaded, paths, i + 1)
(* import a.b.c: every package on the way, in order *)
ImportFrom(w, loaded, path, i) ==
  IF i > Len(path) THEN [r |-> "ok", loaded |-> loaded]
  ELSE LET here == SubSeq(path, 1, i)
       IN IF ModAt(w, here) = {} THEN [r |-> "gone", loaded |-> loaded]
          ELSE LET x == Load(w, loaded, ModNo(w, here))
               IN IF x.r # "ok" THEN x
                  ELSE IF i < Len(path) /\ w.mods[ModNo(w, here)].pkg = 0 THEN [r |-> "gone", loaded |-> x.loaded]
                  ELSE ImportFrom(w, x.loaded, path, i + 1)
Import(w, loaded, path) == ImportFrom(w, loaded, path, 1)

(* an attribute of an object: <<>> or <<object>> *)
Named(attrs, n) ==
  LET s == SelectSeq(attrs, LAMBDA a : a.n = n) IN IF s = <<>> THEN <<>> ELSE <<s[Len(s)].o>>
Attr(w, loaded, o, n) ==
  IF o < 0 THEN LET sub == ModAt(w, Append(w.mods[-o].path, n))
                IN IF sub # {} /\ (CHOOSE m \in sub : TRUE) \in loaded THEN <<-(CHOOSE m \in sub : TRUE)>>
                   ELSE Named(w.mods[-o].attrs, n)
  ELSE Named(w.objs[o].attrs, n)
RECURSIVE Chain(_, _, _, _)
Chain(w, loaded, o, names) ==
  IF names = <<>> THEN <<o>>
  ELSE LET a == Attr(w, loaded, o, Head(names))
       IN IF a = <<>> THEN <<>> ELSE Chain(w, loaded, a[1], Tail(names))

(* what a path names: [o: <<>> or <<object>>, loaded] *)
RECURSIVE Longest(_, _, _, _)
Longest(w, loaded, segs, i) ==
  IF i = 0 THEN [o |-> <<>>, loaded |-> loaded]
  ELSE LET x == Import(w, loaded, SubSeq(segs, 1, i))
       IN IF x.r = "ok"
          THEN [o |-> Chain(w, x.loaded, -ModNo(w, SubSeq(segs, 1, i)), SubSeq(segs, i + 1, Len(segs))), loaded |-> x.loaded]
          ELSE IF x.r = "gone" THEN Longest(w, x.loaded, segs, i - 1)
          ELSE [o |-> <<>>, loaded |-> x.loaded]
Resolve(w, loaded, t) ==
  LET halves == Segs(t, 58)
  IN IF Len(halves) = 1 THEN
       LET segs == Segs(t, 46) IN Longest(w, loaded, segs, Len(segs))
     ELSE IF Len(halves) > 2 THEN [o |-> <<>>, loaded |-> loaded]
     ELSE LET mp == Segs(halves[1], 46)
              names == Segs(halves[2], 46)
              x == Import(w, loaded, mp)
          IN IF x.r # "ok" THEN [o |-> <<>>, loaded |-> x.loaded]
             ELSE LET m == ModNo(w, mp)
                      sub == Append(mp, names[1])
                      y == IF w.mods[m].pkg = 1 /\ Attr(w, x.loaded, -m, names[1]) = <<>> /\ ModAt(w, sub) # {}
                           THEN Import(w, x.loaded, sub) ELSE x
                  IN IF y.r # "ok" THEN [o |-> <<>>, loaded |-> y.loaded]
                     ELSE [o |-> Chain(w, y.loaded, -m, names), loaded |-> y.loaded]

(* the texts which name an object: a class by its place, anything else by any  *)
(* attribute of the module it says it is from                                 *)
Names(w, loaded, o) ==
  IF o < 0 THEN {JoinDots(w.mods[-o].path)}
  ELSE LET b == w.objs[o]
       IN IF b.kind = "class" THEN {JoinDots(b.mod \o b.qual)}
          ELSE IF b.mod = <<>> \/ ModAt(w, b.mod) = {} THEN {}
          ELSE LET m == ModNo(w, b.mod)
               IN IF m \notin loaded THEN {}
                  ELSE {JoinDots(Append(b.mod, w.mods[m].attrs[i].n)) :
                        i \in {j \in DOMAIN w.mods[m].attrs :
                               w.mods[m].attrs[j].o = o /\ Attr(w, loaded, -m, w.mods[m].attrs[j].n) = <<o>>}}

ObjNode(w, o) == Nd("obj", IF o < 0 THEN <<109, 58>> \o JoinDots(w.mods[-o].path) ELSE w.objs[o].key, <<>>)
ObjNo(w, v) == {o \in (DOMAIN w.objs) \cup {-m : m \in DOMAIN w.mods} : ObjNode(w, o) = v}

(* a field over one object reference, used step after step *)
RECURSIVE ObjectsVerdict(_, _, _, _)
ObjectsVerdict(w, loaded, steps, n) ==
  IF n > Len(steps) THEN {}
  ELSE
    LET st == steps[n]
        name == "step " \o ToString(n) \o " " \o st.op \o ": "
        isText == st.v.t = "str"
        res == IF isText /\ st.ph = "in" /\ st.ser = 1 THEN Resolve(w, loaded, st.v.n) ELSE [o |-> <<>>, loaded |-> loaded]
        nos == IF st.v.t = "obj" THEN ObjNo(w, st.v) ELSE {}
        all == IF nos = {} THEN {} ELSE Names(w, loaded, CHOOSE o \in nos : TRUE)
        (* where an object has several names, any of them *)
        nm == IF all = {} THEN <<>>
              ELSE IF st.out.r = "ok" /\ st.out.v.t = "str" /\ st.out.v.n \in all THEN <<st.out.v.n>>
              ELSE <<CHOOSE t \in all : TRUE>>
        facts == <<[f |-> "import", a |-> st.v, r |-> IF res.o = <<>> THEN <<>> ELSE <<ObjNode(w, res.o[1])>>],
                   [f |-> "ident", a |-> st.v, r |-> IF nm = <<>> THEN <<>> ELSE <<Str(nm[1])>>]>>
        cx == [st.cx EXCEPT !.facts = @ \o facts]
        bad == IF st.op = "load" THEN {}
               ELSE LET x == Process(cx, st.f, st.v, st.ph, st.ser = 1, FALSE)
                    IN Judge(x, st.out) \cup DetailsOf(cx, x, st.out)
        loaded2 == IF st.op = "load" THEN Import(w, loaded, st.path).loaded ELSE res.loaded
        (* an importable class, function or module resolves back to itself *)
        trip == IF st.op = "load" \/ nm = <<>> \/ st.trip = 0 THEN {}
                ELSE Clause(Resolve(w, loaded, nm[1]).o = <<CHOOSE o \in nos : TRUE>>, "model: names resolve back")
    IN IF bad # {} \/ trip # {} THEN {name \o c : c \in bad \cup trip}
       ELSE ObjectsVerdict(w, loaded2, steps, n + 1)
===============================================================================
