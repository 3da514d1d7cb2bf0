------------------------------- MODULE MC_Objects -------------------------------
(* Every small world of modules, and every order of importing in it: names     *)
(* lead back to what they name (C30).                                          *)
EXTENDS Objects

CONSTANTS Loads, NeedsB

T == <<116>>
A == <<97>>
B == <<98>>
C == <<99>>
X == <<120>>
At(n, o) == [n |-> n, o |-> o]
(* subsets of a sequence of attributes, in order *)
Some(s) == {SelectSeq(s, LAMBDA a : a \in k) : k \in SUBSET {s[i] : i \in DOMAIN s}}
Mod(path, pkg, load, needs, attrs) == [path |-> path, pkg |-> pkg, load |-> load, needs |-> needs, attrs |-> attrs]
Obj(kind, mod, qual, attrs) == [kind |-> kind, key |-> <<>>, mod |-> mod, qual |-> qual, attrs |-> attrs]
Worlds ==
  {[mods |-> <<Mod(<<T>>, 1, "ok", <<>>, ta), Mod(<<T, A>>, 1, la, na, aa),
               Mod(<<T, B>>, 0, lb, <<>>, <<At(X, 3)>>), Mod(<<T, A, C>>, 0, lc, <<>>, <<>>)>>,
    objs |-> <<Obj("inst", <<T>>, <<>>, <<>>), Obj("func", ma, <<>>, <<At(B, 1)>>), Obj("class", <<T, B>>, <<X>>, <<>>)>>] :
   ta \in Some(<<At(A, 1), At(X, 1), At(B, 2)>>), la \in Loads, na \in IF NeedsB THEN {<<>>, <<<<T, B>>>>} ELSE {<<>>},
   aa \in Some(<<At(X, 2), At(C, 2)>>), lb \in Loads, lc \in Loads, ma \in {<<T>>, <<T, A>>, <<>>}}
Paths == {<<T>>, <<T, A>>, <<T, B>>, <<T, A, C>>, <<T, X>>, <<T, A, X>>, <<T, B, X>>, <<T, A, X, B>>, <<T, B, C>>, <<X>>}
Texts == {JoinDots(p) : p \in Paths} \cup
         {JoinDots(SubSeq(p, 1, k)) \o <<58>> \o JoinDots(SubSeq(p, k + 1, Len(p))) : p \in Paths \ {<<T>>, <<X>>}, k \in 1..1} \cup
         {<<116, 46, 97, 58, 120>>, <<116, 46, 97, 58, 99>>, <<116, 46>>, <<>>, <<58>>}

VARIABLES w, loaded, started
vars == <<w, loaded, started>>
Init == w \in {CHOOSE x \in Worlds : TRUE} /\ loaded = {} /\ started = FALSE
Start == ~started /\ w' \in Worlds /\ started' = TRUE /\ UNCHANGED loaded
Load1 == started /\ \E p \in Paths : loaded' = Import(w, loaded, p).loaded /\ UNCHANGED <<w, started>>
Use == started /\ \E t \in Texts : loaded' = Resolve(w, loaded, t).loaded /\ UNCHANGED <<w, started>>
Next == Start \/ Load1 \/ Use
Spec == Init /\ [][Next]_vars

(* a loaded module works, and so does all it needs and all it is in *)
Closed == \A m \in loaded :
  /\ w.mods[m].load = "ok"
  /\ \A k \in 1..Len(w.mods[m].path) : ModNo(w, SubSeq(w.mods[m].path, 1, k)) \in loaded
  /\ \A i \in DOMAIN w.mods[m].needs : ModNo(w, w.mods[m].needs[i]) \in loaded
(* whatever an object is called leads back to it, unless a module of that name hides it *)
Back == \A o \in (DOMAIN w.objs) \cup {-m : m \in loaded} : \A t \in Names(w, loaded, o) :
  (o < 0 \/ (w.objs[o].kind # "class" /\ ModAt(w, Segs(t, 46)) = {})) => Resolve(w, loaded, t).o = <<o>>
(* resolving twice gives the same, and finding a module leaves it loaded *)
Twice == \A t \in Texts : LET x == Resolve(w, loaded, t) IN
  /\ x.o # <<>> => Resolve(w, x.loaded, t).o = x.o
  /\ x.o # <<>> /\ x.o[1] < 0 => -x.o[1] \in x.loaded
(* both ways of writing a reference agree, unless a module which is not loaded yet has the name of an attribute *)
WrittenOut == \A m \in loaded : \A n \in {A, B, C, X} :
  LET p == w.mods[m].path
      dots == Resolve(w, loaded, JoinDots(Append(p, n)))
      colon == Resolve(w, loaded, JoinDots(p) \o <<58>> \o n)
  IN (ModAt(w, Append(p, n)) = {} \/ Attr(w, loaded, -m, n) = <<>>) => dots.o = colon.o
Monotone == [][loaded \subseteq loaded']_vars
================================================================================
