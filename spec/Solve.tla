------------------------------- MODULE Solve -------------------------------
(* Equations of a recording, solved for independent variables which may then  *)
(* be substituted (C15).  A residual is made from any recorded expression E   *)
(* so that the point lies on its solution set: E - y with an independent y    *)
(* used nowhere else, or E - c with the value of E; further invertible        *)
(* operations may follow.  Substituted variables become aliases of their      *)
(* solution until undone or removed.                                          *)
EXTENDS GraphGen
CONSTANTS NS,       \* actions on residuals
          ConstMode \* residuals use the value of the expression
VARIABLES res,    \* residuals: node numbers
          alias,  \* independent -> [on: substituted, gone: removed, deps: what its solution may depend on]
          log
svars == <<nodes, val, deps, phase, tries, res, alias, log>>
NY == Len(res)
Vars == 1 .. NI

(* ---- structure ---- *)
IsIndep(n) == nodes[n][1] = "indep"
ArgsOf(n) == LET nd == nodes[n] IN
  CASE nd[1] \in {"indep", "const"} -> <<>>
    [] nd[1] \in {"add", "sub", "mul", "div", "pow"} -> <<nd[2], nd[3]>>
    [] nd[1] = "cond" -> <<nd[3], nd[4], nd[5], nd[6]>>
    [] OTHER -> <<nd[2]>>
\* the independents an expression may depend on (an alias stands for itself and all its solution uses)
RECURSIVE Uses(_)
Uses(n) == IF IsIndep(n) THEN (IF n \in Vars /\ alias[n].on THEN {n} \cup alias[n].deps ELSE {n})
           ELSE UNION {Uses(ArgsOf(n)[i]) : i \in DOMAIN ArgsOf(n)}
\* without the substitutions
RECURSIVE Plain(_)
Plain(n) == IF IsIndep(n) THEN {n} ELSE UNION {Plain(ArgsOf(n)[i]) : i \in DOMAIN ArgsOf(n)}
Fixed(n) == Uses(n) = {}
RECURSIVE Lin(_, _)
Lin(n, x) ==
  IF n = x \/ x \notin Uses(n) THEN TRUE
  ELSE LET nd == nodes[n] IN
    CASE nd[1] \in {"add", "sub"} -> Lin(nd[2], x) /\ Lin(nd[3], x)
      [] nd[1] = "neg" -> Lin(nd[2], x)
      [] nd[1] = "mul" -> (x \notin Uses(nd[2]) /\ Lin(nd[3], x)) \/ (x \notin Uses(nd[3]) /\ Lin(nd[2], x))
      [] nd[1] = "div" -> x \notin Uses(nd[3]) /\ Lin(nd[2], x)
      [] OTHER -> FALSE
\* the variable can be isolated: by inverting one operation after the other, where several occurrences can be collected
RECURSIVE Iso(_, _)
Iso(n, x) ==
  IF n = x THEN TRUE
  ELSE IF x \notin Uses(n) \/ IsIndep(n) THEN FALSE
  ELSE LET nd == nodes[n]
           one(a, b) == (x \notin Uses(b) /\ Iso(a, x)) \/ (x \notin Uses(a) /\ Iso(b, x)) IN
    CASE nd[1] \in {"add", "sub"} -> one(nd[2], nd[3]) \/ (x \in Uses(nd[2]) \cap Uses(nd[3]) /\ Lin(n, x))
      [] nd[1] \in {"mul", "div"} -> one(nd[2], nd[3])
      [] nd[1] \in {"neg", "exp", "log", "log10", "sqrt", "cosh", "sinh", "tanh"} -> Iso(nd[2], x)
      [] nd[1] = "pow" -> IF x \in Uses(nd[2]) THEN x \notin Uses(nd[3]) /\ Fixed(nd[3]) /\ val[nd[3]].v = Q(1) /\ Iso(nd[2], x) ELSE Iso(nd[3], x)
      [] OTHER -> FALSE
Expect(r, x) == IF x \notin Uses(r) THEN "no" ELSE IF Iso(r, x) THEN "yes" ELSE "maybe"

(* ---- recording ---- *)
\* constants that make operations vanish are left out: the recorder drops such operations
Usable(ns) == \A k \in DOMAIN ns : LET nd == ns[k] IN
  /\ nd[1] \in {"mul", "div", "pow"} => /\ nd[3] > N \/ ~Fixed(nd[3]) \/ val[nd[3]].v # Q(0)
                                        /\ nd[2] > N \/ ~Fixed(nd[2]) \/ val[nd[2]].v # Q(0)
  /\ nd[1] = "div" => nd[2] # nd[3]
  /\ nd[1] = "const" => nd[2] # Q(0) /\ Known(nd[2])
Rec(ns) == \E m \in {ns} : Usable(m) = TRUE /\ Record(m)
UnInv == <<"neg", "exp", "log", "log10", "sqrt", "cosh", "sinh", "tanh">>
Fresh == IF R(1 .. 3) = 1 THEN R(D1) ELSE Pick
SStep == /\ phase = 1 /\ N < NN /\ tries < 6 * NN /\ tries' = tries + 1
         /\ \E k \in {R(1 .. 21)} :
            IF k <= 7 THEN \E op \in {Choice(<<"add", "sub", "mul", "div", "add", "sub">>)} : \E a \in {Pick} : \E b \in {Fresh} : Rec(<<IF R({0, 1}) = 0 THEN <<op, a, b>> ELSE <<op, b, a>>>>)
            ELSE IF k <= 11 THEN \E op \in {Choice(Bin)} : \E a \in {Pick} : Rec(<<<<"const", R(Consts)>>, IF R({0, 1}) = 0 THEN <<op, a, N + 1>> ELSE <<op, N + 1, a>>>>)
            ELSE IF k <= 15 THEN \E op \in {Choice(UnInv)} : \E a \in {Pick} : IF op = "neg" \/ R(1 .. 2) = 1 THEN Rec(<<<<op, a>>>>) ELSE Rec(Shifted(op, a, LAMBDA m : <<op, m>>))
            ELSE IF k = 16 THEN \E op \in {Choice(UnS)} : \E a \in {Pick} : Rec(<<<<op, a>>>>)
            ELSE IF k = 17 THEN \E a \in {Pick} : Rec(<<<<"const", R({Q(2), Q(3), <<1, 2>>, Q(10)})>>, <<"pow", N + 1, a>>>>)
            ELSE IF k = 21 THEN CondStep
            ELSE IF k = 18 THEN \E a \in {Pick} : \E b \in {Pick} : Rec(<<<<"pow", a, b>>>>)
            ELSE IF k = 19 THEN Rec(<<<<"const", R({Q(1), Q(2), <<1, 2>>, Q(-1)})>>, <<"pow", Pick, N + 1>>>>)
            ELSE \E a \in {Pick} : \E b \in {R(D1)} : Rec(<<<<R({"add", "sub"}), a, b>>, <<R({"add", "sub"}), IF R({0, 1}) = 0 THEN a ELSE b, N + 1>>>>) \* more than one occurrence
         /\ UNCHANGED <<deps, phase, res, alias, log>>
SFail == phase = 1 /\ tries < 6 * NN + 8 * NS /\ tries' = tries + 1 /\ UNCHANGED <<nodes, val, deps, phase, res, alias, log>>

(* ---- residuals: zero at the point ---- *)
LastExact(vs) == [vs EXCEPT ![Len(vs)].v = Q(0)]
\* the residual operation: E on the left or on the right
Residual(a, y) == Choice(<<<<<<"sub", a, y>>>>, <<<<"sub", y, a>>>>, <<<<"neg", a>>, <<"add", y, y + 1>>>>>>)
Wrap(z) == Choice(<<<<>>, <<>>, <<<<"neg", z>>>>, <<<<"const", R({Q(2), Q(-3), <<1, 2>>})>>, <<"mul", z, z + 1>>>>, <<<<"const", R({Q(2), Q(-3), <<1, 2>>})>>, <<"div", z, z + 1>>>>,
                    <<<<"exp", z>>, <<"const", Q(1)>>, <<"sub", z + 1, z + 2>>>>, <<<<"sinh", z>>>>, <<<<"const", Q(1)>>, <<"add", z, z + 1>>, <<"log", z + 2>>>>,
                    <<<<"const", Q(4)>>, <<"add", z + 1, z>>, <<"sqrt", z + 2>>, <<"const", Q(2)>>, <<"sub", z + 3, z + 4>>>> >>)
Equation == /\ phase = 1 /\ N > NI + 3 /\ NY < 5 /\ (N >= NN \/ R(1 .. 6) = 1)
            /\ \E a \in {IF R(1 .. 3) > 1 THEN R((IF N > 6 THEN N - 6 ELSE 1) .. N) ELSE R(1 .. N)} : \E y \in {N + 1} :
               /\ ~Fixed(a) /\ ~(ConstMode /\ (~Known(val[a].v) \/ val[a].v = Q(0)))
               /\ \E b \in {Residual(a, y)} : \E w \in {Wrap(y + Len(b))} :
                  LET first == IF ConstMode THEN <<"const", val[a].v>> ELSE <<"indep", NI + NY + 1>>
                      yv == IF ConstMode THEN ConstD(val[a].v) ELSE IndepD(val[a].v, 0)
                      e1 == Extend(Append(val, yv), b, 1)
                      \* the difference is zero whatever its terms are
                      e2 == Extend(LastExact(e1.vs), w, 1) IN
                  /\ e1.ok /\ e2.ok
                  /\ nodes' = nodes \o <<first>> \o b \o w /\ val' = e2.vs
                  /\ res' = Append(res, [node |-> N + 1 + Len(b) + Len(w), e |-> a, y |-> IF ConstMode THEN 0 ELSE NI + NY + 1])
            /\ UNCHANGED <<deps, phase, tries, alias, log>>

(* ---- actions on residuals ---- *)
Acting == phase = 1 /\ res # <<>> /\ Len(log) < NS
Say(a) == log' = Append(log, a @@ [n |-> N])
AnyRes == res[R(1 .. NY)].node
VarOf(r) == IF R(1 .. 6) = 1 \/ Uses(r) \cap Vars = {} THEN R(Vars) ELSE R(Uses(r) \cap Vars)
Frame == UNCHANGED <<nodes, val, deps, phase, tries, res>>
Able(r) == {x \in Vars : ~alias[x].on /\ Iso(r, x)}
SolveIt == /\ Acting /\ \E r \in {AnyRes} : \E x \in {IF Able(r) # {} /\ R(1 .. 2) = 1 THEN R(Able(r)) ELSE VarOf(r)} : ~alias[x].on /\ ~alias[x].gone /\ Say([a |-> "solve", r |-> r, x |-> x, want |-> Expect(r, x)])
           /\ UNCHANGED alias /\ Frame
\* the equation is the variable itself
Trivial == /\ Acting /\ R(1 .. 10) = 1 /\ \E x \in {R(Vars)} : ~alias[x].on /\ val[x].v = Q(0) /\ ConstMode /\ Say([a |-> "solve", r |-> x, x |-> x, want |-> "yes"])
           /\ UNCHANGED alias /\ Frame
Substitute == /\ Acting
              /\ \E r \in {AnyRes} : \E x \in {IF Able(r) = {} THEN R(Vars) ELSE R(Able(r))} : \E gone \in {R(1 .. 3) = 1} :
                 /\ ~alias[x].on /\ Iso(r, x) /\ \A v \in Vars : alias[v].on => alias[v].res # r
                 /\ Say([a |-> "subst", r |-> r, x |-> x, want |-> "yes", gone |-> gone])
                 /\ alias' = [alias EXCEPT ![x] = [on |-> TRUE, gone |-> gone, deps |-> Uses(r) \ {x}, res |-> r]]
              /\ Frame
Undo == /\ Acting /\ \E x \in {R(Vars)} : alias[x].on /\ ~alias[x].gone /\ R({0, 1}) = 0
                      /\ Say([a |-> "undo", r |-> 0, x |-> x, want |-> "yes"]) /\ alias' = [alias EXCEPT ![x] = [on |-> FALSE, gone |-> FALSE, deps |-> {}, res |-> 0]]
        /\ Frame
Remove == /\ Acting /\ \E x \in {R(Vars)} : alias[x].on /\ ~alias[x].gone
                        /\ Say([a |-> "remove", r |-> 0, x |-> x, want |-> "yes"]) /\ alias' = [alias EXCEPT ![x].gone = TRUE]
          /\ Frame
\* what is not substituted cannot be undone or removed
Wrong == /\ Acting /\ R(1 .. 8) = 1
         /\ \E x \in {R(Vars)} : \E a \in {R({"undo", "remove"})} : (alias[x].gone \/ (a = "remove" /\ ~alias[x].on)) /\ Say([a |-> a, r |-> 0, x |-> x, want |-> "no"])
         /\ UNCHANGED alias /\ Frame
Generate == /\ Acting /\ R(1 .. 4) = 1 /\ \A x \in Vars : alias[x].on => alias[x].gone \* substitutions are final
            /\ Say([a |-> "gen", r |-> 0, x |-> 0, want |-> "yes", outs |-> [i \in 1 .. R(1 .. 4) |-> R((IF N > 12 THEN N - 12 ELSE 1) .. N)]])
            /\ UNCHANGED alias /\ Frame
SFinish == /\ phase = 1 /\ N >= NN /\ Len(log) >= NS /\ phase' = 2 /\ UNCHANGED <<nodes, val, deps, tries, res, alias, log>>

(* ---- what substitution must respect: an alias never depends on itself ---- *)
NoCycle == phase >= 1 => \A x \in Vars : alias[x].on => x \notin alias[x].deps
Sound == phase >= 1 => \A r \in 1 .. NY : val[res[r].node].v \in {Q(0), Unk}

SInit == Init /\ res = <<>> /\ log = <<>> /\ alias = [x \in Vars |-> [on |-> FALSE, gone |-> FALSE, deps |-> {}, res |-> 0]]
SStart == Start /\ UNCHANGED <<res, alias, log>>
SNext == SStart \/ SStep \/ SFail \/ Equation \/ SolveIt \/ Trivial \/ Substitute \/ Undo \/ Remove \/ Wrong \/ Generate \/ SFinish
SSpec == SInit /\ [][SNext]_svars
SEmit == phase = 2 => PrintT(<<"GEN", ToJson([n |-> NI, nodes |-> nodes, vals |-> [i \in DOMAIN val |-> <<val[i].v, val[i].x>>], res |-> res, log |-> log])>>)
=============================================================================
