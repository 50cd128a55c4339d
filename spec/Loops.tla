------------------------------- MODULE Loops -------------------------------
(* Models with repeated equations (C11).  A template is a small program over   *)
(* indexed independents, shared terms and constants that may change with the   *)
(* iteration; it is recorded once per iteration, so the meaning of every        *)
(* equation is that of its own recording.  Declaring which dependents belong to *)
(* the same equation (rel) says how the model may be coded and nothing else:    *)
(* the answers are those of Model, which does not look at rel.                  *)
EXTENDS Model
CONSTANTS MaxIter, MaxLoops,
          Ops,       \* "poly" | "smooth" | "any" | "atom" (user functions are called)
          Wild       \* TRUE: candidate groups may be wrong, equations may be missing
VARIABLES lp,    \* [pre: shared nodes, fam: starts of families of nodes (one per independent), loops: <<[start, t]>>]
          rel    \* groups of dependents declared to follow the same pattern
lvars == <<nodes, val, deps, phase, tries, opts, calls, lp, rel>>

\* which independent is used in which iteration
Lin(a, b, i) == 1 + ((a + b * (i - 1)) % NI)
Indexing(it) == LET a == R(0 .. NI - 1) b == R({0, 1, 1, 1, 2, 2, 3, NI - 1}) k == R(1 .. 8) s == R(1 .. it) a2 == R(0 .. NI - 1) b2 == R({0, 1, 2}) IN
  CHOOSE f \in {IF k <= 5 THEN [i \in 1 .. it |-> Lin(a, b, i)]
                ELSE IF k = 6 THEN [i \in 1 .. it |-> IF i <= s THEN Lin(a, b, i) ELSE Lin(a2, b2, i)]
                ELSE IF k = 7 THEN [i \in 1 .. it |-> Lin(a, b, 1 + ((i - 1) \div 2))]
                ELSE [i \in 1 .. it |-> R(D1)]} : TRUE
Small == {<<1, 1>>, <<-1, 1>>, <<2, 1>>, <<1, 2>>, <<-3, 1>>, <<3, 1>>, <<0, 1>>}
MkLeaf(it, k) ==
  IF k <= 6 \/ (k <= 9 /\ lp.pre = <<>>) THEN [k |-> "slot", at |-> Indexing(it)]
  ELSE IF k <= 9 THEN [k |-> "pre", at |-> [i \in 1 .. it |-> R({lp.pre[j] : j \in DOMAIN lp.pre})]]
  ELSE IF k = 10 /\ lp.fam # <<>> THEN LET f == R({lp.fam[j] : j \in DOMAIN lp.fam}) ix == Indexing(it) IN [k |-> "fam", at |-> [i \in 1 .. it |-> f + ix[i]]]
  ELSE IF R(1 .. 2) = 1 THEN LET q == R(Small) IN [k |-> "cst", at |-> [i \in 1 .. it |-> q]]
  ELSE [k |-> "cst", at |-> [i \in 1 .. it |-> R(Small)]]
\* a shared term is the same node in all iterations
Same(l) == IF l.k = "pre" THEN [l EXCEPT !.at = [i \in DOMAIN l.at |-> l.at[1]]] ELSE l
Bins == <<"add", "sub", "mul", "mul", "add", "mul">>
Uns == <<"sin", "cos", "neg", "exp">>
LOp(k) == CASE Ops = "poly" -> Choice(Bins)
            [] Ops \in {"smooth", "atom"} -> IF k <= 7 THEN Choice(Bins) ELSE Choice(Uns)
            [] OTHER -> IF k <= 6 THEN Choice(Bins) ELSE IF k <= 8 THEN Choice(Uns) ELSE "div"
\* recent positions are used more often
Recent(m) == IF R(1 .. 3) = 1 THEN R(1 .. m) ELSE R((IF m > 3 THEN m - 3 ELSE 1) .. m)
BodyNode(m) == \* arguments: positions 1 .. m
  LET op == LOp(R(1 .. 10)) IN IF op \in {"sin", "cos", "neg", "exp"} THEN <<op, Recent(m)>> ELSE <<op, Recent(m), Recent(m)>>
\* the body; all the outputs of a call are recorded together
CallNodes(m) == CHOOSE s \in {LET f == R(1 .. 4) IN CHOOSE o \in {LET a == [i \in 1 .. Arity[f] |-> Recent(m)] IN [k \in 1 .. Outs[f] |-> <<"call", f, k>> \o a]} : TRUE} : TRUE
RECURSIVE Body(_, _)
Body(m, k) == IF k = 0 THEN <<>> ELSE CHOOSE b \in {LET s == IF Ops = "atom" /\ R(1 .. 2) = 1 THEN CallNodes(m) ELSE <<BodyNode(m)>> IN s \o Body(m + Len(s), k - 1)} : TRUE
NC(t) == Cardinality({k \in DOMAIN t.leaves : t.leaves[k].k = "cst"})
NCto(t, j) == Cardinality({k \in 1 .. j : t.leaves[k].k = "cst"})
Size(t) == NC(t) + Len(t.body)
\* the node of position k of the template in iteration i, when the loop's nodes start after node b
Ref(t, b, i, k) ==
  LET s == b + (i - 1) * Size(t) IN
  IF k > Len(t.leaves) THEN s + NC(t) + (k - Len(t.leaves))
  ELSE IF t.leaves[k].k = "cst" THEN s + NCto(t, k) ELSE t.leaves[k].at[i]
CstPos(t, j) == CHOOSE k \in DOMAIN t.leaves : t.leaves[k].k = "cst" /\ NCto(t, k) = j
IterNode(t, b, i, p) == \* p-th node of an iteration
  IF p <= NC(t) THEN <<"const", t.leaves[CstPos(t, p)].at[i]>>
  ELSE LET n == t.body[p - NC(t)] IN IF n[1] = "call" THEN <<"call", n[2], n[3]>> \o [j \in 1 .. Len(n) - 3 |-> Ref(t, b, i, n[3 + j])]
                         ELSE IF Len(n) = 2 THEN <<n[1], Ref(t, b, i, n[2])>> ELSE <<n[1], Ref(t, b, i, n[2]), Ref(t, b, i, n[3])>>
LoopNodes(t, b) == [k \in 1 .. t.it * Size(t) |-> IterNode(t, b, 1 + ((k - 1) \div Size(t)), 1 + ((k - 1) % Size(t)))]

LInit == MInit /\ lp = [pre |-> <<>>, fam |-> <<>>, loops |-> <<>>] /\ rel = <<>>
LStart == Start /\ UNCHANGED <<opts, calls, lp, rel>>
Rest == UNCHANGED <<deps, phase, opts, calls, rel>> /\ tries' = tries + 1
\* terms that all iterations may use
LPre == /\ \E s \in {Body(N, 1)} : Record(s) /\ lp' = [lp EXCEPT !.pre = Append(@, N + R(1 .. Len(s)))]
LPreIndep == /\ \E j \in {R(D1)} : lp' = [lp EXCEPT !.pre = Append(@, j)]
             /\ UNCHANGED <<nodes, val>>
LFam == /\ \E op \in {R({"mul", "sin", "add"})} : \E a \in {R(D1)} : Record([j \in D1 |-> IF op = "sin" THEN <<op, j>> ELSE <<op, j, a>>])
        /\ lp' = [lp EXCEPT !.fam = Append(@, N)]
LLoop == \E it \in {R(2 .. MaxIter)} : \E lv \in {[k \in 1 .. R(2 .. 4) |-> Same(MkLeaf(it, R(1 .. 12)))]} :
         \E bd \in {Body(Len(lv), R(2 .. 5))} :
         \E eq \in {[k \in 1 .. R(1 .. 3) |-> IF k = 1 THEN Len(lv) + Len(bd) ELSE IF R(1 .. 8) = 1 THEN 1 ELSE Len(lv) + R(1 .. Len(bd))]} :
         \E t \in {[it |-> it, leaves |-> lv, body |-> bd, eqs |-> eq]} :
           /\ \E ns \in {LoopNodes(t, N)} : Record(ns)
           /\ lp' = [lp EXCEPT !.loops = Append(@, [start |-> N, t |-> t])]
LStep == /\ phase = 1 /\ tries < 40 /\ Len(lp.loops) < MaxLoops /\ N < NN
         /\ \E k \in {R(1 .. 8)} : IF lp.loops = <<>> /\ k <= 3 /\ Len(lp.pre) < 4 THEN (IF k = 1 THEN LPreIndep ELSE LPre)
                                   ELSE IF lp.loops = <<>> /\ k = 4 /\ lp.fam = <<>> THEN LFam ELSE LLoop
         /\ Rest
LFail == phase = 1 /\ tries < 40 /\ Len(lp.loops) < MaxLoops /\ N < NN /\ Rest /\ UNCHANGED <<nodes, val, lp>>

\* the dependents: <<loop, iteration, equation>>, or <<0, node, 0>> outside of the loops
RECURSIVE ByIter(_), ByEq(_)
ByIter(l) == IF l = 0 THEN <<>> ELSE LET t == lp.loops[l].t E == Len(t.eqs) IN
             ByIter(l - 1) \o [k \in 1 .. t.it * E |-> <<l, 1 + ((k - 1) \div E), 1 + ((k - 1) % E)>>]
ByEq(l) == IF l = 0 THEN <<>> ELSE LET t == lp.loops[l].t IN
           ByEq(l - 1) \o [k \in 1 .. t.it * Len(t.eqs) |-> <<l, 1 + ((k - 1) % t.it), 1 + ((k - 1) \div t.it)>>]
Members(s) == {s[i] : i \in DOMAIN s}
NodeOf(d) == IF d[1] = 0 THEN d[2] ELSE LET L == lp.loops[d[1]] IN Ref(L.t, L.start, d[2], L.t.eqs[d[3]])
Groups(ds) == {{p \in DOMAIN ds : ds[p][1] = l /\ ds[p][3] = e} : l \in 1 .. Len(lp.loops), e \in 1 .. 3} \ {{}}
\* candidate groups that need not be right: some missing, a member lost, a member of another group or an unrelated dependent added
RECURSIVE Spoil(_, _, _)
Spoil(gs, M0, k) ==
  IF k = 0 \/ gs = {} THEN gs
  ELSE CHOOSE r \in {LET g == R(gs) c == R(1 .. 4) h == R(gs) free == M0 \ UNION gs IN
         Spoil(CASE c = 1 -> gs \ {g}
                 [] c = 2 -> (gs \ {g}) \cup ({g \ {R(g)}} \ {{}})
                 [] c = 3 -> IF g = h THEN gs ELSE LET x == R(g) IN (gs \ {g, h}) \cup ({g \ {x}} \ {{}}) \cup {h \cup {x}}
                 [] OTHER -> IF free = {} THEN gs ELSE (gs \ {g}) \cup {g \cup {R(free)}}, M0, k - 1)} : TRUE
LFinish ==
  /\ phase = 1 /\ (tries >= 40 \/ Len(lp.loops) >= MaxLoops \/ N >= NN)
  /\ \E L \in {Len(lp.loops)} : \E o \in {R(1 .. 5)} : \E miss \in {IF Wild /\ R(1 .. 2) = 1 THEN R(1 .. 3) ELSE 0} :
     \E full \in {IF o \in {1, 2} THEN ByIter(L) ELSE IF o \in {3, 4} THEN ByEq(L) ELSE Shuffle(Members(ByEq(L)), Len(ByEq(L)))} :
     \E gone \in {{R(DOMAIN full) : j \in 1 .. miss}} : \E kept \in {SelectSeq([p \in DOMAIN full |-> IF full # <<>> /\ p \in gone THEN <<>> ELSE full[p]], LAMBDA d : d # <<>>)} :
     \E ex \in {[k \in 1 .. R(0 .. 2) |-> <<0, R(1 .. N), 0>>]} : \E ds \in {IF R(1 .. 2) = 1 THEN kept \o ex ELSE ex \o kept} :
       /\ ds # <<>>
       /\ deps' = [p \in DOMAIN ds |-> NodeOf(ds[p])]
       /\ \E gs \in {IF Wild /\ R(1 .. 3) = 1 THEN Spoil(Groups(ds), DOMAIN ds, R(1 .. 2)) ELSE Groups(ds)} : rel' = gs
       /\ phase' = 2
  /\ UNCHANGED <<nodes, val, tries, opts, calls, lp>>
LNext == LStart \/ LStep \/ LFail \/ LFinish \/ ((MBuild \/ MCall \/ MEnd) /\ UNCHANGED <<lp, rel>>)
LSpec == LInit /\ [][LNext]_lvars
LEmit == phase = 4 => PrintT(<<"GEN", ToJson([n |-> NI, nodes |-> nodes, deps |-> deps, vals |-> [i \in DOMAIN val |-> <<val[i].v, val[i].x>>],
                          g |-> [i \in 1 .. M |-> val[deps[i]].g], h |-> [i \in 1 .. M |-> val[deps[i]].h],
                          form |-> R(0 .. 5), opts |-> opts, calls |-> calls, rel |-> rel])>>)
=============================================================================
