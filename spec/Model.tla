------------------------------- MODULE Model -------------------------------
(* A compiled model: a recorded function, the routines that were requested    *)
(* for it, and the history of calls made on it (C09, C10, C08, C03, C13).     *)
(* A call that is available answers with the mathematical result at its       *)
(* arguments, whatever was called before; other calls are refused.            *)
EXTENDS GraphGen
CONSTANTS NQ,      \* calls in a history
          Custom,  \* TRUE: particular elements may be requested
          Asked    \* the routines that are called
VARIABLES opts, calls
mvars == <<nodes, val, deps, phase, tries, opts, calls>>

Bool == {TRUE, FALSE}
Often(x) == x + R(1 .. 4) > 1
M == Len(deps)
Pos(rows, cols) == {<<i, j>> : i \in 1 .. rows, j \in 1 .. cols}
\* a random sequence of distinct members of S
RECURSIVE Shuffle(_, _)
Shuffle(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE CHOOSE s \in {<<e>> \o Shuffle(S \ {e}, k - 1) : e \in {R(S)}} : TRUE
\* requested elements: mostly among those that are not known to be zero (others are dropped by the conformance check: only elements
\* of the full pattern may be requested)
NzJac == {p \in Pos(M, NI) : val[deps[p[1]]].g[p[2]] # Q(0)}
NzHess == {p \in Pos(NI, NI) : \E i \in 1 .. M : val[deps[i]].h[p[1]][p[2]] # Q(0)}
Elements(S) == IF Custom /\ R(1 .. 3) > 1 THEN Shuffle(S, IF R(1 .. 2) = 1 THEN Cardinality(S) ELSE R(1 .. Cardinality(S) + 1)) ELSE <<>>
Options == [zero |-> Often(0), jac |-> Often(0), hess |-> Often(0), for1 |-> Often(0), rev1 |-> Often(0), rev2 |-> Often(0), spjac |-> Often(0), sphess |-> Often(0),
            reuse1 |-> R(Bool), reuse2 |-> R(Bool), heq |-> R(Bool), mode |-> R({"auto", "for", "rev"}), typical |-> R(Bool), optimize |-> R(Bool),
            maxAsg |-> R({0, 0, 0, 2, 5}), maxOps |-> R({0, 0, 0, 1, 3}), sets |-> R(1 .. 3) = 1, asAtomic |-> R(1 .. 3) = 1,
            real |-> R(1 .. 25) = 1,                                    \* the real compiler front end
            cjac |-> Elements(NzJac), chess |-> Elements(NzHess)]
\* routines and when they are available
Available(r, o) ==
  CASE r = "zero" -> o.zero [] r = "jac" -> o.jac [] r = "hess" -> o.hess
    [] r \in {"for1", "sfor1"} -> o.for1 [] r \in {"rev1", "srev1"} -> o.rev1 [] r \in {"rev2", "srev2"} -> o.rev2
    [] r = "spjac" -> o.spjac [] r = "sphess" -> o.sphess
    [] r = "jsp" -> o.spjac \/ o.for1 \/ o.rev1
    [] r = "hsp" -> o.sphess \/ o.rev2
    [] r = "hspeq" -> (o.sphess /\ o.heq) \/ o.rev2
    [] OTHER -> TRUE
Routines == {"zero", "jac", "hess", "for1", "sfor1", "rev1", "srev1", "rev2", "srev2", "spjac", "sphess", "jsp", "hsp", "hspeq", "avail"}
Coef == {-2, -1, 1, 2, 3}
Dense(n) == [i \in 1 .. n |-> IF R(1 .. 3) = 1 THEN 0 ELSE R(Coef)]
Sparse(n) == [k \in 1 .. R(0 .. n) |-> <<R(1 .. n), R(Coef)>>]
\* point 0 is the exact point; others are drawn by the driver of the conformance check
Query(r, pt) == [r |-> r, pt |-> pt, form |-> R(0 .. 3), d |-> Dense(NI), w |-> Dense(M), sd |-> Sparse(NI), sw |-> Sparse(M), eq |-> R(1 .. M)]

\* sums of products with small integers
RECURSIVE SeqSum(_)
SeqSum(s) == IF s = <<>> THEN Q(0) ELSE QAdd(Head(s), SeqSum(Tail(s)))
Sum(F(_), n) == SeqSum([k \in 1 .. n |-> F(k)])
Scale(c, q) == IF c = 0 THEN Q(0) ELSE QMul(Q(c), q)
G(i, j) == val[deps[i]].g[j]
H(w, j, k) == Sum(LAMBDA i : Scale(w[i], val[deps[i]].h[j][k]), M)
RECURSIVE Coefs(_, _, _)
Coefs(s, n, k) == IF k = 0 THEN [i \in 1 .. n |-> 0] ELSE [Coefs(s, n, k - 1) EXCEPT ![s[k][1]] = @ + s[k][2]]
InJ(i, j) == opts.cjac = <<>> \/ \E e \in DOMAIN opts.cjac : opts.cjac[e] = <<i, j>>
InH(i, j) == opts.chess = <<>> \/ \E e \in DOMAIN opts.chess : opts.chess[e] = <<i, j>>
\* the directional routines work on the requested elements
Answer(q) ==
  LET d == IF q.r \in {"sfor1", "srev2"} THEN Coefs(q.sd, NI, Len(q.sd)) ELSE q.d
      w == IF q.r = "srev1" THEN Coefs(q.sw, M, Len(q.sw)) ELSE q.w IN
  CASE q.r = "zero" -> [i \in 1 .. M |-> val[deps[i]].v]
    [] q.r = "jac" -> [k \in 1 .. M * NI |-> G(1 + ((k - 1) \div NI), 1 + ((k - 1) % NI))]
    [] q.r = "hess" -> [k \in 1 .. NI * NI |-> H(w, 1 + ((k - 1) \div NI), 1 + ((k - 1) % NI))]
    [] q.r \in {"for1", "sfor1"} -> [i \in 1 .. M |-> Sum(LAMBDA j : IF InJ(i, j) THEN Scale(d[j], G(i, j)) ELSE Q(0), NI)]
    [] q.r \in {"rev1", "srev1"} -> [j \in D1 |-> Sum(LAMBDA i : IF InJ(i, j) THEN Scale(w[i], G(i, j)) ELSE Q(0), M)]
    [] q.r \in {"rev2", "srev2"} -> [j \in D1 |-> Sum(LAMBDA k : IF InH(k, j) THEN Scale(d[k], H(w, k, j)) ELSE Q(0), NI)]
    [] q.r = "spjac" -> IF opts.cjac = <<>> THEN <<>> ELSE [e \in DOMAIN opts.cjac |-> G(opts.cjac[e][1], opts.cjac[e][2])]
    [] q.r = "sphess" -> IF opts.chess = <<>> THEN <<>> ELSE [e \in DOMAIN opts.chess |-> H(w, opts.chess[e][1], opts.chess[e][2])]
    [] OTHER -> <<>>

MInit == Init /\ opts = <<>> /\ calls = <<>>
MRecord == (Start \/ Step \/ Fail \/ Finish) /\ UNCHANGED <<opts, calls>>
MBuild == phase = 2 /\ phase' = 3 /\ \E o \in {Options} : opts' = o /\ UNCHANGED <<nodes, val, deps, tries, calls>>
MCall == /\ phase = 3 /\ Len(calls) < NQ
         /\ \E r \in {IF R(1 .. 8) = 1 THEN R(Asked) ELSE LET A == {x \in Asked : Available(x, opts)} IN R(IF A = {} THEN Asked ELSE A)} :
            \E q \in {Query(r, R(0 .. 2))} : calls' = Append(calls, [q |-> q, ok |-> Available(r, opts), a |-> IF q.pt = 0 THEN Answer(q) ELSE <<>>])
         /\ UNCHANGED <<nodes, val, deps, phase, tries, opts>>
MEnd == phase = 3 /\ Len(calls) >= NQ /\ phase' = 4 /\ UNCHANGED <<nodes, val, deps, tries, opts, calls>>
MNext == MRecord \/ MBuild \/ MCall \/ MEnd
MSpec == MInit /\ [][MNext]_mvars
MEmit == phase = 4 => PrintT(<<"GEN", ToJson([n |-> NI, nodes |-> nodes, deps |-> deps, vals |-> [i \in DOMAIN val |-> <<val[i].v, val[i].x>>],
                          g |-> [i \in 1 .. M |-> val[deps[i]].g], h |-> [i \in 1 .. M |-> val[deps[i]].h],
                          form |-> R(0 .. 5), opts |-> opts, calls |-> calls])>>)
=============================================================================
