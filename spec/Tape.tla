-------------------------------- MODULE Tape --------------------------------
(* A compiled model used as a function in another recording (C20): a tape     *)
(* computes arguments, calls the model (once or twice) and combines what it   *)
(* returns.  Values, directional derivatives, Jacobians, Hessians and patterns*)
(* of the tape are those of the composition.                                  *)
EXTENDS Model

\* ---- the tape: arguments u_j = x_j + c (x_a x_b - p) or x_j, p chosen so that u = x at the point of evaluation, or the
\*      constant which x_j is at that point;
\*      results: <<"lin", i, j, c>>: G_i + c x_j; <<"mul", i, k, c>>: G_i G_k + c; <<"arg", i, j, c>>: c G_i x_j;  <<"sum", i, k, c>>: G_i + c G_k
\*      twice: the second call gets the arguments in reverse order of the variables and its results are added to those of the first
TapeSpec == [arg |-> [j \in D1 |-> IF R(1 .. 3) = 1 THEN <<0, 1, 1>> ELSE IF R(1 .. 3) = 1 THEN <<9, 1, 1>> ELSE <<R(Coef), R(D1), R(D1)>>],
             out |-> [k \in 1 .. R(1 .. 3) |-> <<R({"lin", "mul", "arg", "sum"}), R(1 .. M), R(1 .. M), R(D1), R(Coef)>>]]
Ind(j) == LET n == CHOOSE k \in DOMAIN nodes : nodes[k] = <<"indep", j>> IN val[n]
ArgOf(t, j) == LET a == t.arg[j] IN
  IF a[1] = 0 THEN Ind(j) ELSE IF a[1] = 9 THEN ConstD(Ind(j).v)
  ELSE LET p == DMul(Ind(a[2]), Ind(a[3])) IN DAdd(Ind(j), DMul(ConstD(Q(a[1])), DAdd(p, ConstD(p.v), -1)), 1)
\* the model's i-th dependent at arguments u (whose values are those of the independents)
CallOf(u, i) ==
  LET w == val[deps[i]] IN
  Dual(w.v, [a \in D1 |-> Sum(LAMBDA j : QMul(w.g[j], u[j].g[a]), NI)],
       [a \in D1 |-> [b \in D1 |-> QAdd(Sum(LAMBDA j : QMul(w.g[j], u[j].h[a][b]), NI),
                                        Sum(LAMBDA j : QMul(u[j].g[a], Sum(LAMBDA k : QMul(w.h[j][k], u[k].g[b]), NI)), NI))]], FALSE)
TapeOuts(t) ==
  LET u == [j \in D1 |-> ArgOf(t, j)]
      y == [i \in 1 .. M |-> CallOf(u, i)]
      O(o) == CASE o[1] = "lin" -> DAdd(y[o[2]], DMul(ConstD(Q(o[5])), Ind(o[4])), 1)
                [] o[1] = "mul" -> DAdd(DMul(y[o[2]], y[o[3]]), ConstD(Q(o[5])), 1)
                [] o[1] = "arg" -> DMul(ConstD(Q(o[5])), DMul(y[o[2]], Ind(o[4])))
                [] o[1] = "sum" -> DAdd(y[o[2]], DMul(ConstD(Q(o[5])), y[o[3]]), 1)
  IN [k \in DOMAIN t.out |-> O(t.out[k])]
\* routines of the tape, and the routines of the model on which they depend
TapeRoutines == {"zero", "for1", "both", "rev1", "rev2", "jac", "hess", "spjac", "sphess", "jsp", "hsp"}
JspOf(o) == o.spjac \/ o.for1 \/ o.rev1
HspOf(o) == (o.sphess \/ o.rev2) /\ ((o.sphess /\ o.heq) \/ o.rev2)
Can(r, o) ==
  /\ o.zero /\ JspOf(o)     \* recording evaluates the model and needs to know which results depend on what
  /\ CASE r \in {"zero", "jsp"} -> TRUE
       [] r \in {"for1", "both"} -> o.for1
       [] r = "rev1" -> o.rev1
       [] r \in {"rev2", "hess"} -> o.for1 /\ o.rev1 /\ o.rev2
       [] r \in {"jac", "spjac"} -> o.for1 /\ o.rev1          \* CppAD selects the mode
       [] r = "hsp" -> HspOf(o)
       [] r = "sphess" -> o.for1 /\ o.rev1 /\ o.rev2 /\ HspOf(o)
TQuery(r, pt) == [r |-> "tape", t |-> r, pt |-> pt, form |-> 0, tape |-> TapeSpec, d |-> Dense(NI), w |-> Dense(3)]
TAnswer(q) ==
  LET y == TapeOuts(q.tape) m == Len(y)
      Hw(a, b) == Sum(LAMBDA k : Scale(q.w[k], y[k].h[a][b]), m)
      Gd(k) == Sum(LAMBDA j : Scale(q.d[j], y[k].g[j]), NI)
      vals == [k \in 1 .. m |-> y[k].v]
      dir == [k \in 1 .. m |-> Gd(k)]
      adj == [j \in D1 |-> Sum(LAMBDA k : Scale(q.w[k], y[k].g[j]), m)]
      sec == [j \in D1 |-> Sum(LAMBDA k : Scale(q.d[k], Hw(k, j)), NI)]
  IN CASE q.t = "zero" -> vals
       [] q.t \in {"for1", "both"} -> vals \o dir
       [] q.t = "rev1" -> adj
       [] q.t = "rev2" -> sec \o adj
       [] q.t \in {"jac", "spjac"} -> [k \in 1 .. m * NI |-> y[1 + ((k - 1) \div NI)].g[1 + ((k - 1) % NI)]]
       [] q.t \in {"hess", "sphess"} -> [k \in 1 .. NI * NI |-> Hw(1 + ((k - 1) \div NI), 1 + ((k - 1) % NI))]
       [] OTHER -> <<>>
TapeCall == /\ phase = 3 /\ Len(calls) < NQ
            \* without a first-order reverse mode the second order is not complete: its results may not be used
            /\ \E r \in {R(TapeRoutines \ (IF opts.rev1 THEN {} ELSE {"rev2", "hess", "sphess"}))} : \E q \in {TQuery(r, R(0 .. 2))} : calls' = Append(calls, [q |-> q, ok |-> Can(r, opts), a |-> IF q.pt = 0 /\ Can(r, opts) THEN TAnswer(q) ELSE <<>>])
            /\ UNCHANGED <<nodes, val, deps, phase, tries, opts>>
\* most routines are there
PBuild == phase = 2 /\ phase' = 3 /\ (\E o \in {Options} : opts' = [k \in DOMAIN o |-> IF k \in {"zero", "for1", "rev1", "rev2", "heq"} /\ R(1 .. 8) > 1 THEN TRUE ELSE o[k]]) /\ UNCHANGED <<nodes, val, deps, tries, calls>>
PNext == MRecord \/ PBuild \/ TapeCall \/ (R(1 .. 3) = 1 /\ MCall) \/ MEnd
PSpec == MInit /\ [][PNext]_mvars
=============================================================================
