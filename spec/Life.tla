-------------------------------- MODULE Life --------------------------------
(* Libraries, models and user functions over time: created, used, moved,     *)
(* closed and deleted in any order (C13).  What each use must answer depends *)
(* only on what is alive and on what was provided.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Steps

R(S) == RandomElement(S)
(* ---- the library files; every model has two independents and two dependents ---- *)
Everything == {"zero", "jac", "hess", "for1", "rev1", "rev2", "spjac", "sphess"}
Def(name, kind, k, opts) == [name |-> name, kind |-> kind, k |-> k, opts |-> opts]
Files == <<
  [threads |-> "none", defs |-> <<Def("a", "poly", 1, Everything), Def("b", "user", 1, Everything)>>],
  [threads |-> "none", defs |-> <<Def("b", "poly", 2, Everything), Def("ext", "poly", 1, Everything)>>],
  [threads |-> "none", defs |-> <<Def("ext", "user", 2, Everything), Def("a", "ext", 1, Everything)>>],
  [threads |-> "none", defs |-> <<Def("a", "poly", 3, {"zero"}), Def("b", "ext", 2, Everything \ {"hess"}), Def("ext", "poly", 3, {"zero", "spjac"})>>],
  [threads |-> "pthreads", defs |-> <<Def("a", "poly", 4, {"for1", "spjac", "sphess", "rev2"}), Def("b", "poly", 2, Everything)>>],
  [threads |-> "openmp", defs |-> <<Def("a", "poly", 2, Everything)>>],
  [threads |-> "none", defs |-> <<Def("ext", "poly", 2, Everything), Def("c", "both", 2, {"zero", "jac", "for1", "rev1"}), Def("d", "poly", 5, {"jac", "hess"})>>],
  [threads |-> "none", defs |-> <<Def("a", "nonl", 2, Everything), Def("c", "nonl", 1, Everything)>>]
>>
Names == {"a", "b", "c", "d", "ext", "none", ""}
Needs(d) == CASE d.kind = "poly" -> {} [] d.kind = "user" -> {"uf"} [] d.kind \in {"ext", "nonl"} -> {"ext"} [] d.kind = "both" -> {"uf", "ext"}
Routines == {"zero", "jac", "hess", "for1", "sfor1", "rev1", "srev1", "rev2", "srev2", "spjac", "sphess", "jsp", "hsp", "avail"}
Offers(d, r) == CASE r \in {"zero", "jac", "hess", "for1", "rev1", "rev2", "spjac", "sphess"} -> r \in d.opts
                  [] r = "sfor1" -> "for1" \in d.opts [] r = "srev1" -> "rev1" \in d.opts [] r = "srev2" -> "rev2" \in d.opts
                  [] r = "jsp" -> d.opts \cap {"spjac", "for1", "rev1"} # {} [] r = "hsp" -> d.opts \cap {"sphess", "rev2"} # {}
                  [] OTHER -> TRUE

VARIABLES libs,   \* library objects: the library they own (0: moved away or deleted)
          open,   \* libraries: the file and whether it is open
          objs,   \* model objects: the model they hold (0: moved away, -1: deleted)
          mods,   \* models: their library, definition and what was provided for the functions they need
          log
vars == <<libs, open, objs, mods, log>>

(* ---- values: user function u(z) = z^2 + c z; external models are models named "ext" ---- *)
U(c, z) == z * z + c * z
DU(c, z) == 2 * z + c
Matrix(a, b, c, d) == <<a, b, c, d>>
\* kind "nonl": g = ext(x1 x2, x2); <<g1 g2, k g1 x1>>
Arg(x) == <<x[1] * x[2], x[2]>>
Row(j, i) == <<j[2 * i - 1], j[2 * i]>>
\* gradient and Hessian of g_i (j, h: those of the external model) with respect to x
GradN(j, i, x) == <<j[2 * i - 1] * x[2], j[2 * i - 1] * x[1] + j[2 * i]>>
HessN(j, h, i, x) ==
  LET a == x[2] b == x[1] IN   \* arguments: (a, b) and (0, 1)
  Matrix(h[1] * a * a, h[1] * a * b + h[2] * a + j[2 * i - 1],
         h[1] * a * b + h[3] * a + j[2 * i - 1], h[1] * b * b + (h[2] + h[3]) * b + h[4])
Outer(p, q) == Matrix(p[1] * q[1], p[1] * q[2], p[2] * q[1], p[2] * q[2])
MatAdd(p, q) == [i \in 1 .. 4 |-> p[i] + q[i]]
MatMul(c, p) == [i \in 1 .. 4 |-> c * p[i]]
RECURSIVE F(_, _), J(_, _), H1(_, _), H2(_, _)
Uf(m) == mods[m].prov["uf"]
Ext(m) == mods[m].prov["ext"].m
F(m, x) == LET d == mods[m].def IN
  CASE d.kind = "poly" -> <<x[1] * x[2] + d.k * x[1], d.k * x[1] * x[1] - x[2]>>
    [] d.kind = "user" -> <<U(Uf(m), x[1]) + d.k * x[2], x[1] + d.k * U(Uf(m), x[2])>>
    [] d.kind = "ext" -> LET g == F(Ext(m), x) h == F(Ext(m), <<x[2], x[1]>>) IN <<g[1] + d.k * x[2], h[2] + d.k * x[1]>>
    [] d.kind = "both" -> LET g == F(Ext(m), x) IN <<g[1] + U(Uf(m), x[2]), d.k * g[2]>>
    [] d.kind = "nonl" -> LET g == F(Ext(m), Arg(x)) IN <<g[1] * g[2], d.k * g[1] * x[1]>>
J(m, x) == LET d == mods[m].def IN
  CASE d.kind = "poly" -> Matrix(x[2] + d.k, x[1], 2 * d.k * x[1], -1)
    [] d.kind = "user" -> Matrix(DU(Uf(m), x[1]), d.k, 1, d.k * DU(Uf(m), x[2]))
    [] d.kind = "ext" -> LET g == J(Ext(m), x) h == J(Ext(m), <<x[2], x[1]>>) IN Matrix(g[1], g[2] + d.k, h[4] + d.k, h[3])
    [] d.kind = "both" -> LET g == J(Ext(m), x) IN Matrix(g[1], g[2] + DU(Uf(m), x[2]), d.k * g[3], d.k * g[4])
    [] d.kind = "nonl" -> LET g == F(Ext(m), Arg(x)) j == J(Ext(m), Arg(x)) p == GradN(j, 1, x) q == GradN(j, 2, x) IN
         Matrix(g[1] * q[1] + g[2] * p[1], g[1] * q[2] + g[2] * p[2], d.k * (x[1] * p[1] + g[1]), d.k * x[1] * p[2])
H1(m, x) == LET d == mods[m].def IN
  CASE d.kind = "poly" -> Matrix(0, 1, 1, 0) [] d.kind = "user" -> Matrix(2, 0, 0, 0)
    [] d.kind = "ext" -> H1(Ext(m), x)
    [] d.kind = "both" -> LET g == H1(Ext(m), x) IN Matrix(g[1], g[2], g[3], g[4] + 2)
    [] d.kind = "nonl" -> LET g == F(Ext(m), Arg(x)) j == J(Ext(m), Arg(x)) p == GradN(j, 1, x) q == GradN(j, 2, x)
                              h == HessN(j, H1(Ext(m), Arg(x)), 1, x) l == HessN(j, H2(Ext(m), Arg(x)), 2, x) IN
         MatAdd(MatAdd(MatMul(g[1], l), MatMul(g[2], h)), MatAdd(Outer(p, q), Outer(q, p)))
H2(m, x) == LET d == mods[m].def IN
  CASE d.kind = "poly" -> Matrix(2 * d.k, 0, 0, 0) [] d.kind = "user" -> Matrix(0, 0, 0, 2 * d.k)
    [] d.kind = "ext" -> LET h == H2(Ext(m), <<x[2], x[1]>>) IN Matrix(h[4], h[3], h[2], h[1])
    [] d.kind = "both" -> LET g == H2(Ext(m), x) IN [i \in 1 .. 4 |-> d.k * g[i]]
    [] d.kind = "nonl" -> LET j == J(Ext(m), Arg(x)) p == GradN(j, 1, x) h == HessN(j, H1(Ext(m), Arg(x)), 1, x) e == <<1, 0>> IN
         MatMul(d.k, MatAdd(MatMul(x[1], h), MatAdd(Outer(p, e), Outer(e, p))))
Answer(m, q) ==
  LET j == J(m, q.x) h == [i \in 1 .. 4 |-> q.w[1] * H1(m, q.x)[i] + q.w[2] * H2(m, q.x)[i]] IN
  CASE q.r = "zero" -> F(m, q.x)
    [] q.r \in {"jac", "spjac"} -> j
    [] q.r \in {"hess", "sphess"} -> h
    [] q.r \in {"for1", "sfor1"} -> <<j[1] * q.d[1] + j[2] * q.d[2], j[3] * q.d[1] + j[4] * q.d[2]>>
    [] q.r \in {"rev1", "srev1"} -> <<j[1] * q.w[1] + j[3] * q.w[2], j[2] * q.w[1] + j[4] * q.w[2]>>
    [] q.r \in {"rev2", "srev2"} -> <<h[1] * q.d[1] + h[2] * q.d[2], h[3] * q.d[1] + h[4] * q.d[2]>>
    [] q.r = "avail" -> <<Offers(mods[m].def, "zero"), Offers(mods[m].def, "jac"), Offers(mods[m].def, "hess"), Offers(mods[m].def, "for1"), Offers(mods[m].def, "rev1"),
                          Offers(mods[m].def, "rev2"), Offers(mods[m].def, "spjac"), Offers(mods[m].def, "sphess"), Offers(mods[m].def, "jsp"), Offers(mods[m].def, "hsp")>>
    [] OTHER -> <<>>

(* ---- what is alive ---- *)
Alive(m) == open[mods[m].lib].open
Deleted(o) == objs[o] = -1
ExtObj(m) == mods[m].prov["ext"].o        \* the object which was given (0: as an atomic function, which follows the model)
\* the external model can be called
ExtUsable(m) == /\ \/ mods[m].prov["ext"].how = "atomic"
                   \/ objs[ExtObj(m)] = Ext(m)          \* a moved-from object refuses
Provided(m) == \A n \in Needs(mods[m].def) : n \in DOMAIN mods[m].prov
\* "yes": answers; "no": refused; "maybe": an external model that offers part of the routines, either answers or refuses
RECURSIVE Can(_, _)
Can(m, r) ==
  IF ~Alive(m) \/ ~Offers(mods[m].def, r) THEN "no"
  ELSE IF r \in {"jsp", "hsp", "avail"} THEN "yes"
  ELSE IF ~Provided(m) THEN "no"
  ELSE IF "ext" \notin Needs(mods[m].def) THEN "yes"
  ELSE LET e == Ext(m) IN
       IF ~ExtUsable(m) \/ ~Alive(e) THEN "no"
       ELSE IF r = "zero" THEN Can(e, "zero")
       ELSE IF ~Provided(e) THEN "no"
       ELSE LET c == {Can(e, x) : x \in {"zero", "for1", "rev1", "rev2", "jsp"}} IN IF c = {"yes"} THEN "yes" ELSE "maybe"
\* the external model that is called while this one is evaluated is asked in every mode in the same way
CanCall(o, r) == IF objs[o] = 0 THEN "no" ELSE Can(objs[o], r)

(* ---- actions ---- *)
Log(a) == log' = Append(log, a)
LiveLibs == {h \in DOMAIN libs : libs[h] # 0}
LiveObjs == {o \in DOMAIN objs : objs[o] # -1}
Holding == {o \in DOMAIN objs : objs[o] > 0}
\* the object may go: no other live model would still call it
Unused(o) == \A p \in Holding \ {o} : LET m == objs[p] IN "ext" \in DOMAIN mods[m].prov => (mods[m].prov["ext"].o # o /\ (objs[o] <= 0 \/ Ext(m) # objs[o]))

LInit == libs = <<>> /\ open = <<>> /\ objs = <<>> /\ mods = <<>> /\ log = <<>>
OpenLib == /\ Cardinality(LiveLibs) < 4 /\ Len(open) < 9
           /\ \E i \in {R(1 .. 12)} : LET f == <<1, 2, 3, 3, 4, 4, 5, 6, 7, 7, 8, 8>>[i] IN open' = Append(open, [file |-> f, open |-> TRUE]) /\ libs' = Append(libs, Len(open) + 1) /\ Log([op |-> "open", a |-> f, b |-> 0, can |-> "yes", ans |-> <<>>])
           /\ UNCHANGED <<objs, mods>>
OpenBad == Log([op |-> "openbad", a |-> R(1 .. 3), b |-> 0, can |-> "no", ans |-> <<>>]) /\ UNCHANGED <<libs, open, objs, mods>>
NamesOf(f) == {Files[f].defs[i].name : i \in DOMAIN Files[f].defs}
ListNames == \E h \in {R(LiveLibs \cup {0})} : h # 0 /\ Log([op |-> "names", a |-> h, b |-> 0, can |-> "yes", ans |-> NamesOf(open[libs[h]].file)]) /\ UNCHANGED <<libs, open, objs, mods>>
GetModel == \E h \in {R(LiveLibs \cup {0})} : \E n \in {IF h # 0 /\ R(1 .. 6) > 1 THEN R(NamesOf(open[libs[h]].file)) ELSE R(Names)} :
  /\ h # 0
  /\ LET f == open[libs[h]].file has == n \in NamesOf(f) IN
     /\ Log([op |-> "model", a |-> h, b |-> n, can |-> "yes", ans |-> <<has>>])
     /\ IF has THEN /\ mods' = Append(mods, [lib |-> libs[h], def |-> Files[f].defs[CHOOSE i \in DOMAIN Files[f].defs : Files[f].defs[i].name = n], prov |-> <<>>])
                    /\ objs' = Append(objs, Len(mods) + 1)
               ELSE UNCHANGED <<mods, objs>>
  /\ UNCHANGED <<libs, open>>
\* a new object takes over the library; the old one can only be deleted
MoveLib == \E h \in {R(LiveLibs \cup {0})} : h # 0 /\ libs' = Append([libs EXCEPT ![h] = 0], libs[h]) /\ Log([op |-> "movelib", a |-> h, b |-> R(BOOLEAN), can |-> "yes", ans |-> <<>>])
           /\ UNCHANGED <<open, objs, mods>>
CloseLib == \E h \in {R(LiveLibs \cup {0})} : h # 0 /\ R(1 .. 2) = 1 /\ libs' = [libs EXCEPT ![h] = 0] /\ open' = [open EXCEPT ![libs[h]].open = FALSE]
            /\ Log([op |-> "close", a |-> h, b |-> 0, can |-> "yes", ans |-> <<>>]) /\ UNCHANGED <<objs, mods>>
MoveModel == \E o \in {R(Holding \cup {0})} : o # 0 /\ objs' = Append([objs EXCEPT ![o] = 0], objs[o])
             /\ Log([op |-> "movemodel", a |-> o, b |-> FALSE, can |-> "yes", ans |-> <<>>]) /\ UNCHANGED <<libs, open, mods>>
DelModel == \E o \in {R(LiveObjs \cup {0})} : o # 0 /\ Unused(o) /\ objs' = [objs EXCEPT ![o] = -1] /\ Log([op |-> "delmodel", a |-> o, b |-> 0, can |-> "yes", ans |-> <<>>]) /\ UNCHANGED <<libs, open, mods>>
Prov(m, n, p) == [mods EXCEPT ![m].prov = (n :> p) @@ @]
AddUser == \E o \in {IF R(1 .. 4) > 1 THEN R({p \in Holding : "uf" \in Needs(mods[objs[p]].def)} \cup {0}) ELSE R(Holding \cup {0})} : \E c \in {R({3, 5})} :
  /\ o # 0
  /\ LET m == objs[o] needs == "uf" \in Needs(mods[m].def) IN
     /\ Log([op |-> "adduser", a |-> o, b |-> c, can |-> "yes", ans |-> <<needs>>])
     /\ mods' = IF needs THEN Prov(m, "uf", c) ELSE mods
  /\ UNCHANGED <<libs, open, objs>>
Wanting == {o \in Holding : "ext" \in Needs(mods[objs[o]].def)}
Exts == {o \in Holding : mods[objs[o]].def.name = "ext"}
AddExt == \E o \in {IF R(1 .. 5) > 1 THEN R(Wanting \cup {0}) ELSE R(Holding \cup {0})} : \E e \in {IF R(1 .. 5) > 1 THEN R(Exts \cup {0}) ELSE R(Holding \cup {0})} : \E how \in {R({"model", "atomic"})} :
  /\ o # 0 /\ e # 0 /\ o # e
  /\ LET m == objs[o] g == objs[e] fits == mods[g].def.name = "ext" /\ "ext" \in Needs(mods[m].def) IN
     /\ Log([op |-> "addext", a |-> o, b |-> <<e, how>>, can |-> "yes", ans |-> <<fits>>])
     /\ mods' = IF fits THEN Prov(m, "ext", [m |-> g, o |-> IF how = "model" THEN e ELSE 0, how |-> how]) ELSE mods
  /\ UNCHANGED <<libs, open, objs>>
Pts == {<<1, 2>>, <<3, -1>>, <<0, 2>>, <<-2, 1>>, <<2, 3>>}
Ws == {<<1, 0>>, <<0, 1>>, <<1, -2>>, <<3, 2>>}
Query(r) == [r |-> r, form |-> R(0 .. 3), x |-> R(Pts), w |-> R(Ws), d |-> R(Ws)]
Ready == {p \in Holding : Alive(objs[p]) /\ Provided(objs[p])}
Call == \E o \in {IF R(1 .. 3) > 1 THEN R(Ready \cup {0}) ELSE R({p \in DOMAIN objs : objs[p] >= 0} \cup {0})} : \E r \in {R(IF o = 0 THEN {"avail"} ELSE IF objs[o] > 0 /\ R(1 .. 5) > 1 THEN {x \in Routines : Offers(mods[objs[o]].def, x)} ELSE Routines)} : \E q \in {Query(r)} :
  /\ o # 0
  /\ r = "avail" => objs[o] > 0 /\ Alive(objs[o])
  /\ Log([op |-> "call", a |-> o, b |-> q, can |-> CanCall(o, r), ans |-> IF CanCall(o, r) # "no" THEN Answer(objs[o], q) ELSE <<>>])
  /\ UNCHANGED <<libs, open, objs, mods>>
\* one argument has the wrong size (or an index is out of range): refused in any case
BadCall == \E o \in {IF R(1 .. 3) > 1 THEN R(Ready \cup {0}) ELSE R({p \in DOMAIN objs : objs[p] >= 0} \cup {0})} : \E r \in {R(Routines \ {"jsp", "hsp", "avail"})} : \E q \in {Query(r)} :
  /\ o # 0
  /\ Log([op |-> "badcall", a |-> o, b |-> [q |-> q, which |-> R(0 .. 7)], can |-> "no", ans |-> <<>>])
  /\ UNCHANGED <<libs, open, objs, mods>>
Kinds == <<"open", "open", "openbad", "names", "model", "model", "model", "model", "model", "addext", "addext", "addext", "addext", "addext", "addext", "addext", "adduser", "call", "call", "call", "call", "movelib", "close", "movemodel", "delmodel", "adduser", "adduser", "addext", "addext", "addext",
           "call", "call", "call", "call", "call", "call", "call", "bad", "bad">>
Act(k) ==
  CASE k = "open" -> OpenLib [] k = "openbad" -> OpenBad [] k = "names" -> ListNames [] k = "model" -> GetModel [] k = "movelib" -> MoveLib
    [] k = "close" -> CloseLib [] k = "movemodel" -> MoveModel [] k = "delmodel" -> DelModel [] k = "adduser" -> AddUser [] k = "addext" -> AddExt
    [] k = "call" -> Call [] k = "bad" -> BadCall
LNext == Len(log) < Steps /\ ((\E i \in {R(DOMAIN Kinds)} : Act(Kinds[i])) \/ UNCHANGED vars)
LSpec == LInit /\ [][LNext]_vars
(* ---- consequences that the design must have ---- *)
\* objects that hold a model hold different ones, and every library is owned at most once
Owners == (\A o, p \in Holding : objs[o] = objs[p] => o = p) /\ (\A h, g \in LiveLibs : libs[h] = libs[g] => h = g)
Closed == \A o \in Holding, r \in Routines : ~Alive(objs[o]) => CanCall(o, r) = "no"
Owned == \A i \in DOMAIN open : open[i].open <=> \E h \in LiveLibs : libs[h] = i
LEmit == Len(log) = Steps => PrintT(<<"GEN", ToJson([files |-> Files, log |-> log])>>)
=============================================================================
