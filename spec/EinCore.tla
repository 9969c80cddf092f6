------------------------------ MODULE EinCore ------------------------------
(***************************************************************************)
(* The Ein array language as a user sees it: what each combinator of the   *)
(* public interface builds, when it refuses, and what the built program    *)
(* means.                                                                  *)
(*                                                                         *)
(* A program under construction is a sequence N of nodes; a combinator     *)
(* call appends one.  A node has                                           *)
(*   op    the combinator            a    the nodes it was applied to      *)
(*   t     its type                  fv   the symbols it depends on        *)
(*   b     the symbols it binds      body (last of a) for binders          *)
(*   szs   for each bound index, the expressions its size comes from       *)
(*   cone  nodes of the body that depend on the bound symbols, in order    *)
(*   uses  nodes whose values it needs                                     *)
(*   bs    symbols bound anywhere inside it                                *)
(*   dg    indexing nodes anywhere inside it                               *)
(*   val   its value, when it depends on no symbol                         *)
(*                                                                         *)
(* A call is described by a record c with fields op, a, b, sz, x (extra    *)
(* data: constant, name, axis, component ...).                             *)
(***************************************************************************)
EXTENDS EinValues, SequencesExt, FiniteSetsExt

Unary == {"neg", "recip", "not", "float", "exp", "sin", "cos"}
Binary == {"add", "sub", "mul", "mod", "pow", "min", "max",
           "lt", "le", "eq", "ne", "and", "or"}
(* Sugar: methods and operators defined in terms of the others. *)
Sugar1 == {"abs", "tanh"}
Sugar2 == {"rsub", "div", "rdiv", "gt", "ge"}
Symbols == {"idx", "ctr", "acc", "elt", "var"}
Binders == {"array", "fold", "reduce", "ffold", "rfold"}

(***************************************************************************)
(* Typing of the scalar operators: no promotion between kinds.             *)
(***************************************************************************)
NoType == [k |-> "none"]
RECURSIVE HasRec(_)
HasRec(ty) == CASE ty.k = "r" -> TRUE [] ty.k = "v" -> HasRec(ty.e) [] OTHER -> FALSE
OpType1(o, t) ==
  CASE o = "neg"  -> IF IsNum(t) THEN t ELSE NoType
    [] o = "not"  -> IF t.k = "b" THEN TB ELSE NoType
    [] o = "float" -> IF t.k = "i" THEN TF ELSE NoType
    [] o = "abs"  -> IF IsNum(t) THEN t ELSE NoType
    [] o \in {"recip", "exp", "sin", "cos", "tanh"} -> IF t.k = "f" THEN TF ELSE NoType

OpType2(o, s, t) ==
  CASE o \in {"add", "sub", "rsub", "mul", "min", "max"} ->
         IF IsNum(s) /\ IsNum(t) /\ s.k = t.k THEN s ELSE NoType
    [] o \in {"div", "rdiv", "pow"} -> IF s.k = "f" /\ t.k = "f" THEN TF ELSE NoType
    [] o = "mod" -> IF s.k = "i" /\ t.k = "i" THEN TI ELSE NoType
    [] o \in {"lt", "le", "eq", "ne", "gt", "ge"} ->
         IF IsNum(s) /\ IsNum(t) /\ s.k = t.k THEN TB ELSE NoType
    [] o \in {"and", "or"} -> IF s.k = "b" /\ t.k = "b" THEN TB ELSE NoType

(***************************************************************************)
(* Meaning of the operators and the sugar.                                 *)
(***************************************************************************)
ZeroOf(x) == IF Kind(x) = "i" THEN I(0) ELSE F(0, 1)
RECURSIVE PowInt(_, _)
PowInt(x, n) ==
  IF n = 0 THEN (IF Kind(x) = "i" THEN I(1) ELSE F(1, 1))
  ELSE IF n = 1 THEN x
  ELSE IF n % 2 = 1 THEN Op2("mul", PowInt(x, n - 1), x)
  ELSE LET h == PowInt(x, n \div 2) IN Op2("mul", h, h)

Mean1(o, x) ==
  CASE o = "abs" -> Op3(Op2("lt", ZeroOf(x), x), x, Op1("neg", x))
    [] o = "tanh" -> LET p == Op1("exp", x)  q == Op1("exp", Op1("neg", x))
                     IN Op2("mul", Op2("sub", p, q), Op1("recip", Op2("add", p, q)))
    [] OTHER -> Op1(o, x)

Mean2(o, x, y) ==
  CASE o = "rsub" -> Op2("sub", y, x)
    [] o = "div"  -> Op2("mul", x, Op1("recip", y))
    [] o = "rdiv" -> Op2("mul", y, Op1("recip", x))
    [] o = "gt"   -> Op2("lt", y, x)
    [] o = "ge"   -> Op2("le", y, x)
    [] OTHER -> Op2(o, x, y)

(***************************************************************************)
(* Extrinsic host functions used by the harness, with their signatures.    *)
(* They are defined pointwise; the implementation calls them on batches.   *)
(***************************************************************************)
ExtArgs(f) ==
  CASE f = "e_lin3" -> <<TF, TF, TF>>
    [] f = "e_isub" -> <<TI, TI>>
    [] f = "e_lt"   -> <<TF, TF>>
    [] f = "e_not"  -> <<TB>>
    [] f = "e_wsum" -> <<TV(TF)>>
    [] f = "e_dot"  -> <<TV(TF), TV(TF)>>
    [] f = "e_cums" -> <<TV(TF)>>
    [] f = "e_matvec" -> <<TV(TV(TF)), TV(TF)>>
    [] f = "e_rev"  -> <<TV(TI)>>
    [] f = "e_scale" -> <<TF, TV(TF)>>
    [] f = "e_tick" -> <<TF>>
    [] f \in {"e_tick2", "e_obj", "e_part"} -> <<TF>>
ExtRes(f) ==
  CASE f \in {"e_lin3", "e_wsum", "e_dot", "e_tick", "e_tick2", "e_obj", "e_part"} -> TF
    [] f = "e_isub" -> TI
    [] f \in {"e_lt", "e_not"} -> TB
    [] f \in {"e_cums", "e_matvec", "e_scale"} -> TV(TF)
    [] f = "e_rev" -> TV(TI)

RECURSIVE SumW(_, _)
SumW(e, i) == IF i > Len(e) THEN F(0, 1)
              ELSE Op2("add", Op2("mul", F(i, 1), e[i]), SumW(e, i + 1))
RECURSIVE DotV(_, _, _)
DotV(x, y, i) == IF i > Len(x) THEN F(0, 1)
                 ELSE Op2("add", Op2("mul", x[i], y[i]), DotV(x, y, i + 1))
RECURSIVE CumV(_, _, _)
CumV(e, i, s) == IF i > Len(e) THEN <<>>
                 ELSE LET q == Op2("add", s, e[i]) IN <<q>> \o CumV(e, i + 1, q)

ExtMean(f, v) ==
  IF \E i \in 1..Len(v) : HasPoison(v[i]) THEN Poison("ext operand")
  ELSE
  CASE f = "e_lin3" -> Op2("add", v[1], Op2("add", Op2("mul", F(2, 1), v[2]), Op2("mul", F(4, 1), v[3])))
    [] f = "e_isub" -> Op2("sub", v[1], Op2("mul", I(2), v[2]))
    [] f = "e_lt"   -> Op2("lt", v[1], v[2])
    [] f = "e_not"  -> Op1("not", v[1])
    [] f = "e_wsum" -> SumW(v[1].e, 1)
    [] f = "e_dot"  -> IF Len(v[1].e) # Len(v[2].e) THEN Poison("dot lengths")
                       ELSE DotV(v[1].e, v[2].e, 1)
    [] f = "e_cums" -> VecV(CumV(v[1].e, 1, F(0, 1)), v[1].p)
    [] f = "e_matvec" ->
         IF Len(v[1].e) = 0 THEN VecV(<<>>, U("f"))
         ELSE IF Len(v[1].e[1].e) # Len(v[2].e) THEN Poison("matvec lengths")
         ELSE VecV([i \in 1..Len(v[1].e) |-> DotV(v[1].e[i].e, v[2].e, 1)], Nil)
    [] f = "e_rev"  -> VecV(Reverse(v[1].e), v[1].p)
    [] f = "e_scale" -> VecV([i \in 1..Len(v[2].e) |-> Op2("mul", v[1], v[2].e[i])], v[2].p)
    [] f = "e_tick" -> Op2("add", v[1], F(1, 1))
    [] f = "e_tick2" -> Op2("mul", v[1], F(2, 1))
    [] f = "e_obj"  -> Op2("add", v[1], F(3, 1))
    [] f = "e_part" -> Op2("add", F(1, 1), Op2("mul", F(4, 1), v[1]))

(***************************************************************************)
(* Sizes.  A size is a set of equal-by-assumption expressions, each        *)
(* [h |-> node, ax |-> axis, z |-> indices put at zero]; ax = -1 means     *)
(* the (integer) value of the node itself.                                 *)
(***************************************************************************)
RECURSIVE Resolve(_, _)
Resolve(N, h) == IF N[h].op = "alias" THEN Resolve(N, N[h].a[1]) ELSE h

IsIndex(N, s) == N[s].op = "idx"
SizeFv(N, e) == IF e.z THEN {s \in N[e.h].fv : ~IsIndex(N, s)} ELSE N[e.h].fv

RECURSIVE DimOf(_, _, _)
DimOf(N, h0, ax) ==
  LET h == Resolve(N, h0)  n == N[h] IN
  IF n.op = "get" THEN DimOf(N, n.a[1], ax + 1)
  ELSE IF ax = 0 /\ Len(n.szs) > 0 /\ n.op \in {"array", "where", "slice"} THEN n.szs[1]
  ELSE <<[h |-> h, ax |-> ax, z |-> FALSE]>>

ZeroIdx(c) == TLCEval([i \in 1..Len(c) |-> [c[i] EXCEPT !.z = TRUE]])

(* Usable candidates for symbol s, directly indexing something in the body *)
(* axes of the operand of an indexing node at which symbol s stands        *)
RECURSIVE ItemAxes(_, _, _, _, _)
ItemAxes(N, n, s, k, o) ==
  IF k > Len(n.x) THEN {}
  ELSE IF n.x[k] = "all" THEN ItemAxes(N, n, s, k + 1, o)
  ELSE (IF Resolve(N, n.a[o]) = s THEN {k - 1} ELSE {}) \cup ItemAxes(N, n, s, k + 1, o + 1)
AxesAt(N, n, s) == IF n.op = "slice" THEN ItemAxes(N, n, s, 1, 2)
                   ELSE IF Resolve(N, n.a[2]) = s THEN {0} ELSE {}

Candidates(N, body, s, captured) ==
  LET cs == UNION {{DimOf(N, N[g].a[1], ax) : ax \in AxesAt(N, N[g], s)} : g \in N[body].dg}
  IN {ZeroIdx(c) : c \in {c \in cs : \A i \in 1..Len(c) : SizeFv(N, c[i]) \cap captured = {}}}

RECURSIVE Join(_)
Join(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN c \o Join(S \ {c})

(***************************************************************************)
(* Evaluation.  env maps symbols and evaluated nodes to values.            *)
(***************************************************************************)
V(N, h, env) == IF h \in DOMAIN env THEN env[h] ELSE N[h].val

RECURSIVE EvNode(_, _, _), EvSeq(_, _, _, _), EvArr(_, _, _, _, _), EvFold(_, _, _, _, _), EvRed(_, _, _, _, _),
          EvHelp(_, _, _, _, _, _), EvSlice(_, _, _, _)

RECURSIVE ConeSet(_, _, _)
ConeSet(N, S, syms) ==
  LET T == S \cup {h \in UNION {N[n].uses : n \in S} : N[h].fv \cap syms # {} /\ N[h].op \notin Symbols}
  IN IF T = S THEN S ELSE ConeSet(N, T, syms)

(* a size expression that depends on indices not in scope: at index zero *)
AtZero(N, h, env) ==
  LET x == V(N, h, env)  miss == N[h].fv \ DOMAIN env IN
  IF x.s # "n" THEN x
  ELSE V(N, h, EvSeq(N, SetToSortSeq(ConeSet(N, {h}, miss), <), 1, [s \in miss |-> I(0)] @@ env))

SizeVal(N, c, env) ==
  LET vs == {LET x == AtZero(N, c[i].h, env) IN IF c[i].ax = -1 THEN x ELSE LenAt(x, c[i].ax) : i \in 1..Len(c)}
  IN IF \E x \in vs : x.s # "i" THEN Poison("size has no definite value")
     ELSE IF Cardinality(vs) # 1 THEN Poison("assumed-equal sizes differ")
     ELSE CHOOSE x \in vs : TRUE

EvSeq(N, ids, k, env) ==
  IF k > Len(ids) THEN env
  ELSE EvSeq(N, ids, k + 1, TLCEval((ids[k] :> EvNode(N, ids[k], env)) @@ env))

EvBody(N, n, env) ==
  LET body == n.a[Len(n.a)]  e == EvSeq(N, n.cone, 1, env) IN V(N, body, e)

EvArr(N, n, ns, k, env) ==
  IF k > Len(n.b) THEN EvBody(N, n, env)
  ELSE IF ns[k] = 0
       THEN VecV(<<>>, Proto(EvArr(N, n, ns, k + 1, (n.b[k] :> I(0)) @@ env)))
       ELSE VecV([i \in 1..ns[k] |-> EvArr(N, n, ns, k + 1, (n.b[k] :> I(i - 1)) @@ env)], Nil)

EvFold(N, n, i, cnt, env) ==
  \* env already binds acc
  IF i >= cnt THEN env[n.b[2]]
  ELSE LET r == EvBody(N, n, (n.b[1] :> I(i)) @@ env)
       IN EvFold(N, n, i + 1, cnt, TLCEval((n.b[2] :> r) @@ env))

EvRed(N, n, es, acc, env) ==
  IF Len(es) = 0 THEN acc
  ELSE EvRed(N, n, Tail(es), EvBody(N, n, (n.b[1] :> acc) @@ ((n.b[2] :> Head(es)) @@ env)), env)

(* An identity may have another shape than the elements (the empty vector  *)
(* of concatenation), but not if it is none.                               *)
RECURSIVE SameValue(_, _)
SameValue(x, y) == IF x.s # y.s THEN FALSE
                   ELSE IF x.s = "v" THEN Len(x.e) = Len(y.e) /\ \A i \in 1..Len(x.e) : SameValue(x.e[i], y.e[i])
                   ELSE x = y
IsIdentity(N, n, es, z, env) ==
  \A i \in 1..Len(es) : /\ SameValue(EvBody(N, n, (n.b[1] :> z) @@ ((n.b[2] :> es[i]) @@ env)), es[i])
                         /\ SameValue(EvBody(N, n, (n.b[1] :> es[i]) @@ ((n.b[2] :> z) @@ env)), es[i])

(* fold_sum, reduce_min, ...: the elements are the body at 0, 1, ...       *)
HelpInit(o) == CASE o = "sum" -> F(0, 1) [] o = "min" -> Inf [] o = "max" -> NegInf [] o = "argmin" -> RecV(<<Inf, I(0)>>)
HelpStep(o, acc, x, i) ==
  CASE o = "sum" -> Op2("add", acc, x)
    [] o = "min" -> Op2("min", acc, x)
    [] o = "max" -> Op2("max", acc, x)
    [] o = "argmin" -> LET c == Op2("le", acc.e[1], x)
                       IN IF x.s = "p" THEN RecV(<<x, x>>)
                          ELSE RecV(<<Op3(c, acc.e[1], x), Op3(c, acc.e[2], I(i))>>)
EvHelp(N, n, i, cnt, acc, env) ==
  IF i >= cnt THEN (IF n.x = "argmin" THEN acc.e[2] ELSE acc)
  ELSE EvHelp(N, n, i + 1, cnt, HelpStep(n.x, acc, EvBody(N, n, (n.b[1] :> I(i)) @@ env), i), env)

(* v[:, k, :]  --  items of the pattern are "all" or the next operand.     *)
EvSlice(v, pat, k, ops) ==
  IF v.s = "p" THEN v
  ELSE IF k > Len(pat) THEN v
  ELSE IF pat[k] = "all"
       THEN IF Len(v.e) = 0 THEN VecV(<<>>, Proto(EvSlice(v.p, pat, k + 1, ops)))
            ELSE VecV([i \in 1..Len(v.e) |-> EvSlice(v.e[i], pat, k + 1, ops)], Nil)
       ELSE EvSlice(GetV(v, Head(ops)), pat, k + 1, Tail(ops))

EvNode(N, h, env) ==
  LET n == N[h]  A(i) == V(N, n.a[i], env) IN
  CASE n.op = "const" -> n.x
    [] n.op \in Symbols -> env[h]
    [] n.op = "alias" -> A(1)
    [] n.op \in Unary \cup Sugar1 -> Mean1(n.op, A(1))
    [] n.op \in Binary \cup Sugar2 -> Mean2(n.op, A(1), A(2))
    [] n.op = "powi" -> IF n.x >= 0 THEN PowInt(A(1), n.x) ELSE PowInt(Mean2("rdiv", A(1), F(1, 1)), -n.x)
    [] n.op = "where" -> WhereV(A(1), A(2), A(3))
    [] n.op = "get" -> GetV(A(1), A(2))
    [] n.op = "orempty" -> IF A(1).s = "p" THEN A(1)
                           ELSE IF HasPoison(A(3)) THEN A(3)
                           ELSE IF ~SameShape(IF Len(A(1).e) > 0 THEN A(1).e[1] ELSE A(1).p, A(3)) THEN Poison("default of another shape")
                           ELSE IF Len(A(1).e) > 0 THEN GetV(A(1), A(2)) ELSE A(3)
    [] n.op = "size" -> LenAt(A(1), n.x)
    [] n.op = "slice" -> EvSlice(A(1), n.x, 1, TLCEval([i \in 1..(Len(n.a) - 1) |-> A(i + 1)]))
    [] n.op = "concat" -> ConcatV(A(1), A(2))
    [] n.op = "mk" -> RecV([i \in 1..Len(n.a) |-> A(i)])
    [] n.op = "proj" -> IF A(1).s = "p" THEN A(1) ELSE A(1).e[n.x]
    [] n.op = "assume" -> A(1)
    [] n.op = "ext" -> ExtMean(n.x, TLCEval([i \in 1..Len(n.a) |-> A(i)]))
    [] n.op = "let" -> V(N, n.a[2], EvSeq(N, n.cone, 1, (n.b[1] :> A(1)) @@ env))
    [] n.op = "array" ->
         LET sv == TLCEval([k \in 1..Len(n.b) |-> SizeVal(N, n.szs[k], env)]) IN
         IF \E k \in 1..Len(n.b) : sv[k].s = "p" THEN Poison("array size")
         ELSE IF \E k \in 1..Len(n.b) : sv[k].v < 0 THEN Poison("negative array size")
         ELSE LET r == EvArr(N, n, TLCEval([k \in 1..Len(n.b) |-> sv[k].v]), 1, env)
              IN IF HasPoison(r) THEN Poison("array element") ELSE IF Rectangular(r) THEN r ELSE Poison("ragged array")
    [] n.op = "fold" ->
         LET sv == SizeVal(N, n.szs[1], env) IN
         IF sv.s = "p" THEN sv
         ELSE EvFold(N, n, 0, sv.v, (n.b[2] :> A(1)) @@ env)
    [] n.op \in {"ffold", "rfold"} ->
         LET sv == SizeVal(N, n.szs[1], env) IN
         IF sv.s = "p" THEN sv
         ELSE IF n.op = "rfold" /\ sv.v < 0 THEN Poison("negative array size")
         ELSE EvHelp(N, n, 0, sv.v, HelpInit(n.x), env)
    [] n.op = "reduce" ->
         LET v == A(2) IN
         IF v.s = "p" THEN v
         ELSE IF HasPoison(A(1)) THEN A(1)
         ELSE IF Len(v.e) = 0 THEN A(1)
         ELSE IF ~SameShape(v.e[1], A(1)) /\ ~IsIdentity(N, n, v.e, A(1), env) THEN Poison("identity of another shape")
         ELSE EvRed(N, n, Tail(v.e), Head(v.e), env)

(***************************************************************************)
(* Construction.                                                           *)
(***************************************************************************)
Refuse(why) == [ok |-> FALSE, why |-> why]

SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
UnionFv(N, hs) == UNION {N[h].fv : h \in hs}

Cone(N, body, syms) ==
  LET S == IF N[body].fv \cap syms # {} /\ N[body].op \notin Symbols
           THEN ConeSet(N, {body}, syms) ELSE {}
  IN SetToSortSeq(S, <)

(* the node, given its type t, sizes szs *)
Made(N, c, t, szs) ==
  LET h == Len(N) + 1
      A == SetOf(c.a)
      Bd == SetOf(c.b)
      isb == c.op \in Binders \cup {"let"}
      body == IF isb THEN c.a[Len(c.a)] ELSE 0
      szn == UNION {{szs[k][i].h : i \in 1..Len(szs[k])} : k \in 1..Len(szs)}
      szfv == UNION {UNION {SizeFv(N, szs[k][i]) : i \in 1..Len(szs[k])} : k \in 1..Len(szs)}
      outer == IF isb THEN SetOf(SubSeq(c.a, 1, Len(c.a) - 1)) ELSE A
      cone == IF isb THEN Cone(N, body, Bd) ELSE <<>>
      coneset == SetOf(cone)
      inner == IF isb THEN ((UNION {N[n].uses : n \in coneset}) \cup {body}) \ (coneset \cup Bd) ELSE {}
      fv == IF c.op \in Symbols THEN {h}
            ELSE IF c.op \in {"where", "slice"} /\ Len(szs) > 0 THEN UnionFv(N, A)
            ELSE (UnionFv(N, outer) \cup szfv \cup (IF isb THEN N[body].fv \ Bd ELSE {}))
      uses == outer \cup (IF c.op \in {"where", "slice"} THEN {} ELSE szn) \cup inner
      pre == [op |-> c.op, a |-> c.a, b |-> c.b, x |-> c.x, t |-> t, fv |-> fv, szs |-> szs,
              cone |-> cone, uses |-> {u \in uses : N[u].op \notin Symbols \/ TRUE},
              bs |-> Bd \cup UNION {N[n].bs : n \in A \cup szn},
              dg |-> (IF c.op \in {"get", "orempty", "slice"} THEN {h} ELSE {}) \cup UNION {N[n].dg : n \in A \cup szn},
              val |-> Nil]
  IN [pre EXCEPT !.val = IF fv = {} THEN EvNode(Append(N, pre), h, <<>>) ELSE Nil]

Ok(N, c, t, szs) == [ok |-> TRUE, node |-> Made(N, c, t, szs)]

Typed(N, c, t, why) == IF t.k = "none" THEN Refuse(why) ELSE Ok(N, c, t, <<>>)

(* Size expressions of a binder over index symbols ss: given or inferred. *)
Sizes(N, ss, given, body, captured) ==
  IF Len(given) > 0
  THEN TLCEval([k \in 1..Len(ss) |-> <<[h |-> given[k], ax |-> -1, z |-> FALSE]>>])
  ELSE TLCEval([k \in 1..Len(ss) |-> Join(Candidates(N, body, ss[k], captured))])

SizeProblem(N, szs, isArray) ==
  IF \E k \in 1..Len(szs) : Len(szs[k]) = 0 THEN "value"
  ELSE IF \E k \in 1..Len(szs) : Len(szs[k]) > 0 /\ szs[k][1].ax = -1
            /\ (N[szs[k][1].h].t.k # "i"
                \/ (isArray /\ ~szs[k][1].z /\ \E s \in N[szs[k][1].h].fv : IsIndex(N, s)))
       THEN "type"
  ELSE "none"

(* The type of v[pattern], or NoType *)
RECURSIVE SliceType(_, _, _, _)
SliceType(t, pat, k, its) ==
  IF k > Len(pat) THEN t
  ELSE IF t.k # "v" THEN NoType
  ELSE IF pat[k] = "all" THEN LET r == SliceType(t.e, pat, k + 1, its) IN IF r.k = "none" THEN r ELSE TV(r)
  ELSE IF Head(its).k # "i" THEN NoType
  ELSE SliceType(t.e, pat, k + 1, Tail(its))

RECURSIVE SliceRoot(_, _, _)
SliceRoot(N, c, k) == IF c.x[k] = "all" THEN k - 1 ELSE SliceRoot(N, c, k + 1)

Construct(N, c) ==
  LET T(i) == N[c.a[i]].t IN
  CASE c.op = "const" -> Ok(N, c, c.t, <<>>)
    [] c.op \in Symbols -> Ok(N, c, c.t, <<>>)
    [] c.op \in Unary \cup Sugar1 ->
         IF IsKind(T(1)) THEN Typed(N, c, OpType1(c.op, T(1)), "type") ELSE Refuse("type")
    [] c.op \in Binary \cup Sugar2 ->
         IF IsKind(T(1)) /\ IsKind(T(2)) THEN Typed(N, c, OpType2(c.op, T(1), T(2)), "type") ELSE Refuse("type")
    [] c.op = "powi" ->
         IF ~IsNum(T(1)) \/ (c.x < 0 /\ T(1).k # "f") THEN Refuse("type") ELSE Ok(N, c, T(1), <<>>)
    [] c.op = "where" ->
         IF T(1).k # "b" \/ ~TypeEq(T(2), T(3)) \/ T(2).k = "r" THEN Refuse("any")
         ELSE IF T(2).k = "v"
              THEN Ok(N, c, T(2), <<ZeroIdx(DimOf(N, c.a[2], 0) \o DimOf(N, c.a[3], 0))>>)
              ELSE Ok(N, c, T(2), <<>>)
    [] c.op = "get" ->
         IF T(1).k # "v" \/ T(2).k # "i" THEN Refuse("type") ELSE Ok(N, c, T(1).e, <<>>)
    [] c.op = "orempty" ->
         IF T(1).k # "v" THEN Refuse("any")
         ELSE IF T(2).k # "i" \/ ~TypeEq(T(1).e, T(3)) THEN Refuse("any")
         ELSE Ok(N, c, T(3), <<>>)
    [] c.op = "size" -> IF T(1).k # "v" THEN Refuse("any") ELSE Ok(N, c, TI, <<>>)
    [] c.op = "slice" ->
         LET t == SliceType(T(1), c.x, 1, TLCEval([i \in 1..(Len(c.a) - 1) |-> T(i + 1)])) IN
         IF t.k = "none" THEN Refuse("any")
         ELSE IF \E k \in 1..Len(c.x) : c.x[k] = "all"
              THEN Ok(N, c, t, <<ZeroIdx(DimOf(N, c.a[1], SliceRoot(N, c, 1)))>>)
              ELSE Ok(N, c, t, <<>>)
    [] c.op = "concat" ->
         IF T(1).k # "v" \/ ~TypeEq(T(1), T(2)) THEN Refuse("any") ELSE Ok(N, c, T(1), <<>>)
    [] c.op = "mk" -> Ok(N, c, TR(c.x.g, c.x.n, TLCEval([i \in 1..Len(c.a) |-> T(i)])), <<>>)
    [] c.op = "proj" ->
         LET r == Resolve(N, c.a[1]) IN
         IF T(1).k # "r" THEN Refuse("any")
         ELSE IF N[r].op = "mk"
              THEN Ok(N, [c EXCEPT !.op = "alias", !.a = <<N[r].a[c.x]>>], T(1).e[c.x], <<>>)
              ELSE Ok(N, c, T(1).e[c.x], <<>>)
    [] c.op = "assume" -> Ok(N, c, T(1), <<>>)
    [] c.op = "ext" ->
         IF Len(c.a) # Len(ExtArgs(c.x)) THEN Refuse("any")
         ELSE IF \E i \in 1..Len(c.a) : HasRec(T(i)) THEN Refuse("shape")
         ELSE IF \E i \in 1..Len(c.a) : ~TypeEq(T(i), ExtArgs(c.x)[i]) THEN Refuse("type")
         ELSE Ok(N, c, ExtRes(c.x), <<>>)
    [] c.op = "let" -> Ok(N, c, N[c.a[2]].t, <<>>)
    [] c.op = "array" ->
         LET body == c.a[1]
             szs == Sizes(N, c.b, c.sz, body, SetOf(c.b) \cup N[body].bs)
             pr == SizeProblem(N, szs, TRUE)
         IN IF pr # "none" THEN Refuse(pr)
            ELSE Ok(N, c, FoldLeft(LAMBDA t, s : TV(t), N[body].t, c.b), szs)
    [] c.op = "fold" ->
         LET body == c.a[2]
             szs == Sizes(N, <<c.b[1]>>, c.sz, body, SetOf(c.b) \cup N[body].bs)
             pr == SizeProblem(N, szs, FALSE)
         IN IF ~TypeEq(T(1), T(2)) THEN Refuse(IF pr = "none" THEN "shape" ELSE "any")
            ELSE IF pr # "none" THEN Refuse(pr)
            ELSE Ok(N, c, T(1), szs)
    [] c.op \in {"ffold", "rfold"} ->
         LET body == c.a[1]
             szs == Sizes(N, c.b, c.sz, body, SetOf(c.b) \cup N[body].bs)
             pr == SizeProblem(N, szs, c.op = "rfold")
         IN IF N[body].t.k # "f" THEN Refuse("any")
            ELSE IF pr # "none" THEN Refuse(pr)
            ELSE Ok(N, c, IF c.x = "argmin" THEN TI ELSE TF, szs)
    [] c.op = "reduce" ->
         \* a = <<init, vector, body>>
         IF T(2).k # "v" THEN Refuse("any")
         ELSE IF ~TypeEq(T(2).e, T(3)) \/ ~TypeEq(T(1), T(3)) THEN Refuse("type")
         ELSE Ok(N, c, T(3), <<>>)
=============================================================================
