------------------------------ MODULE EinTrace ------------------------------
(***************************************************************************)
(* Trace validation: a file of traces recorded from the real library is    *)
(* replayed as behaviours of the Ein specification.  Every trace gets a    *)
(* total verdict, so that one disagreement does not hide the others.       *)
(*                                                                         *)
(* Events                                                                  *)
(*   build  c, out      a combinator call and what it built or raised      *)
(*   eval   h, env, out an evaluation and its result (or exception)        *)
(*   read   id, out     a user array looked at again                       *)
(*   grad   h, wrt, env, w, out  derivative of sum(w * h) w.r.t. a symbol  *)
(*   ticks  h, n, f     how often an evaluation of h ran host function f   *)
(*   trace  f, key      a staged function starts tracing its body          *)
(*   traced syms, h     ... and has a program for it                       *)
(*   call   f, key, ..  a call of a staged function and its result         *)
(*   print  h, what     a program printed (twice) or graphed               *)
(*   refuse what        a use of a staged value that Python must refuse    *)
(***************************************************************************)
EXTENDS EinCore, Json, IOUtils

Input == JsonDeserialize(IOEnv.EIN_TRACES)
Traces == Input.traces

VARIABLES t,      \* which trace
          l,      \* which event of it is next
          N,      \* the program built so far
          S       \* staged functions: key -> [syms, h], the arguments and the result

vars == <<t, l, N, S>>

Void == [op |-> "void", a |-> <<>>, b |-> <<>>, x |-> 0, t |-> NoType, fv |-> {}, szs |-> <<>>,
         cone |-> <<>>, uses |-> {}, bs |-> {}, dg |-> {}, val |-> Poison("void")]

(***************************************************************************)
(* Comparing an expected value with an observed array [k, sh, d]:          *)
(* kind, shape, flat data; an element is <<"e", n, d>> if it is the exact  *)
(* number n/d and <<"o", 0, 0>> otherwise.                                 *)
(***************************************************************************)
RECURSIVE Shape(_)
Shape(x) == IF x.s = "v" THEN <<Len(x.e)>> \o Shape(IF Len(x.e) = 0 THEN x.p ELSE x.e[1]) ELSE <<>>

RECURSIVE Flat(_)
Flat(x) == IF x.s = "v" THEN FlattenSeq(TLCEval([i \in 1..Len(x.e) |-> Flat(x.e[i])])) ELSE <<x>>

RECURSIVE BaseKind(_)
BaseKind(ty) == IF ty.k = "v" THEN BaseKind(ty.e) ELSE ty.k

Num(x) == CASE x.s = "i" -> <<"e", x.v, 1>>
            [] x.s = "f" -> <<"e", x.v[1], x.v[2]>>
            [] x.s = "b" -> <<"e", IF x.v THEN 1 ELSE 0, 1>>

Agree(x, o) == x.s \in {"u", "x", "d"} \/ (o[1] = "e" /\ Num(x) = <<o[1], o[2], o[3]>>)

CompareValue(x, ty, out) ==
  LET fl == Flat(x)
      bad == {i \in 1..Len(fl) : ~Agree(fl[i], out.d[i])}
      def == SelectSeq(TLCEval([i \in 1..Len(fl) |-> [p |-> i, e |-> fl[i]]]), LAMBDA r : r.e.s = "x")
  IN IF out.sh # Shape(x) THEN [v |-> "fail", clause |-> "shape", want |-> Shape(x), at |-> 0, def |-> <<>>]
     ELSE IF out.k # BaseKind(ty) THEN [v |-> "fail", clause |-> "kind", want |-> BaseKind(ty), at |-> 0, def |-> <<>>]
     ELSE IF bad # {} THEN [v |-> "fail", clause |-> "value", want |-> fl[Min(bad)], at |-> Min(bad), def |-> <<>>]
     ELSE [v |-> "ok", clause |-> "", want |-> "", at |-> 0, def |-> def]

Fine == [v |-> "ok", clause |-> "", want |-> "", at |-> 0, def |-> <<>>]
Undefined == [v |-> "undef", clause |-> "", want |-> "", at |-> 0, def |-> <<>>]
Fail(clause, want) == [v |-> "fail", clause |-> clause, want |-> want, at |-> 0, def |-> <<>>]

(* Exceptions that count as each kind of refusal. *)
Allowed(why) ==
  CASE why = "type"  -> {"TypeError", "AttributeError"}
    [] why = "value" -> {"ValueError"}
    [] why = "shape" -> {"TypeError", "ValueError", "AttributeError"}
    [] OTHER -> {"TypeError", "ValueError", "AssertionError", "AttributeError", "KeyError", "IndexError"}

JudgeBuild(r, ev) ==
  IF r.ok
  THEN IF ~ev.out.ok THEN Fail("refused", r.node.t)
       ELSE IF "hidden" \notin DOMAIN ev.out /\ ~TypeEq(r.node.t, ev.out.t) THEN Fail("type", r.node.t)
       ELSE Fine
  ELSE IF ev.out.ok THEN Fail("accepted", r.why)
       ELSE IF ev.out.exc \notin Allowed(r.why) THEN Fail("exception", r.why)
       ELSE Fine

(* A call that was refused before its body was traced: the body is not a  *)
(* node.  Only a reduction over something that is no vector may do that.  *)
Dangling(M, c) == \E i \in 1..Len(c.a) : c.a[i] > Len(M)
EarlyRefusal(M, c) ==
  IF c.op = "reduce" /\ c.a[2] <= Len(M) /\ M[c.a[2]].t.k # "v" THEN Refuse("any")
  ELSE [ok |-> TRUE, node |-> Void]
ConstructOrRefuse(M, c) == IF Dangling(M, c) THEN EarlyRefusal(M, c) ELSE Construct(M, c)

EnvOf(ev) == FoldLeft(LAMBDA f, p : (p.h :> p.v) @@ f, <<>>, ev.env)

EvalAt(M, h, env) ==
  IF M[h].fv = {} THEN M[h].val
  ELSE V(M, h, EvSeq(M, Cone(M, h, DOMAIN env), 1, env))

(* Vectorising backends cannot run loops whose number of iterations varies *)
(* from element to element of an enclosing comprehension.                  *)
RECURSIVE Varies(_, _)
Varies(M, h) == CASE M[h].op = "size" -> FALSE
                  [] M[h].op = "idx" -> TRUE
                  [] M[h].op \in Binders \cup {"let"} -> \E s \in M[h].fv : IsIndex(M, s)
                  [] OTHER -> \E i \in 1..Len(M[h].a) : Varies(M, M[h].a[i])
RECURSIVE Reach(_, _)
Reach(M, S0) == LET T == S0 \cup UNION {M[n].uses \cup SetOf(M[n].cone) \cup SetOf(M[n].a) : n \in S0}
                IN IF T = S0 THEN S0 ELSE Reach(M, T)
VaryingLoop(M, h) ==
  \E n \in Reach(M, {h}) : /\ M[n].op \in {"fold", "ffold"}
                           /\ M[n].szs[1][1].ax = -1
                           /\ Varies(M, M[n].szs[1][1].h)

(* Loops whose accumulator changes its length (or may); jax refuses them.  *)
GrowingLoop(M, h) ==
  \E n \in Reach(M, {h}) :
    /\ M[n].op = "fold"
    /\ \E q \in Reach(M, {M[n].a[2]}) :
         \/ M[q].op \in {"concat", "orempty"} /\ M[n].b[2] \in M[q].fv
         \/ M[q].op = "array" /\ \E k \in 1..Len(M[q].szs) :
              M[q].szs[k][1].ax = -1 /\ M[M[q].szs[k][1].h].fv \cap SetOf(M[n].b) # {}

JudgeEval(M, ev) ==
  LET env == EnvOf(ev)  h == ev.h IN
  IF "envchanged" \in DOMAIN ev THEN Fail("environment", "unchanged")
  ELSE IF ~(M[h].fv \subseteq DOMAIN env)
  THEN IF ev.out.ok THEN Fail("free", "ValueError")
       ELSE IF ev.out.exc # "ValueError" THEN Fail("free", "ValueError") ELSE Fine
  ELSE LET x == EvalAt(M, h, env) IN
       IF HasPoison(x) THEN Undefined
       ELSE IF ~ev.out.ok
            THEN IF ev.back # "naive" /\ ev.out.exc = "AssertionError" /\ VaryingLoop(M, h) THEN Undefined
                 ELSE IF ev.back = "jax" /\ ev.out.exc = "TypeError" /\ GrowingLoop(M, h) THEN Undefined
                 ELSE Fail("error", Shape(x))
       ELSE CompareValue(x, M[h].t, ev.out)

JudgeRead(M, ev) ==
  IF ev.out.same THEN Fine ELSE Fail("mutated", ev.id)

JudgeRefuse(ev) == IF ev.out.ok THEN Fail("accepted", "TypeError")
                   ELSE IF ev.out.exc # "TypeError" THEN Fail("exception", "TypeError") ELSE Fine

(***************************************************************************)
(* Derivatives: evaluate with dual numbers, one partial per element of the *)
(* symbol, and contract the partials with the weights.                     *)
(***************************************************************************)
RECURSIVE Lift(_, _, _)
Lift(x, base, width) ==
  IF x.s = "v"
  THEN LET step == IF Len(x.e) = 0 THEN 0 ELSE Len(Flat(x.e[1]))
       IN VecV([i \in 1..Len(x.e) |-> Lift(x.e[i], base + (i - 1) * step, width)], x.p)
  ELSE Dual(x, [i \in 1..width |-> IF i = base THEN One ELSE Zero])

RECURSIVE WSum(_, _, _, _)
WSum(fl, w, j, k) == IF k > Len(fl) THEN Zero
                     ELSE Op2b("add", MulZ(w[k], Part(fl[k], j)), WSum(fl, w, j, k + 1))

JudgeGrad(M, ev) ==
  LET env == EnvOf(ev)
      x0 == env[ev.wrt]
      width == Len(Flat(x0))
      res == EvalAt(M, ev.h, (ev.wrt :> Lift(x0, 1, width)) @@ env)
      fl == Flat(res)
      want == TLCEval([j \in 1..width |-> WSum(fl, ev.w, j, 1)])
      bad == {j \in 1..width : ~Agree(want[j], ev.out.d[j])}
      \* an identity may or may not take part in a reduction, which shows in gradients with respect to it only
      unit == \E n \in Reach(M, {ev.h}) : M[n].op \in {"reduce", "rfold"} /\ ev.wrt \in Reach(M, {M[n].a[1]})
  IN IF unit \/ HasPoison(res) \/ \E k \in 1..Len(fl) : fl[k].s = "u" THEN Undefined
     ELSE IF ~ev.out.ok THEN Fail("error", want)
     ELSE IF ev.out.sh # Shape(x0) THEN Fail("shape", Shape(x0))
     ELSE IF bad # {} THEN [v |-> "fail", clause |-> "gradient", want |-> want[Min(bad)], at |-> Min(bad), def |-> <<>>]
     ELSE [Fine EXCEPT !.def = SelectSeq(TLCEval([i \in 1..width |-> [p |-> i, e |-> want[i]]]), LAMBDA r : r.e.s = "x")]

(***************************************************************************)
(* How much work is allowed.  Calls with equal operands are one            *)
(* computation; it may be repeated only by the loops it depends on.        *)
(***************************************************************************)
RECURSIVE Same(_, _, _)
Same(M, p0, q0) ==
  LET p == Resolve(M, p0)  q == Resolve(M, q0) IN
  p = q \/ ( /\ M[p].op = M[q].op
              /\ M[p].op \notin Symbols \cup Binders \cup {"let", "slice"}
              /\ TypeEq(M[p].t, M[q].t)
              /\ IF M[p].op = "const" THEN M[p].t.k # "v" /\ M[p].x = M[q].x
                 ELSE /\ M[p].x = M[q].x
                      /\ Len(M[p].a) = Len(M[q].a)
                      /\ \A i \in 1..Len(M[p].a) : Same(M, M[p].a[i], M[q].a[i]))

Binder(M, R, s) == CHOOSE n \in R : s \in SetOf(M[n].b)

(* symbols a computation hangs on, through the sizes of the indices and    *)
(* everything the loops around it need                                     *)
RECURSIVE Hangs(_, _, _)
Hangs(M, R, X0) ==
  LET T == X0 \cup UNION {LET n == M[Binder(M, R, s)] IN
                           IF M[s].op = "idx" THEN UNION {UNION {SizeFv(M, n.szs[k][i]) : i \in 1..Len(n.szs[k])} : k \in 1..Len(n.szs)}
                           ELSE n.fv
                         : s \in {s \in X0 : \E n \in R : s \in SetOf(M[n].b)}}
  IN IF T = X0 THEN X0 ELSE Hangs(M, R, T)

(* iterations of a loop whose length is a constant; 0 if it is not *)
Trips(M, n) ==
  IF n.op = "reduce" THEN (IF M[n.a[2]].fv = {} THEN Len(M[n.a[2]].val.e) ELSE 0)
  ELSE LET sv == IF \A i \in 1..Len(n.szs[1]) : M[n.szs[1][i].h].fv = {} THEN SizeVal(M, n.szs[1], <<>>) ELSE Poison("") IN
       IF sv.s # "i" THEN 0 ELSE IF sv.v < 1 THEN 1 ELSE sv.v

RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE Head(q) * Product(Tail(q))
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumOf(Tail(q))

(* 0: not known *)
WorkOf(M, R, e) ==
  LET syms == Hangs(M, R, M[e].fv)
      loops == {n \in R : M[n].op \in {"fold", "ffold", "reduce"} /\ SetOf(M[n].b) \cap syms # {}}
  IN Product(TLCEval([i \in 1..Cardinality(loops) |-> LET n == M[SetToSortSeq(loops, <)[i]] t1 == Trips(M, n) IN
                         IF n.op = "reduce" /\ t1 = 0 /\ M[n.a[2]].fv = {} THEN 1 ELSE t1]))

(* The size of something that varies is the size at index zero, for which  *)
(* calls in it may be made once more: <<binder, axis, candidate, call>>.   *)
ZeroCalls(M, R, reps) ==
  {q \in {<<n, k, i, e>> : n \in {n \in R : Len(M[n].szs) > 0}, k \in 1..3, i \in 1..8, e \in reps} :
     /\ q[2] <= Len(M[q[1]].szs) /\ q[3] <= Len(M[q[1]].szs[q[2]])
     /\ LET c == M[q[1]].szs[q[2]][q[3]] IN
          /\ c.z /\ \E s \in M[c.h].fv : IsIndex(M, s)
          /\ q[4] \in Reach(M, {c.h})}

JudgeTicks(M, ev) ==
  LET R == Reach(M, {ev.h})
      es == {n \in R : M[n].op = "ext" /\ M[n].x = ev.f}
      reps == {n \in es : \A m \in es : m < n => ~Same(M, m, n)}
      again == SetToSeq(ZeroCalls(M, R, reps))
      works == TLCEval([i \in 1..Cardinality(reps) |-> WorkOf(M, R, SetToSortSeq(reps, <)[i])]
                       \o [i \in 1..Len(again) |-> WorkOf(M, R, again[i][4])])
  IN IF \E i \in 1..Len(works) : works[i] = 0 THEN Undefined
     ELSE IF ev.n > SumOf(works) THEN Fail("work", SumOf(works)) ELSE Fine

(***************************************************************************)
(* Printing: succeeds, is stable, and mentions every operation (programs   *)
(* without records, whose unused components are legitimately dropped).     *)
(***************************************************************************)
Cap(o) == CASE o = "exp" -> "Exp" [] o = "sin" -> "Sin" [] o = "cos" -> "Cos" [] o = "min" -> "Min" [] o = "max" -> "Max"
Mention(o) ==   \* any of these stands for the operation
  CASE o = "add" -> {"+", "Add"}
    [] o = "sub" -> {"-", "Subtract"}
    [] o = "neg" -> {"-", "Negate"}
    [] o = "mul" -> {"*", "Multiply"}
    [] o \in {"exp", "sin", "cos", "min", "max"} -> {o, Cap(o)}
    [] o = "mod" -> {"modulo", "Modulo"}
    [] o \in {"lt", "gt"} -> {"less", "Less"}
    [] o \in {"le", "ge"} -> {"lessequal", "LessEqual"}
    [] o = "eq" -> {"equal", "Equal"}
    [] o = "ne" -> {"notequal", "NotEqual"}
    [] o = "and" -> {"logicaland", "LogicalAnd"}
    [] o = "or" -> {"logicalor", "LogicalOr"}
    [] o = "not" -> {"logicalnot", "LogicalNot"}
    [] o = "recip" -> {"reciprocal", "Reciprocal"}
    [] o = "pow" -> {"power", "Power"}
    [] o = "float" -> {"casttofloat", "CastToFloat"}
    [] o \in {"fold", "ffold"} -> {"fold", "Fold"}
    [] o \in {"reduce", "rfold"} -> {"reduce", "Reduce"}
    [] o = "array" -> {"for", "Vec"}
    [] o = "where" -> {"if", "Where"}
    [] o = "concat" -> {"Concat", "concat"}
    [] o = "ext" -> {"Extrinsic", "extrinsic"}
    [] OTHER -> {}

RECURSIVE Shown(_, _)     \* x ** 0 is one, whatever x is
Shown(M, S0) == LET T == S0 \cup UNION {SetOf(M[n].a) : n \in {m \in S0 : ~(M[m].op = "powi" /\ M[m].x = 0)}}
                IN IF T = S0 THEN S0 ELSE Shown(M, T)
JudgePrint(M, ev) ==
  LET R == Shown(M, {ev.h})
      plain == \A n \in R : ~HasRec(M[n].t)
      must == IF plain /\ ev.what = "phi" THEN {Mention(M[n].op) : n \in R} \ {{}} ELSE {}
  IN IF ~ev.out.ok THEN Fail("error", ev.what)
     ELSE IF ~ev.out.same THEN Fail("unstable", ev.what)
     ELSE IF \E m \in must : m \cap SetOf(ev.out.toks) = {} THEN Fail("omitted", CHOOSE m \in must : m \cap SetOf(ev.out.toks) = {})
     ELSE Fine

(***************************************************************************)
(* Staged functions.                                                       *)
(***************************************************************************)
JudgeTrace(ev) == IF ev.key \in DOMAIN S THEN Fail("traced again", ev.key) ELSE Fine

JudgeCall(M, ev) ==
  IF ev.mismatch   \* the arguments contradict the declared signature
  THEN IF ev.out.ok THEN Fail("accepted", "TypeError")
       ELSE IF ev.out.exc # "TypeError" THEN Fail("exception", "TypeError") ELSE Fine
  ELSE IF ev.key \notin DOMAIN S
  THEN \* no program: its body was refused just now, and so must be the call
       IF ev.out.ok THEN Fail("untraced", ev.key)
       ELSE IF ~ev.refused THEN Fail("error", ev.key) ELSE Fine
  ELSE LET st == S[ev.key]
           env == FoldLeft(LAMBDA f, i : (st.syms[i] :> ev.args[i]) @@ f, <<>>, TLCEval([i \in 1..Len(st.syms) |-> i]))
           x == EvalAt(M, st.h, env)
       IN IF HasPoison(x) THEN Undefined
          ELSE IF ~ev.out.ok THEN IF ev.boom THEN Fine ELSE Fail("error", Shape(x))
          ELSE IF ev.boom /\ ev.back # "jax" THEN Fail("swallowed", "exception of the host function")
          ELSE CompareValue(x, M[st.h].t, ev.out)

Event == Traces[t].events[l]

Record(j) ==
  IF j.v = "fail"
  THEN TLCSet(1, Append(TLCGet(1), [t |-> t, l |-> l, clause |-> j.clause, want |-> j.want, at |-> j.at]))
  ELSE IF j.v = "undef" THEN TLCSet(3, TLCGet(3) + 1)
  ELSE IF Len(j.def) > 0 THEN TLCSet(2, Append(TLCGet(2), [t |-> t, l |-> l, def |-> j.def]))
  ELSE TRUE

Init == /\ t = 1 /\ l = 1 /\ N = <<>> /\ S = <<>>
        /\ TLCSet(1, <<>>) /\ TLCSet(2, <<>>) /\ TLCSet(3, 0)

NextTrace == t' = t + 1 /\ l' = 1 /\ N' = <<>> /\ S' = <<>>
Advance == t' = t /\ l' = l + 1

Build == /\ Event.ev = "build"
         /\ LET r == ConstructOrRefuse(N, Event.c)  j == JudgeBuild(r, Event)
            IN /\ Record(j)
               /\ IF j.v = "fail" THEN NextTrace
                  ELSE Advance /\ N' = Append(N, IF r.ok THEN r.node ELSE Void) /\ UNCHANGED S

(* Observations leave the program as it is. *)
Observe(j) == Record(j) /\ IF j.v = "fail" /\ ~Traces[t].keep THEN NextTrace ELSE Advance /\ UNCHANGED <<N, S>>

Eval == Event.ev = "eval" /\ Observe(JudgeEval(N, Event))
Read == Event.ev = "read" /\ Observe(JudgeRead(N, Event))
Grad == Event.ev = "grad" /\ Observe(JudgeGrad(N, Event))
Ticks == Event.ev = "ticks" /\ Observe(JudgeTicks(N, Event))
Printed == Event.ev = "print" /\ Observe(JudgePrint(N, Event))
Refused == Event.ev = "refuse" /\ Observe(JudgeRefuse(Event))
StartTrace == Event.ev = "trace" /\ Observe(JudgeTrace(Event))
EndTrace == /\ Event.ev = "traced"
            /\ Advance /\ UNCHANGED N
            /\ S' = (Event.key :> [syms |-> Event.syms, h |-> Event.h]) @@ S
Call == Event.ev = "call" /\ Observe(JudgeCall(N, Event))

Next == /\ t <= Len(Traces)
        /\ IF l > Len(Traces[t].events) THEN NextTrace
           ELSE Build \/ Eval \/ Read \/ Grad \/ Ticks \/ Printed \/ Refused \/ StartTrace \/ EndTrace \/ Call

Spec == Init /\ [][Next]_vars

(* Soundness of the specification itself, checked on every behaviour: each *)
(* closed node has a value of its type.                                    *)
Sound == \A h \in 1..Len(N) : N[h].fv = {} /\ N[h].op # "void" => HasType(N[h].val, N[h].t)
SoundLast == Len(N) > 0 => LET n == N[Len(N)] IN (n.fv = {} /\ n.op # "void") => HasType(n.val, n.t)

View == <<t, l>>

Done == JsonSerialize(IOEnv.EIN_OUT,
          [fails |-> TLCGet(1), deferred |-> TLCGet(2), undef |-> TLCGet(3),
           processed |-> TLCGet("level")])
=============================================================================
