------------------------------ MODULE MCSpine ------------------------------
(***************************************************************************)
(* All small programs.  A behaviour grows one term from a leaf, each step  *)
(* putting it into a one-hole context of the language; every term within   *)
(* the bounds is reached and emitted, to be replayed on the real library;  *)
(* MCSpineSound type-checks and evaluates it in EinCore.                   *)
(*                                                                         *)
(* Terms are [o, a, x]: operator, operands, extra text.  Indices are       *)
(* written by name ("i", "j") and bound by name, innermost binder wins.    *)
(* Inputs: V, W float vectors of length 3 and 2, M a 2x3 matrix, K an int  *)
(* vector of length 3.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS Depth,      \* how many contexts
          Families,   \* which kinds of contexts
          Leaves      \* which leaves to start from

T3(o, a, x) == [o |-> o, a |-> a, x |-> x]
\* (written out: TLC's level analysis is exponential in nested definitions)
Num3(s) == [o |-> "num", a |-> <<>>, x |-> s]
In(n) == [o |-> "in", a |-> <<>>, x |-> n]
Id(n) == [o |-> "id", a |-> <<>>, x |-> n]
O1(o, p) == [o |-> o, a |-> <<p>>, x |-> ""]
O2(o, p, q) == [o |-> o, a |-> <<p, q>>, x |-> ""]
At(v, p) == [o |-> "get", a |-> <<v, p>>, x |-> ""]
Arr(n, b) == [o |-> "array", a |-> <<b>>, x |-> n]              \* size inferred
ArrN(n, b, s) == [o |-> "array", a |-> <<b, s>>, x |-> n]

i == Id("i")  j == Id("j")  acc == Id("a")  it == Id("it")
VI == At(In("V"), i)  WJ == At(In("W"), j)  VJ == At(In("V"), j)  WI == At(In("W"), i)
MIJ == At(At(In("M"), i), j)  MJI == At(At(In("M"), j), i)

Start == [f  |-> {Num3("1.5"), VI, WJ, VJ, MIJ, MJI, O1("float", i), O2("mul", VI, WJ)},
          i  |-> {i, j, At(In("K"), i), Num3("1"), O2("add", i, j)},
          vf |-> {In("V"), In("W"), At(In("M"), i), At(In("M"), j)},
          vvf |-> {In("M")}]

(* contexts: from type, to type, family, the term built around h *)
CtxF(h) ==
  [ew |-> {<<"f", O2("add", h, Num3("1.5"))>>, <<"f", O2("sub", Num3("2.0"), h)>>, <<"f", O2("mul", h, VI)>>,
           <<"f", O2("mul", WJ, h)>>, <<"f", O2("min", h, Num3("0.5"))>>, <<"f", O2("max", VJ, h)>>, <<"f", O1("neg", h)>>,
           <<"f", O2("add", MIJ, h)>>},
   whr |-> {<<"f", T3("where", <<O2("lt", h, Num3("0.5")), h, VJ>>, "")>>,
            <<"f", T3("where", <<O2("lt", i, j), h, Num3("1.0")>>, "")>>,
            <<"f", T3("where", <<O2("eq", i, Num3("1")), WJ, h>>, "")>>},
   arr |-> {<<"vf", Arr("i", h)>>, <<"vf", Arr("j", h)>>, <<"vf", ArrN("i", h, Num3("3"))>>, <<"vf", ArrN("j", h, Num3("2"))>>,
            <<"vf", ArrN("i", h, Num3("0"))>>, <<"vf", ArrN("j", h, T3("size", <<In("V")>>, "0"))>>,
            <<"vvf", Arr("j", Arr("i", h))>>, <<"vvf", ArrN("i", ArrN("j", h, Num3("2")), Num3("2"))>>},
   sum |-> {<<"f", T3("fold", <<Num3("0.0"), O2("add", acc, h)>>, "i")>>,
            <<"f", T3("fold", <<Num3("0.0"), O2("add", h, acc), Num3("2")>>, "j")>>,
            <<"f", T3("fold", <<Num3("1.0"), O2("add", acc, h), Num3("3")>>, "i")>>,
            <<"f", T3("fold", <<Num3("1.0"), O2("mul", acc, h), Num3("3")>>, "i")>>,
            <<"f", T3("fold", <<Num3("9.0"), O2("min", h, acc), Num3("3")>>, "i")>>,
            <<"f", T3("fold", <<Num3("-9.0"), O2("max", acc, h)>>, "j")>>},
   loop |-> {<<"f", T3("fold", <<Num3("1.0"), O2("add", O2("mul", acc, Num3("0.5")), h), Num3("3")>>, "i")>>,
             <<"f", T3("fold", <<h, O2("sub", acc, VI)>>, "i")>>,
             <<"f", T3("fold", <<Num3("0.0"), T3("where", <<O2("lt", acc, h), h, O2("add", acc, Num3("1.0"))>>, ""), Num3("2")>>, "j")>>,
             <<"f", T3("fold", <<h, O2("mul", acc, Num3("2.0")), Num3("0")>>, "i")>>,
             <<"f", T3("fold", <<Num3("2.0"), O2("add", h, O2("add", acc, acc)), Num3("2")>>, "i")>>},
   help |-> {<<"f", T3("ffold:sum", <<h>>, "i")>>, <<"f", T3("rfold:sum", <<h, Num3("3")>>, "i")>>,
             <<"f", T3("rfold:min", <<h>>, "j")>>, <<"f", T3("ffold:max", <<h, Num3("2")>>, "j")>>,
             <<"i", T3("ffold:argmin", <<h, Num3("3")>>, "i")>>, <<"i", T3("rfold:argmin", <<h>>, "i")>>},
   let |-> {<<"f", T3("let", <<h, O2("add", O2("mul", it, it), it)>>, "")>>,
            <<"f", T3("let", <<VI, O2("mul", it, h)>>, "")>>},
   rec |-> {<<"f", T3("proj", <<T3("tup", <<h, i>>, "")>>, "0")>>,
            <<"vf", Arr("i", T3("proj", <<At(ArrN("j", T3("tup", <<VI, h>>, ""), Num3("2")), i)>>, "1"))>>,
            <<"f", T3("proj", <<T3("fold", <<T3("tup", <<Num3("0.0"), Num3("1.0")>>, ""),
                                          T3("tup", <<O2("add", T3("proj", <<acc>>, "0"), h), O2("mul", T3("proj", <<acc>>, "1"), Num3("2.0"))>>, ""), Num3("3")>>, "i")>>, "0")>>},
   ext |-> {<<"f", T3("ext:e_lin3", <<h, VI, WJ>>, "")>>, <<"f", T3("ext:e_lin3", <<WJ, h, Num3("0.5")>>, "")>>},
   tick |-> {<<"f", T3("ext:e_tick", <<h>>, "")>>, <<"f", T3("ext:e_tick2", <<O2("mul", h, Num3("0.5"))>>, "")>>,
             <<"f", O2("add", T3("ext:e_tick", <<h>>, ""), T3("ext:e_tick", <<h>>, ""))>>,
             <<"vf", ArrN("k", O2("mul", T3("ext:e_tick", <<h>>, ""), At(In("V"), Id("k"))), Num3("2"))>>},
   dup |-> {<<"f", O2("sub", O2("mul", h, Num3("0.5")), h)>>, <<"f", T3("where", <<O2("lt", h, Num3("0.5")), h, O2("add", h, Num3("1.0"))>>, "")>>,
            <<"f", T3("fold", <<h, O2("add", O2("mul", acc, Num3("0.5")), h), Num3("3")>>, "k")>>,
            <<"f", T3("fold", <<Num3("0.0"), O2("add", acc, T3("ext:e_tick", <<O2("mul", h, At(In("V"), Id("k")))>>, "")), Num3("3")>>, "k")>>,
            <<"vf", ArrN("k", T3("fold", <<Num3("0.0"), O2("add", O2("mul", acc, Num3("0.5")), h), Num3("2")>>, "i"), Num3("2"))>>}]

CtxI(h) ==
  [ew |-> {<<"f", O1("float", h)>>, <<"f", O2("mul", O1("float", h), WJ)>>},
   ix |-> {<<"i", O2("add", h, Num3("1"))>>, <<"i", O2("sub", h, Num3("2"))>>, <<"i", O2("sub", Num3("2"), h)>>,
           <<"i", O2("mul", h, Num3("2"))>>, <<"i", O2("min", h, Num3("1"))>>, <<"i", O2("max", h, Num3("1"))>>,
           <<"i", O2("min", Num3("2"), h)>>, <<"i", O2("max", Num3("-1"), h)>>, <<"i", O2("max", h, j)>>,
           <<"i", O2("mod", h, Num3("2"))>>, <<"i", At(In("K"), h)>>, <<"i", O2("add", i, h)>>,
           <<"f", At(In("V"), h)>>, <<"f", At(At(In("M"), h), j)>>, <<"f", At(At(In("M"), i), h)>>, <<"f", At(At(In("M"), h), h)>>},
   get |-> {<<"f", At(In("V"), h)>>, <<"f", At(At(In("M"), h), j)>>, <<"f", At(At(In("M"), i), h)>>, <<"vf", At(In("M"), h)>>},
   whr |-> {<<"i", T3("where", <<O2("lt", h, Num3("1")), h, Num3("2")>>, "")>>},
   loop |-> {<<"i", T3("fold", <<Num3("0"), O2("add", acc, h), Num3("2")>>, "i")>>},
   arr |-> {<<"f", At(ArrN("i", O1("float", h), Num3("3")), j)>>}]

CtxV(h) ==
  [get |-> {<<"f", At(h, i)>>, <<"f", At(h, j)>>, <<"f", At(h, Num3("0"))>>, <<"f", At(h, O2("add", i, Num3("1")))>>,
            <<"f", At(h, O2("sub", j, Num3("1")))>>, <<"f", At(h, At(In("K"), i))>>, <<"f", At(h, Num3("7"))>>,
            <<"f", T3("orempty", <<h, i, Num3("0.25")>>, "")>>},
   ix  |-> {<<"f", At(h, i)>>, <<"f", At(h, O2("sub", i, Num3("1")))>>, <<"f", At(h, O2("sub", Num3("1"), j))>>},
   sum |-> {<<"f", T3("fold", <<Num3("0.0"), O2("add", acc, At(h, i))>>, "i")>>,
            <<"f", T3("fold", <<Num3("0.0"), O2("add", acc, O2("mul", At(h, i), VI))>>, "i")>>},
   red |-> {<<"f", T3("reduce", <<Num3("0.0"), h, O2("add", Id("p"), Id("q"))>>, "")>>,
            <<"f", T3("reduce", <<Num3("inf"), h, O2("min", Id("q"), Id("p"))>>, "")>>,
            <<"vf", T3("reduce", <<Arr("k", O2("min", Num3("-inf"), At(h, Id("k")))), ArrN("j", h, Num3("2")), T3("array", <<O2("max", At(Id("p"), i), At(Id("q"), i))>>, "i")>>, "")>>},
   arr |-> {<<"vf", Arr("i", O2("add", At(h, i), Num3("1.0")))>>, <<"vf", ArrN("j", At(h, O2("sub", Num3("2"), j)), Num3("3"))>>,
            <<"vvf", ArrN("i", h, Num3("2"))>>, <<"vvf", ArrN("j", h, Num3("2"))>>,
            <<"vvf", Arr("i", ArrN("j", O2("sub", At(h, i), At(h, j)), Num3("2")))>>,
            <<"i", T3("size", <<h>>, "0")>>},
   cat |-> {<<"vf", O2("concat", h, In("V"))>>, <<"vf", O2("concat", In("W"), h)>>, <<"vf", O2("concat", h, h)>>},
   whr |-> {<<"vf", T3("where", <<O2("lt", i, j), h, h>>, "")>>, <<"vf", T3("where", <<O2("lt", At(h, j), Num3("1.0")), h, O2("concat", h, h)>>, "")>>},
   loop |-> {<<"vf", T3("fold", <<h, T3("array", <<O2("add", At(acc, j), At(h, i))>>, "j"), Num3("2")>>, "i")>>,
             <<"vf", T3("fold", <<h, O2("concat", acc, In("W")), Num3("2")>>, "i")>>,
             <<"vf", T3("fold", <<h, T3("array", <<At(acc, O2("sub", j, Num3("1")))>>, "j"), Num3("2")>>, "i")>>},
   let |-> {<<"f", T3("let", <<h, O2("mul", At(it, i), At(it, Num3("0")))>>, "")>>},
   rec |-> {<<"vf", T3("proj", <<At(ArrN("j", T3("tup", <<j, h>>, ""), Num3("2")), i)>>, "1")>>},
   ext |-> {<<"f", T3("ext:e_wsum", <<h>>, "")>>, <<"vf", T3("ext:e_cums", <<h>>, "")>>, <<"vf", T3("ext:e_scale", <<VI, h>>, "")>>},
   tick |-> {<<"vf", ArrN("k", T3("ext:e_tick", <<At(h, Id("k"))>>, ""), Num3("3"))>>,
             <<"vf", ArrN("k", O2("add", T3("ext:e_tick", <<At(h, Num3("0"))>>, ""), At(h, Id("k"))), Num3("2"))>>},
   dup |-> {<<"vf", O2("concat", h, h)>>, <<"vf", ArrN("k", O2("add", At(h, Id("k")), At(h, i)), Num3("2"))>>,
            <<"f", T3("fold", <<Num3("0.0"), O2("add", O2("mul", acc, Num3("0.5")), O2("mul", At(h, Id("k")), At(h, i))), Num3("2")>>, "k")>>,
            <<"vf", T3("fold", <<h, T3("array", <<O2("add", At(acc, j), At(h, Id("k")))>>, "j"), Num3("2")>>, "k")>>}]

CtxM(h) ==
  [get |-> {<<"vf", At(h, i)>>, <<"vf", At(h, j)>>, <<"vf", At(h, Num3("0"))>>, <<"f", At(At(h, j), i)>>, <<"f", At(At(h, i), i)>>,
            <<"vf", At(h, O2("sub", i, Num3("1")))>>},
   ix  |-> {<<"f", At(At(h, j), O2("add", i, Num3("1")))>>, <<"vf", At(h, At(In("K"), i))>>},
   arr |-> {<<"vvf", Arr("i", Arr("j", At(At(h, j), i)))>>, <<"i", T3("size", <<h>>, "0")>>, <<"i", T3("size", <<h>>, "1")>>,
            <<"vf", Arr("j", At(At(h, j), j))>>, <<"vf", T3("slice", <<h, j>>, "*,0")>>},
   sum |-> {<<"f", T3("fold", <<Num3("0.0"), O2("add", acc, At(At(h, i), i)), Num3("2")>>, "i")>>,
            <<"vf", Arr("j", T3("fold", <<Num3("0.0"), O2("add", acc, O2("mul", At(At(h, i), j), WI)), Num3("2")>>, "i"))>>},
   red |-> {<<"vf", T3("reduce", <<Arr("k", O2("mul", Num3("0.0"), At(At(h, Num3("0")), Id("k")))), h, T3("array", <<O2("add", At(Id("p"), j), At(Id("q"), j))>>, "j")>>, "")>>},
   cat |-> {<<"vvf", O2("concat", h, h)>>, <<"vvf", Arr("i", O2("concat", At(h, i), In("W")))>>}]

Ctx(ty, h) == CASE ty = "f" -> CtxF(h) [] ty = "i" -> CtxI(h) [] ty = "vf" -> CtxV(h) [] ty = "vvf" -> CtxM(h)

VARIABLES tm,    \* the term
          ty,    \* its type
          d      \* contexts left
vars == <<tm, ty, d>>

Init == /\ d = Depth
        /\ \E l \in Leaves : ty = l /\ tm \in Start[l]
Grow(fam) == /\ d > 0
             /\ LET C == Ctx(ty, tm) IN
                /\ fam \in DOMAIN C
                /\ \E c \in C[fam] : ty' = c[1] /\ tm' = c[2]
             /\ d' = d - 1
Next == \E fam \in Families : Grow(fam)
Spec == Init /\ [][Next]_vars

Emit == CSVWrite("%1$s", <<ToJson([t |-> tm, ty |-> ty, d |-> Depth - d])>>, IOEnv.EIN_OUT)
=============================================================================
