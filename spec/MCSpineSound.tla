---------------------------- MODULE MCSpineSound ----------------------------
(***************************************************************************)
(* Every program MCSpine reaches, as a program of EinCore: it has the type *)
(* its contexts promise and its values inhabit that type.                  *)
(***************************************************************************)
EXTENDS MCSpine, EinCore

(***************************************************************************)
(* The term as a program of EinCore, under binders sc: name -> node.       *)
(***************************************************************************)
QOf(s) == CASE s = "0.0" -> F(0, 1) [] s = "1.0" -> F(1, 1) [] s = "1.5" -> F(3, 2) [] s = "2.0" -> F(2, 1) [] s = "0.5" -> F(1, 2)
            [] s = "9.0" -> F(9, 1) [] s = "-9.0" -> F(-9, 1) [] s = "0.25" -> F(1, 4) [] s = "inf" -> Inf [] s = "-inf" -> NegInf
            [] s = "0" -> I(0) [] s = "1" -> I(1) [] s = "2" -> I(2) [] s = "3" -> I(3) [] s = "7" -> I(7) [] s = "-1" -> I(-1)
FV(e) == VecV(e, Nil)
Inputs == [V |-> FV(<<F(1, 1), F(-2, 1), F(4, 1)>>), W |-> FV(<<F(1, 2), F(8, 1)>>),
           M |-> FV(<<FV(<<F(1, 1), F(2, 1), F(-3, 1)>>), FV(<<F(5, 1), F(-1, 2), F(0, 1)>>)>>),
           K |-> FV(<<I(2), I(-1), I(1)>>)]
InType == [V |-> TV(TF), W |-> TV(TF), M |-> TV(TV(TF)), K |-> TV(TI)]

Call(o, a, b, sz, x, t) == [op |-> o, a |-> a, b |-> b, sz |-> sz, x |-> x, t |-> t]
App(N, c) == LET r == Construct(N, c) IN [ok |-> r.ok, N |-> IF r.ok THEN Append(N, r.node) ELSE N, h |-> Len(N) + 1]
Bad(N) == [ok |-> FALSE, N |-> N, h |-> 0]
Sym(N, k, t) == App(N, Call(k, <<>>, <<>>, <<>>, 0, t))

HelperOp == [k \in {"ffold:sum", "ffold:max", "ffold:argmin", "rfold:sum", "rfold:min", "rfold:argmin"} |->
             CASE k = "ffold:sum" -> <<"ffold", "sum">> [] k = "ffold:max" -> <<"ffold", "max">> [] k = "ffold:argmin" -> <<"ffold", "argmin">>
               [] k = "rfold:sum" -> <<"rfold", "sum">> [] k = "rfold:min" -> <<"rfold", "min">> [] k = "rfold:argmin" -> <<"rfold", "argmin">>]
ExtName == [k \in {"ext:e_lin3", "ext:e_wsum", "ext:e_cums", "ext:e_scale"} |->
             CASE k = "ext:e_lin3" -> "e_lin3" [] k = "ext:e_wsum" -> "e_wsum" [] k = "ext:e_cums" -> "e_cums" [] k = "ext:e_scale" -> "e_scale"]

RECURSIVE Comp(_, _, _), CompSeq(_, _, _, _)
CompSeq(N, as, sc, hs) ==
  IF as = <<>> THEN [ok |-> TRUE, N |-> N, hs |-> hs]
  ELSE LET r == Comp(N, Head(as), sc) IN
       IF ~r.ok THEN [ok |-> FALSE, N |-> N, hs |-> hs] ELSE CompSeq(r.N, Tail(as), sc, Append(hs, r.h))

Comp(N, e, sc) ==
  LET o == e.o IN
  CASE o = "num" -> LET q == QOf(e.x) IN App(N, Call("const", <<>>, <<>>, <<>>, q, IF q.s = "i" THEN TI ELSE TF))
    [] o = "in" -> App(N, Call("const", <<>>, <<>>, <<>>, Inputs[e.x], InType[e.x]))
    [] o = "id" -> [ok |-> e.x \in DOMAIN sc, N |-> N, h |-> IF e.x \in DOMAIN sc THEN sc[e.x] ELSE 0]
    [] o = "array" ->
         LET s == CompSeq(N, Tail(e.a), sc, <<>>) IN
         IF ~s.ok THEN Bad(N) ELSE
         LET y == Sym(s.N, "idx", TI)  b == Comp(y.N, e.a[1], (e.x :> y.h) @@ sc) IN
         IF ~b.ok THEN Bad(N) ELSE App(b.N, Call("array", <<b.h>>, <<y.h>>, s.hs, 0, NoType))
    [] o = "fold" ->
         LET s == CompSeq(N, Tail(Tail(e.a)), sc, <<>>) IN
         IF ~s.ok THEN Bad(N) ELSE
         LET z == Comp(s.N, e.a[1], sc) IN
         IF ~z.ok THEN Bad(N) ELSE
         LET y == Sym(z.N, "ctr", TI)  w == Sym(y.N, "acc", z.N[z.h].t)
             b == Comp(w.N, e.a[2], (e.x :> y.h) @@ (("a" :> w.h) @@ sc)) IN
         IF ~b.ok THEN Bad(N) ELSE App(b.N, Call("fold", <<z.h, b.h>>, <<y.h, w.h>>, s.hs, 0, NoType))
    [] o = "reduce" ->
         LET s == CompSeq(N, <<e.a[1], e.a[2]>>, sc, <<>>) IN
         IF ~s.ok THEN Bad(N) ELSE
         LET t0 == s.N[s.hs[2]].t.e  y == Sym(s.N, "elt", t0)  w == Sym(y.N, "elt", t0)
             b == Comp(w.N, e.a[3], ("p" :> y.h) @@ (("q" :> w.h) @@ sc)) IN
         IF ~b.ok THEN Bad(N) ELSE App(b.N, Call("reduce", s.hs \o <<b.h>>, <<y.h, w.h>>, <<>>, 0, NoType))
    [] o = "let" ->
         LET z == Comp(N, e.a[1], sc) IN
         IF ~z.ok THEN Bad(N) ELSE
         LET y == Sym(z.N, "var", z.N[z.h].t)  b == Comp(y.N, e.a[2], ("it" :> y.h) @@ sc) IN
         IF ~b.ok THEN Bad(N) ELSE App(b.N, Call("let", <<z.h, b.h>>, <<y.h>>, <<>>, 0, NoType))
    [] o \in DOMAIN HelperOp ->
         LET s == CompSeq(N, Tail(e.a), sc, <<>>)  p == HelperOp[o] IN
         IF ~s.ok THEN Bad(N) ELSE
         LET y == Sym(s.N, IF p[1] = "ffold" THEN "ctr" ELSE "idx", TI)  b == Comp(y.N, e.a[1], (e.x :> y.h) @@ sc) IN
         IF ~b.ok THEN Bad(N) ELSE App(b.N, Call(p[1], <<b.h>>, <<y.h>>, s.hs, p[2], NoType))
    [] OTHER ->
         LET s == CompSeq(N, e.a, sc, <<>>) IN
         IF ~s.ok THEN Bad(N)
         ELSE App(s.N, CASE o = "size" -> Call("size", s.hs, <<>>, <<>>, IF e.x = "0" THEN 0 ELSE 1, NoType)
                         [] o = "proj" -> Call("proj", s.hs, <<>>, <<>>, IF e.x = "0" THEN 1 ELSE 2, NoType)
                         [] o = "slice" -> Call("slice", s.hs, <<>>, <<>>, <<"all", "item">>, NoType)
                         [] o = "tup" -> Call("mk", s.hs, <<>>, <<>>, [g |-> "t", n |-> <<>>], NoType)
                         [] o \in DOMAIN ExtName -> Call("ext", s.hs, <<>>, <<>>, ExtName[o], NoType)
                         [] OTHER -> Call(o, s.hs, <<>>, <<>>, 0, NoType))

TypeName == [f |-> TF, i |-> TI, vf |-> TV(TF), vvf |-> TV(TV(TF))]
(* with explicit sizes for what is still free *)
Program == LET a == Sym(<<>>, "idx", TI)  b == Sym(a.N, "idx", TI)  r == Comp(b.N, tm, ("i" :> 1) @@ ("j" :> 2)) IN r
ValueAt(r, p, q) == IF r.N[r.h].fv = {} THEN r.N[r.h].val
                    ELSE V(r.N, r.h, EvSeq(r.N, Cone(r.N, r.h, {1, 2}), 1, (1 :> I(p)) @@ (2 :> I(q))))

(* Every term is typed as the contexts say, or refused for a size that     *)
(* cannot be inferred or varies; its values inhabit its type.              *)
WellTyped == LET r == Program IN
             r.ok => /\ TypeEq(r.N[r.h].t, TypeName[ty])
                     /\ \A p \in 0..1 : LET x == ValueAt(r, p, 1 - p) IN HasPoison(x) \/ HasType(x, TypeName[ty])
=============================================================================
