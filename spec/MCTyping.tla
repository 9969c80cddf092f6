------------------------------ MODULE MCTyping ------------------------------
(***************************************************************************)
(* Every combinator applied to operands of every type, within a finite     *)
(* universe of types.  A behaviour makes one call; TLC checks that the     *)
(* typing rules of EinCore amount to strong typing without promotion, and  *)
(* emits each call to be made on the real library.                         *)
(***************************************************************************)
EXTENDS EinCore, Json, IOUtils, CSV

CONSTANT Forms     \* how the operands come about

Kinds == {"b", "i", "f"}
Vecs == {"vb", "vi", "vf", "vvi", "vvf"}
Recs == {"tfi", "tif", "dfi", "vtfi", "tfv"}
Plain == Kinds \cup Vecs
Types == Plain \cup Recs

Scalar == [b |-> TB, i |-> TI, f |-> TF]
TypeOf(n) ==
  CASE n \in Kinds -> Scalar[n]
    [] n = "vb" -> TV(TB) [] n = "vi" -> TV(TI) [] n = "vf" -> TV(TF) [] n = "vvi" -> TV(TV(TI)) [] n = "vvf" -> TV(TV(TF))
    [] n = "tfi" -> TR("t", <<>>, <<TF, TI>>) [] n = "tif" -> TR("t", <<>>, <<TI, TF>>)
    [] n = "dfi" -> TR("d", <<"a", "b">>, <<TF, TI>>) [] n = "vtfi" -> TV(TR("t", <<>>, <<TF, TI>>))
    [] n = "tfv" -> TR("t", <<>>, <<TF, TV(TF)>>)

None2 == <<>>
Binaries == {"add", "sub", "mul", "div", "mod", "lt", "le", "gt", "ge", "and", "or"}
OnKinds == {"eq", "ne", "min", "max", "pow"}     \* Python gives every object an == of its own
Exts == {"e_lin3", "e_isub", "e_lt", "e_not", "e_wsum", "e_dot", "e_matvec", "e_rev", "e_scale"}

Calls ==
       {<<o, <<t>>>> : o \in (Unary \cup Sugar1), t \in Kinds}
  \cup {<<o, <<s, t>>>> : o \in Binaries, s \in Plain, t \in Plain}
  \cup {<<o, <<s, t>>>> : o \in OnKinds, s \in Kinds, t \in Plain}
  \cup {<<"where", <<c, s, t>>>> : c \in Kinds, s \in Types, t \in Types}
  \cup {<<"get", <<s, t>>>> : s \in Plain \cup {"vtfi"}, t \in Plain}
  \cup {<<"concat", <<s, t>>>> : s \in Vecs \cup {"vtfi"}, t \in Types}
  \cup {<<"size", <<s>>>> : s \in Vecs \cup {"vtfi"}}
  \cup {<<"orempty", <<s, c, t>>>> : s \in Vecs \cup {"vtfi"}, c \in Kinds, t \in Types}
  \cup {<<"array", <<t, c>>>> : t \in Types, c \in Plain}          \* body, size
  \cup {<<"fold", <<s, t, c>>>> : s \in Types, t \in Types, c \in Kinds \cup {"vi"}}   \* init, body, count
  \cup {<<"ffold", <<t, c>>>> : t \in Plain, c \in Kinds}
  \cup {<<"rfold", <<t, c>>>> : t \in Plain, c \in Kinds}
  \cup {<<"reduce", <<s, v, t>>>> : s \in Types, v \in Vecs \cup {"vtfi"}, t \in Types}   \* init, vector, body
  \cup {<<f, <<s>>>> : f \in Exts, s \in Types}
  \cup {<<f, <<s, t>>>> : f \in Exts, s \in Plain, t \in Plain}
  \cup {<<f, <<s, t, u>>>> : f \in Exts, s \in Kinds, t \in Kinds, u \in Kinds \cup {"vf"}}

(***************************************************************************)
(* What EinCore says about the call: operands are symbols of their types.  *)
(***************************************************************************)
Operand(o, n, fv) == [op |-> o, a |-> <<>>, b |-> <<>>, x |-> 0, t |-> TypeOf(n), fv |-> fv, szs |-> <<>>,
               cone |-> <<>>, uses |-> {}, bs |-> {}, dg |-> {}, val |-> Nil]
Result(c) ==
  LET o == c[1]  k == Len(c[2])  N == Append(TLCEval([m \in 1..k |-> Operand("const", c[2][m], {k + 1})]), Operand("var", "i", {k + 1}))
      C(op, a, b, sz, x) == Construct(N, [op |-> op, a |-> a, b |-> b, sz |-> sz, x |-> x, t |-> NoType])
  IN CASE o = "size" -> C("size", <<1>>, <<>>, <<>>, 0)
       [] o = "array" -> C("array", <<1>>, <<1>>, <<2>>, 0)
       [] o = "fold" -> C("fold", <<1, 2>>, <<1, 2>>, <<3>>, 0)
       [] o \in {"ffold", "rfold"} -> C(o, <<1>>, <<1>>, <<2>>, "sum")
       [] o = "reduce" -> C("reduce", <<1, 2, 3>>, <<1, 2>>, <<>>, 0)
       [] o \in Exts -> C("ext", TLCEval([m \in 1..k |-> m]), <<>>, <<>>, o)
       [] OTHER -> C(o, TLCEval([m \in 1..k |-> m]), <<>>, <<>>, 0)

VARIABLES call, form, ok, type
vars == <<call, form, ok, type>>
Init == call = <<"none", None2>> /\ form = "none" /\ ok = FALSE /\ type = NoType
Make(c, f) == /\ call[1] = "none" /\ call' = c /\ form' = f
              /\ LET r == Result(c) IN ok' = r.ok /\ type' = IF r.ok THEN r.node.t ELSE NoType
Next == \E c \in Calls, f \in Forms : Make(c, f)
Spec == Init /\ [][Next]_vars

Accepted == ok
Ty(m) == call[2][m]

(* Strong typing, stated independently of the rules. *)
NoPromotion == (Accepted /\ call[1] \in (Binaries \cup OnKinds)) => Ty(1) = Ty(2) /\ Ty(1) \in Kinds
ResultKind == (Accepted /\ call[1] \in (Binaries \cup OnKinds)) =>
                type = IF call[1] \in {"lt", "le", "gt", "ge", "eq", "ne", "and", "or"} THEN TB ELSE TypeOf(Ty(1))
OnlyInts == /\ (Accepted /\ call[1] \in {"get", "orempty"}) => Ty(2) = "i"
            /\ (Accepted /\ call[1] \in {"array", "ffold", "rfold"}) => Ty(2) = "i"
            /\ (Accepted /\ call[1] = "fold") => Ty(3) = "i"
OnlyVectors == (Accepted /\ call[1] \in {"get", "orempty", "concat", "size"}) => Ty(1) \notin Kinds
SameTypes == /\ (Accepted /\ call[1] = "fold") => Ty(1) = Ty(2) /\ TypeEq(type, TypeOf(Ty(1)))
             /\ (Accepted /\ call[1] = "where") => Ty(2) = Ty(3) /\ Ty(1) = "b"
             /\ (Accepted /\ call[1] = "concat") => Ty(1) = Ty(2)
             /\ (Accepted /\ call[1] = "reduce") => Ty(1) = Ty(3) /\ TypeOf(Ty(2)) = TV(TypeOf(Ty(1)))
             /\ (Accepted /\ call[1] = "orempty") => TypeOf(Ty(1)) = TV(TypeOf(Ty(3)))

Emit == call[1] = "none" \/ CSVWrite("%1$s", <<ToJson([op |-> call[1], ts |-> call[2], form |-> form])>>, IOEnv.EIN_OUT)
=============================================================================
