----------------------------- MODULE EinValues -----------------------------
(***************************************************************************)
(* The values an Ein program can take, and the meaning of the scalar       *)
(* operators on them.                                                      *)
(*                                                                         *)
(*  scalar   [s |-> "i", v |-> n]          an integer                      *)
(*           [s |-> "f", v |-> <<n, d>>]   the dyadic rational n/d, d=2^k; *)
(*                                         <<1,0>>, <<-1,0>> = +-infinity  *)
(*           [s |-> "b", v |-> TRUE/FALSE]                                 *)
(*           [s |-> "x", k, o, a, z]       a term o(a..) of kind k whose   *)
(*                                         number TLC cannot compute       *)
(*                                         (transcendental, or too large   *)
(*                                         for TLC's 32 bit integers);     *)
(*                                         z is its size                   *)
(*           [s |-> "u", k]                unconstrained, of kind k (an    *)
(*                                         element read from nothing, NaN) *)
(*           [s |-> "d", k, v, d]          dual number: value v and the    *)
(*                                         sequence d of its partials      *)
(*  vector   [s |-> "v", e |-> <<..>>, p]  p: prototype of the elements of *)
(*                                         an empty vector                 *)
(*  record   [s |-> "r", e |-> <<..>>]                                     *)
(*  poison   [s |-> "p", w]                the program has no meaning (a   *)
(*                                         precondition was violated)      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Functions

IntLim == 1000000000        \* every exact integer stays within +-IntLim
DenLim == 65536             \* and every denominator within 1..DenLim
TermLim == 160              \* larger symbolic terms become unconstrained

Nil == [s |-> "n"]
I(n) == [s |-> "i", v |-> n]
B(q) == [s |-> "b", v |-> q]
U(k) == [s |-> "u", k |-> k]
Poison(w) == [s |-> "p", w |-> w]
(* TLCEval only makes TLC compute the sequence once; it means nothing.     *)
VecV(e, p) == [s |-> "v", e |-> TLCEval(e), p |-> p]
RecV(e) == [s |-> "r", e |-> TLCEval(e)]

Abs(n) == IF n < 0 THEN -n ELSE n
MulFits(a, b) == a = 0 \/ b = 0 \/ Abs(b) <= IntLim \div Abs(a)
AddFits(a, b) == Abs(a) <= IntLim /\ Abs(b) <= IntLim /\ Abs(a + b) <= IntLim

RECURSIVE Reduce2(_, _)
Reduce2(n, d) == IF d > 1 /\ n % 2 = 0 THEN Reduce2(n \div 2, d \div 2) ELSE <<n, d>>

F(n, d) == [s |-> "f", v |-> IF n = 0 THEN <<0, 1>> ELSE Reduce2(n, d)]
Inf == [s |-> "f", v |-> <<1, 0>>]
NegInf == [s |-> "f", v |-> <<-1, 0>>]

IsExact(x) == x.s \in {"i", "f", "b"}
IsScalar(x) == x.s \in {"i", "f", "b", "x", "u", "d"}
Kind(x) == IF x.s \in {"x", "u", "d"} THEN x.k ELSE x.s
IsInf(x) == x.s = "f" /\ x.v[2] = 0

Size(x) == IF x.s = "x" THEN x.z ELSE 1
X(k, o, a) ==
  LET z == IF Len(a) = 1 THEN 1 + Size(a[1])
           ELSE IF Len(a) = 2 THEN 1 + Size(a[1]) + Size(a[2])
           ELSE 1 + Size(a[1]) + Size(a[2]) + Size(a[3])
  IN IF z > TermLim THEN U(k) ELSE [s |-> "x", k |-> k, o |-> o, a |-> a, z |-> z]

(* Kinds. *)
ResKind(o, k) ==
  IF o \in {"lt", "le", "eq", "ne", "and", "or", "not"} THEN "b"
  ELSE IF o \in {"float", "recip", "exp", "sin", "cos", "pow"} THEN "f"
  ELSE IF o = "mod" THEN "i"
  ELSE k

(***************************************************************************)
(* Exact arithmetic.  Each operator returns Nil when the exact result is   *)
(* out of range (the caller then makes a symbolic term) and U when the     *)
(* result is not a number.                                                 *)
(***************************************************************************)
FAdd(x, y) ==
  LET a == x.v  b == y.v IN
  IF a[2] = 0 \/ b[2] = 0
  THEN IF a[2] = 0 /\ b[2] = 0 /\ a[1] # b[1] THEN U("f")
       ELSE IF a[2] = 0 THEN x ELSE y
  ELSE LET D == IF a[2] > b[2] THEN a[2] ELSE b[2]
           p == D \div a[2]   q == D \div b[2]
       IN IF ~MulFits(a[1], p) \/ ~MulFits(b[1], q) THEN Nil
          ELSE IF ~AddFits(a[1] * p, b[1] * q) THEN Nil
          ELSE F(a[1] * p + b[1] * q, D)

FNeg(x) == IF x.v[1] = 0 THEN x ELSE [s |-> "f", v |-> <<-x.v[1], x.v[2]>>]

Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0

FMul(x, y) ==
  LET a == x.v  b == y.v IN
  IF a[2] = 0 \/ b[2] = 0
  THEN IF a[1] = 0 \/ b[1] = 0 THEN U("f")
       ELSE [s |-> "f", v |-> <<Sgn(a[1]) * Sgn(b[1]), 0>>]
  ELSE IF ~MulFits(a[1], b[1]) \/ ~MulFits(a[2], b[2]) THEN Nil
  ELSE IF a[2] * b[2] > DenLim
       THEN LET r == F(a[1] * b[1], a[2] * b[2]) IN IF r.v[2] > DenLim THEN Nil ELSE r
       ELSE F(a[1] * b[1], a[2] * b[2])

RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ IsPow2(n \div 2))

FRecip(x) ==
  LET a == x.v IN
  IF a[1] = 0 THEN U("f")
  ELSE IF a[2] = 0 THEN F(0, 1)
  ELSE IF IsPow2(Abs(a[1])) /\ Abs(a[1]) <= DenLim THEN F(Sgn(a[1]) * a[2], Abs(a[1]))
  ELSE Nil

(* -1, 0, 1, or 2 if unknown *)
FCmp(x, y) ==
  LET a == x.v  b == y.v IN
  IF a[2] = 0 \/ b[2] = 0
  THEN LET p == IF a[2] = 0 THEN a[1] ELSE 0   q == IF b[2] = 0 THEN b[1] ELSE 0
       IN Sgn(p - q)
  ELSE LET D == IF a[2] > b[2] THEN a[2] ELSE b[2]
           p == D \div a[2]   q == D \div b[2]
       IN IF ~MulFits(a[1], p) \/ ~MulFits(b[1], q) THEN 2
          ELSE Sgn(a[1] * p - b[1] * q)

Cmp(x, y) == IF x.s = "i" THEN Sgn(x.v - y.v) ELSE FCmp(x, y)

Exact1(o, x) ==
  CASE o = "neg"   -> IF x.s = "i" THEN I(-x.v) ELSE FNeg(x)
    [] o = "recip" -> FRecip(x)
    [] o = "not"   -> B(~x.v)
    [] o = "float" -> F(x.v, 1)
    [] o = "exp"   -> IF x.v = <<0, 1>> THEN F(1, 1) ELSE Nil
    [] o = "sin"   -> IF x.v = <<0, 1>> THEN F(0, 1) ELSE Nil
    [] o = "cos"   -> IF x.v = <<0, 1>> THEN F(1, 1) ELSE Nil

Exact2(o, x, y) ==
  CASE o = "add" -> IF x.s = "i"
                    THEN IF AddFits(x.v, y.v) THEN I(x.v + y.v) ELSE Nil
                    ELSE FAdd(x, y)
    [] o = "sub" -> IF x.s = "i"
                    THEN IF AddFits(x.v, -y.v) THEN I(x.v - y.v) ELSE Nil
                    ELSE FAdd(x, FNeg(y))
    [] o = "mul" -> IF x.s = "i"
                    THEN IF MulFits(x.v, y.v) THEN I(x.v * y.v) ELSE Nil
                    ELSE FMul(x, y)
    [] o = "mod" -> IF y.v = 0 THEN U("i")
                    ELSE IF y.v > 0 THEN I(x.v % y.v)
                    ELSE I(-((-x.v) % (-y.v)))
    [] o = "pow" -> Nil
    [] o = "min" -> LET c == Cmp(x, y) IN IF c = 2 THEN Nil ELSE IF c <= 0 THEN x ELSE y
    [] o = "max" -> LET c == Cmp(x, y) IN IF c = 2 THEN Nil ELSE IF c >= 0 THEN x ELSE y
    [] o = "lt"  -> LET c == Cmp(x, y) IN IF c = 2 THEN Nil ELSE B(c = -1)
    [] o = "le"  -> LET c == Cmp(x, y) IN IF c = 2 THEN Nil ELSE B(c <= 0)
    [] o = "eq"  -> LET c == Cmp(x, y) IN IF c = 2 THEN Nil ELSE B(c = 0)
    [] o = "ne"  -> LET c == Cmp(x, y) IN IF c = 2 THEN Nil ELSE B(c # 0)
    [] o = "and" -> B(x.v /\ y.v)
    [] o = "or"  -> B(x.v \/ y.v)

(* An infinite operand that meets a symbolic term is left unconstrained. *)
Op1b(o, x) ==
  IF x.s = "p" THEN x
  ELSE IF x.s = "u" THEN U(ResKind(o, x.k))
  ELSE IF x.s = "x" THEN X(ResKind(o, x.k), o, <<x>>)
  ELSE IF IsInf(x) /\ o \in {"exp", "sin", "cos"} THEN U("f")
  ELSE LET r == Exact1(o, x) IN IF r.s = "n" THEN X(ResKind(o, x.s), o, <<x>>) ELSE r

Op2b(o, x, y) ==
  IF x.s = "p" THEN x ELSE IF y.s = "p" THEN y
  ELSE IF x.s = "u" \/ y.s = "u" THEN U(ResKind(o, Kind(x)))
  ELSE IF x.s = "x" \/ y.s = "x"
       THEN IF IsInf(x) \/ IsInf(y) THEN U(ResKind(o, Kind(x)))
            ELSE X(ResKind(o, Kind(x)), o, <<x, y>>)
  ELSE LET r == Exact2(o, x, y)
       IN IF r.s # "n" THEN r
          ELSE IF IsInf(x) \/ IsInf(y) THEN U(ResKind(o, x.s))
          ELSE X(ResKind(o, x.s), o, <<x, y>>)

Op3b(c, t, f) ==
  IF c.s = "p" THEN c ELSE IF t.s = "p" THEN t ELSE IF f.s = "p" THEN f
  ELSE IF c.s = "b" THEN (IF c.v THEN t ELSE f)
  ELSE IF c.s = "u" \/ t.s = "u" \/ f.s = "u" THEN U(Kind(t))
  ELSE IF IsInf(t) \/ IsInf(f) THEN U(Kind(t))
  ELSE X(Kind(t), "where", <<c, t, f>>)

(***************************************************************************)
(* Dual numbers: forward-mode derivatives, written with the operators      *)
(* above.  Only floats carry partials.                                     *)
(***************************************************************************)
Zero == F(0, 1)
One == F(1, 1)
Dual(v, d) == [s |-> "d", k |-> "f", v |-> v, d |-> TLCEval(d)]
Val(x) == IF x.s = "d" THEN x.v ELSE x
Width(x, y) == IF x.s = "d" THEN Len(x.d) ELSE Len(y.d)
Part(x, i) == IF x.s = "d" THEN x.d[i] ELSE Zero
MulZ(p, q) == IF (p.s = "f" /\ p.v = <<0, 1>>) \/ (q.s = "f" /\ q.v = <<0, 1>>) THEN Zero
              ELSE Op2b("mul", p, q)

Op1d(o, x) ==
  LET v == Op1b(o, x.v)
      m == CASE o = "neg"   -> F(-1, 1)
             [] o = "recip" -> Op1b("neg", Op2b("mul", v, v))
             [] o = "exp"   -> v
             [] o = "sin"   -> Op1b("cos", x.v)
             [] o = "cos"   -> Op1b("neg", Op1b("sin", x.v))
  IN Dual(v, [i \in 1..Len(x.d) |-> MulZ(m, x.d[i])])

Op2d(o, x, y) ==
  LET a == Val(x)  b == Val(y)  n == Width(x, y)  v == Op2b(o, a, b) IN
  CASE o \in {"add", "sub"} ->
         Dual(v, [i \in 1..n |-> Op2b(o, Part(x, i), Part(y, i))])
    [] o = "mul" ->
         Dual(v, [i \in 1..n |-> Op2b("add", MulZ(Part(x, i), b), MulZ(a, Part(y, i)))])
    [] o \in {"min", "max"} ->
         LET c == Op2b("lt", a, b)  e == Op2b("eq", a, b) IN
         IF c.s = "b" /\ e.s = "b"
         THEN IF e.v THEN Dual(v, [i \in 1..n |-> IF Part(x, i) = Part(y, i) THEN Part(x, i) ELSE U("f")])
              ELSE LET w == IF c.v = (o = "min") THEN x ELSE y
                   IN Dual(v, [i \in 1..n |-> Part(w, i)])
         ELSE Dual(v, [i \in 1..n |-> Op3b(c, Part(IF o = "min" THEN x ELSE y, i), Part(IF o = "min" THEN y ELSE x, i))])
    [] o \in {"lt", "le", "eq", "ne"} ->
         \* on the boundary, where it could go either way, nothing is differentiable
         LET e == Op2b("eq", a, b) IN
         IF e.s = "b" /\ e.v /\ \E i \in 1..n : Part(x, i) # Part(y, i) THEN U("b") ELSE v
    [] OTHER -> Dual(v, [i \in 1..n |-> U("f")])

Op1(o, x) == IF x.s = "d" THEN Op1d(o, x) ELSE Op1b(o, x)
Op2(o, x, y) ==
  IF x.s = "p" THEN x ELSE IF y.s = "p" THEN y
  ELSE IF x.s = "d" \/ y.s = "d" THEN Op2d(o, x, y) ELSE Op2b(o, x, y)
Op3(c, t, f) ==
  IF c.s = "b" THEN (IF c.v THEN t ELSE f)
  ELSE IF t.s = "d" \/ f.s = "d"
       THEN Dual(Op3b(c, Val(t), Val(f)),
                 [i \in 1..Width(t, f) |-> Op3b(c, Part(t, i), Part(f, i))])
       ELSE Op3b(c, t, f)

(***************************************************************************)
(* Vectors and records.                                                    *)
(***************************************************************************)
RECURSIVE Proto(_)
Proto(x) == CASE x.s = "v" -> VecV([i \in 1..Len(x.e) |-> Proto(x.e[i])],
                                   IF Len(x.e) = 0 THEN Proto(x.p) ELSE Nil)
              [] x.s = "r" -> RecV([i \in 1..Len(x.e) |-> Proto(x.e[i])])
              [] x.s = "p" -> x
              [] x.s = "n" -> x
              [] OTHER -> U(Kind(x))

Clamp(i, n) == IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i

GetV(x, i) ==
  IF x.s = "p" THEN x ELSE IF i.s = "p" THEN i
  ELSE IF Len(x.e) = 0 THEN x.p
  ELSE IF i.s = "i" THEN x.e[Clamp(i.v, Len(x.e)) + 1]
  ELSE Proto(x.e[1])

RECURSIVE LenAt(_, _)
LenAt(x, ax) ==
  IF x.s = "p" THEN x
  ELSE IF ax = 0 THEN I(Len(x.e))
  ELSE IF Len(x.e) = 0 THEN LenAt(x.p, ax - 1) ELSE LenAt(x.e[1], ax - 1)

ConcatV(x, y) ==
  IF x.s = "p" THEN x ELSE IF y.s = "p" THEN y
  ELSE VecV(x.e \o y.e, IF Len(x.e) + Len(y.e) = 0 THEN x.p ELSE Nil)

(* Whole-value selection. *)
RECURSIVE WhereV(_, _, _)
WhereV(c, t, f) ==
  IF c.s = "p" THEN c ELSE IF t.s = "p" THEN t ELSE IF f.s = "p" THEN f
  ELSE IF t.s = "v"
       THEN IF Len(t.e) # Len(f.e) THEN Poison("where lengths")
            ELSE VecV([i \in 1..Len(t.e) |-> WhereV(c, t.e[i], f.e[i])],
                      IF Len(t.e) = 0 THEN t.p ELSE Nil)
  ELSE IF t.s = "r" THEN RecV([i \in 1..Len(t.e) |-> WhereV(c, t.e[i], f.e[i])])
  ELSE Op3(c, t, f)

RECURSIVE HasPoison(_)
HasPoison(x) == CASE x.s = "p" -> TRUE
                  [] x.s = "v" -> (\E i \in 1..Len(x.e) : HasPoison(x.e[i]))
                                  \/ (Len(x.e) = 0 /\ HasPoison(x.p))
                  [] x.s = "r" -> \E i \in 1..Len(x.e) : HasPoison(x.e[i])
                  [] OTHER -> FALSE

(***************************************************************************)
(* Types, and the type of a value.                                         *)
(***************************************************************************)
TI == [k |-> "i"]  TF == [k |-> "f"]  TB == [k |-> "b"]
TV(t) == [k |-> "v", e |-> t]
TR(g, n, e) == [k |-> "r", g |-> g, n |-> n, e |-> e]

RECURSIVE TypeEq(_, _)
TypeEq(s, t) ==
  /\ s.k = t.k
  /\ CASE s.k = "v" -> TypeEq(s.e, t.e)
       [] s.k = "r" -> /\ s.g = t.g
                       /\ Len(s.e) = Len(t.e)
                       /\ s.n = t.n
                       /\ \A i \in 1..Len(s.e) : TypeEq(s.e[i], t.e[i])
       [] OTHER -> TRUE

IsKind(t) == t.k \in {"i", "f", "b"}
IsNum(t) == t.k \in {"i", "f"}

RECURSIVE HasType(_, _)
HasType(x, t) ==
  CASE x.s = "p" -> TRUE
    [] x.s = "v" -> t.k = "v" /\ (\A i \in 1..Len(x.e) : HasType(x.e[i], t.e))
                    /\ (Len(x.e) = 0 => x.p.s # "n" /\ HasType(x.p, t.e))
    [] x.s = "r" -> t.k = "r" /\ Len(x.e) = Len(t.e)
                    /\ \A i \in 1..Len(x.e) : HasType(x.e[i], t.e[i])
    [] OTHER -> t.k = Kind(x)

(* Same lengths everywhere: vectors are rectangular. *)
RECURSIVE SameShape(_, _)
SameShape(x, y) ==
  IF x.s = "p" \/ y.s = "p" THEN TRUE
  ELSE IF x.s = "v" THEN /\ y.s = "v" /\ Len(x.e) = Len(y.e)
                         /\ \A i \in 1..Len(x.e) : SameShape(x.e[i], y.e[i])
                         /\ Len(x.e) = 0 => SameShape(x.p, y.p)
  ELSE IF x.s = "r" THEN y.s = "r" /\ \A i \in 1..Len(x.e) : SameShape(x.e[i], y.e[i])
  ELSE y.s \notin {"v", "r"}

RECURSIVE Rectangular(_)
Rectangular(x) ==
  CASE x.s = "v" -> /\ \A i \in 1..Len(x.e) : Rectangular(x.e[i])
                    /\ \A i \in 2..Len(x.e) : SameShape(x.e[1], x.e[i])
    [] x.s = "r" -> \A i \in 1..Len(x.e) : Rectangular(x.e[i])
    [] OTHER -> TRUE
=============================================================================
