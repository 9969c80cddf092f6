------------------------------- MODULE MCIndex ------------------------------
(***************************************************************************)
(* Accesses  b[i] = a[e(i)]  for i < size, where e is the index with       *)
(* constants added and clipped on, in any order.  The implementation       *)
(* recognises such an e as  min(max(i + shift, low), high)  and replaces   *)
(* the accesses by one slice with edge padding.  The state is e, what it   *)
(* was recognised as, and what it means.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS Depth, Bias, Consts, Dims, Sizes, Window    \* e is looked at for i in 0..Window

VARIABLES ops, m, shift, lo, hi, sem
vars == <<ops, m, shift, lo, hi, sem>>
None == 1000     \* no bound

Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y

Init == /\ ops = <<>> /\ m = TRUE /\ shift = 0 /\ lo = None /\ hi = None
        /\ sem = TLCEval([i \in 1..(Window + 1) |-> i - 1])

Op(o, c) ==
  /\ Len(ops) < Depth
  /\ ops' = Append(ops, [o |-> o, c |-> c])
  /\ sem' = TLCEval([i \in 1..(Window + 1) |-> CASE o = "add" -> sem[i] + c [] o = "sub" -> sem[i] - c
                                             [] o = "min" -> Min(sem[i], c) [] o = "max" -> Max(sem[i], c)])
  /\ CASE o \in {"add", "sub"} ->          \* a clipped index is not shifted any more
            /\ m' = (m /\ lo = None /\ hi = None)
            /\ shift' = IF o = "add" THEN shift + c ELSE shift - c
            /\ UNCHANGED <<lo, hi>>
       [] o = "min" -> /\ hi' = IF hi = None THEN c ELSE Min(hi, c)
                       /\ UNCHANGED <<m, shift, lo>>
       [] o = "max" -> /\ lo' = IF lo = None THEN c ELSE Max(lo, c)
                       /\ hi' = IF hi = None THEN None ELSE Max(hi, c)
                       /\ UNCHANGED <<m, shift>>
Next == \E o \in {"add", "sub", "min", "max"}, c \in Consts : Op(o, c - Bias)
Spec == Init /\ [][Next]_vars

Access(dim, p) == Min(Max(p, 0), dim - 1)

(* the recognised form is the index expression *)
Recognised == m => \A i \in 0..Window :
                LET x == IF lo = None THEN i + shift ELSE Max(i + shift, lo)
                IN (IF hi = None THEN x ELSE Min(x, hi)) = sem[i + 1]

(* the slice and its padding, for an axis of length dim and size accesses *)
Slice(dim, size) ==
  LET last == Max(dim - 1, 0)
      low == IF lo = None THEN 0 ELSE Min(Max(lo, 0), last)
      high == IF hi = None THEN last ELSE Min(Max(hi, 0), last)
      start == Min(Max(shift, low), high)
      stop == Min(Min(Min(Max(shift + size - 1, low), high) + 1, dim), start + size)
      left == Min(Max(low - shift, 0), size - (stop - start))
  IN [start |-> start, stop |-> stop, left |-> left, right |-> size - (stop - start) - left]
(* what slicing and repeating the edges reads at position i *)
Reads(s, i) == IF i < s.left THEN s.start
               ELSE IF i >= s.left + (s.stop - s.start) THEN s.stop - 1
               ELSE s.start + i - s.left

SliceRight == m => \A dim \in Dims, size \in Sizes :
  LET s == Slice(dim, size) IN
    /\ 0 <= s.start /\ s.stop <= dim /\ s.left >= 0 /\ s.right >= 0 /\ s.stop >= s.start
    /\ size > 0 => s.stop > s.start
    /\ \A i \in 0..(size - 1) : Reads(s, i) = Access(dim, sem[i + 1])

Emit == Len(ops) = 0 \/ CSVWrite("%1$s", <<ToJson([ops |-> ops])>>, IOEnv.EIN_OUT)
=============================================================================
