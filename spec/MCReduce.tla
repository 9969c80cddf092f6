------------------------------ MODULE MCReduce ------------------------------
(***************************************************************************)
(* Reductions over the free monoid: elements are the letters 1..n, values  *)
(* are words.  A reduction may bracket its operands as it likes (Bracket), *)
(* but has to keep their order and use each once.  Halve and Last are the  *)
(* steps of the implementation, which combines neighbours pairwise and     *)
(* moves the odd one out into an accumulator on the right.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS Most,        \* lengths 0..Most
          Monoids, Places,
          Free         \* up to which length every bracketing is looked at

VARIABLES n, vals, acc, alg, monoid, place
vars == <<n, vals, acc, alg, monoid, place>>

RECURSIVE Flatten(_)
Flatten(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws) \o Flatten(Tail(ws))
Word == TLCEval([i \in 1..n |-> i])

Init == /\ n \in 0..Most
        /\ vals = TLCEval([i \in 1..n |-> <<i>>])
        /\ acc = <<>>
        /\ alg \in {"halve"} \cup (IF n <= Free THEN {"any"} ELSE {})
        /\ monoid = "free" /\ place = "top"

(* the implementation *)
Last  == /\ alg = "halve" /\ Len(vals) % 2 = 1
         /\ acc' = vals[Len(vals)] \o acc
         /\ vals' = TLCEval([i \in 1..((Len(vals) - 1) \div 2) |-> vals[2 * i - 1] \o vals[2 * i]])
         /\ UNCHANGED <<n, alg, monoid, place>>
Halve == /\ alg = "halve" /\ Len(vals) % 2 = 0 /\ Len(vals) > 1
         /\ vals' = TLCEval([i \in 1..(Len(vals) \div 2) |-> vals[2 * i - 1] \o vals[2 * i]])
         /\ UNCHANGED <<n, acc, alg, monoid, place>>
(* any other that combines neighbours *)
Bracket == /\ alg = "any"
           /\ \E i \in 1..(Len(vals) - 1) :
                vals' = TLCEval([k \in 1..(Len(vals) - 1) |-> IF k < i THEN vals[k] ELSE IF k = i THEN vals[i] \o vals[i + 1] ELSE vals[k + 1]])
           /\ UNCHANGED <<n, acc, alg, monoid, place>>
(* a case to be replayed: what the reduction is of, and where it stands *)
Choose == /\ alg = "halve" /\ vals = <<>>
          /\ \E m \in Monoids, p \in Places : monoid' = m /\ place' = p
          /\ alg' = "chosen"
          /\ UNCHANGED <<n, vals, acc>>
Next == Last \/ Halve \/ Bracket \/ Choose
Spec == Init /\ [][Next]_vars

InOrder == Flatten(vals) \o acc = Word          \* each element once, in order, at every step
Done == (alg = "halve" /\ vals = <<>>) => acc = Word
Terminates == (alg = "halve") => (vals = <<>> \/ ENABLED Next)

Emit == alg # "chosen" \/ CSVWrite("%1$s", <<ToJson([n |-> n, monoid |-> monoid, place |-> place])>>, IOEnv.EIN_OUT)
=============================================================================
