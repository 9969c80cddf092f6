------------------------------- MODULE MCConst ------------------------------
(***************************************************************************)
(* Constants that look alike.  A program's constants are interned under a  *)
(* key (sharing equal ones is what the compiler does all the time); a use  *)
(* of a constant reads whatever the table holds under its key.  The key    *)
(* has to tell apart whatever means something different.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

CONSTANTS Count,      \* constants in one program
          Uses        \* ways in which they are used

C(lib, dt, sh, d) == [lib |-> lib, dt |-> dt, sh |-> sh, d |-> d]
Catalogue ==
  {C("py", "i", <<>>, <<v>>) : v \in {0, 1}} \cup {C("py", "f", <<>>, <<v>>) : v \in {0, 1}} \cup {C("py", "b", <<>>, <<v>>) : v \in {0, 1}}
  \cup {C("py", "z", <<>>, <<0>>)}                               \* -0.0
  \cup {C("np", dt, <<>>, <<1>>) : dt \in {"f", "i", "b"}}
  \cup {C("np", dt, <<2>>, <<0, 1>>) : dt \in {"f", "i", "b", "f4", "i4", "i2"}}
  \cup {C("np", "f", <<2>>, d) : d \in {<<1, 0>>, <<0, 0>>}} \cup {C("np", "i", <<2>>, <<0, 0>>)}
  \cup {C("np", dt, <<1>>, <<1>>) : dt \in {"f", "i", "b"}}
  \cup {C("np", dt, <<0>>, <<>>) : dt \in {"f", "i", "b"}}
  \cup {C("np", "f", sh, <<0, 1>>) : sh \in {<<2, 1>>, <<1, 2>>, <<1, 1, 2>>}} \cup {C("np", "f", <<1, 1>>, <<1>>)}
  \cup {C("np", "f", <<3>>, <<0, 0, 0>>), C("np", "f", <<2, 0>>, <<>>), C("np", "f", <<0, 2>>, <<>>)}

Kind(c) == CASE c.dt \in {"f", "f4", "z"} -> "float" [] c.dt \in {"i", "i4", "i2"} -> "int" [] OTHER -> "bool"
Meaning(c) == <<Kind(c), c.sh, c.d, c.dt = "z">>
Key(c) == <<c.dt, c.sh, c.d>>

VARIABLES cs, table, use
vars == <<cs, table, use>>
Init == cs = <<>> /\ table = <<>> /\ use = 99
Intern(c) == /\ Len(cs) < Count /\ use = 99
             /\ cs' = Append(cs, c)
             /\ table' = IF \E e \in 1..Len(table) : Key(table[e]) = Key(c) THEN table ELSE Append(table, c)
             /\ UNCHANGED use
Use(u) == /\ Len(cs) = Count /\ use = 99 /\ use' = u /\ UNCHANGED <<cs, table>>
Next == (\E c \in Catalogue : Intern(c)) \/ (\E u \in Uses : Use(u))
Spec == Init /\ [][Next]_vars

Found(c) == CHOOSE e \in {table[k] : k \in 1..Len(table)} : Key(e) = Key(c)
OwnMeaning == \A k \in 1..Len(cs) : Meaning(Found(cs[k])) = Meaning(cs[k])

Emit == use = 99 \/ CSVWrite("%1$s", <<ToJson([cs |-> cs, use |-> use])>>, IOEnv.EIN_OUT)
=============================================================================
