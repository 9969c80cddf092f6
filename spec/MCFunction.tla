----------------------------- MODULE MCFunction -----------------------------
(***************************************************************************)
(* Histories of calls of a staged function.  The state is what the         *)
(* function remembers (programs by argument types and backend); a call     *)
(* traces the body when there is no program yet, runs it, and gives the    *)
(* meaning of the body for its arguments, whatever came before.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

CONSTANTS Length,      \* calls per history
          Backends,
          Bodies

(* the argument types each body makes sense for, and others *)
Sigs == [poly  |-> {<<"f">>, <<"i">>, <<"vf">>, <<"vi">>, <<"vvf">>},
         scale |-> {<<"vf", "f">>, <<"vf", "i">>},
         wrong |-> {<<"f", "f">>, <<"i", "i">>, <<"f", "i">>},
         tick  |-> {<<"vf">>},
         sizes |-> {<<"vf">>, <<"vi">>},
         const |-> {<<"f">>}]
Sizes(sig) == IF sig[1] \in {"f", "i"} THEN {0} ELSE {0, 2, 3}
Declared(b) == {<<>>} \cup Sigs[b]
Refused(b, sig) == b = "wrong" /\ sig[1] # sig[2]

VARIABLES body, decl, hist, programs, traces
vars == <<body, decl, hist, programs, traces>>

Init == /\ body \in Bodies
        /\ decl \in Declared(body)
        /\ hist = <<>> /\ programs = {} /\ traces = <<>>

Outcome(sig, boom) == IF decl # <<>> /\ decl # sig THEN "TypeError"
                      ELSE IF Refused(body, sig) THEN "refused"
                      ELSE IF boom THEN "host error" ELSE "value"

Call(sig, n, back, boom) ==
  LET key == <<sig, back>>
      o == Outcome(sig, boom)
      traced == o # "TypeError" /\ key \notin programs
  IN /\ Len(hist) < Length
     /\ hist' = Append(hist, [sig |-> sig, n |-> n, back |-> back, boom |-> boom, out |-> o])
     /\ traces' = IF traced THEN Append(traces, key) ELSE traces
     /\ programs' = IF traced /\ o # "refused" THEN programs \cup {key} ELSE programs
     /\ UNCHANGED <<body, decl>>

Next == \E sig \in Sigs[body], back \in Backends :
          \E n \in Sizes(sig), boom \in (IF body = "tick" THEN BOOLEAN ELSE {FALSE}) : Call(sig, n, back, boom)
Spec == Init /\ [][Next]_vars

(* The guarantees, over all histories. *)
TracedOnce == \A p, q \in 1..Len(traces) : (traces[p] = traces[q] /\ p # q) => Refused(body, traces[p][1])
SignatureEnforced == \A p \in 1..Len(hist) : (decl # <<>> /\ hist[p].sig # decl) <=> hist[p].out = "TypeError"
Independent == \A p, q \in 1..Len(hist) :     \* what a call gives is a function of its arguments
                 (hist[p].sig = hist[q].sig /\ hist[p].boom = hist[q].boom) => hist[p].out = hist[q].out
Remembered == \A k \in programs : \E p \in 1..Len(hist) : k = <<hist[p].sig, hist[p].back>>

Emit == Len(hist) < Length \/ CSVWrite("%1$s", <<ToJson([body |-> body, decl |-> decl, calls |-> hist])>>, IOEnv.EIN_OUT)
=============================================================================
