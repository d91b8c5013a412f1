------------------------------- MODULE Diagram -------------------------------
(* Exported diagrams against the documents they were exported from: a run is [id, doc, lines]. *)
EXTENDS Scxml, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
VARIABLES i, run
Init == i \in 1..Len(Runs) /\ run = Runs[i].id
Next == UNCHANGED <<i, run>>
Spec == Init /\ [][Next]_<<i, run>>
Conform == SameDiagram(Runs[i].doc, Runs[i].lines)
Alias == LET R == Read(Runs[i].lines)
             D == DiagramOf(Runs[i].doc)
         IN  [run |-> run, missing |-> D.states \ R.states, surplus |-> R.states \ D.states, bad |-> R.bad,
              missing_arrows |-> {a \in DOMAIN D.arrows : a \notin DOMAIN Bag(R.arrows) \/ Bag(R.arrows)[a] < D.arrows[a]},
              surplus_arrows |-> {a \in DOMAIN Bag(R.arrows) : a \notin DOMAIN D.arrows \/ Bag(R.arrows)[a] > D.arrows[a]}]
=============================================================================
