------------------------------ MODULE RateGraph ------------------------------
(* The container of directed rates (mythical::Rate_Container).  edges is the *)
(* set of <<from, to, cell>>; the cell identifies the very rate object.      *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLE edges
Pair(x) == <<x[1], x[2]>>
Known(i, j) == \E x \in edges : Pair(x) = <<i, j>>
CellOf(i, j) == (CHOOSE x \in edges : Pair(x) = <<i, j>>)[3]
Add(i, j, c) == ~Known(i, j) /\ edges' = edges \cup {<<i, j, c>>}
AddMany(new) == /\ \A x \in new : ~Known(x[1], x[2])
                /\ edges' = edges \cup new
Incoming(i) == {x \in edges : x[2] = i}
Outgoing(i) == {x \in edges : x[1] = i}
From == {x[1] : x \in edges}
To == {x[2] : x \in edges}
Sources == From \ To
Sinks == To \ From
(* ---- properties of the design ---- *)
Functional == \A x, y \in edges : Pair(x) = Pair(y) => x = y
Monotone == [][edges \subseteq edges']_edges
Partition == Sources \cap Sinks = {} /\ \A i \in From \cup To : i \in Sources <=> (Incoming(i) = {} /\ Outgoing(i) # {})
=============================================================================
