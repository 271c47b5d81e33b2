-------------------------------- MODULE Parse --------------------------------
(* The notations for ports and modes, and what they mean.                      *)
(* A notation is built entry by entry; its meaning is the list of              *)
(* <<port, mode>> pairs it reads as, or (for sources) of <<port, mode, weight>>.*)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)       \* [names, modes, weights, depth]
VARIABLES kind, style, entries
vars == <<kind, style, entries>>
Names == {Plan.names[i] : i \in 1..Len(Plan.names)}
Modes == {Plan.modes[i] : i \in 1..Len(Plan.modes)}
Weights == {Plan.weights[i] : i \in 1..Len(Plan.weights)}
ModeLists == {Plan.modelists[i] : i \in 1..Len(Plan.modelists)}
Styles == {"tuple", "list"}
Plain == [k : {"name"}, n : Names]
Pair == [k : {"pair"}, n : Names, m : Modes, s : Styles]
Entry(kd) == CASE kd = "seq" -> Plain \cup Pair
               [] kd = "modes" -> [k : {"modes"}, n : Names, ms : ModeLists, s : Styles]
               [] kd = "weights" -> [k : {"wname"}, n : Names, w : Weights] \cup [k : {"wpair"}, n : Names, m : Modes, w : Weights]
\* keys of a mapping are distinct
Key(x) == IF x.k = "modes" THEN <<x.n>> ELSE IF x.k = "wname" THEN <<x.n, 0>> ELSE <<x.n, x.m>>
Allowed(x) == CASE kind = "seq" -> TRUE [] OTHER -> \A i \in 1..Len(entries) : Key(entries[i]) # Key(x)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flatten(Tail(ss))
EntryMeaning(x) == CASE x.k = "name" -> << <<x.n, 0>> >>
                     [] x.k = "pair" -> << <<x.n, x.m>> >>
                     [] x.k = "modes" -> [i \in 1..Len(x.ms) |-> <<x.n, x.ms[i]>>]
                     [] x.k = "wname" -> << <<x.n, 0, x.w>> >>
                     [] x.k = "wpair" -> << <<x.n, x.m, x.w>> >>
Meaning(es) == Flatten([i \in 1..Len(es) |-> EntryMeaning(es[i])])
\* as a source: weight one unless given, every port and mode once
Weighted(l) == [i \in 1..Len(l) |-> <<l[i][1], l[i][2], IF Len(l[i]) = 3 THEN l[i][3] ELSE 1>>]
RECURSIVE Once(_, _)
Once(l, seen) == IF l = << >> THEN << >>
                 ELSE LET x == <<Head(l)[1], Head(l)[2]>> IN IF x \in seen THEN Once(Tail(l), seen) ELSE <<Head(l)>> \o Once(Tail(l), seen \cup {x})
Emit == PrintT("@@" \o ToJson([kind |-> kind, style |-> style, es |-> entries,
          pairs |-> [i \in 1..Len(Meaning(entries)) |-> <<Meaning(entries)[i][1], Meaning(entries)[i][2]>>],
          source |-> Once(Weighted(Meaning(entries)), {})]))
Init == entries = << >> /\ kind \in {"seq", "modes", "weights", "name", "pair"} /\ style \in (IF kind \in {"seq", "pair"} THEN Styles ELSE {"tuple"})
Add == /\ kind \in {"seq", "modes", "weights"} /\ Len(entries) < (IF kind = "seq" THEN Plan.depth ELSE 2)
       /\ \E x \in Entry(kind) : Allowed(x) /\ entries' = Append(entries, x)
       /\ UNCHANGED <<kind, style>>
Single == /\ kind \in {"name", "pair"} /\ entries = << >>
          /\ \E x \in (IF kind = "name" THEN Plain ELSE {p \in Pair : p.s = style}) : entries' = <<x>>
          /\ UNCHANGED <<kind, style>>
Next == Add \/ Single
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* printed once per notation
Emitted == (entries # << >> \/ kind = "seq") => Emit
\* the meaning follows the order of the entries
Ordered == \A i \in 0..Len(entries) : Meaning(entries) = Meaning(SubSeq(entries, 1, i)) \o Meaning(SubSeq(entries, i + 1, Len(entries)))
\* pairs spelled as lists mean the same as tuples
Restyled == kind = "seq" => Meaning(entries) = Meaning([i \in 1..Len(entries) |-> IF entries[i].k = "pair" THEN [entries[i] EXCEPT !.s = "tuple"] ELSE entries[i]])
\* spelling the meaning out as a list of pairs means the same again
Normal == kind # "weights" => LET l == Meaning(entries) IN Meaning([i \in 1..Len(l) |-> [k |-> "pair", n |-> l[i][1], m |-> l[i][2], s |-> "tuple"]]) = l
\* a name is the same as the pair of the name and mode zero
Defaults == kind = "seq" => Meaning([i \in 1..Len(entries) |-> IF entries[i].k = "name" THEN [k |-> "pair", n |-> entries[i].n, m |-> 0, s |-> "tuple"] ELSE entries[i]]) = Meaning(entries)
=============================================================================
