------------------------------ MODULE Derived ------------------------------
(* Histories of operations that derive circuits from circuits.  The state is  *)
(* the store of all circuits made so far; each circuit is described by what   *)
(* an observer can tell about it: phase style, list order of its couplers,    *)
(* the imperfections and the phases each coupler carries (as tokens naming    *)
(* where they come from).  Deriving adds a circuit and must leave every other *)
(* circuit alone; only assigning / writing phases changes a circuit in place. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxOps, MaxStore, EmitAll
Plan == JsonDeserialize(IOEnv.PLAN)

VARIABLES pi, store, hist, over
vars == <<pi, store, hist, over>>
P == Plan[pi]
Ids == 1..P.N                      \* 1-based coupler ids
Circ(style, order, err, loss, ph) == [style |-> style, order |-> order, err |-> err, loss |-> loss, ph |-> ph]

Init == /\ pi \in 1..Len(Plan)
        /\ store = <<Circ(P.style, P.order, [i \in Ids |-> <<"init", i>>], [i \in Ids |-> <<"init", i>>], "p0")>>
        /\ hist = << >> /\ over = FALSE

\* list order by (column, id)
Before(i, j) == P.cols[i] < P.cols[j] \/ (P.cols[i] = P.cols[j] /\ i < j)
Rank(i) == 1 + Cardinality({j \in Ids : Before(j, i)})
ColumnOrder == [k \in Ids |-> CHOOSE i \in Ids : Rank(i) = k]
Pos(order, i) == CHOOSE k \in Ids : order[k] = i

Do(op, c) == /\ hist' = Append(hist, op) /\ store' = c /\ UNCHANGED <<pi, over>>
New(op, c) == Len(store) < MaxStore /\ Do(op, Append(store, c))

\* aggregate(circuit.columns) and column_ordered give the same circuit, phases not carried over
ColumnOrdered(s) == New([op |-> "column_ordered", s |-> s], [store[s] EXCEPT !.order = ColumnOrder, !.ph = "none"])
AggregateColumns(s) == New([op |-> "aggregate_columns", s |-> s], [store[s] EXCEPT !.order = ColumnOrder, !.ph = "none"])
AggregateSelf(s) == New([op |-> "aggregate_self", s |-> s], [store[s] EXCEPT !.ph = "none"])
\* couplers alone carry no phase style: the default one applies
AggregateNodes(s) == New([op |-> "aggregate_nodes", s |-> s], [store[s] EXCEPT !.ph = "none", !.style = "top"])
\* the first column view followed by the remaining couplers one by one
AggregateMixed(s) == New([op |-> "aggregate_mixed", s |-> s], [store[s] EXCEPT !.order = ColumnOrder, !.ph = "none"])
MeanScalar(s, k) == New([op |-> "mean_scalar", s |-> s, k |-> k],
   [store[s] EXCEPT !.err = [i \in Ids |-> <<"scalar", k>>], !.loss = [i \in Ids |-> <<"scalar", k>>]])
\* array entries belong to couplers in list order
MeanArray(s, k) == New([op |-> "mean_array", s |-> s, k |-> k],
   [store[s] EXCEPT !.err = [i \in Ids |-> <<"array", k, Pos(store[s].order, i)>>], !.loss = [i \in Ids |-> <<"array", k, Pos(store[s].order, i)>>]])
\* different errors of the left and right splitters: for all couplers, or for each
MeanSides(s, k) == New([op |-> "mean_sides", s |-> s, k |-> k],
   [store[s] EXCEPT !.err = [i \in Ids |-> <<"sides", k>>], !.loss = [i \in Ids |-> <<"scalar", k>>]])
MeanColumns(s, k) == New([op |-> "mean_columns", s |-> s, k |-> k],
   [store[s] EXCEPT !.err = [i \in Ids |-> <<"array", k, Pos(store[s].order, i)>>], !.loss = [i \in Ids |-> <<"array", k, Pos(store[s].order, i)>>]])
VarianceZero(s) == New([op |-> "variance_zero", s |-> s], store[s])
\* random errors: unknown but fixed from now on; losses keep their values
Variance(s) == New([op |-> "variance", s |-> s],
   [store[s] EXCEPT !.err = [i \in Ids |-> <<"random", Len(store) + 1, i>>]])
SetParams(s, p) == p # store[s].ph /\ Do([op |-> "set_params", s |-> s, p |-> p], [store EXCEPT ![s].ph = p])
\* writing the stored phase arrays in place, as programming does
WritePhases(s, p) == p # store[s].ph /\ Do([op |-> "write_phases", s |-> s, p |-> p], [store EXCEPT ![s].ph = p])
\* assigning one circuit's phases to another must not link them
CopyParams(s, t) == s # t /\ store[s].ph # "none" /\ store[s].ph # store[t].ph
                    /\ Do([op |-> "copy_params", s |-> s, t |-> t], [store EXCEPT ![t].ph = store[s].ph])
Views(s) == Do([op |-> "columns", s |-> s], store)

Act == \E s \in 1..Len(store) :
   \/ ColumnOrdered(s) \/ AggregateColumns(s) \/ AggregateSelf(s) \/ AggregateNodes(s) \/ AggregateMixed(s)
   \/ \E k \in 1..2 : MeanScalar(s, k) \/ MeanArray(s, k) \/ MeanSides(s, k) \/ MeanColumns(s, k)
   \/ VarianceZero(s) \/ Variance(s)
   \/ \E p \in {"p1", "p2"} : SetParams(s, p) \/ WritePhases(s, p)
   \/ \E t \in 1..Len(store) : CopyParams(s, t)
   \/ Views(s)
Step == ~over /\ Len(hist) < MaxOps /\ Act
Stop == /\ ~over /\ (EmitAll \/ Len(hist) = MaxOps)
        /\ PrintT("@@" \o ToJson([pi |-> pi, hist |-> hist, store |-> store]))
        /\ over' = TRUE /\ UNCHANGED <<pi, store, hist>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* every circuit keeps all couplers, each exactly once
Complete == \A s \in 1..Len(store) : {store[s].order[k] : k \in Ids} = Ids
\* deriving never disturbs: apart from phases, circuits never change once made
Undisturbed == [][\A s \in 1..Len(store) : /\ store'[s].style = store[s].style /\ store'[s].order = store[s].order
                                           /\ store'[s].err = store[s].err /\ store'[s].loss = store[s].loss]_vars
\* at most one circuit's phases change in a step
OnePhase == [][Cardinality({s \in 1..Len(store) : store'[s].ph # store[s].ph}) <= 1]_vars
=============================================================================
