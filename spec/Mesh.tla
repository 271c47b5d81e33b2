------------------------------- MODULE Mesh -------------------------------
(* Architectures of feed-forward coupler circuits, and light-cone semantics:  *)
(* a behaviour takes one structure (a reference architecture generated here,  *)
(* or one recorded from the implementation) and crosses its columns, keeping  *)
(* for every rail the inputs and the couplers that can influence it.  The     *)
(* verdict lists every violated clause; it is total on arbitrary recordings.  *)
(*                                                                           *)
(* A structure is a record                                                   *)
(*   kind, n (size), rails, ncols, num (reported column / coupler counts),    *)
(*   nodes: sequence of [id, top, bot, col, td, bd] (0-based; td / bd are the *)
(*          recorded descendants), cols: sequence of sequences of ids         *)
EXTENDS Arch, TLC, Json, IOUtils

CONSTANTS MaxN        \* reference architectures are generated for 2..MaxN
Plan == JsonDeserialize(IOEnv.PLAN)

DepthOf(s) == CASE s.kind \in {"tree", "butterfly"} -> Log2Up(s.n) [] s.kind = "chain" -> s.n - 1
                [] s.kind = "cascade" -> SumDepth(s.n) [] s.kind = "triangular" -> 2 * s.n - 3
                [] s.kind = "rectangular" -> IF s.n = 2 THEN 1 ELSE s.n [] OTHER -> s.ncols
CouplersOf(s) == CASE s.kind \in {"tree", "chain"} -> s.n - 1
                   [] s.kind \in {"cascade", "triangular", "rectangular", "rows"} -> (s.n * (s.n - 1)) \div 2
                   [] s.kind = "butterfly" -> IF Pow2(s.n) THEN (s.n \div 2) * Log2Up(s.n) ELSE Len(s.nodes)
                   [] OTHER -> Len(s.nodes)

---------------------------------------------------------------------------
(* Static clauses *)
Ids(s) == {s.nodes[i].id : i \in 1..Len(s.nodes)}
Cols(s) == {s.nodes[i].col : i \in 1..Len(s.nodes)}
MinCol(s) == CHOOSE c \in Cols(s) : \A d \in Cols(s) : c <= d
InRange(s) == \A i \in 1..Len(s.nodes) : LET d == s.nodes[i] IN
  d.top \in 0..(s.rails - 1) /\ d.bot \in 0..(s.rails - 1) /\ d.top # d.bot
Static(s) ==
  (IF Len(s.nodes) = 0 THEN {"has couplers"} ELSE {})
  \cup (IF Ids(s) = 0..(Len(s.nodes) - 1) THEN {} ELSE {"identifiers are unique and consecutive"})
  \cup (IF InRange(s) THEN {} ELSE {"couplers act on two distinct rails in range"})
  \cup (IF \A i \in 1..Len(s.nodes) : s.nodes[i].col \in 0..(s.ncols - 1) THEN {} ELSE {"columns in range"})
  \cup (IF \A i, j \in 1..Len(s.nodes) : (i # j /\ s.nodes[i].col = s.nodes[j].col) =>
              {s.nodes[i].top, s.nodes[i].bot} \cap {s.nodes[j].top, s.nodes[j].bot} = {}
        THEN {} ELSE {"no two couplers of a column share a rail"})
  \cup (IF \A c \in (IF s.kind = "row" /\ Len(s.nodes) > 0 THEN MinCol(s) ELSE 0)..(s.ncols - 1) : c \in Cols(s) THEN {} ELSE {"every column is occupied"})
  \cup (IF s.ncols = DepthOf(s) THEN {} ELSE {"depth of the architecture"})
  \cup (IF Len(s.nodes) = CouplersOf(s) /\ s.num = Len(s.nodes) THEN {} ELSE {"number of couplers"})
  \cup (IF s.kind \in {"tree", "chain"} => \A i \in 1..Len(s.nodes) : {s.nodes[i].top, s.nodes[i].bot} \subseteq 0..(s.n - 1)
        THEN {} ELSE {"a tree on n inputs stays on the first n rails"})
  \cup (IF s.ref \/ s.tab = [i \in 1..Len(s.nodes) |-> <<s.nodes[i].top, s.nodes[i].bot, s.nodes[i].id, s.nodes[i].col>>]
        THEN {} ELSE {"the mesh's tables of rails, identifiers and columns are those of its couplers"})
  \cup (IF Len(s.cols) = s.ncols /\ \A c \in 1..Len(s.cols) : c <= s.ncols =>
             (SetOf(s.cols[c]) = {s.nodes[i].id : i \in {i \in 1..Len(s.nodes) : s.nodes[i].col = c - 1}}
              /\ Len(s.cols[c]) = Cardinality(SetOf(s.cols[c])))
        THEN {} ELSE {"column views list exactly the couplers of their column"})

---------------------------------------------------------------------------
VARIABLES src,      \* <<"ref", kind, n>> or <<"rec", index>>
          col,      \* next column to cross; -1 before the static verdict
          reach,    \* rail -> set of inputs that can reach it
          up,       \* rail -> set of couplers upstream
          bad,      \* violated clauses
          done
vars == <<src, col, reach, up, bad, done>>
S == IF src[1] = "ref" THEN Ref(src[2], src[3]) ELSE Plan[src[2]]

Init == /\ src \in ({<<"ref", k, n>> : k \in Kinds, n \in 2..MaxN} \cup {<<"rec", i>> : i \in 1..Len(Plan)})
        /\ col = -1 /\ reach = << >> /\ up = << >> /\ bad = {} /\ done = FALSE

Fatal == {"couplers act on two distinct rails in range", "columns in range", "no two couplers of a column share a rail", "has couplers"}
Check ==
  /\ col = -1 /\ ~done
  /\ bad' = Static(S)
  /\ col' = 0
  /\ done' = (Static(S) \cap Fatal # {})
  /\ reach' = [r \in 0..(S.rails - 1) |-> {r}]
  /\ up' = [r \in 0..(S.rails - 1) |-> {}]
  /\ UNCHANGED src

NodesAt(c) == {S.nodes[i] : i \in {i \in 1..Len(S.nodes) : S.nodes[i].col = c}}
Cross ==
  /\ col >= 0 /\ col < S.ncols /\ ~done
  /\ LET N == NodesAt(col)
         On(r) == {d \in N : d.top = r \/ d.bot = r}
         The(r) == CHOOSE d \in On(r) : TRUE
     IN /\ reach' = [r \in DOMAIN reach |-> IF On(r) = {} THEN reach[r] ELSE reach[The(r).top] \cup reach[The(r).bot]]
        /\ up' = [r \in DOMAIN up |-> IF On(r) = {} THEN up[r] ELSE up[The(r).top] \cup up[The(r).bot] \cup {The(r).id}]
        /\ bad' = bad \cup
             (IF S.kind \in {"tree", "chain"} /\ \E d \in N : SetOf(d.td) # up[d.top] \/ SetOf(d.bd) # up[d.bot]
                                                              \/ Len(d.td) # Cardinality(SetOf(d.td)) \/ Len(d.bd) # Cardinality(SetOf(d.bd))
              THEN {"descendants are the couplers upstream of each arm"} ELSE {})
  /\ col' = col + 1
  /\ UNCHANGED <<src, done>>

Funnel == LET s == S IN
  (IF s.kind \in {"tree", "chain"} /\ reach[s.n - 1] # 0..(s.n - 1) THEN {"a tree funnels every input to the last rail"} ELSE {})
  \cup (IF (s.kind \in {"cascade", "triangular", "rectangular", "rows"} \/ (s.kind = "butterfly" /\ Pow2(s.n)))
           /\ \E r \in DOMAIN reach : reach[r] # 0..(s.rails - 1)
        THEN {"every input of a universal mesh reaches every output"} ELSE {})
Verdict ==
  /\ ~done /\ col >= 0 /\ col >= S.ncols
  /\ bad' = bad \cup Funnel
  /\ done' = TRUE
  /\ UNCHANGED <<src, col, reach, up>>
\* a separate last step emits the verdict of recorded structures
Emit ==
  /\ done /\ src[1] = "rec" /\ col # -2
  /\ PrintT("@@" \o ToJson([i |-> src[2], bad |-> bad]))
  /\ col' = -2
  /\ UNCHANGED <<src, reach, up, bad, done>>
Next == Check \/ Cross \/ Verdict \/ Emit
Spec == Init /\ [][Next]_vars

\* design: the reference architectures satisfy every clause, for every size
RefOK == src[1] = "ref" => bad = {}
\* light cones only grow
Grow == [][(col >= 0 /\ col' >= 0) => \A r \in DOMAIN reach : reach[r] \subseteq reach'[r] /\ up[r] \subseteq up'[r]]_vars
=============================================================================
