------------------------------- MODULE Light -------------------------------
(* Light travelling through a feed-forward circuit of couplers, one physical  *)
(* layer per step.  Each behaviour starts with a circuit taken from the plan  *)
(* (structure recorded from the real circuit object, imperfections and phase  *)
(* settings from the exact alphabet) and a block of input fields, crosses     *)
(* every layer forward, then sends the identity backward through the same     *)
(* layers in reverse.  The invariants are the design-level properties; the    *)
(* emitted snapshots are replayed against the implementation.                 *)
EXTENDS Optics, Json, IOUtils

Plan == JsonDeserialize(IOEnv.PLAN)

VARIABLES ci,      \* index of the circuit in the plan
          dir,     \* "fwd", "back", "done"
          step,    \* number of layers crossed in this direction (screen included)
          field,   \* current field block
          snaps,   \* sequence of field blocks recorded so far in this direction
          fsnaps   \* forward snapshots, kept while going backward
vars == <<ci, dir, step, field, snaps, fsnaps>>

C == Plan[ci]
NCols == C.ncols
ColNodes(c) == SelectSeq(C.nodes, LAMBDA nd : nd.col = c)
NSteps == 4 * NCols + 1               \* all layers and the output screen
\* input block: identity, then the extra inputs of the plan
Inputs(x) == [r \in 1..C.n |-> [k \in 1..(C.n + Len(x)) |->
                IF k <= C.n THEN (IF r = k THEN One ELSE Zero) ELSE x[k - C.n][r]]]

Init == /\ ci \in 1..Len(Plan)
        /\ dir = "fwd" /\ step = 0
        /\ field = Inputs(C.inputs)
        /\ snaps = <<field>>
        /\ fsnaps = <<>>

Record(f) == /\ field' = f
             /\ snaps' = IF C.snaps THEN Append(snaps, f) ELSE <<f>>

\* one layer forward: column (step \div 4), layer (step % 4)
Forward ==
  /\ dir = "fwd" /\ step < NSteps - 1
  /\ Record(ApplyLayer(C.style, Layers[1 + (step % 4)], ColNodes(step \div 4), field))
  /\ step' = step + 1
  /\ UNCHANGED <<ci, dir, fsnaps>>
ForwardScreen ==
  /\ dir = "fwd" /\ step = NSteps - 1
  /\ Record(ApplyScreen(C.gam, field))
  /\ step' = step + 1
  /\ UNCHANGED <<ci, dir, fsnaps>>
TurnAround ==
  /\ dir = "fwd" /\ step = NSteps
  /\ dir' = "back" /\ step' = 0
  /\ fsnaps' = snaps
  /\ field' = Inputs(C.inputs)
  /\ snaps' = <<Inputs(C.inputs)>>
  /\ UNCHANGED ci
BackwardScreen ==
  /\ dir = "back" /\ step = 0
  /\ Record(ApplyScreen(C.gam, field))
  /\ step' = 1
  /\ UNCHANGED <<ci, dir, fsnaps>>
\* one layer backward: the same layers in the opposite order
Backward ==
  /\ dir = "back" /\ step > 0 /\ step < NSteps
  /\ LET j == NSteps - 1 - step      \* forward index of the layer crossed
     IN Record(ApplyLayer(C.style, Layers[1 + (j % 4)], ColNodes(j \div 4), field))
  /\ step' = step + 1
  /\ UNCHANGED <<ci, dir, fsnaps>>
Finish ==
  /\ dir = "back" /\ step = NSteps
  /\ dir' = "done"
  /\ PrintT("@@" \o ToJson([ci |-> ci, fwd |-> fsnaps, back |-> snaps]))
  /\ UNCHANGED <<ci, step, field, snaps, fsnaps>>
Next == Forward \/ ForwardScreen \/ TurnAround \/ BackwardScreen \/ Backward \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ dir \in {"fwd", "back", "done"}
          /\ step \in 0..NSteps
          /\ Len(field) = C.n
LosslessCircuit == \A i \in 1..Len(C.nodes) : Lossless(C.nodes[i])
\* C02: power of every input is conserved at every observed point, exactly
PowerConserved ==
  (C.power /\ LosslessCircuit) => \A k \in 1..Len(field[1]) : ColPower(field, k) = ColPower(Inputs(C.inputs), k)
\* C02: backward transfer is the transpose of the forward one, exactly
Reciprocal ==
  dir = "done" =>
    LET F == fsnaps[Len(fsnaps)] IN
    \A r, k \in 1..C.n : field[r][k] = F[k][r]
\* C01: the circuit acts linearly: extra inputs come out as matrix times input
Linear ==
  (dir = "fwd" /\ step = NSteps) =>
    \A j \in 1..Len(C.inputs) : \A r \in 1..C.n :
       field[r][C.n + j] = Dot([k \in 1..C.n |-> field[r][k]], C.inputs[j])
=============================================================================
