-------------------------------- MODULE Ports --------------------------------
(* Ports of a simulation: what a measurement reports for a list of            *)
(* <<port, mode>> requests, and where a source places what.                   *)
(* A port faces an axis (1 or 2; sections may also lie across 3) in the positive or negative direction; its   *)
(* section is the line (plane) of pixels across it.  Profiles are exact:      *)
(* every port of a plane simulation has one manufactured mode (profile f,     *)
(* propagation constant beta) of the section's own permittivity.              *)
EXTENDS Yee, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, req, cols
vars == <<pi, req, cols>>
P == Plan[pi]
G == P.g
Two == QInt(2)
RInv(x) == IF x[1] > 0 THEN QNorm(x[3], 0, x[1]) ELSE QNorm(-x[3], 0, -x[1])
\* ---------------------------------------------------------------- sections
Wrap(a, c) == c % G.n[a]
Cell(c) == Wrap(1, c[1]) * Stride(G, 1) + Wrap(2, c[2]) * Stride(G, 2) + Wrap(3, c[3]) + 1
Across(p) == IF p.axis = 1 THEN 2 ELSE 1
UpAxis(p) == IF p.axis = 3 THEN 2 ELSE 3
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* a port near an absorbing layer (or beyond the grid) is measured at the nearest safe pixel
Center(p) == [a \in 1..3 |-> IF a = 3 \/ p.axis = 3 THEN p.c[a] ELSE Clip(p.c[a], P.keep, G.n[a] - 1 - P.keep)]
Low(c, n) == c - n \div 2
\* pixel (i, k) of the section (across the port, up the port), displaced by s pixels along the port's direction
Pixel(p, i, k, s) ==
  LET c == Center(p)
      z == IF p.m = 0 THEN 0 ELSE Low(c[UpAxis(p)], p.m) + k
  IN Cell([a \in 1..3 |-> IF a = p.axis THEN c[a] + s ELSE IF a = Across(p) THEN Low(c[a], p.n) + i ELSE z])
SectionSize(p) == p.n * (IF p.m = 0 THEN 1 ELSE p.m)
Up(p) == IF p.m = 0 THEN 1 ELSE p.m
Section(p, s) == TLCEval([q \in 1..SectionSize(p) |-> Pixel(p, (q - 1) \div Up(p), (q - 1) % Up(p), s)])
\* components of the simulation's fields in the frame of the section: across, up, along
Frame(p) == IF p.axis = 1 THEN <<2, 3, 1>> ELSE IF p.axis = 2 THEN <<1, 3, 2>> ELSE <<1, 2, 3>>
\* which way the frame's third axis (across x up) points: with or against the port's axis
Handed(p) == IF p.axis = 2 THEN -1 ELSE 1
\* the positive direction of the frame leaves the device
Leaves(p) == (IF p.pos THEN 1 ELSE -1) * Handed(p) = 1
\* ---------------------------------------------------------------- power through a section (a line)
Viewed(p, F, c) == LET s == Section(p, 0) IN TLCEval([q \in 1..p.n |-> F[Frame(p)[c]][s[q]]])
Avg(u) == TLCEval([q \in 1..Len(u) |-> QMul(QHalf, QAdd(u[q], u[IF q = 1 THEN Len(u) ELSE q - 1]))])
\* e1, e2, h1, h2: transverse fields of the section
Flow(e1, e2, h1, h2) == QSub(QInner(h2, e1), QInner(Avg(h1), Avg(e2)))
ModeE(p) == IF P.tm THEN FDiv(FScale(QMul(p.beta, RInv(P.k0)), p.f), p.eps) ELSE [q \in 1..p.n |-> Q0]
ModeE2(p) == IF P.tm THEN [q \in 1..p.n |-> Q0] ELSE p.f
ModeH(p) == IF P.tm THEN [q \in 1..p.n |-> Q0] ELSE FScale(QNeg(QMul(p.beta, RInv(P.k0))), p.f)
ModeH2(p) == IF P.tm THEN p.f ELSE [q \in 1..p.n |-> Q0]
Norm(p) == Flow(ModeE(p), ModeE2(p), ModeH(p), ModeH2(p))
\* amplitudes of the mode travelling along and against the frame
Amp(p, e1, e2, h1, h2) ==
  LET half == RInv(QMul(Two, Norm(p)))
      a == QMul(Flow(e1, e2, ModeH(p), ModeH2(p)), half)
      b == QMul(QConj(Flow(ModeE(p), ModeE2(p), h1, h2)), half)
  IN <<QAdd(a, b), QSub(a, b)>>
OutIn(p, x) == IF Leaves(p) THEN x ELSE <<x[2], x[1]>>
Measure(p) == OutIn(p, Amp(p, Viewed(p, P.e, 1), Viewed(p, P.e, 2), Viewed(p, P.h, 1), Viewed(p, P.h, 2)))
Pair(i) == P.pairs[i]
Port(i) == P.ports[Pair(i)[1]]
\* the answer to one request: known exactly for manufactured modes
Column(i) == [pair |-> Pair(i), exact |-> P.exact /\ Pair(i)[2] = Port(i).rank, s |-> IF P.exact /\ Pair(i)[2] = Port(i).rank THEN Measure(Port(i)) ELSE << >>]
Emit(r) == PrintT("@@" \o ToJson(r))
Geometry == [q \in 1..Len(P.ports) |-> LET p == P.ports[q] IN
  [here |-> Section(p, 0), frame |-> Frame(p), leaves |-> Leaves(p),
   \* a source sits two pixels outside the port and is cancelled outward from the third
   near |-> Section(p, IF p.pos THEN 2 ELSE -2), far |-> Section(p, IF p.pos THEN 3 ELSE -3)]]
Init == /\ pi \in 1..Len(Plan) /\ req = << >> /\ cols = << >>
        /\ PrintT("@@" \o ToJson([what |-> "geometry", pi |-> pi, ports |-> LET Q == Plan[pi] IN Geometry]))
Ask(i) == /\ req' = Append(req, i)
          /\ cols' = Append(cols, Column(i))
          /\ Emit([what |-> "request", pi |-> pi, req |-> req', cols |-> cols'])
          /\ UNCHANGED pi
Next == Len(req) < P.depth /\ \E i \in 1..Len(P.pairs) : Ask(i)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* every column is its own request's answer, whatever was requested before
Independent == \A j \in 1..Len(req) : cols[j] = Column(req[j])
\* the manufactured profiles are modes of their sections
Made == (P.exact /\ req = << >>) => \A q \in 1..Len(P.ports) : LET p == P.ports[q]
                                      gl == [n |-> <<p.n, 1, 1>>, w |-> <<G.w[Across(p)], Q1, Q1>>, b |-> <<Q1, Q1, Q1>>]
                                  IN /\ OpMode1(gl, P.k0, p.eps, p.f) = FScale(QMul(p.beta, p.beta), p.f)
                                     /\ p.eps = [i \in 1..p.n |-> P.eps[Section(p, 0)[i]]]
\* a measurement recovers the amplitudes of a mode travelling both ways, and is linear in the fields
Both(p, x, y) == Amp(p, FScale(QAdd(x, y), ModeE(p)), FScale(QAdd(x, y), ModeE2(p)), FScale(QSub(x, y), ModeH(p)), FScale(QSub(x, y), ModeH2(p)))
Recovers == (P.exact /\ req = << >>) => \A q \in 1..Len(P.ports) : Both(P.ports[q], P.amp[1], P.amp[2]) = <<P.amp[1], P.amp[2]>>
\* turning a port around exchanges outgoing and incoming
Turned == (P.exact /\ req = << >>) => \A q \in 1..Len(P.ports) : LET p == P.ports[q] r == [p EXCEPT !.pos = ~p.pos]
                                        IN Measure(r) = <<Measure(p)[2], Measure(p)[1]>>
\* sections never contain a pixel twice; sources of a port lie outside its section
Sections == req = << >> => \A q \in 1..Len(P.ports) : LET p == P.ports[q] s == Section(p, 0) t == Geometry[q].near \o Geometry[q].far
                             IN /\ \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
                                /\ \A i \in 1..Len(s), j \in 1..Len(t) : s[i] # t[j]
=============================================================================
