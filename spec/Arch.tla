------------------------------- MODULE Arch -------------------------------
(* Reference architectures of feed-forward meshes of couplers, for every size. *)
(* A node is [id, top, bot, col, td, bd] (0-based; td / bd are the couplers     *)
(* upstream of the two arms within the node's own tree).                       *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Log2Up(_)
Log2Up(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Up((n + 1) \div 2)
RECURSIVE SumDepth(_)
SumDepth(n) == IF n <= 1 THEN 0 ELSE Log2Up(n) + SumDepth(n - 1)
Pow2(n) == n \in {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
SetOf(s) == {s[i] : i \in 1..Len(s)}

---------------------------------------------------------------------------
(* Reference architectures *)
Seq2(a, b) == [i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + i - 1]
Nd(id, top, bot, col, td, bd) == [id |-> id, top |-> top, bot |-> bot, col |-> col, td |-> td, bd |-> bd]
\* balanced tree over rails start..start+n-1, ids first..first+n-2; root in column 0 (inverted later)
RECURSIVE BalTree(_, _, _, _)
BalTree(n, start, first, col) ==
  IF n <= 1 THEN << >> ELSE
  LET m == n \div 2 IN
  <<Nd(first + m - 1, start + m - 1, start + n - 1, col, Seq2(first, first + m - 2), Seq2(first + m, first + n - 2))>>
  \o BalTree(m, start, first, col + 1) \o BalTree(n - m, start + m, first + m, col + 1)
Invert(nodes, depth) == [i \in 1..Len(nodes) |-> [nodes[i] EXCEPT !.col = depth - 1 - @]]
TreeNodes(n)  == Invert(BalTree(n, 0, 0, 0), Log2Up(n))
ChainNodes(n) == [i \in 1..(n - 1) |-> Nd(i - 1, i - 1, i, i - 1, Seq2(0, i - 2), << >>)]
RECURSIVE Bfly(_, _, _)
Bfly(n, start, col) ==
  IF n <= 1 THEN << >> ELSE
  LET m == n \div 2 IN
  [i \in 1..m |-> Nd(0, start + i - 1, start + m + i - 1, col, << >>, << >>)]
  \o Bfly(m, start, col + 1) \o Bfly(n - m, start + m, col + 1)
Renumber(nodes) == [i \in 1..Len(nodes) |-> [nodes[i] EXCEPT !.id = i - 1]]
BflyNodes(n) == Renumber(Invert(Bfly(n, 0, 0), Log2Up(n)))
Shift(nodes, off, col) == [i \in 1..Len(nodes) |-> [nodes[i] EXCEPT !.id = @ + off, !.col = @ + col]]
\* trees of sizes n, n-1, .., 2 one after another
RECURSIVE CascNodes(_, _, _)
CascNodes(n, off, col) == IF n <= 1 THEN << >> ELSE
  Shift(TreeNodes(n), off, col) \o CascNodes(n - 1, off + n - 1, col + Log2Up(n))
RECURSIVE TriNodes(_, _, _)
TriNodes(n, off, col) == IF n <= 1 THEN << >> ELSE
  Shift(ChainNodes(n), off, col) \o TriNodes(n - 1, off + n - 1, col + 2)
RECURSIVE RectNodes(_, _)
RectNodes(n, c) == IF c = n THEN << >> ELSE
  [j \in 1..((n - (c % 2)) \div 2) |-> Nd(0, 2 * (j - 1) + (c % 2), 2 * (j - 1) + 1 + (c % 2), c, << >>, << >>)]
  \o RectNodes(n, c + 1)
ColsOf(nodes, nc) == [c \in 1..nc |-> LET s == SelectSeq(nodes, LAMBDA d : d.col = c - 1) IN [i \in 1..Len(s) |-> s[i].id]]
Ref(kind, n) ==
  LET nodes == CASE kind = "tree" -> TreeNodes(n) [] kind = "chain" -> ChainNodes(n) [] kind = "butterfly" -> BflyNodes(n)
                 [] kind = "cascade" -> CascNodes(n, 0, 0) [] kind = "triangular" -> TriNodes(n, 0, 0)
                 [] kind = "rectangular" -> Renumber(RectNodes(n, 0))
      nc == CASE kind \in {"tree", "butterfly"} -> Log2Up(n) [] kind = "chain" -> n - 1 [] kind = "cascade" -> SumDepth(n)
              [] kind = "triangular" -> 2 * n - 3 [] kind = "rectangular" -> IF n = 2 THEN 1 ELSE n
  IN [kind |-> kind, n |-> n, rails |-> n, ncols |-> nc, num |-> Len(nodes), nodes |-> nodes, cols |-> ColsOf(nodes, nc), ref |-> TRUE]
Kinds == {"tree", "chain", "butterfly", "cascade", "triangular", "rectangular"}
=============================================================================
