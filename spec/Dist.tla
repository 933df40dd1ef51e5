---------------------------------- MODULE Dist ----------------------------------
(* A run distributed over several computers: its space is dealt into parts, every     *)
(* part stores tables of its own, the tables are joined and searched.  A table is a   *)
(* bag of cells (cell -> how often), a part a set of cells.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Empty == << >>
Count(b, c) == IF c \in DOMAIN b THEN b[c] ELSE 0
BagOf(set) == [c \in set |-> 1]
BagSum(b, d) == [c \in DOMAIN b \cup DOMAIN d |-> Count(b, c) + Count(d, c)]
SumAll(tables) == FoldLeft(BagSum, Empty, tables)
\* the cells 0..n-1 dealt to m parts, part k of 1..m
Cells(n) == 0..(n - 1)
DealtTo(n, m, k) == {c \in Cells(n) : c \div (n \div m) = k - 1}
\* what the maintenance of a table keeps
Cleaned(b, ended) == [c \in DOMAIN b \ ended |-> b[c]]
==============================================================================
