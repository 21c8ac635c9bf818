------------------------------- MODULE Tracers -------------------------------
(* Lists of probes, each a sequence of tracers; ordering of spectra and of the
   blocks of their covariance. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Flat(groups) == FoldLeft(LAMBDA acc, g : acc \o g, <<>>, groups)
NPairs(n) == (n * (n + 1)) \div 2
(* row-major upper triangle *)
Pairs(n) == FoldLeft(LAMBDA acc, i : acc \o [k \in 1..(n - i + 1) |-> <<i, i + k - 1>>], <<>>, [i \in 1..n |-> i])
(* row of the unordered pair of positions i, j *)
Row(n, i0, j0) == LET i == IF i0 <= j0 THEN i0 ELSE j0
                      j == IF i0 <= j0 THEN j0 ELSE i0
                  IN (i - 1) * n - ((i - 1) * (i - 2)) \div 2 + (j - i + 1)
Pos(seq, t) == CHOOSE p \in 1..Len(seq) : seq[p] = t
(* row that holds the spectrum of tracers s, t *)
RowOf(groups, s, t) == LET f == Flat(groups) IN Row(Len(f), Pos(f, s), Pos(f, t))
(* rows entering the covariance of rows p and q: C_im C_jn + C_in C_jm *)
Block(n, p, q) == LET ij == Pairs(n)[p]
                      mn == Pairs(n)[q]
                  IN <<Row(n, ij[1], mn[1]), Row(n, ij[2], mn[2]), Row(n, ij[1], mn[2]), Row(n, ij[2], mn[1])>>
=============================================================================
