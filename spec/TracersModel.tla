---------------------------- MODULE TracersModel ----------------------------
(* Histories of edits of a probe list: tracers are added, removed, regrouped
   and permuted. The content of the spectra (which row holds which pair) is a
   bijection onto the rows, unchanged by regrouping and moved by permuting. *)
EXTENDS Tracers, TLC, Json
CONSTANTS T, Emit
VARIABLES groups, last
Ids == {t : t \in 1..T}
Present == {Flat(groups)[p] : p \in 1..Len(Flat(groups))}
Content(g) == [st \in {<<s, t>> \in Ids \X Ids : s <= t /\ \E p, q \in 1..Len(Flat(g)) : Flat(g)[p] = s /\ Flat(g)[q] = t} |-> RowOf(g, st[1], st[2])]

Init == groups \in {<<<<t>>>> : t \in Ids} /\ last = "init"
Add == \E t \in Ids \ Present : groups' = Append(groups, <<t>>) /\ last' = "add"
DropOne == \E g \in 1..Len(groups) : Len(Flat(groups)) > 1 /\ last' = "remove" /\
             groups' = IF Len(groups[g]) = 1 THEN RemoveAt(groups, g) ELSE [groups EXCEPT ![g] = Tail(@)]
Merge == \E g \in 1..(Len(groups)-1) : last' = "regroup" /\
             groups' = SubSeq(groups, 1, g-1) \o <<groups[g] \o groups[g+1]>> \o SubSeq(groups, g+2, Len(groups))
Split == \E g \in 1..Len(groups) : \E p \in 1..(Len(groups[g])-1) : last' = "regroup" /\
             groups' = SubSeq(groups, 1, g-1) \o <<SubSeq(groups[g], 1, p), SubSeq(groups[g], p+1, Len(groups[g]))>> \o SubSeq(groups, g+1, Len(groups))
SwapProbes == \E g \in 1..(Len(groups)-1) : last' = "permute" /\ groups' = [groups EXCEPT ![g] = groups[g+1], ![g+1] = groups[g]]
SwapBins == \E g \in 1..Len(groups) : \E p \in 1..(Len(groups[g])-1) : last' = "permute" /\
             groups' = [groups EXCEPT ![g] = [@ EXCEPT ![p] = groups[g][p+1], ![p+1] = groups[g][p]]]
Next == Add \/ DropOne \/ Merge \/ Split \/ SwapProbes \/ SwapBins
Spec == Init /\ [][Next]_<<groups, last>>

n == Len(Flat(groups))
TypeOK == Cardinality(Present) = n /\ \A g \in 1..Len(groups) : Len(groups[g]) > 0
RowsArePairs ==
  /\ Len(Pairs(n)) = NPairs(n)
  /\ \A r \in 1..NPairs(n) : Row(n, Pairs(n)[r][1], Pairs(n)[r][2]) = r /\ Pairs(n)[r][1] <= Pairs(n)[r][2]
  /\ {Content(groups)[st] : st \in DOMAIN Content(groups)} = 1..NPairs(n)
  /\ Cardinality(DOMAIN Content(groups)) = NPairs(n)
(* covariance blocks: symmetric under exchange of rows, and of the two members *)
BlocksSymmetric == \A p, q \in 1..NPairs(n) :
  LET b == Block(n, p, q)
      t == Block(n, q, p)
  IN {b[1], b[2]} = {t[1], t[2]} /\ {b[3], b[4]} = {t[3], t[4]}
RegroupKeeps == [][last' = "regroup" => Content(groups') = Content(groups)]_<<groups, last>>
PermuteMoves == [][last' = "permute" => DOMAIN Content(groups') = DOMAIN Content(groups)]_<<groups, last>>
(* the sequence of tracers decides everything *)
EmitState == Emit => PrintT(ToJson(groups))
(* negative control *)
NeverMoves == last = "permute" => Flat(groups)[1] <= Flat(groups)[Len(Flat(groups))]
View == groups
=============================================================================
