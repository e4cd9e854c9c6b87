---------------------------- MODULE ProblemsMC ----------------------------
(***************************************************************************)
(* The incremental problem with a usage count per design variable, as the  *)
(* code keeps it, against the collection it stands for.                    *)
(***************************************************************************)
EXTENDS Problems
CONSTANTS Dvs, Groups, Ets, MaxMerged, Names

VARIABLES sub, inc, cnt, hist
vars == <<sub, inc, cnt, hist>>
Grps(m) == {g \in Groups : \E d \in DOMAIN m : m[d] = g}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* every sub-problem: some design variables, each in a group, and some error terms
Subs == UNION {{[order |-> SeqOf(Grps(m)), groups |-> [g \in Grps(m) |-> SeqOf({d \in D : m[d] = g})], ets |-> SeqOf(E)]
               : m \in [D -> Groups], E \in SUBSET Ets} : D \in SUBSET Dvs}
Empty == [order |-> <<>>, groups |-> <<>>, probs |-> <<>>]
Init == sub \in [Names -> Subs] /\ inc = Empty /\ cnt = [d \in {} |-> 0] /\ hist = <<>>

Counted(c, n) == [d \in DOMAIN c \cup Members(sub[n]) |->
                   (IF d \in DOMAIN c THEN c[d] ELSE 0) + (IF d \in Members(sub[n]) THEN 1 ELSE 0)]
Add(n) == /\ Len(inc.probs) < MaxMerged /\ MergeOk(inc, sub, n)
          /\ inc' = Merge(inc, sub, n) /\ cnt' = Counted(cnt, n)
          /\ hist' = Append(hist, inc) /\ UNCHANGED sub
\* the count decides which variables go
Remove(k) == /\ k \in DOMAIN inc.probs
             /\ LET n == inc.probs[k]
                    gone == {d \in Members(sub[n]) : cnt[d] = 1}
                IN  /\ inc' = [Shrunk(inc, gone) EXCEPT !.probs = RemoveAt(@, k)]
                    /\ cnt' = [d \in DOMAIN cnt \ gone |-> IF d \in Members(sub[n]) THEN cnt[d] - 1 ELSE cnt[d]]
             /\ hist' = <<>> /\ UNCHANGED sub
Reorder == \E g \in DOMAIN inc.groups : /\ Len(inc.groups[g]) > 1
             /\ inc' = PermD(inc, g, [i \in DOMAIN inc.groups[g] |-> Len(inc.groups[g]) - i])
             /\ hist' = <<>> /\ UNCHANGED <<sub, cnt>>
Next == (\E n \in Names : Add(n)) \/ (\E k \in 1..MaxMerged : Remove(k)) \/ Reorder

Uses(d) == Cardinality({k \in DOMAIN inc.probs : d \in Members(sub[inc.probs[k]])})
CountsAreUses == DOMAIN cnt = Members(inc) /\ \A d \in DOMAIN cnt : cnt[d] = Uses(d) /\ cnt[d] > 0
Union_ == Members(inc) = UNION {Members(sub[inc.probs[k]]) : k \in DOMAIN inc.probs}
Once == NoDup(Listing(inc)) /\ NoDup(inc.order) /\ Rng(inc.order) = DOMAIN inc.groups
        /\ \A g \in DOMAIN inc.groups : inc.groups[g] # <<>>
GroupsAgree == \A k \in DOMAIN inc.probs : \A d \in Members(sub[inc.probs[k]]) : GroupOf(inc, d) = GroupOf(sub[inc.probs[k]], d)
\* merging and removing again restores, in every reachable state
MergeUnmerge == \A n \in Names : MergeOk(inc, sub, n) =>
                  Unmerge(Merge(inc, sub, n), sub, Len(inc.probs) + 1) = inc
\* the counted removal is the one of the collection
SameRemoval == \A k \in DOMAIN inc.probs :
                 Members(Unmerge(inc, sub, k)) = Members(inc) \ {d \in Members(sub[inc.probs[k]]) : cnt[d] = 1}
=============================================================================
