---------------------------- MODULE ProblemsTrace ----------------------------
(***************************************************************************)
(* Histories of the real optimization problems against Problems.           *)
(***************************************************************************)
EXTENDS Problems, Trc, Integers

VARIABLES dv, et, plain, cal, inc, bak, dead
vars == <<l, dv, et, plain, cal, inc, bak, dead>>
\* dv[i] = [n, active, x] and et[i] = sequence of variables, both numbered from 0;
\* plain[P|S] = [dvs, ets, own, owne];  bak[name]: variable -> saved value

Dv(i) == dv[i + 1]
Et(i) == et[i + 1]
NoPlain == [dvs |-> <<>>, ets |-> <<>>, own |-> {}, owne |-> {}]
NoInc == [order |-> <<>>, groups |-> <<>>, probs |-> <<>>]
Init == /\ l = 1 /\ dv = <<>> /\ et = <<>> /\ plain = ("P" :> NoPlain @@ "S" :> NoPlain)
        /\ cal = <<>> /\ inc = NoInc /\ bak = ("I" :> <<>>) /\ dead = [d |-> {}, e |-> {}]
TBegin == /\ Is("begin") /\ dv' = <<>> /\ et' = <<>> /\ plain' = ("P" :> NoPlain @@ "S" :> NoPlain)
          /\ cal' = <<>> /\ inc' = NoInc /\ bak' = ("I" :> <<>>) /\ dead' = [d |-> {}, e |-> {}]

TDv == Is("dv") /\ dv' = Append(dv, [n |-> Line.n, active |-> Line.active, x |-> 0]) /\ UNCHANGED <<et, plain, cal, inc, bak, dead>>
TEt == Is("et") /\ et' = Append(et, Line.dvs) /\ UNCHANGED <<dv, plain, cal, inc, bak, dead>>
TAct == Is("act") /\ dv' = [dv EXCEPT ![Line.v + 1].active = Line.active] /\ UNCHANGED <<et, plain, cal, inc, bak, dead>>
TSet == Is("set") /\ dv' = [dv EXCEPT ![Line.v + 1].x = Line.x] /\ UNCHANGED <<et, plain, cal, inc, bak, dead>>
TVals == /\ Is("vals")
         /\ Chk("values of the variables", \A i \in 1..Len(dv) : (i - 1) \in dead.d \/ Line.x[i] = dv[i].x)
         /\ UNCHANGED <<dv, et, plain, cal, inc, bak, dead>>

Keep == UNCHANGED <<dv, et, cal, inc, bak>>
TAddDv == /\ Is("adddv")
          /\ LET q == plain[Line.p]
                 bad == Line.v \in Rng(q.dvs)
             IN  /\ Chk("a design variable is added once", Line.exc = bad)
                 /\ plain' = IF bad THEN plain
                             ELSE [plain EXCEPT ![Line.p] = [@ EXCEPT !.dvs = Append(@, Line.v),
                                                               !.own = IF Line.own THEN @ \cup {Line.v} ELSE @]]
          /\ UNCHANGED dead /\ Keep
TAddEt == /\ Is("addet")
          /\ LET q == plain[Line.p]
                 bad == Line.p = "P" /\ ~(Rng(Et(Line.t)) \subseteq Rng(q.dvs))
             IN  /\ Chk("an error term of a missing design variable is refused", Line.exc = bad)
                 /\ plain' = IF bad THEN plain
                             ELSE [plain EXCEPT ![Line.p] = [@ EXCEPT !.ets = Append(@, Line.t),
                                                               !.owne = IF Line.own THEN @ \cup {Line.t} ELSE @]]
                 \* a refused term that was handed over is gone
                 /\ dead' = IF bad /\ Line.own THEN [dead EXCEPT !.e = @ \cup {Line.t}] ELSE dead
          /\ Keep
Drop(q, D, E) == [q EXCEPT !.dvs = SelectSeq(@, LAMBDA v : v \notin D), !.ets = SelectSeq(@, LAMBDA t : t \notin E)]
Bury(q, D, E) == dead' = [d |-> dead.d \cup (D \cap q.own), e |-> dead.e \cup (E \cap q.owne)]
TRmDv == /\ Is("rmdv") /\ Chk("removal is not refused", ~Line.exc)
         /\ LET q == plain["P"]
                E == IF Line.v \in Rng(q.dvs) THEN {t \in Rng(q.ets) : Line.v \in Rng(Et(t))} ELSE {}
            IN  plain' = [plain EXCEPT !["P"] = Drop(q, {Line.v}, E)] /\ Bury(q, {Line.v} \cap Rng(q.dvs), E)
         /\ Keep
TRmEt == /\ Is("rmet") /\ Chk("removal is not refused", ~Line.exc)
         /\ LET q == plain["P"] IN plain' = [plain EXCEPT !["P"] = Drop(q, {}, {Line.t})] /\ Bury(q, {}, {Line.t} \cap Rng(q.ets))
         /\ Keep
TClear == /\ Is("clear")
          /\ CASE Line.p \in {"P", "S"} ->
                    /\ plain' = [plain EXCEPT ![Line.p] = NoPlain]
                    /\ Bury(plain[Line.p], Rng(plain[Line.p].dvs), Rng(plain[Line.p].ets)) /\ Keep
               [] Line.p = "I" -> inc' = NoInc /\ bak' = [bak EXCEPT !["I"] = <<>>] /\ UNCHANGED <<dv, et, plain, cal, dead>>
               [] OTHER -> cal' = [cal EXCEPT ![Line.p] = NoGroups @@ [ets |-> <<>>]] /\ bak' = [bak EXCEPT ![Line.p] = <<>>]
                           /\ UNCHANGED <<dv, et, plain, inc, dead>>

TCNew == /\ Is("cnew") /\ cal' = (Line.c :> (NoGroups @@ [ets |-> <<>>])) @@ cal /\ bak' = (Line.c :> <<>>) @@ bak
         /\ UNCHANGED <<dv, et, plain, inc, dead>>
TCDv == /\ Is("cdv")
        /\ LET bad == Line.v < 0 \/ Line.v \in Members(cal[Line.c])
           IN  /\ Chk("a design variable is added once", Line.exc = bad)
               /\ cal' = IF bad THEN cal ELSE [cal EXCEPT ![Line.c] = Grown(@, Line.v, Line.g)]
        /\ UNCHANGED <<dv, et, plain, inc, bak, dead>>
TCEt == /\ Is("cet")
        /\ LET c == cal[Line.c]
               bad == Line.t < 0 \/ Line.t \in Rng(c.ets) \/ ~(Rng(Et(Line.t)) \subseteq Members(c))
           IN  /\ Chk("an error term is added once and after its design variables", Line.exc = bad)
               /\ cal' = IF bad THEN cal ELSE [cal EXCEPT ![Line.c].ets = Append(@, Line.t)]
        /\ UNCHANGED <<dv, et, plain, inc, bak, dead>>
TPermE == /\ Is("perme")
          /\ LET old == IF Line.c = "I" THEN inc.probs ELSE cal[Line.c].ets
                 bad == ~IsPerm(Line.perm, Len(old))
             IN  /\ Chk("only permutations are applied", Line.exc = bad)
                 /\ IF bad THEN UNCHANGED <<inc, cal>>
                    ELSE IF Line.c = "I" THEN inc' = [inc EXCEPT !.probs = Permuted(old, Line.perm)] /\ UNCHANGED cal
                    ELSE cal' = [cal EXCEPT ![Line.c].ets = Permuted(old, Line.perm)] /\ UNCHANGED inc
          /\ UNCHANGED <<dv, et, plain, bak, dead>>
TPermD == /\ Is("permd")
          /\ LET old == IF Line.c = "I" THEN inc ELSE cal[Line.c]
                 bad == ~PermDOk(old, Line.g, Line.perm)
             IN  /\ Chk("only permutations of a known group are applied", Line.exc = bad)
                 /\ IF bad THEN UNCHANGED <<inc, cal>>
                    ELSE IF Line.c = "I" THEN inc' = PermD(old, Line.g, Line.perm) /\ UNCHANGED cal
                    ELSE cal' = [cal EXCEPT ![Line.c] = PermD(old, Line.g, Line.perm)] /\ UNCHANGED inc
          /\ UNCHANGED <<dv, et, plain, bak, dead>>
TOrder == /\ Is("order")
          /\ LET old == IF Line.c = "I" THEN inc ELSE cal[Line.c]
                 bad == ~OrderOk(old, Line.order)
             IN  /\ Chk("only orders of the groups are accepted", Line.exc = bad)
                 /\ IF bad THEN UNCHANGED <<inc, cal>>
                    ELSE IF Line.c = "I" THEN inc' = [inc EXCEPT !.order = Line.order] /\ UNCHANGED cal
                    ELSE cal' = [cal EXCEPT ![Line.c].order = Line.order] /\ UNCHANGED inc
          /\ UNCHANGED <<dv, et, plain, bak, dead>>
Who(c) == IF c = "I" THEN Members(inc) ELSE Members(cal[c])
TSave == /\ Is("save") /\ bak' = [bak EXCEPT ![Line.c] = [d \in Who(Line.c) |-> Dv(d).x] @@ @]
         /\ UNCHANGED <<dv, et, plain, cal, inc, dead>>
TRestore == /\ Is("restore")
            /\ dv' = [i \in DOMAIN dv |-> IF (i - 1) \in DOMAIN bak[Line.c] THEN [dv[i] EXCEPT !.x = bak[Line.c][i - 1]] ELSE dv[i]]
            /\ UNCHANGED <<et, plain, cal, inc, bak, dead>>

TIAdd == /\ Is("iadd")
         /\ LET bad == Line.c = "-" \/ ~MergeOk(inc, cal, Line.c)
            IN  /\ Chk("a problem that does not fit is refused", Line.exc = bad)
                /\ inc' = IF bad THEN inc ELSE Merge(inc, cal, Line.c)
         /\ UNCHANGED <<dv, et, plain, cal, bak, dead>>
TIRm == /\ Is("irm")
        /\ LET ks == IF Line.how = "ptr" THEN {k \in DOMAIN inc.probs : inc.probs[k] = Line.c} ELSE {Line.k + 1} \cap DOMAIN inc.probs
               bad == ks = {}
               nw == IF bad THEN inc ELSE Unmerge(inc, cal, CHOOSE k \in ks : \A j \in ks : k <= j)
           IN  /\ Chk("a problem that is not there is refused", Line.exc = bad)
               /\ inc' = nw
               /\ bak' = [bak EXCEPT !["I"] = [d \in DOMAIN @ \cap (Members(nw) \cup (DOMAIN @ \ Members(inc))) |-> @[d]]]
        /\ UNCHANGED <<dv, et, plain, cal, dead>>

\* what a problem shows
Flag(S) == [i \in 1..Len(dv) |-> IF (i - 1) \in S THEN 1 ELSE 0]
Shows(dvs, ets) == /\ Chk("design variables in order", Line.dvs = dvs /\ Line.cdvs = dvs)
                   /\ Chk("error terms in order", Line.ets = ets /\ Line.cets = ets)
                   /\ Chk("beyond the last is refused", Line.over)
RECURSIVE Dim(_)
Dim(s) == IF s = <<>> THEN 0 ELSE (IF Dv(Head(s)).active THEN Dv(Head(s)).n ELSE 0) + Dim(Tail(s))
ShowsGroups(c, ets) ==
  /\ Chk("order of the groups", Line.order = c.order /\ Line.ng = Len(c.order))
  /\ Chk("groups", {[g |-> Line.groups[k].g, dvs |-> Line.groups[k].dvs] : k \in DOMAIN Line.groups}
                   = {[g |-> g, dvs |-> c.groups[g]] : g \in DOMAIN c.groups} /\ Len(Line.groups) = Cardinality(DOMAIN c.groups))
  /\ Chk("group of each variable", \A i \in 1..Len(dv) : Line.gid[i] = IF (i - 1) \in Members(c) THEN GroupOf(c, i - 1) ELSE -1)
  /\ Chk("variables by pointer", Line.in = Flag(Members(c)))
  /\ Chk("error terms by pointer", Line.etin = [i \in 1..Len(et) |-> IF (i - 1) \in Rng(ets) THEN 1 ELSE 0])
  /\ Chk("dimension of each group", \A g \in 0..4 : Line.dim[g + 1] = IF g \in DOMAIN c.groups THEN Dim(c.groups[g]) ELSE -1)
  /\ Chk("size of each group", \A g \in 0..4 : Line.size[g + 1] = IF g \in DOMAIN c.groups THEN Len(c.groups[g]) ELSE -1)
RECURSIVE AllEts(_)
AllEts(ps) == IF ps = <<>> THEN <<>> ELSE cal[Head(ps)].ets \o AllEts(Tail(ps))
TView == /\ Is("view")
         /\ Chk("what was handed over is deleted when removed, and only then", Rng(Line.deadd) = dead.d /\ Rng(Line.deade) = dead.e)
         /\ CASE Line.p \in {"P", "S"} ->
                   LET q == plain[Line.p] IN
                   /\ Shows(q.dvs, q.ets) /\ Chk("variables by pointer", Line.in = Flag(Rng(q.dvs)))
                   /\ Line.p = "P" =>
                        /\ Chk("error terms of each variable", \A i \in 1..Len(dv) :
                                 Rng(Line.errs[i]) = {t \in Rng(q.ets) : (i - 1) \in Rng(Et(t))})
                        /\ Chk("number of active variables", Line.nact = Cardinality({d \in Rng(q.dvs) : Dv(d).active}))
              [] Line.p = "I" ->
                   /\ Chk("sub-problems in order", Line.probs = inc.probs /\ Line.same)
                   /\ Chk("error terms of each sub-problem", Line.pets = [k \in DOMAIN inc.probs |-> cal[inc.probs[k]].ets])
                   /\ Shows(Listing(inc), AllEts(inc.probs)) /\ ShowsGroups(inc, AllEts(inc.probs))
              [] OTHER -> LET c == cal[Line.p] IN
                   Shows(Listing(c), c.ets) /\ ShowsGroups(c, c.ets) /\ Chk("error terms", Line.sets = c.ets)
         /\ UNCHANGED <<dv, et, plain, cal, inc, bak, dead>>
Next == Step /\ (TBegin \/ TDv \/ TEt \/ TAct \/ TSet \/ TVals \/ TAddDv \/ TAddEt \/ TRmDv \/ TRmEt \/ TClear \/ TCNew \/ TCDv
                 \/ TCEt \/ TPermE \/ TPermD \/ TOrder \/ TSave \/ TRestore \/ TIAdd \/ TIRm \/ TView)
=============================================================================
