----------------------------- MODULE DatasetTrace -----------------------------
(* Recorded use of the readers of recordings and of target extraction. *)
EXTENDS Trc, Dataset
VARIABLES conns, ds
vars == <<l, conns, ds>>
Init == l = 1 /\ conns = <<>> /\ ds = [ok |-> FALSE]
Begin == Is("begin") /\ conns' = <<>> /\ ds' = [ok |-> FALSE] /\ Step
BagOp == Is("bag") /\ conns' = Line.conns /\ ds' = [ok |-> FALSE] /\ Step

RECURSIVE Join(_, _, _)
Join(cs, topic, i) == IF i > Len(cs) THEN <<>> ELSE (IF cs[i].topic = topic THEN cs[i].msgs ELSE <<>>) \o Join(cs, topic, i + 1)
Known(cs, topic) == \E i \in 1..Len(cs) : cs[i].topic = topic

B(x) == x % 256
Grey(i) == <<B(4 * i + 5), B(2 * i + 6)>>
GreyRev(i) == <<B(i + 8), B(2 * i + 9)>>
Pixels(m) ==
  CASE m.enc \in {"16UC1", "mono16", "8UC1", "mono8"} -> <<B(m.id), B(m.id + 1)>>
    [] m.enc \in {"8UC3", "bgr8", "8UC4", "bgra8"} -> Grey(m.id)
    [] m.enc = "rgb8" -> GreyRev(m.id)
    [] m.enc = "bayer_rggb8" -> <<B(m.id + 1), B(m.id + 2)>>
    [] OTHER -> <<>>
Numbers(m) == <<4 * m.id + 1, 4 * m.id + 2, 4 * m.id + 3, -(4 * m.id + 1), -(4 * m.id + 2), -(4 * m.id + 3)>>
Item(m) == [t |-> m.t + (IF ds.sync THEN 512000 ELSE 0), data |-> IF ds.kind = "imu" THEN Numbers(m) ELSE Pixels(m)]

Open == Is("open") /\
  LET ms == Join(conns, Line.topic, 1)
      ok == Known(conns, Line.topic) /\ (Line.ranged => Line.lo < Line.hi)
      w == IF ok THEN Wanted(ms, Line.ranged, Line.lo, Line.hi) ELSE {}
  IN /\ Chk("a reader of a topic that is there", Line.ok = ok)
     /\ Chk("number of messages", Line.ok => Line.n = Cardinality(w))
     /\ ds' = [ok |-> ok, kind |-> Line.kind, sync |-> Line.sync, ms |-> ms, w |-> w]
     /\ UNCHANGED conns
     /\ Step
RECURSIVE SeqOf(_, _)
SeqOf(ms, S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE a \in S : \A b \in S : a <= b IN <<Item(ms[i])>> \o SeqOf(ms, S \ {i})
Read == Is("read") /\ ds.ok /\
  LET legible == ds.kind = "imu" \/ \A i \in ds.w : Pixels(ds.ms[i]) # <<>>
  IN /\ IF legible
        THEN /\ Chk("reading fails", Line.err = "")
             /\ \E want \in {SeqOf(ds.ms, ds.w)} : Chk("each message once with its own data and time", SameItems(Line.items, want))
             /\ Chk("in the order of time", Line.how # "shuffle" => Ordered(Line.items))
        ELSE Chk("an unknown encoding is refused", Line.err = "RuntimeError")
     /\ UNCHANGED <<conns, ds>>
     /\ Step

Extract == Is("extract") /\
  LET want == [i \in 1..Len(Line.found) |-> <<Line.found[i], Line.found[i]>>] IN
  /\ IF Line.fails
     THEN Chk("a detector that fails is seen", Line.serial.how = "error" /\ Line.parallel.how = "error")
     ELSE /\ Chk("serial extraction", Line.serial.how = "ok" /\ Line.serial.obs = want)
          /\ Chk("parallel extraction", Line.parallel.how = "ok" /\ Line.parallel.obs = want)
          /\ Chk("images are kept or cleared as wanted", Line.serial.cleared /\ Line.parallel.cleared)
  /\ UNCHANGED <<conns, ds>>
  /\ Step

Next == Begin \/ BagOp \/ Open \/ Read \/ Extract
=============================================================================
