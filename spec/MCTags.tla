------------------------------- MODULE MCTags -------------------------------
(* The tags of a wheel through a history of repairs: every combination of
   platform, interpreter and ABI tags in the file name and in WHEEL (agreeing
   or not), repaired for one platform after another.                        *)
EXTENDS Clauses
CONSTANTS NamePlats, Pys, Abis, Metas, Purelibs, Requests, Depth, Emit

PlatSeq == [linux |-> <<"linux_x86_64">>, any |-> <<"any">>, one |-> <<"manylinux1_x86_64">>,
            two |-> <<"manylinux2014_x86_64", "manylinux_2_17_x86_64">>, mixed |-> <<"linux_x86_64", "manylinux_2_28_x86_64">>,
            newer |-> <<"manylinux_2_34_x86_64">>, anylast |-> <<"manylinux_2_28_x86_64", "any">>]
PySeq == [one |-> <<"cp312">>, two |-> <<"cp311", "cp312">>, py |-> <<"py3">>]
AbiSeq == [one |-> <<"cp312">>, two |-> <<"abi3", "none">>, none |-> <<"none">>]
Expand(ps, as, qs) == {p \o "-" \o a \o "-" \o q : p \in ToSet(ps), a \in ToSet(as), q \in ToSet(qs)}
Lines(x) ==
  LET all == SortedStrs(Expand(PySeq[x.py], AbiSeq[x.abi], PlatSeq[x.plat]))
  IN CASE x.meta = "same" -> all
       [] x.meta = "reversed" -> SeqMap(LAMBDA i : all[Len(all) + 1 - i], [i \in 1..Len(all) |-> i])
       [] x.meta = "first" -> <<all[1]>>
       [] x.meta = "twice" -> all \o <<all[1]>>
       [] x.meta = "any" -> SortedStrs(Expand(PySeq[x.py], AbiSeq[x.abi], <<"any">>))
       [] x.meta = "other" -> all \o <<"pp310-pypy310_pp73-linux_x86_64">>
\* what a request grants to a binary that needs nothing newer than glibc 2.5
Grants == [auto |-> <<"manylinux_2_5_x86_64", "manylinux1_x86_64">>,
           m17 |-> <<"manylinux_2_5_x86_64", "manylinux1_x86_64", "manylinux_2_17_x86_64", "manylinux2014_x86_64">>,
           only17 |-> <<"manylinux_2_17_x86_64", "manylinux2014_x86_64">>,
           only5 |-> <<"manylinux_2_5_x86_64", "manylinux1_x86_64">>,
           only28 |-> <<"manylinux_2_28_x86_64">>]

VARIABLES w, fname, wmeta, granted, n
vars == <<w, fname, wmeta, granted, n>>
First0(x) == "pk-1.0-" \o Join(PySeq[x.py], ".") \o "-" \o Join(AbiSeq[x.abi], ".") \o "-" \o Join(PlatSeq[x.plat], ".") \o ".whl"
Init == /\ w \in [plat : NamePlats, py : Pys, abi : Abis, meta : Metas, pure : Purelibs, reqs : Requests \X Requests]
        /\ fname = First0(w) /\ wmeta = [tags |-> Lines(w), purelib |-> w.pure] /\ granted = {} /\ n = 0
Wheel == [fname |-> fname, wmeta |-> wmeta]
PlanOf(req) == [A |-> [arch |-> "x86_64"], abis |-> Grants[req]]
\* the tags after a repair (new ones in any order behind the kept ones; here sorted)
After(wf, req) ==
  LET pl == PlanOf(req) IN
  [fname |-> OutName(pl, [update_tags |-> TRUE], wf),
   wmeta |-> [tags |-> LET out == OutTags(pl, wf) keep == SelectSeq(wf.wmeta.tags, LAMBDA t : t \in out)
                       IN keep \o SortedStrs(out \ ToSet(keep)),
              purelib |-> IF StopsPure(pl, wf) THEN "False" ELSE wf.wmeta.purelib]]
Repair(req) == /\ n < Depth /\ req = w.reqs[n + 1] /\ n' = n + 1
               /\ (Emit /\ n = 0 => PrintT(<<"CASE", ToJson(w)>>))
               /\ LET a == TLCEval(After(Wheel, req)) IN fname' = a.fname /\ wmeta' = a.wmeta
               /\ granted' = granted \cup ToSet(Grants[req])
               /\ UNCHANGED w
Next == \E req \in Requests : Repair(req)
Spec == Init /\ [][Next]_vars

Plats == WheelPlats(fname)
Start == [fname |-> First0(w), wmeta |-> [tags |-> Lines(w), purelib |-> w.pure]]
Coherent == ToSet(Lines(w)) = Expand(PySeq[w.py], AbiSeq[w.abi], PlatSeq[w.plat])
Broken ==
  IF n = 0 THEN {} ELSE
  Need(Plats = (ToSet(PlatSeq[w.plat]) \ {"any", "linux_x86_64"}) \cup granted, "platforms")
  \cup Need(SortedPlats(fname) = SortedStrs(Plats), "sorted")
  \cup Need(NameStem(fname) = NameStem(First0(w)), "stem")
  \* name and metadata agree if they did
  \cup Need(~Coherent \/ ToSet(wmeta.tags) = Expand(PySeq[w.py], AbiSeq[w.abi], SetToSeq(Plats)), "agree")
  \* whatever was said before, the granted platforms are said for every interpreter/ABI, and nothing else is new
  \cup Need({p \o "-" \o q : p \in {a[1] \o "-" \o a[2] : a \in PyAbis(Start)}, q \in granted} \subseteq ToSet(wmeta.tags), "granted-missing")
  \cup Need(PyAbis(Wheel) = PyAbis(Start), "interpreters")
  \cup Need(\A t \in ToSet(wmeta.tags) \ ToSet(Lines(w)) : \E q \in granted : EndsWith(t, "-" \o q), "invented")
  \cup Need(\A t \in ToSet(Lines(w)) \ ToSet(wmeta.tags) : EndsWith(t, "-linux_x86_64") \/ EndsWith(t, "-any"), "dropped")
  \cup Need(\A t \in ToSet(wmeta.tags) : ~EndsWith(t, "-linux_x86_64"), "generic-left")
  \cup Need("any" \in ToSet(PlatSeq[w.plat]) => wmeta.purelib = "False" /\ \A t \in ToSet(wmeta.tags) : ~EndsWith(t, "-any"), "still-pure")
  \cup Need("any" \notin ToSet(PlatSeq[w.plat]) => wmeta.purelib = w.pure, "purelib")
  \* the result satisfies the clauses; repeating changes nothing; the order of two repairs does not matter
  \cup (IF n = 1 THEN C09Wheel(PlanOf(w.reqs[1]), [update_tags |-> TRUE], Start, Wheel) ELSE {})
  \cup Need(After(Wheel, w.reqs[n]) = Wheel, "not-idempotent")
  \cup (IF n = 2 THEN LET q == After(After(Start, w.reqs[2]), w.reqs[1]) IN
                      Need(q.fname = fname /\ ToSet(q.wmeta.tags) = ToSet(wmeta.tags) /\ q.wmeta.purelib = wmeta.purelib, "order-matters") ELSE {})
Inv == LET b == TLCEval(Broken) IN b = {} \/ (PrintT(<<"BROKEN", n, b, ToJson(w)>>) /\ FALSE)
=============================================================================
