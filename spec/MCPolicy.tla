------------------------------ MODULE MCPolicy ------------------------------
(* The published tables form a ladder; every single alteration of them, with
   whether it breaks the ladder.                                          *)
EXTENDS PolicyRules
CONSTANTS LibcsUsed, Deep

VARIABLES libc, pol, al, phase
vars == <<libc, pol, al, phase>>
None == [k |-> "none", pol |-> "", arch |-> "", sym |-> "", v |-> ""]
AllRows == TLCEval([l \in Libcs |-> Ranked(l)])
Row(l, p) == CHOOSE r \in AllRows[l] : r.name = p
Archs(r) == IF Deep THEN DOMAIN r.symbol_versions ELSE {a \in DOMAIN r.symbol_versions : a \in {"x86_64", "aarch64", "ppc64"}}
Foreign == {"9.9", "2.5", "3.4.10", "1.3.9"}
Alters(r) ==
  {[None EXCEPT !.k = "addlib", !.pol = r.name, !.v = "libnew.so.1"]}
  \cup {[None EXCEPT !.k = "dellib", !.pol = r.name, !.v = l] : l \in ToSet(r.lib_whitelist)}
  \cup {[None EXCEPT !.k = "delarch", !.pol = r.name, !.arch = a] : a \in Archs(r)}
  \cup UNION {LET sv == r.symbol_versions[a] IN
              {[None EXCEPT !.k = "delsymall", !.pol = r.name, !.arch = a, !.sym = f] : f \in DOMAIN sv}
              \cup UNION {{[None EXCEPT !.k = "delsym", !.pol = r.name, !.arch = a, !.sym = f, !.v = x] : x \in ToSet(sv[f])} : f \in DOMAIN sv}
              \cup {[None EXCEPT !.k = "addsym", !.pol = r.name, !.arch = a, !.sym = f, !.v = x] : f \in DOMAIN sv \cup {"NEWFAM"}, x \in Foreign}
              : a \in Archs(r)}
Init == libc \in LibcsUsed /\ pol \in {r.name : r \in AllRows[libc]} /\ al = None /\ phase = "table"
Alter == /\ phase = "table"
         /\ al' \in Alters(Row(libc, pol))
         /\ phase' = "altered"
         /\ PrintT(<<"CASE", ToJson([libc |-> libc, al |-> al'])>>)
         /\ UNCHANGED <<libc, pol>>
Next == Alter
Spec == Init /\ [][Next]_vars

\* the published tables are ladders, with distinct priorities and names
Sound == phase = "table" =>
           /\ LadderAt(AllRows[libc], Row(libc, pol))
           /\ \A r \in AllRows[libc] : r.name # pol => r.prio0 # Row(libc, pol).prio0
\* checking a changed row against the others decides the whole table
Decisive == phase = "altered" /\ al.k # "delarch" =>
              LET rows == AlterRows(AllRows[libc], al)
                  r == CHOOSE x \in rows : x.name = pol
              IN LadderAt(rows, r) => \A b \in rows \ {r} : LadderAt(rows, b)
\* taking something away from the oldest platform, or adding to the newest, is harmless
Ends == phase = "altered" =>
          LET r == Row(libc, pol)
              rows == AlterRows(AllRows[libc], al)
              changed == CHOOSE x \in rows : x.name = pol
              oldest == \A b \in AllRows[libc] : b.prio0 <= r.prio0
              newest == \A b \in AllRows[libc] : b.prio0 >= r.prio0
          IN /\ oldest /\ al.k \in {"dellib", "delsym", "delarch", "delsymall"} => LadderAt(rows, changed)
             /\ newest /\ al.k \in {"addlib", "addsym"} /\ al.sym # "NEWFAM" => LadderAt(rows, changed)
Inv == Sound /\ (Deep => Decisive) /\ Ends
=============================================================================
