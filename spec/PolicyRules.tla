---------------------------- MODULE PolicyRules ----------------------------
(* What policy tables must satisfy, and what loading and querying them yields. *)
EXTENDS Policy

Rows(libc) == TLCEval({TabOf[libc][i] : i \in 1..Len(TabOf[libc])} \ {r \in ToSet(TabOf[libc]) : r.name = "linux"})

\* ------------------------------------------------ the ladder, on table rows
\* row a (older platform: higher priority) permits no more than row b
RowBelow(a, b) ==
  /\ ToSet(a.lib_whitelist) \subseteq ToSet(b.lib_whitelist)
  /\ \A arch \in DOMAIN a.symbol_versions \cap DOMAIN b.symbol_versions :
       LET x == a.symbol_versions[arch] y == b.symbol_versions[arch]
       IN \A f \in DOMAIN x \cap DOMAIN y : ToSet(x[f]) \subseteq ToSet(y[f])
Ladder(rows) == \A a, b \in rows : a.prio0 > b.prio0 => RowBelow(a, b)
Ranked(libc) == TLCEval({[name |-> r.name, prio0 |-> r.priority, lib_whitelist |-> r.lib_whitelist, symbol_versions |-> r.symbol_versions] : r \in Rows(libc)})
\* only a changed row needs to be compared with the others
LadderAt(rows, r) == \A b \in rows \ {r} : IF r.prio0 > b.prio0 THEN RowBelow(r, b) ELSE RowBelow(b, r)

AlterRow(r, al) ==
  CASE al.k = "addlib" -> [r EXCEPT !.lib_whitelist = Append(@, al.v)]
    [] al.k = "dellib" -> [r EXCEPT !.lib_whitelist = SelectSeq(@, LAMBDA x : x # al.v)]
    [] al.k = "delarch" -> [r EXCEPT !.symbol_versions = [a \in DOMAIN @ \ {al.arch} |-> @[a]]]
    [] al.k = "delsymall" -> [r EXCEPT !.symbol_versions[al.arch] = [f \in DOMAIN @ \ {al.sym} |-> @[f]]]
    [] al.k = "delsym" -> [r EXCEPT !.symbol_versions[al.arch] = [f \in DOMAIN @ |-> IF f = al.sym THEN SelectSeq(@[f], LAMBDA x : x # al.v) ELSE @[f]]]
    [] al.k = "addsym" -> [r EXCEPT !.symbol_versions[al.arch] = (al.sym :> Append(Fld(@, al.sym, <<>>), al.v)) @@ @]
    [] OTHER -> r
AlterRows(rows, al) == {IF r.name = al.pol THEN AlterRow(r, al) ELSE r : r \in rows}
RECURSIVE AlterAll(_, _, _)
AlterAll(rows, als, i) == IF i > Len(als) THEN rows ELSE AlterAll(AlterRows(rows, als[i]), als, i + 1)

\* ------------------------------------------------ numbers in names
NumList(s) == SeqMap(ToNat, Split(s, "."))
RECURSIVE NumLe(_, _, _)
NumLe(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF i > Len(b) THEN \A k \in i..Len(a) : a[k] = 0
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE NumLe(a, b, i + 1)
IsNumVer(s) == s # "" /\ \A i \in 1..Len(s) : At(s, i) \in Digits \cup {"."}
\* version suffixes (2.17 in GLIBC_2.17) permitted by a glibc policy
GlibcBound(name) == LET p == Split(name, "_") IN <<ToNat(p[2]), ToNat(p[3])>>
LegacyNames == [manylinux1 |-> "manylinux_2_5", manylinux2010 |-> "manylinux_2_12", manylinux2014 |-> "manylinux_2_17"]

\* ------------------------------------------------ loading
ApiLevel(plat) == ToNat(Split(plat, "_")[2])
MuslName(s) == LET p == Split(s, "_") IN Len(p) = 3 /\ p[1] = "musllinux" /\ \A i \in 2..3 : p[i] # "" /\ IsNumVer(p[i]) /\ ~HasSub(p[i], ".")
Linux1(t) == SelectSeq(t, LAMBDA p : p.base = "linux")
Wheel1(fn) == LET q == Split(Take(fn, Len(fn) - 4), "-") IN Split(Last(q), ".")
\* the policies loaded: [ok, pols]
Loaded(libc, arch, musl, wheel) ==
  LET t == PolTable(libc, Baseline(arch))
      no == [ok |-> FALSE, pols |-> <<>>]
  IN IF libc # "musl" /\ musl # "" THEN no
     ELSE IF libc = "glibc" THEN [ok |-> TRUE, pols |-> t]
     ELSE IF libc = "musl" THEN
       LET real == SelectSeq(t, LAMBDA p : p.base # "linux")
           pick == IF musl = "" THEN (IF real = <<>> THEN <<>> ELSE <<real[1]>>) ELSE SelectSeq(real, LAMBDA p : p.base = musl)
       IN IF (musl # "" /\ ~MuslName(musl)) \/ pick = <<>> THEN no ELSE [ok |-> TRUE, pols |-> Linux1(t) \o pick]
     ELSE LET ps == IF wheel = "" THEN <<>> ELSE Wheel1(wheel)
              lv == IF Len(ps) = 1 /\ StartsWith(ps[1], "android_") THEN ApiLevel(ps[1]) ELSE -1
              fit == SelectSeq(t, LAMBDA p : p.base # "linux" /\ ApiLevel(p.base) <= lv)
          IN IF lv < 0 \/ fit = <<>> THEN no
             ELSE [ok |-> TRUE, pols |-> Linux1(t) \o <<[fit[1] EXCEPT !.name = ps[1]]>>]

\* ------------------------------------------------ querying a list of loaded policies
\* (p: [name, aliases, sym]: families -> sets of version names)
Family(v) == Split(v, "_")[1]
Includes(p, vers) == \A v \in vers : Family(v) \in DOMAIN p.sym => v \in p.sym[Family(v)]
Select(pols, vers) == pols[Max({i \in 1..Len(pols) : Includes(pols[i], vers)})].name
Named(pols, n) == {i \in 1..Len(pols) : pols[i].name = n \/ n \in ToSet(pols[i].aliases)}

\* ------------------------------------------------ judging recorded tables
Seen(p) == [name |-> p.name, aliases |-> p.aliases, prio |-> p.prio, wl |-> ToSet(p.wl),
            sym |-> [k \in {p.sym[i].k : i \in 1..Len(p.sym)} |->
                       {k \o "_" \o v : v \in ToSet((CHOOSE x \in ToSet(p.sym) : x.k = k).v)}],
            bl |-> [k \in {p.bl[i].k : i \in 1..Len(p.bl)} |-> ToSet((CHOOSE x \in ToSet(p.bl) : x.k = k).v)]]
Permits(a, b) ==   \* b permits everything a does
  /\ a.wl \subseteq b.wl
  /\ \A f \in DOMAIN b.sym : f \in DOMAIN a.sym /\ a.sym[f] \subseteq b.sym[f]
  /\ \A l \in DOMAIN b.bl : l \in a.wl => l \in DOMAIN a.bl /\ b.bl[l] \subseteq a.bl[l]
\* (CentOS 7 on aarch64, which the 2.17 profile was taken from, carries GLIBC_2.18)
PublishedNewer == {<<"manylinux_2_17_aarch64", "GLIBC_2.18">>}
NewerGlibc(p) ==
  IF ~StartsWith(p.name, "manylinux_") \/ "GLIBC" \notin DOMAIN p.sym THEN {}
  ELSE {v \in p.sym["GLIBC"] : LET n == Drop(v, 6) IN IsNumVer(n) /\ ~NumLe(NumList(n), GlibcBound(p.name), 1) /\ <<p.name, v>> \notin PublishedNewer}

NeedP(c, t) == IF c THEN {} ELSE {t}
PolicyVerdict(s) ==
  IF s.altered THEN
    LET ok == Ladder(AlterAll(Ranked(s.libc), s.alter, 1))
    IN NeedP((s.err = "") = ok, IF ok THEN "sound-table-rejected" ELSE "broken-table-accepted")
  ELSE
  LET want == Loaded(s.libc, s.arch, s.musl, s.wheel)
      got == SeqMap(Seen, s.pols)
      n == Len(got)
  IN IF ~want.ok THEN NeedP(s.err # "", "accepted")
     ELSE IF s.err # "" THEN {"rejected"}
     ELSE NeedP(SeqMap(LAMBDA p : p.name, got) = SeqMap(LAMBDA p : p.name, want.pols), "names")
          \cup NeedP(\A i, j \in 1..n : i # j => {got[i].name} \cup ToSet(got[i].aliases) # {} /\
                        ({got[i].name} \cup ToSet(got[i].aliases)) \cap ({got[j].name} \cup ToSet(got[j].aliases)) = {}
                        /\ got[i].prio # got[j].prio, "ambiguous")
          \cup NeedP(\A i, j \in 1..n : i < j => got[i].prio < got[j].prio, "order")
          \cup UNION {NeedP(Permits(got[j], got[i]), "ladder:" \o got[j].name \o ">" \o got[i].name) : <<i, j>> \in {<<x, y>> \in (2..n) \X (2..n) : x < y}}
          \cup UNION {NeedP(NewerGlibc(got[i]) = {}, "newer-glibc:" \o got[i].name) : i \in 2..n}
          \cup (IF n # Len(want.pols) THEN {} ELSE
                UNION {LET w == want.pols[i] g == got[i] IN
                       NeedP(g.name # w.name \/ (g.aliases = w.aliases
                             /\ g.wl \subseteq w.wl
                             /\ (\A f \in DOMAIN w.sym : f \in DOMAIN g.sym /\ g.sym[f] \subseteq w.sym[f])
                             /\ (\A l \in DOMAIN w.bl : l \in g.wl => l \in DOMAIN g.bl /\ w.bl[l] \subseteq g.bl[l])),
                             "exceeds-profile:" \o g.name) : i \in 2..n})
          \cup UNION {LET q == s.queries[i] IN
               CASE q.k = "name" -> LET hit == Named(got, q.a[1]) IN
                      NeedP((q.err # "") = (Cardinality(hit) # 1) /\ (q.err = "" => q.ret = got[CHOOSE x \in hit : TRUE].name), "lookup:" \o q.a[1])
                 [] q.k = "vs" -> NeedP(q.err = "" /\ q.ret = Select(got, {q.a[k][2] : k \in 1..Len(q.a)}), "selection:" \o ToString(i))
                 [] q.k = "highest" -> NeedP(q.ret = got[n].name, "highest")
                 [] q.k = "lowest" -> NeedP(q.ret = got[2].name, "lowest")
                 [] q.k = "linux" -> NeedP(q.ret = got[1].name, "linux")
                 [] OTHER -> {} : i \in 1..Len(s.queries)}
=============================================================================
