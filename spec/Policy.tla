------------------------------- MODULE Policy -------------------------------
(* Platform policies.  The tables in policies/ are the published profiles
   (PEP 513/571/599/600/656, Android NDK) and normative for the specification. *)
EXTENDS Str, Json, IOUtils

SpecDir == IOEnv.SPECDIR
TabOf == [glibc |-> JsonDeserialize(SpecDir \o "/policies/manylinux-policy.json"),
          musl |-> JsonDeserialize(SpecDir \o "/policies/musllinux-policy.json"),
          android |-> JsonDeserialize(SpecDir \o "/policies/android-policy.json")]
Libcs == {"glibc", "musl", "android"}
TagPrefix == [glibc |-> "manylinux", musl |-> "musllinux", android |-> "android"]

\* all architecture names, in table order, and their baselines
ArchNames == <<"aarch64", "arm64_v8a", "armv7l", "i686", "loongarch64", "ppc64", "ppc64le", "riscv64",
               "s390x", "x86_64", "x86_64_v2", "x86_64_v3", "x86_64_v4">>
Baseline(a) == IF StartsWith(a, "arm64") THEN "aarch64" ELSE IF StartsWith(a, "x86_64") THEN "x86_64" ELSE a

MuslLibc == [x86_64 |-> "libc.musl-x86_64.so.1", i686 |-> "libc.musl-x86.so.1",
             aarch64 |-> "libc.musl-aarch64.so.1", s390x |-> "libc.musl-s390x.so.1",
             ppc64le |-> "libc.musl-ppc64le.so.1", armv7l |-> "libc.musl-armv7.so.1",
             riscv64 |-> "libc.musl-riscv64.so.1", loongarch64 |-> "libc.musl-loongarch64.so.1"]

Fld(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
EmptySym == [x \in {} |-> {}]

\* one table row for an architecture
MkPolicy(row, libc, arch) ==
  [base |-> row.name,
   name |-> row.name \o "_" \o arch,
   aliases |-> SeqMap(LAMBDA a : a \o "_" \o arch, row.aliases),
   prio |-> row.priority,
   sym |-> IF row.name = "linux" THEN EmptySym
           ELSE LET sv == row.symbol_versions[arch]
                IN [k \in DOMAIN sv |-> {k \o "_" \o sv[k][i] : i \in 1..Len(sv[k])}],
   wl |-> {IF libc = "musl" /\ l = "libc.so" THEN MuslLibc[arch] ELSE l : l \in ToSet(row.lib_whitelist)},
   bl |-> [k \in DOMAIN row.blacklist |-> ToSet(row.blacklist[k])]]

\* the policies for a libc and (baseline) architecture, generic linux first,
\* then by increasing compatibility
MkTable(libc, arch) ==
  LET rows == {r \in ToSet(TabOf[libc]) : r.name = "linux" \/ arch \in DOMAIN r.symbol_versions}
  IN SetToSortSeq({TLCEval(MkPolicy(r, libc, arch)) : r \in rows}, LAMBDA a, b : a.prio < b.prio)
Tables == TLCEval([l \in Libcs |-> TLCEval([a \in ToSet(ArchNames) |-> MkTable(l, a)])])
PolTable(libc, arch) == Tables[libc][arch]
=============================================================================
