------------------------------- MODULE MCIdent -------------------------------
(* Which machine and C library a wheel is for: every sequence of ELF files up
   to a length, read one after another, for every kind of file name and
   request.  The states are the prefixes; the invariants say in closed form
   what the deduction has to amount to.                                     *)
EXTENDS Clauses
CONSTANTS Names, Reqs, Archs, LibcKinds, Kinds, Places, MaxLen, Emit

\* what the file name says
PlatTag == [linux |-> "linux_x86_64", arm |-> "linux_aarch64", any |-> "any", two |-> "linux_aarch64.linux_x86_64",
            many |-> "manylinux_2_28_x86_64", musl |-> "musllinux_1_2_x86_64", both |-> "manylinux_2_28_x86_64.musllinux_1_2_x86_64",
            v3 |-> "linux_x86_64_v3", anylinux |-> "any.linux_x86_64", weird |-> "linux_vax", le |-> "linux_ppc64le"]
\* what is asked for
ReqTag == [show |-> "", auto |-> "auto", many |-> "manylinux_2_28_x86_64", manyarm |-> "manylinux_2_28_aarch64", musl |-> "musllinux_1_2_x86_64",
           manyle |-> "manylinux_2_28_ppc64le"]
LibcNames(l, a) == CASE l = "glibc" -> <<"libc.so.6">>
                     [] l = "musl" -> <<"libc.musl-" \o a \o ".so.1">>
                     [] l = "both" -> <<"libc.so.6", "libc.musl-" \o a \o ".so.1">>
                     [] OTHER -> <<>>
\* a file: arch, libc, kind, place
FileSpec == [arch : Archs, libc : LibcKinds, kind : Kinds, place : Places]
Name(f, i) == (IF f.place = "pure" THEN "pk-1.0.data/purelib/in/" ELSE "pk/") \o "m" \o ToString(i) \o
              (CASE f.kind = "tagged" -> ".cpython-312-" \o f.arch \o "-linux-gnu.so"
                 [] f.kind = "tagmusl" -> ".cpython-312-" \o f.arch \o "-linux-musl.so"
                 [] f.kind = "old" -> ".cpython-310-" \o f.arch \o "-linux-gnu.so"
                 [] OTHER -> ".so")
E(f, i) == [bad |-> "", id |-> "", mach |-> f.arch, abi |-> "ok", osabi |-> 0, interp |-> "", soname |-> "", needed |-> LibcNames(f.libc, f.arch),
            rpath |-> "", runpath |-> "", isa |-> -1, vn |-> <<>>,
            syms |-> IF f.kind = "lib" THEN <<>> ELSE <<[n |-> "PyInit_m" \o ToString(i), d |-> TRUE, t |-> "FUNC", b |-> "GLOBAL"]>>]

VARIABLES files, name, req, k, st
vars == <<files, name, req, k, st>>
FName == "pk-1.0-cp312-cp312-" \o PlatTag[name] \o ".whl"
NArch == NameArch(FName)
NLibc == NameLibcTag(FName)
RArch == ReqArchOf(ReqTag[req])
RLibc == PlatLibc(PlatBase(ReqTag[req]))
Arch0 == IF NArch # "" THEN NArch ELSE RArch
Libc0 == IF NLibc # "" THEN NLibc ELSE RLibc
Mismatch == (RArch # "" /\ NArch # "" /\ RArch # NArch) \/ (RLibc # "" /\ NLibc # "" /\ RLibc # NLibc)
Init == /\ name \in Names /\ req \in Reqs /\ ~Mismatch
        /\ files = <<>> /\ k = 0 /\ st = ClassifyStart(Arch0, Libc0)
Read(f) == /\ k < MaxLen /\ k' = k + 1
           /\ files' = Append(files, f)
           /\ st' = IF st.err # "" THEN st ELSE ClassifyStep(E(f, k'), Name(f, k'), st)
           /\ UNCHANGED <<name, req>>
           /\ (Emit => PrintT(<<"CASE", ToJson([files |-> files', name |-> name, req |-> req])>>))
Next == \E f \in FileSpec : Read(f)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- in closed form
Ix == 1..Len(files)
Own(i) == ElfLibc(E(files[i], i), Basename(Name(files[i], i)))     \* libc of the file itself
Known(i) == ElfArch(E(files[i], i)) # ""
Ext(i) == files[i].kind # "lib"
\* the deduction ends at the first of these
Bad(i) == files[i].place # "pure" /\ Own(i) = "conflict"
FirstPure == LET s == {i \in Ix : files[i].place = "pure"} IN IF s = {} THEN Len(files) + 1 ELSE Min(s)
\* the architecture: said by the name, else asked for, else that of the first recognised file
Readable == {i \in Ix : i < FirstPure /\ (\A j \in 1..i : ~Bad(j))}
ArchWant == IF Arch0 # "" THEN Arch0
            ELSE LET s == {i \in Readable : Known(i)} IN IF s = {} THEN "" ELSE ElfArch(E(files[Min(s)], Min(s)))
Mine(i) == Known(i) /\ ArchWant # "" /\ ElfArch(E(files[i], i)) = Baseline(ArchWant)
LibcWant == IF Libc0 # "" THEN Libc0
            ELSE LET s == {i \in Readable : Mine(i) /\ Own(i) # ""} IN IF s = {} THEN "" ELSE Own(Min(s))
\* an extension, and nothing that tells the C library, wherever it stands
Blind == IF FirstPure <= Len(files) \/ LibcWant # "" THEN {} ELSE {i \in Readable : Mine(i) /\ Ext(i)}
Want == {Name(files[i], i) : i \in {j \in Readable : Mine(j) /\ Own(j) \in {"", LibcWant}}}
End == ClassifyEnd(st)
\* the files in the other order
Swapped == ClassifyEnd(LET one == ClassifyStep(E(files[2], 2), Name(files[2], 2), ClassifyStart(Arch0, Libc0))
                       IN IF one.err # "" THEN one ELSE ClassifyStep(E(files[1], 1), Name(files[1], 1), one))
Broken ==
  IF End.err # "" THEN
    Need(End.err \in {"libc", "pylibc"}, "kind")
    \cup Need(End.err = "libc" => \E i \in Ix : i < FirstPure /\ Bad(i), "conflict-invented")
    \cup Need(End.err = "pylibc" => Blind # {}, "blind-invented")
  ELSE
    Need(~\E i \in Ix : i < FirstPure /\ Bad(i), "conflict-missed")
    \cup Need(Blind = {}, "blind-missed")
    \cup Need(st.pure = (FirstPure <= Len(files)), "purelib")
    \cup Need(st.arch = ArchWant, "arch")
    \cup Need(st.libc = LibcWant, "libc")
    \cup Need(ToSet(st.used) = Want /\ Len(st.used) = Cardinality(Want), "used")
    \* nothing of another machine or library is ever used
    \cup Need(\A i \in Ix : Name(files[i], i) \in ToSet(st.used) => files[i].arch = Baseline(st.arch) /\ Own(i) \in {"", st.libc}, "foreign")
    \cup Need(st.used = <<>> => st.pure \/ \A i \in Ix : ~Mine(i) \/ (Own(i) # "" /\ Own(i) # st.libc), "nothing-used")
    \* the order of the files only matters where they contradict one another
    \cup (IF ~st.pure /\ Len(files) = 2
          THEN Need(Swapped.err = "libc" \/ Swapped.arch # st.arch \/ Swapped.libc # st.libc
                    \/ (Swapped.err = "" /\ ToSet(Swapped.used) = ToSet(st.used)), "order-matters") ELSE {})
Inv == LET b == TLCEval(Broken) IN b = {} \/ (PrintT(<<"BROKEN", b, ToJson([files |-> files, name |-> name, req |-> req])>>) /\ FALSE)
=============================================================================
