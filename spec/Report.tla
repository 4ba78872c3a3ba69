------------------------------- MODULE Report -------------------------------
(* What `show` says about a wheel: the report for people.  The text is
   specified up to white space (it is wrapped to the terminal).  Where the
   wheel leaves a choice (the order in which libraries with versioned symbols
   are listed; the file, if a soname stands for several), the choice is read
   from the text.                                                            *)
EXTENDS Clauses

Quoted(q) == Join(SeqMap(LAMBDA v : "'" \o v \o "'", q), ", ")
\* the lines for people about libraries L (a function from names to versions)
VersionsItem(L, l) == l \o " with versions {" \o Quoted(SortedStrs(L[l])) \o "}"
VersionsOrder(L, text) ==
  LET at(l) == First(text, " " \o VersionsItem(L, l)) IN SetToSortSeq(DOMAIN L, LAMBDA a, b : at(a) < at(b))
LibsItem(R, l, text) ==
  LET item(v) == "\"" \o l \o "\": " \o (IF v = "" THEN "null" ELSE "\"" \o v \o "\"")
      said == {v \in R[l] : HasSub(text, item(v))}
  IN item(IF said # {} THEN CHOOSE v \in said : TRUE ELSE CHOOSE v \in R[l] : TRUE)

\* refs(i), vers: what the policy i leaves to eliminate, the versions needed
ShowText(A, fname, verbose, refs(_), vers, text) ==
  LET np == Len(A.pols)
      head == <<fname \o " is consistent with the following platform tag: \"" \o A.pols[A.overall].name \o "\".">>
      fpe == <<"This wheel uses the PyFPE_jbuf function, which is not compatible with the manylinux/musllinux tags. (see https://www.python.org/dev/peps/pep-0513/#fpectl-builds-vs-no-fpectl-builds)">>
      ucs == <<"This wheel is compiled against a narrow unicode (UCS2) version of Python, which is not compatible with the manylinux/musllinux tags.">>
      isa == <<"This wheel depends on unsupported ISA extensions.">>
      syms == IF DOMAIN vers = {}
              THEN <<"The wheel references no external versioned symbols from system-provided shared libraries.">>
              ELSE <<"The wheel references external versioned symbols in these system-provided shared libraries: "
                     \o Join(SeqMap(LAMBDA l : VersionsItem(vers, l), VersionsOrder(vers, text)), ", ")>>
      limit == <<"This constrains the platform tag to \"" \o A.pols[A.sym].name \o "\". In order to achieve a more compatible tag, you would need to recompile a new wheel from source on a system with earlier versions of these libraries, such as a recent manylinux image.">>
      low == refs(2)
      libs == IF DOMAIN low = {} THEN <<"The wheel requires no external shared libraries! :)">>
              ELSE <<"The following external shared libraries are required by the wheel:",
                     "{ " \o Join(SeqMap(LAMBDA l : LibsItem(low, l, text), SortedStrs(DOMAIN low)), ", ") \o " }">>
      to(i, what) == "In order to achieve the tag platform tag '" \o A.pols[i].name \o "' the following " \o what \o " dependencies will need to be eliminated:"
      from(i, l) == "From " \o l \o ": " \o Join(SortedStrs({x[2] : x \in {y \in A.blks[i] : y[1] = l}}), ", ")
      up(i) == (IF A.names[i] = {} THEN <<>> ELSE <<to(i, "shared library"), Join(SortedStrs(A.names[i]), ", ")>>)
               \o (IF A.blks[i] = {} THEN <<>>
                   ELSE <<to(i, "black-listed symbol")>> \o SeqMap(LAMBDA l : from(i, l), SortedStrs({x[1] : x \in A.blks[i]})))
      ups == FoldLeft(LAMBDA acc, i : acc \o up(i), <<>>, [k \in 1..(np - A.overall) |-> A.overall + k])
      \* the first reason that rules out every tag ends the report, unless more is asked for
      stop(cond) == cond /\ ~verbose
      q == head \o (IF A.fpe = 1 THEN fpe ELSE <<>>)
           \o (IF stop(A.fpe = 1) THEN <<>>
               ELSE (IF A.ucs = 1 THEN ucs ELSE <<>>)
                    \o (IF stop(A.ucs = 1) THEN <<>>
                        ELSE (IF A.mach = 1 THEN isa ELSE <<>>)
                             \o (IF stop(A.mach = 1) THEN <<>>
                                 ELSE syms \o (IF A.sym < np THEN limit ELSE <<>>)
                                      \o (IF stop(A.sym < np) THEN <<>> ELSE libs \o ups))))
  IN Join(q, " ")
=============================================================================
