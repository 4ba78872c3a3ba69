#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
S = "src/auditwheel/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
                     mechanism=[dict(name=n, where=S+w) for n, w in mech],
                     state=[dict(name=s, meaning=s, where=S+files[0]) for s in state], observe_at=[observe], hook_needed=hook)))

prop("C01", "A repaired wheel is self-contained",
 "In every wheel that a repair produces, each library dependency of each ELF file in it, followed transitively, is either a library the target platform guarantees, a library the user excluded, or is found inside the wheel by the dynamic loader. The file found is a copy of exactly the library the dependency resolved to before the repair (or the wheel's own library it resolved to). No dependency on a libpython shared library survives, except on Android.",
 ["inputs", "configurations"],
 "every wheel layout x every dependency graph over system and in-wheel libraries (symlinks, diamonds, cycles, several search directories, same-named libraries) x every option of repair",
 "Integration tests repair a few fixed wheels; the property ranges over dependency graphs, search paths and layouts.",
 ["repair.py", "lddtree.py", "policy/__init__.py", "patcher.py", "wheel_abi.py"],
 [("graft and rewrite", "repair.py:repair_wheel"), ("external reference closure", "policy/__init__.py:lddtree_external_references")],
 ["NEEDED/RPATH/RUNPATH/SONAME of every ELF in the output wheel", "set of grafted files"],
 "output wheel of `auditwheel repair`, read as ELF/zip")

prop("C02", "The reported platform tag is sound and as high as possible",
 "The platform tag found for a wheel never promises more than its contents honour: every versioned symbol required by the wheel's binaries and by libraries that would be vendored, and every black-listed symbol, instruction-set requirement, narrow-unicode or fpectl use of the wheel's own binaries is compatible with the promised platform. It is also the most compatible platform for which that holds.",
 ["inputs"],
 "every combination of ELF files (symbol versions, undefined symbols, dependency graph, ISA notes, architecture) x every policy of every libc/architecture",
 "Tests check a handful of wheels/policies; the property is about every combination of constraints across 17+ ordered policies.",
 ["wheel_abi.py", "policy/__init__.py", "elfutils.py"],
 [("per-aspect policies and their minimum", "wheel_abi.py:analyze_wheel_abi"), ("symbol policy", "policy/__init__.py:versioned_symbols_policy")],
 ["policy per aspect (symbols, references, blacklist, isa, ucs2, pyfpe, graft)"],
 "`auditwheel show --json` and the analysis result")

prop("C03", "Repair succeeds exactly when the target platform is honest",
 "A repair to a requested platform is refused (non-zero exit and no new wheel in the output directory) whenever the wheel uses too-recent symbols, black-listed symbols, unsupported instruction sets, narrow unicode or the fpectl module for that platform, needs a library that cannot be found, or targets another architecture or libc than the wheel's. Otherwise it succeeds, and an alias of a platform is interchangeable with its canonical name.",
 ["inputs", "configurations"],
 "every wheel x every requested platform (canonical, alias, auto) x options (--only-plat, --disable-isa-ext-check, --exclude)",
 "Tests exercise one refusal of each kind; the property relates every wheel to every requested platform.",
 ["main_repair.py", "repair.py", "wheel_abi.py", "wheeltools.py"],
 [("refusal ladder", "main_repair.py:execute"), ("missing library", "repair.py:repair_wheel")],
 ["exit status", "set of files in the output directory"],
 "exit status and output directory of `auditwheel repair`")

prop("C04", "Platform policies form an honest, totally ordered ladder",
 "For every libc and architecture the policies have distinct names, aliases and priorities, and a policy for an older platform permits only symbol versions and libraries that every newer one permits; a manylinux_X_Y policy permits no glibc symbol newer than X.Y (but for GLIBC_2.18 on aarch64, which the published 2.17 profile lists) and the legacy names denote 2.5, 2.12 and 2.17. No policy permits more than its published profile, and tables violating the ladder are rejected. Looking a platform up by name or alias yields that one policy, and the policy selected for a set of required symbol versions is the newest-compatible one that includes them all.",
 ["inputs", "configurations"],
 "every libc x every architecture x every pair of policies x every set of required versions x every policy table",
 "Unit tests check a few names and one architecture; the ladder must hold for each pair in each table and for any table loaded.",
 ["policy/__init__.py", "architecture.py"],
 [("loading and validation", "policy/__init__.py:WheelPolicies.__init__"), ("PEP 600 validation", "policy/__init__.py:_validate_pep600_compliance")],
 ["policy tables"],
 "the list of policies for a libc/architecture")

prop("C05", "RECORD of an output wheel is exact",
 "In every wheel written, RECORD lists every file of the archive exactly once and nothing else, each with the SHA-256 and the size of the bytes in the archive, except its own line, whose hash and size are empty. A stale signature over the old RECORD is gone. This holds for any file names (commas, quotes, non-ASCII) and whatever was grafted, patched, moved or removed.",
 ["inputs"],
 "every wheel content (names needing CSV quoting, empty files, nested dirs, stale/missing RECORD lines) x every repair outcome",
 "Tests verify RECORD on fixed wheels with plain names.",
 ["wheeltools.py", "tools.py"],
 [("RECORD regeneration", "wheeltools.py:rewrite_record")],
 ["RECORD lines", "zip members"],
 "bytes of the output wheel")

prop("C06", "Repair changes nothing it does not have to change",
 "Every file of the input wheel that is not an ELF file with external dependencies, an ELF script or wheel metadata appears in the output under the same path with identical bytes, and permission bits are kept (at least owner read/write); nothing else disappears and only grafted libraries, moved executables and the SBOM appear. Patched ELF files keep their contents apart from dynamic linking information (and symbols, if stripping). The input wheel and the system libraries are never modified, and no file outside the output directory is written.",
 ["inputs"],
 "every wheel content x modes x options x location of the libraries",
 "Tests compare a few members of fixed wheels.",
 ["repair.py", "tools.py", "wheeltools.py"],
 [("unpack/pack", "tools.py:zip2dir, dir2zip"), ("graft", "repair.py:copylib")],
 ["member bytes and modes", "files outside the output directory"],
 "input and output wheel, file system before/after")

prop("C07", "A failed repair leaves nothing behind",
 "Whatever operation fails at whatever point of a repair (I/O error, failing external tool, full disk, interruption), the command does not report success, no new or truncated wheel appears under an output wheel's name and an existing file there is left as it was (failures while temporary files are being removed after the wheel is complete excepted). The input wheel and system libraries are intact, temporary directories are gone and the working directory is restored.",
 ["crash_points", "fault_sequences"],
 "every point at which a system operation can fail during repair/show x every wheel",
 "Tests never inject faults.",
 ["wheeltools.py", "tmpdirs.py", "repair.py", "tools.py"],
 [("write-on-exit", "wheeltools.py:InWheel.__exit__"), ("cwd/tempdir discipline", "tmpdirs.py:InTemporaryDirectory")],
 ["output directory", "temp directory", "cwd"],
 "file system and exit status after an injected fault")

prop("C08", "Output wheels are reproducible",
 "With the same wheel, libraries, options and SOURCE_DATE_EPOCH, a repair always writes the same bytes: independent of hash seed, time zone, locale, clock, umask, directory creation order, order of files in the input archive, location of the working/temporary directory, and number of earlier runs. Reports printed by show are likewise the same text.",
 ["inputs", "schedules", "configurations"],
 "every wheel x every pair of environments (hash seed, TZ, time, directory order, temp dir)",
 "Tests compare at most two runs in one environment.",
 ["tools.py", "wheeltools.py", "sboms.py", "repair.py", "main_show.py"],
 [("ordered walk", "tools.py:walk"), ("timestamps", "wheeltools.py:InWheel.__exit__")],
 ["bytes of the output wheel"],
 "output wheel bytes across runs")

prop("C09", "File name tags and metadata tags of a repaired wheel agree",
 "After a repair the platform part of the wheel's file name lists each platform tag once in sorted order, consisting of the granted platforms and their aliases plus the previous tags except the generic linux one (and except 'any'), and the metadata's tags are exactly the old language/ABI combinations crossed accordingly. A wheel that stops being platform-independent stops claiming to be pure. With tag updates disabled, both are left untouched.",
 ["inputs", "configurations"],
 "every file name (compressed tag sets, build tags) x metadata tags x granted platforms x --no-update-tags/--only-plat",
 "Tests check a few tag combinations.",
 ["wheeltools.py", "main_repair.py", "policy/__init__.py"],
 [("tag rewriting", "wheeltools.py:add_platforms"), ("replaced platforms", "policy/__init__.py:get_replace_platforms")],
 ["file name", "WHEEL Tag and Root-Is-Purelib"],
 "output wheel name and metadata")

prop("C10", "The right architecture and C library are deduced",
 "The architecture and C library used for a wheel are those of its file name when it determines them and otherwise those of its binaries; file names naming several architectures or libcs do not determine one. Binaries of another architecture (or an unrecognised or unsupported ABI variant) or libc are left out of the analysis, binaries under a purelib directory are an error, and a wheel without any usable binary is reported as not being a platform wheel.",
 ["inputs"],
 "every file name tag set x every mix of ELF files of every architecture/libc",
 "Tests cover a few names and one foreign-arch wheel.",
 ["wheeltools.py", "wheel_abi.py", "lddtree.py", "architecture.py", "libc.py"],
 [("from name", "wheeltools.py:get_wheel_architecture, get_wheel_libc"), ("from ELF", "wheel_abi.py:get_wheel_elfdata")],
 ["architecture, libc, policies in force"],
 "show/repair results and name classification functions")

prop("C11", "Dependencies are resolved as the dynamic loader would",
 "Each dependency is resolved to the first architecture-compatible file of that name along the loader's search order: the loading object's own RPATH/RUNPATH and the main object's RPATH with $ORIGIN expanded (RUNPATH hides RPATH in the same object), then the configured environment paths, then the configured system directories, following symlinks. Resolution terminates and covers every transitive dependency exactly once for every dependency graph including cycles; libpython and excluded libraries are not followed. The architecture and instruction-set level of every file of the tree are those its headers declare.",
 ["inputs", "configurations"],
 "every dependency graph x every placement of (compatible or foreign) files and symlinks along the search directories",
 "Unit tests cover single lookups; the property ranges over graphs and placements.",
 ["lddtree.py"],
 [("DFS resolution", "lddtree.py:ldd"), ("lookup", "lddtree.py:find_lib, parse_ld_paths")],
 ["resolved path per soname"],
 "`auditwheel lddtree` / ldd result")

prop("C12", "Excluded libraries are never vendored or touched",
 "A library whose needed name or resolved file path matches an exclusion pattern is not copied into the wheel, references to it are left unchanged in every ELF file, and it neither makes the repair fail nor influences the platform tag, nor do libraries only it needs. Patterns that match nothing change nothing, and libraries not matched are handled as if no exclusion had been given.",
 ["inputs", "configurations"],
 "every dependency graph x every set of exclusion patterns (exact, wildcard, path)",
 "Tests use two or three patterns on one wheel.",
 ["lddtree.py", "main_repair.py"],
 [("exclusion", "lddtree.py:ldd")],
 ["grafted set", "NEEDED entries"],
 "output wheel and exit status of repair --exclude")

prop("C13", "Results do not depend on what was processed before",
 "Repairing several wheels in one command, or analysing and repairing repeatedly in one process with any options in any order, yields for each wheel exactly the result it would get alone in a fresh process with the same environment and files. Processing stops at the first wheel that fails, keeping the wheels already written and not touching later ones.",
 ["histories"],
 "every sequence of show/repair operations over every set of wheels and options in one process",
 "Each test runs in isolation, or shares caches by accident only.",
 ["wheel_abi.py", "main_repair.py", "lddtree.py", "repair.py"],
 [("cached analysis", "wheel_abi.py:get_wheel_elfdata"), ("wheel loop", "main_repair.py:execute")],
 ["cached analysis results"],
 "outputs of operation sequences versus single runs")

prop("C14", "Library search paths of repaired binaries are clean",
 "In a repaired wheel, a binary with vendored dependencies keeps its previous search-path entries that point inside the wheel, in order and without duplicates, drops entries pointing outside or relative to the working directory, and gains one entry pointing from its own directory to the vendored libraries. The entry is written where the platform's loader honours it: as DT_RPATH with no DT_RUNPATH hiding it, and as DT_RUNPATH on Android. A vendored library searches only its own directory if it depends on other vendored libraries and otherwise has no search path; binaries without vendored dependencies keep theirs unchanged.",
 ["inputs"],
 "every RPATH/RUNPATH string ($ORIGIN, ${ORIGIN}, $LIB, absolute, relative, empty, '..' components) x every depth of the binary x every lib-sdir",
 "Tests check two fixed RPATHs.",
 ["repair.py", "patcher.py"],
 [("append rpath", "repair.py:append_rpath_within_wheel"), ("graft rpath", "repair.py:repair_wheel")],
 ["DT_RPATH/DT_RUNPATH"],
 "output ELF files")

prop("C15", "Repair is idempotent and agrees with the report",
 "Repairing a wheel that repair produced, for the same platform (without --strip), grafts nothing further and leaves its contents and tags as they are. Reporting on a repaired wheel shows a platform at least as compatible as the one it was repaired to and no external libraries to eliminate for it.",
 ["histories", "inputs"],
 "every wheel that repair accepts x repeated repair/show",
 "One integration test checks one rerun.",
 ["repair.py", "wheel_abi.py", "wheeltools.py"],
 [("in-wheel resolution", "policy/__init__.py:lddtree_external_references"), ("fix-up of trees", "wheel_abi.py:_fixup_elf_trees")],
 ["output of the second run"],
 "second repair and show of an output wheel")

prop("C16", "Unpacking and packing a wheel is lossless",
 "For every archive, unpacking and repacking preserves the set of files, their bytes and permission bits (owner read/write always granted, directories 755), and produces an archive whose entries are in a canonical order with directories before their contents, the metadata directory last and RECORD as its final file. All entries carry the given timestamp, never before 1980, and files are compressed at the requested level.",
 ["inputs"],
 "every directory tree/archive x modes x timestamp x compression level",
 "Tests cover one permission archive and a small tree.",
 ["tools.py", "wheeltools.py"],
 [("walk/zip", "tools.py:walk, dir2zip, zip2dir")],
 ["zip entries"],
 "zip files written")

prop("C17", "The report tells the truth in every format",
 "The JSON report of show names the overall, symbol and other verdicts of the analysis, lists exactly the libraries and symbols that stand between the wheel and each more compatible platform, and always is valid against the published schema; the text report says the same: the overall tag, the versioned symbols, the first reason that rules out every better tag (all of them when run verbosely), the external libraries with their files, and per better platform what stands in the way. Errors are reported as JSON with a non-zero exit.",
 ["inputs"],
 "every wheel (incl. pure, invalid) x --json / text x options",
 "Tests check a few keys for a few wheels.",
 ["main_show.py", "json.py"],
 [("JSON report", "main_show.py:_output_json")],
 ["stdout"],
 "stdout and exit status of show")

prop("C18", "Queued ELF edits are applied once, completely and to the right file",
 "For every sequence of edit requests (set soname, replace or remove needed, set or clear search path, move the file), applying the queue gives each file exactly the combined effect of the requests made for it under any name, queries in between see the pending search path, conflicting replace/remove requests are rejected without side effects, and applying twice changes nothing more. A patcher that cannot edit rejects non-empty queues and accepts empty ones.",
 ["histories"],
 "every sequence of operations over several files and names (including symlinks and moves)",
 "Unit tests check call arguments of single operations.",
 ["patcher.py"],
 [("deferred updates", "patcher.py:ElfPatcher")],
 ["pending updates per file"],
 "ELF files after apply and return values")

prop("C19", "Executables installed as scripts keep working after repair",
 "A compiled executable in a wheel's scripts directory that needs vendored libraries is moved, with its mode, next to the package and replaced by a launcher script with the same name and mode that executes the moved file with the caller's arguments and exit status; the moved file finds its libraries. Executables there without such needs, and executables elsewhere, stay where they are.",
 ["inputs"],
 "every set of script names, modes and dependency sets",
 "One integration test repairs one executable.",
 ["repair.py"],
 [("shim", "repair.py:_replace_elf_script_with_shim")],
 ["scripts and launcher files in the output"],
 "output wheel; the launcher executed")

prop("C20", "Wheels without binaries are handled as asked",
 "A wheel without binaries makes show and repair fail with a non-zero exit and writes nothing, unless pure wheels are allowed and its file name is platform independent: then show reports it as pure and repair copies it byte for byte into the output directory (also when that already is its place) and carries on with the following wheels.",
 ["inputs", "histories"],
 "every wheel without usable binaries x file name tags x option x output directory x position among several wheels",
 "Tests cover one pure wheel.",
 ["main_repair.py", "main_show.py", "wheeltools.py"],
 [("pure handling", "main_repair.py:execute")],
 ["exit status", "output directory"],
 "exit status and output directory")

prop("C21", "Vendored copies are named by content and unambiguous",
 "Every vendored library is stored once in the package's vendored directory under a name made of the original base name, a tag derived from its content and the original extension; its internal name equals its file name and its remaining contents are those of the source file. Contents with different tags never share a name, identical content from one name is stored once, and an already tagged name is not tagged again.",
 ["inputs"],
 "every set of external libraries (same name in different directories, symlink chains, names with many dots, read-only files) x lib-sdir",
 "Tests check one or two copied libraries.",
 ["repair.py", "hashfile.py"],
 [("copylib", "repair.py:copylib")],
 ["grafted files"],
 "grafted files of the output wheel")

prop("C22", "musl and Android wheels get the policies that apply to them",
 "For a musl wheel only the policy of the running musl version (or the latest known one when it cannot be determined) applies, with the C library's name of the architecture; for an Android wheel the newest library profile not newer than the API level in its tag applies, its tag is never changed and invalid or too old tags are rejected. The build machine's libraries are never used for Android wheels unless asked to, and search paths are only written when the API level supports them.",
 ["inputs", "configurations"],
 "every musl version x every architecture; every Android API level x architecture x wheel",
 "Tests check three API levels and two musl versions.",
 ["policy/__init__.py", "libc.py", "wheel_abi.py", "patcher.py"],
 [("selection", "policy/__init__.py:WheelPolicies.__init__")],
 ["policies in force"],
 "policies selected; repair/show of musl and Android wheels")

prop("C23", "Options, environment and defaults combine predictably",
 "A value given on the command line wins over its environment variable, which wins over the default; an invalid value from either source is rejected with a usage error before anything is written, and a valid one has the same effect from either source. The requested compression level, vendored directory name and output directory are honoured, and the output directory is created when missing.",
 ["configurations"],
 "every combination of command-line/environment/default values of every option with an environment variable",
 "Unit tests cover the action class on a few values.",
 ["tools.py", "main_repair.py", "options.py"],
 [("environment defaults", "tools.py:EnvironmentDefault")],
 ["effective option values"],
 "exit status and output of repair under each configuration")

prop("C24", "The software bill of materials matches what was vendored",
 "If and only if at least one vendored library belongs to a system package, the repaired wheel contains a CycloneDX document in its metadata directory. It lists the wheel itself and, for each vendored file with a known package and no other, one component with that package's name, version and purl and a unique reference, and the wheel depends on exactly these references; it names the final wheel file and is covered by RECORD.",
 ["inputs"],
 "every assignment of packages to library files x every grafted set",
 "Unit tests check one or two components.",
 ["sboms.py", "repair.py", "_vendor/whichprovides/__init__.py"],
 [("SBOM", "sboms.py:create_sbom_for_wheel")],
 ["SBOM document"],
 "SBOM in the output wheel")

prop("C25", "External tools are checked before they are relied on",
 "A repair that has to edit binaries uses the first patchelf on PATH, and only if it identifies itself as version 0.14.5 or newer; when it is older, does not identify itself, fails or is absent, the repair ends with an error and nothing is written. --strip likewise needs a working strip, and then removes static symbol tables and debug information from every binary it analysed and every library it vendored, and from nothing else. Commands that need no tool (a report, copying a wheel without binaries) work without any.",
 ["inputs", "configurations", "fault_sequences"],
 "every PATH (directories with a missing, non-executable, failing, old or new patchelf and strip) x every wheel x patcher and strip options",
 "Unit tests replace the subprocess calls with mocks and check one old and one new version.",
 ["patcher.py", "repair.py", "main_repair.py"],
 [("version check", "patcher.py:_verify_patchelf"), ("stripping", "repair.py:strip_symbols")],
 ["tools on PATH", "output directory"],
 "exit status and output of repair with given tools on PATH")

prop("C26", "Commands running at the same time do not disturb each other",
 "When two repairs run at the same time and write into one output directory, in whatever way their operations interleave, each ends as it would alone. At no moment does a wheel's name stand for anything but an older file or the complete result of one of them; afterwards the directory holds their results (of two with the same name, the one that finished last) and nothing else, whether or not the directory existed before.",
 ["schedules", "inputs"],
 "every interleaving of two commands x the same, a differently configured or another wheel x the state of the output directory",
 "Unit tests run one command at a time.",
 ["main_repair.py", "wheeltools.py", "tmpdirs.py", "tools.py"],
 [("publishing a wheel", "wheeltools.py:InWheel.__exit__"), ("output directory", "main_repair.py:execute"), ("scratch directories", "tmpdirs.py:InTemporaryDirectory")],
 ["output directory", "temporary directory"],
 "exit status of both commands and the output directory while and after they run")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
import sys
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sch)
    print(len(P), "ok")
except Exception as e: print(e); sys.exit(1)
