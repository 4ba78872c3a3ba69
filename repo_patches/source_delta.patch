From 9454672f8cd3496688bf9a15ec989967281e52ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 01/33] fix: write the output wheel only, and completely, when
 the repair succeeded

---
 src/auditwheel/wheeltools.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 0ac4c3a..10e1007 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -137,14 +137,22 @@ class InWheel(InTemporaryDirectory):
         value: BaseException | None,
         tb: TracebackType | None,
     ) -> None:
-        if self.out_wheel is not None:
-            rewrite_record(self.name)
-            date_time = None
-            timestamp = os.environ.get("SOURCE_DATE_EPOCH")
-            if timestamp:
-                date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-            dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
-        return super().__exit__(exc, value, tb)
+        try:
+            if self.out_wheel is not None and exc is None:
+                rewrite_record(self.name)
+                date_time = None
+                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
+                if timestamp:
+                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
+                # never leave a partial archive behind under the name of a wheel
+                partial = self.out_wheel.with_name(f"{self.out_wheel.name}.part")
+                try:
+                    dir2zip(self.name, partial, self.zip_compression_level, date_time)
+                    partial.replace(self.out_wheel)
+                finally:
+                    partial.unlink(missing_ok=True)
+        finally:
+            super().__exit__(exc, value, tb)
 
 
 class InWheelCtx(InWheel):
-- 
2.43.0


From b9ba6e07220e48f31a61bb9c93ddee4bc8d5084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 02/33] fix: vendor libraries whose file name has no extension

---
 src/auditwheel/repair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index b9ca254..b1efc70 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -174,8 +174,8 @@ def copylib(src_path: Path, dest_dir: Path, patcher: ElfPatcher) -> tuple[str, P
         shorthash = hashfile(f)[:8]
 
     src_name = src_path.name
-    base, ext = src_name.split(".", 1)
-    new_soname = f"{base}-{shorthash}.{ext}" if not base.endswith(f"-{shorthash}") else src_name
+    base, dot, ext = src_name.partition(".")
+    new_soname = src_name if base.endswith(f"-{shorthash}") else f"{base}-{shorthash}{dot}{ext}"
 
     dest_path = dest_dir / new_soname
     if dest_path.exists():
-- 
2.43.0


From 7707693120833347ba7ba368d1a6c6a7f864cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 03/33] fix: rewrite dependencies of every vendored library
 when a soname stands for several files

---
 src/auditwheel/repair.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index b1efc70..ff32aff 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -45,7 +45,9 @@ def repair_wheel(
     if not external_refs_by_fn:
         return None
 
-    soname_map: dict[str, tuple[str, Path]] = {}
+    # new names of the dependencies of each grafted library: the same soname may stand
+    # for different files in different ELF trees
+    grafted: dict[Path, dict[str, str]] = {}
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -74,6 +76,7 @@ def repair_wheel(
         for fn, v in external_refs_by_fn.items():
             ext_libs = v[abis[0]].libs
             replacements: list[tuple[str, str]] = []
+            new_paths: list[Path] = []
             for soname, src_path in ext_libs.items():
                 # Handle libpython dependencies by removing them
                 if LIBPYTHON_RE.match(soname):
@@ -97,8 +100,10 @@ def repair_wheel(
                     dest_dir.mkdir()
                 sbom_filepaths.append(src_path)
                 new_soname, new_path = copylib(src_path, dest_dir, patcher)
-                soname_map[soname] = (new_soname, new_path)
+                new_paths.append(new_path)
                 replacements.append((soname, new_soname))
+            for new_path in new_paths:
+                grafted.setdefault(new_path, {}).update(replacements)
             if replacements:
                 patcher.replace_needed(fn, *replacements)
 
@@ -116,12 +121,12 @@ def repair_wheel(
         # we need to update those records so each now knows about the new
         # name of the other.
         # we also clear or set RPATH depending on the presence of internal dependencies
-        for _, path in soname_map.values():
+        for path, new_sonames in grafted.items():
             needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
             replacements = []
             for n in needed:
-                if n in soname_map:
-                    replacements.append((n, soname_map[n][0]))
+                if n in new_sonames:
+                    replacements.append((n, new_sonames[n]))
             if replacements:
                 patcher.set_rpath(path, "$ORIGIN")
                 patcher.replace_needed(path, *replacements)
@@ -131,7 +136,7 @@ def repair_wheel(
         # strip before applying ELF patches to reduce chances of an invalid ELF being produced
         # as seen in https://github.com/pypa/auditwheel/issues/716
         if strip:
-            libs_to_strip = [path for (_, path) in soname_map.values()]
+            libs_to_strip = list(grafted)
             extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
             strip_symbols(itertools.chain(libs_to_strip, extensions))
 
-- 
2.43.0


From 4b38c8813d10dc1019be238ba17c7aebc4e442d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:52 +0000
Subject: [PATCH 04/33] fix: remove libpython dependencies of vendored
 libraries too

---
 src/auditwheel/repair.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index ff32aff..3d12d11 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -48,6 +48,7 @@ def repair_wheel(
     # new names of the dependencies of each grafted library: the same soname may stand
     # for different files in different ELF trees
     grafted: dict[Path, dict[str, str]] = {}
+    libpythons: set[str] = set()
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -86,6 +87,7 @@ def repair_wheel(
                         soname,
                         str(fn),
                     )
+                    libpythons.add(soname)
                     patcher.remove_needed(fn, soname)
                     continue
 
@@ -124,6 +126,9 @@ def repair_wheel(
         for path, new_sonames in grafted.items():
             needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
             replacements = []
+            removed = [n for n in needed if n in libpythons]
+            if removed:
+                patcher.remove_needed(path, *removed)
             for n in needed:
                 if n in new_sonames:
                     replacements.append((n, new_sonames[n]))
-- 
2.43.0


From daac43adc86e87ccdf5cbf006dd76a691e96152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 05/33] fix: recognise libpython of debug, free-threaded and
 stable ABI builds

---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index af46a8e..40d64f3 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -37,7 +37,7 @@ log = logging.getLogger(__name__)
 __all__ = ["LIBPYTHON_RE", "DynamicExecutable", "DynamicLibrary", "ldd"]
 
 # Regex to match libpython shared library names
-LIBPYTHON_RE = re.compile(r"^libpython\d+\.\d+m?.so(\.\d)*$")
+LIBPYTHON_RE = re.compile(r"^libpython\d+(\.\d+[a-z]*)?\.so(\.\d+)*$")
 
 # Regex to match ORIGIN references in rpaths.
 ORIGIN_RE = re.compile(r"\$(ORIGIN|\{ORIGIN\})")
-- 
2.43.0


From b67a75ab956e75e7754e7bda0239bfe6bc7ce7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 06/33] fix: analyse executables whose interpreter is not
 installed

---
 src/auditwheel/wheel_abi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index b377e3a..f0b3983 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -78,8 +78,8 @@ def _fixup_elf_trees(
         for candidate in resolved_executables:
             for library in candidate.libraries.values():
                 assert library.realpath is not None  # noqa: S101
-                assert library.realpath.is_file()  # noqa: S101
-                if path_to_elf.samefile(library.realpath):
+                # the interpreter might not exist on the build machine
+                if library.realpath.is_file() and path_to_elf.samefile(library.realpath):
                     return candidate
         return None
 
-- 
2.43.0


From 66ae66307de46e06bb25c989e94f20ca7f00cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 07/33] fix: treat an alias given to --plat like its canonical
 name

---
 src/auditwheel/wheel_abi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index f0b3983..c8c5080 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -500,7 +500,10 @@ def analyze_wheel_abi(
             (
                 len(e.libs)
                 for e in external_refs.values()
-                if e.policy.name.startswith(f"{requested_policy_base_name}_")
+                if any(
+                    name.startswith(f"{requested_policy_base_name}_")
+                    for name in (e.policy.name, *e.policy.aliases)
+                )
             ),
             default=0,
         )
-- 
2.43.0


From a81215b0bc29756f3959e970db55d031b426eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 08/33] fix: account for dependencies of ELF files that only
 share a name with a needed library

---
 src/auditwheel/wheel_abi.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index c8c5080..dc1e3e1 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -263,6 +263,18 @@ def get_wheel_elfdata(
                 ctx.path,
             )
 
+        # An ELF file might merely share its name with a library something else
+        # needs, or only be needed by ELF files nothing else loads.
+        reached = {
+            library.realpath
+            for elf_tree in full_elftree.values()
+            for library in elf_tree.libraries.values()
+        }
+        for fn, elf_tree in nonpy_elftree.items():
+            if fn not in full_elftree and fn.resolve() not in reached:
+                full_elftree[fn] = elf_tree
+                reached.update(library.realpath for library in elf_tree.libraries.values())
+
     log.debug("full_elftree:\n%s", json.dumps(full_elftree))
     log.debug(
         "full_external_refs (will be repaired):\n%s",
-- 
2.43.0


From 61bd2b98b943d3f58c3d332a0f29cdf72a1f3d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 09/33] fix: do not crash on unknown x86_64 ISA levels

---
 src/auditwheel/lddtree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 40d64f3..65da53a 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -146,7 +146,9 @@ def _get_platform(elf: ELFFile) -> Platform:
                         ext_arch = Architecture.x86_64_v2
                         break
                     if data != 0:
-                        error_msg = "unknown x86_64 ISA"
+                        # assume it's more than what any known level provides
+                        log.warning("unknown x86_64 ISA %#x", data)
+                        ext_arch = Architecture.x86_64_v4
                 break
     elif base_arch == Architecture.armv7l:
         if (flags & E_FLAGS.EF_ARM_EABIMASK) != E_FLAGS.EF_ARM_EABI_VER5:
-- 
2.43.0


From d92fc3eab3898d3ef6672ce87f6ba27d60742516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 10/33] fix: check ISA extensions and black-listed symbols of
 every ELF file of the wheel

---
 src/auditwheel/wheel_abi.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index dc1e3e1..6ed0d51 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -52,6 +52,7 @@ class WheelAbIInfo:
 class WheelElfData:
     policies: WheelPolicies
     full_elftree: dict[Path, DynamicExecutable]
+    nonpy_elftree: dict[Path, DynamicExecutable]
     full_external_refs: dict[Path, dict[str, ExternalReference]]
     versioned_symbols: dict[str, set[str]]
     uses_ucs2_symbols: bool
@@ -284,6 +285,7 @@ def get_wheel_elfdata(
     return WheelElfData(
         policies,
         full_elftree,
+        nonpy_elftree,
         full_external_refs,
         versioned_symbols,
         uses_ucs2_symbols,
@@ -466,8 +468,13 @@ def analyze_wheel_abi(
         p.name: ExternalReference({}, {}, p) for p in policies
     }
 
-    for fn in elftree_by_fn:
-        update(external_refs, external_refs_by_fn[fn])
+    for fn, refs in external_refs_by_fn.items():
+        if fn in elftree_by_fn:
+            update(external_refs, refs)
+        else:
+            # the libraries are accounted for by the ELF files depending on this one
+            for name, ref in refs.items():
+                update(external_refs, {name: ExternalReference({}, ref.blacklist, ref.policy)})
 
     log.debug("external reference info")
     log.debug(json.dumps(external_refs))
@@ -529,7 +536,7 @@ def analyze_wheel_abi(
     else:
         machine_policy = _get_machine_policy(
             policies,
-            elftree_by_fn,
+            elftree_by_fn | data.nonpy_elftree,
             frozenset(external_libs.values()),
         )
 
-- 
2.43.0


From 8895458cedbbe4ff0009e5cf0a51943e3f80ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 11/33] fix: consider every file a soname stands for when
 collecting versioned symbols

---
 src/auditwheel/wheel_abi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 6ed0d51..bcc97b7 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -319,14 +319,13 @@ def get_versioned_symbols(libs: dict[Path, str]) -> dict[str, dict[str, set[str]
     :return: {soname: {depname: set([symbol_version])}} e.g.
     {'external_ref.so.1': {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}}
     """
-    result = {}
+    result: dict[str, dict[str, set[str]]] = {}
     for path, elf in elf_file_filter(libs.keys()):
         # {depname: set(symbol_version)}, e.g. {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}
-        elf_versioned_symbols: dict[str, set[str]] = defaultdict(set)
+        elf_versioned_symbols = result.setdefault(libs[path], defaultdict(set))
         for key, value in elf_find_versioned_symbols(elf):
             log.debug("path %s, key %s, value %s", path, key, value)
             elf_versioned_symbols[key].add(value)
-        result[libs[path]] = elf_versioned_symbols
     return result
 
 
@@ -479,7 +478,10 @@ def analyze_wheel_abi(
     log.debug("external reference info")
     log.debug(json.dumps(external_refs))
 
-    external_libs = get_external_libs(external_refs)
+    # a soname might stand for different files in different ELF trees
+    external_libs: dict[Path, str] = {}
+    for refs in external_refs_by_fn.values():
+        external_libs = get_external_libs(refs) | external_libs
     external_versioned_symbols = get_versioned_symbols(external_libs)
     symbol_policies = get_symbol_policies(
         policies,
-- 
2.43.0


From e3bbd62ff113e4733141f4d7141712fcaf5e0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 12/33] fix: refuse to repair wheels using PyFPE_jbuf

---
 src/auditwheel/main_repair.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 937d4ae..8cdf3e6 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -245,6 +245,13 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
             )
             parser.error(msg)
 
+        if requested_policy > wheel_abi.pyfpe_policy:
+            msg = (
+                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
+                "uses the PyFPE_jbuf function."
+            )
+            parser.error(msg)
+
         if requested_policy > wheel_abi.blacklist_policy:
             msg = (
                 f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
-- 
2.43.0


From 1ebaf7e1dcaa11988b295ea1aa6f8c2ecba8b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 13/33] fix: process external libraries in an order independent
 of the hash seed

---
 src/auditwheel/policy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/policy/__init__.py b/src/auditwheel/policy/__init__.py
index b55fc59..fb9b4bc 100644
--- a/src/auditwheel/policy/__init__.py
+++ b/src/auditwheel/policy/__init__.py
@@ -282,7 +282,7 @@ class WheelPolicies:
                 )
 
             pol_ext_deps: dict[str, Path | None] = {}
-            for lib in needed_external_libs:
+            for lib in sorted(needed_external_libs):
                 if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                     # we didn't filter libs that resolved via RPATH out
                     # earlier because we wanted to make sure to pick up
-- 
2.43.0


From 50323c21b73cf8b45f002341166a564f297b8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 14/33] fix: list versioned symbols in a stable order

---
 src/auditwheel/main_show.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/main_show.py b/src/auditwheel/main_show.py
index c4ab150..6760e59 100644
--- a/src/auditwheel/main_show.py
+++ b/src/auditwheel/main_show.py
@@ -127,7 +127,10 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
 
     policies = winfo.policies
 
-    libs_with_versions = [f"{k} with versions {v}" for k, v in winfo.versioned_symbols.items()]
+    libs_with_versions = [
+        f"{k} with versions {{{', '.join(map(repr, sorted(v)))}}}"
+        for k, v in winfo.versioned_symbols.items()
+    ]
 
     printp(
         f'{fn} is consistent with the following platform tag: "{winfo.overall_policy.name}".',
-- 
2.43.0


From d3d5a435caca22b9475b2e975dcbb73665be8a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 15/33] fix: remove S/MIME signatures of the previous RECORD as
 well

---
 src/auditwheel/wheeltools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 10e1007..9cfecba 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -73,9 +73,10 @@ def rewrite_record(bdist_dir: Path) -> None:
     record_path = info_dir / "RECORD"
     record_relpath = record_path.relative_to(bdist_dir)
     # Unsign wheel - because we're invalidating the record hash
-    sig_path = info_dir / "RECORD.jws"
-    if sig_path.exists():
-        sig_path.unlink()
+    for signature in ("RECORD.jws", "RECORD.p7s"):
+        sig_path = info_dir / signature
+        if sig_path.exists():
+            sig_path.unlink()
 
     def files() -> Generator[Path]:
         for dir_, _, files in walk(bdist_dir):
-- 
2.43.0


From a19185e92b616083a32df0bc68ecf1d742dc753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 16/33] fix: never touch files outside the wheel that RECORD
 lists

---
 src/auditwheel/wheeltools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 9cfecba..c9759d1 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -24,7 +24,7 @@ from auditwheel.architecture import Architecture
 from auditwheel.error import NonPlatformWheelError, WheelToolsError
 from auditwheel.libc import Libc
 from auditwheel.tmpdirs import InTemporaryDirectory
-from auditwheel.tools import dir2zip, unique_by_index, walk, zip2dir
+from auditwheel.tools import dir2zip, is_subdir, unique_by_index, walk, zip2dir
 
 if TYPE_CHECKING:
     from collections.abc import Generator, Iterable
@@ -199,6 +199,9 @@ class InWheelCtx(InWheel):
         reader = csv.reader(r for r in record.splitlines())
         for row in reader:
             filename = row[0]
+            if not is_subdir(self.path / filename, self.path):
+                logger.warning("ignoring %r: not inside the wheel", filename)
+                continue
             yield Path(filename)
 
 
-- 
2.43.0


From 07b0dc1601ed3c558501d8c6b45d100a35bfc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 17/33] fix: ignore RPATH whenever there is a RUNPATH, even if
 none of its directories exist

---
 src/auditwheel/lddtree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 65da53a..b0ae856 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -535,14 +535,16 @@ def ldd(
         for segment in elf.iter_segments():
             if not isinstance(segment, DynamicSegment):
                 continue
+            has_runpath = False
             for t in segment.iter_tags():
                 if t.entry.d_tag == "DT_RPATH":
                     rpaths = parse_ld_paths(t.rpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_RUNPATH":
+                    has_runpath = True
                     runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_NEEDED":
                     needed.append(t.needed)  # type: ignore[attr-defined]
-            if runpaths:
+            if has_runpath:
                 # If both RPATH and RUNPATH are set, only the latter is used.
                 rpaths = []
 
-- 
2.43.0


From bc1c5be896e2d90ec62aa08466e48467af98433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 18/33] fix: report an ELF interpreter that does not exist as
 not found

---
 src/auditwheel/lddtree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index b0ae856..d0572e9 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -511,10 +511,12 @@ def ldd(
                 log.debug("  interp           = %s", interp)
                 interpreter = normpath(root + interp)
                 soname = os.path.basename(interpreter)
+                interpreter_realpath = Path(readlink(interpreter, root, prefixed=True))
                 _all_libs[soname] = DynamicLibrary(
                     soname,
                     interpreter,
-                    Path(readlink(interpreter, root, prefixed=True)),
+                    # there might be no such interpreter on this machine
+                    interpreter_realpath if interpreter_realpath.exists() else None,
                     platform,
                 )
                 # if we have an interpreter and it's not MUSL, assume GLIBC
-- 
2.43.0


From 3e1b4379c99a2eed73101f67f046f40f2cfa3309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:51 +0000
Subject: [PATCH 19/33] fix: list packages of the given files only, and in
 their order

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index fa3e3fe..87e6fdc 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -327,9 +327,11 @@ def whichprovides(filepath: typing.Union[str, list[str]]) -> dict[str, ProvidedB
         results = package_provider.whichprovides(remaining)
         filepath_provided_by.update(results)
 
+    # Providers may know more files than asked for, in any order.
     return {
-        resolved_filepaths[filepath]: value
-        for filepath, value in filepath_provided_by.items()
+        original: filepath_provided_by[resolved]
+        for resolved, original in resolved_filepaths.items()
+        if resolved in filepath_provided_by
     }
 
 
-- 
2.43.0


From 8f8b238ad8b3d7930c145f60e036238bb5bb0c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:51 +0000
Subject: [PATCH 20/33] fix: apk package names may contain hyphens

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index 87e6fdc..b63dc43 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -18,7 +18,7 @@ __all__ = ["ProvidedBy", "whichprovides"]
 __version__ = "0.4.0"
 
 _OS_RELEASE_LINES_RE = re.compile(r"^([A-Z_]+)=(?:\"([^\"]*)\"|(.*))$", re.MULTILINE)
-_APK_WHO_OWNS_RE = re.compile(r" is owned by ([^\s\-]+)-([^\s]+)$", re.MULTILINE)
+_APK_WHO_OWNS_RE = re.compile(r" is owned by (\S+)-([^\s\-]+-r[0-9]+)$", re.MULTILINE)
 _DPKG_SEARCH_RE = re.compile(r"^([^:]+):")
 _DPKG_VERSION_RE = re.compile(r"^Version: ([^\s]+)", re.MULTILINE)
 _APT_FILE_SEARCH_RE = re.compile(r"^([^:]+): (.+)$", re.MULTILINE)
-- 
2.43.0


From 67d070473e86c8c7d78c7e227d147e7cf8eeef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 21/33] fix: do not silently leave out directories that cannot
 be listed

---
 src/auditwheel/tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 639a065..5d046cf 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -57,8 +57,12 @@ def walk(topdir: Path) -> Generator[tuple[Path, list[str], list[str]]]:
         List of non-directory file names in `dirpath`
 
     """
+
+    def raise_error(error: OSError) -> None:
+        raise error
+
     topdir = topdir.resolve(strict=True)
-    for dirpath_, dirnames, filenames in os.walk(topdir):
+    for dirpath_, dirnames, filenames in os.walk(topdir, onerror=raise_error):
         dirpath = Path(dirpath_)
         # sort list of dirnames in-place such that `os.walk`
         # will recurse into subdirectories in reproducible order
-- 
2.43.0


From 6eeb4852e85a59aae16ab2ab9cbf4f0f2b6e8a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:35 +0000
Subject: [PATCH 22/33] fix: make permissions in the output independent of the
 umask

---
 src/auditwheel/repair.py | 4 +++-
 src/auditwheel/tools.py  | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 3d12d11..aba4866 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -160,7 +160,9 @@ def repair_wheel(
         if sbom_data:
             sbom_dir = Path(dist_info_dirs[0], "sboms")
             sbom_dir.mkdir(exist_ok=True)
-            (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))
+            sbom_path = sbom_dir / "auditwheel.cdx.json"
+            sbom_path.write_text(json.dumps(sbom_data))
+            sbom_path.chmod(0o644)
 
     return output_wheel
 
diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 5d046cf..c99ec72 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import argparse
 import logging
 import os
+import stat
 import subprocess
 import time
 import zipfile
@@ -112,8 +113,9 @@ def zip2dir(zip_fname: Path, out_dir: Path) -> None:
             if member.is_dir():
                 # this is always rebuilt as 755 by dir2zip
                 extracted_path.chmod(0o755)
-            elif attr != 0:
-                attr &= 511  # only keep permission bits
+            else:
+                # do not depend on the umask when there are no UNIX permissions
+                attr = attr & 511 if attr != 0 else 0o644  # only keep permission bits
                 attr |= 6 << 6  # at least read/write for current user
                 extracted_path.chmod(attr)
     logger.debug(
@@ -166,6 +168,8 @@ def dir2zip(
                 out_dname = f"{dname.relative_to(in_dir)}/"
                 zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
                 zinfo.date_time = date_time_args
+                # always 755, whatever the umask; 0x10: MS-DOS directory flag
+                zinfo.external_attr = (stat.S_IFDIR | 0o755) << 16 | 0x10
                 z.writestr(zinfo, b"")
             for file in files:
                 fname = dname / file
-- 
2.43.0


From 0a7a940bcd6a931a3356fa86baf13b7986b06c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:23 +0000
Subject: [PATCH 23/33] fix: do not loop forever on symbolic links forming a
 cycle

---
 src/auditwheel/lddtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index d0572e9..ddb904b 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -208,7 +208,10 @@ def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
     if prefixed:
         path = path[len(root) :]
 
-    while os.path.islink(root + path):
+    # links may form a cycle: give up where the kernel does (ELOOP)
+    for _ in range(40):
+        if not os.path.islink(root + path):
+            break
         path = os.path.join(os.path.dirname(path), os.readlink(root + path))
 
     return normpath((root + path) if prefixed else path)
-- 
2.43.0


From 9d8104860a091ab6bb871b328570ef417616cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 24/33] fix: do not collapse '..' after a symbolic link to a
 directory

The kernel, and so the dynamic loader, resolves dir/../x from the target of
dir. Collapsing it lexically missed libraries (or found other ones) when the
search path or a relative link went through a symlinked directory.
---
 src/auditwheel/lddtree.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index ddb904b..49afeec 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -177,7 +177,14 @@ def normpath(path: str) -> str:
     //..// -> //
     //..//..// -> ///
     """
-    return os.path.normpath(path).replace("//", "/")
+    normalized = os.path.normpath(path).replace("//", "/")
+    if ".." in path.split("/"):
+        # what follows a link to a directory is the parent of the directory
+        # linked to, not the parent of the link
+        real = os.path.realpath(path)
+        if os.path.realpath(normalized) != real:
+            return real
+    return normalized
 
 
 def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
-- 
2.43.0


From db7d0b321c544b4175530a114c5ab5210b126c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 25/33] fix: read include lines of ld.so.conf as ldconfig does

Included files are read in sorted order (the order of the directory listing
decided which of two libraries of one name was found), the keyword may be
followed by any blanks, and one line may give several patterns.
---
 src/auditwheel/lddtree.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 49afeec..c009484 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -301,15 +301,16 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                 line = input_line.split("#", 1)[0].strip()
                 if not line:
                     continue
-                if line.startswith("include "):
-                    line = line[8:]
-                    if line[0] == "/":
-                        line = root + line.lstrip("/")
-                    else:
-                        line = os.path.dirname(ldso_conf) + "/" + line
-                    log.debug("%s  glob: %s", dbg_pfx, line)
-                    for path in glob.glob(line):
-                        paths += parse_ld_so_conf(path, root=root, _first=False)
+                keyword, *patterns = line.split()
+                if keyword == "include" and patterns:
+                    for pattern in patterns:
+                        if pattern[0] == "/":
+                            line = root + pattern.lstrip("/")
+                        else:
+                            line = os.path.dirname(ldso_conf) + "/" + pattern
+                        log.debug("%s  glob: %s", dbg_pfx, line)
+                        for path in sorted(glob.glob(line)):
+                            paths += parse_ld_so_conf(path, root=root, _first=False)
                 else:
                     paths += [normpath(root + line)]
     except OSError as e:
-- 
2.43.0


From 6947eeddf0f334e8ebf36d01ff6387029e8ab3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 26/33] fix: directories in ld-musl-*.path may be separated by
 newlines

musl's loader separates them at colons and newlines; a file with one
directory per line was read as a single directory, which does not exist.
---
 src/auditwheel/lddtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index c009484..cc5ce50 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -380,7 +380,8 @@ def load_ld_paths(
             ]
         else:
             ldpaths["conf"] = []
-            for ldpath in ld_musl[0].read_text().split(":"):
+            # the loader accepts both as separators
+            for ldpath in re.split("[:\n]", ld_musl[0].read_text()):
                 ldpath_stripped = ldpath.strip()
                 if ldpath_stripped == "":
                     continue
-- 
2.43.0


From 0188e7aaca3a162bb2ba9a4b47ad1dd52f79449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 27/33] fix: report an invalid value in the environment as a
 usage error

It ended in a traceback (argparse.ArgumentError raised while the parser was
being set up).
---
 src/auditwheel/main.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/main.py b/src/auditwheel/main.py
index 68c5c21..3e67c82 100644
--- a/src/auditwheel/main.py
+++ b/src/auditwheel/main.py
@@ -32,9 +32,13 @@ def main() -> int | None:
     )
     sub_parsers = p.add_subparsers(metavar="command", dest="cmd")
 
-    main_show.configure_parser(sub_parsers)
-    main_repair.configure_parser(sub_parsers)
-    main_lddtree.configure_subparser(sub_parsers)
+    try:
+        main_show.configure_parser(sub_parsers)
+        main_repair.configure_parser(sub_parsers)
+        main_lddtree.configure_subparser(sub_parsers)
+    except argparse.ArgumentError as e:
+        # an invalid value in the environment
+        p.error(str(e))
 
     args = p.parse_args()
 
-- 
2.43.0


From f626fb97fb24c0543c780235fd5f591c5d05e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 28/33] fix: never leave a partial copy of a wheel without
 binaries

The copy of a wheel without binaries was written in place: when it failed
(disk full, interrupt), a truncated file was left under the name of a wheel,
or took the place of an older complete one.
---
 src/auditwheel/main_repair.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 8cdf3e6..27a8d88 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -213,7 +213,13 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
             if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
                 dest_fname = wheel_dir / wheel_file.name
                 if not dest_fname.is_file() or not dest_fname.samefile(wheel_file):
-                    shutil.copy2(wheel_file, dest_fname)
+                    # only a complete copy may get the name of the wheel
+                    partial = dest_fname.with_name(f"{dest_fname.name}.part")
+                    try:
+                        shutil.copy2(wheel_file, partial)
+                        partial.replace(dest_fname)
+                    finally:
+                        partial.unlink(missing_ok=True)
                 # process next wheel
                 continue
             return 1
-- 
2.43.0


From 25f1a44f7cfc2beecd454be53e4debb7dd4c321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 29/33] fix: read RECORD as UTF-8, with names that hold line
 breaks

A member whose name contains a line break (or a character str.splitlines
splits at) made every command fail with FileNotFoundError, and so did a name
beyond ASCII in a locale whose encoding is not UTF-8.
---
 src/auditwheel/wheeltools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index c9759d1..bc3a128 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -195,9 +195,9 @@ class InWheelCtx(InWheel):
             msg = "This function should be called from context manager"
             raise ValueError(msg)
         record_name = _dist_info_dir(self.path) / "RECORD"
-        record = record_name.read_text()
-        reader = csv.reader(r for r in record.splitlines())
-        for row in reader:
+        with record_name.open(newline="", encoding="utf-8") as record_file:
+            rows = list(csv.reader(record_file))
+        for row in rows:
             filename = row[0]
             if not is_subdir(self.path / filename, self.path):
                 logger.warning("ignoring %r: not inside the wheel", filename)
-- 
2.43.0


From d59117ed2b7e5f06cdfdfa0e13577f39112b9e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:47 +0000
Subject: [PATCH 30/33] fix: do not depend on the order of the files to detect
 the libc of a wheel

---
 src/auditwheel/wheel_abi.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index bcc97b7..e10ec9f 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -195,19 +195,10 @@ def get_wheel_elfdata(
                 # If the ELF is a Python extention, we definitely need to
                 # include its external dependencies.
                 if is_py_ext:
-                    if policies is None:
-                        assert architecture is not None  # noqa: S101
-                        assert libc is None  # noqa: S101
-                        msg = f"couldn't detect libc for python extension {fn}"
-                        raise InvalidLibcError(msg)
                     full_elftree[fn] = elftree
                     uses_pyfpe_jbuf |= elf_references_pyfpe_jbuf(elf)
                     if py_ver == 2:
                         uses_ucs2_symbols |= any(True for _ in elf_find_ucs2_symbols(elf))
-                    full_external_refs[fn] = policies.lddtree_external_references(
-                        elftree,
-                        ctx.path,
-                    )
                 else:
                     # If the ELF is not a Python extension, it might be
                     # included in the wheel already because auditwheel repair
@@ -230,6 +221,18 @@ def get_wheel_elfdata(
             arch = None if architecture is None else architecture.value
             raise NonPlatformWheelError(arch, shared_libraries_with_invalid_machine)
 
+        # The libc might only be known from an ELF file that comes after the extension
+        for fn, elf_tree in full_elftree.items():
+            if policies is None:
+                assert architecture is not None  # noqa: S101
+                assert libc is None  # noqa: S101
+                msg = f"couldn't detect libc for python extension {fn}"
+                raise InvalidLibcError(msg)
+            full_external_refs[fn] = policies.lddtree_external_references(
+                elf_tree,
+                ctx.path,
+            )
+
         _fixup_elf_trees(full_elftree, nonpy_elftree)
 
         # Get a list of all external libraries needed by ELFs in the wheel.
-- 
2.43.0


From 6dde3a354e167e3463ceabec93d71e15e9f4b0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:40 +0000
Subject: [PATCH 31/33] fix: ask the package managers in a fixed order

The order of the providers followed the addresses of their classes: with two
managers that know a file, the SBOM, hence the wheel, differed between runs.
---
 src/auditwheel/_vendor/whichprovides/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index b63dc43..6f6e4e7 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -302,7 +302,7 @@ def _package_providers() -> list[type[PackageProvider]]:
             subclasses |= all_subclasses(subcls)
         return subclasses
 
-    return sorted(all_subclasses(PackageProvider), key=lambda p: p._resolve_order)
+    return sorted(all_subclasses(PackageProvider), key=lambda p: (p._resolve_order, p.__name__))
 
 
 def whichprovides(filepath: typing.Union[str, list[str]]) -> dict[str, ProvidedBy]:
-- 
2.43.0


From 27f0204f39d3c1977e3144ecf03f2f2fc1b899b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 32/33] fix: let commands that write into one directory not
 disturb each other

Two repairs creating the output directory at the same time made one fail, and
two writing a wheel of the same name shared one temporary file.
---
 src/auditwheel/main_repair.py | 8 ++++----
 src/auditwheel/tools.py       | 6 ++++++
 src/auditwheel/wheeltools.py  | 4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 27a8d88..4bc7418 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -13,7 +13,7 @@ from auditwheel.error import NonPlatformWheelError, WheelToolsError
 from auditwheel.libc import Libc
 from auditwheel.patcher import ElfPatcher
 from auditwheel.policy import WheelPolicies
-from auditwheel.tools import EnvironmentDefault
+from auditwheel.tools import EnvironmentDefault, partial_path
 from auditwheel.wheeltools import get_wheel_architecture, get_wheel_libc
 
 logger = logging.getLogger(__name__)
@@ -194,8 +194,8 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
 
         logger.info("Repairing %s", wheel_filename)
 
-        if not wheel_dir.exists():
-            wheel_dir.mkdir(parents=True)
+        # another command might create it at the same time
+        wheel_dir.mkdir(parents=True, exist_ok=True)
 
         try:
             wheel_abi = analyze_wheel_abi(
@@ -214,7 +214,7 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
                 dest_fname = wheel_dir / wheel_file.name
                 if not dest_fname.is_file() or not dest_fname.samefile(wheel_file):
                     # only a complete copy may get the name of the wheel
-                    partial = dest_fname.with_name(f"{dest_fname.name}.part")
+                    partial = partial_path(dest_fname)
                     try:
                         shutil.copy2(wheel_file, partial)
                         partial.replace(dest_fname)
diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index c99ec72..a6a218b 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -10,6 +10,7 @@ import zipfile
 from datetime import datetime, timezone
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, TypeVar
+from uuid import uuid4
 
 if TYPE_CHECKING:
     from collections.abc import Generator, Iterable
@@ -187,6 +188,11 @@ def dir2zip(
     )
 
 
+def partial_path(path: Path) -> Path:
+    """A path next to `path` that no other command writes to, to be renamed to it"""
+    return path.with_name(f".{uuid4().hex}.part")
+
+
 def tarbz2todir(tarbz2_fname: Path, out_dir: Path) -> None:
     """Extract `tarbz2_fname` into output directory `out_dir`"""
     subprocess.check_output(["tar", "xjf", tarbz2_fname, "-C", out_dir])
diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index bc3a128..b706050 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -24,7 +24,7 @@ from auditwheel.architecture import Architecture
 from auditwheel.error import NonPlatformWheelError, WheelToolsError
 from auditwheel.libc import Libc
 from auditwheel.tmpdirs import InTemporaryDirectory
-from auditwheel.tools import dir2zip, is_subdir, unique_by_index, walk, zip2dir
+from auditwheel.tools import dir2zip, is_subdir, partial_path, unique_by_index, walk, zip2dir
 
 if TYPE_CHECKING:
     from collections.abc import Generator, Iterable
@@ -146,7 +146,7 @@ class InWheel(InTemporaryDirectory):
                 if timestamp:
                     date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
                 # never leave a partial archive behind under the name of a wheel
-                partial = self.out_wheel.with_name(f"{self.out_wheel.name}.part")
+                partial = partial_path(self.out_wheel)
                 try:
                     dir2zip(self.name, partial, self.zip_compression_level, date_time)
                     partial.replace(self.out_wheel)
-- 
2.43.0


From caeaee651c205b01f5984f087261a9e1b35f53ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:52 +0000
Subject: [PATCH 33/33] fix: read the loader's configuration whatever its
 encoding

---
 src/auditwheel/lddtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index cc5ce50..2b37a0c 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -296,7 +296,7 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
     dbg_pfx = "" if _first else "  "
     try:
         log.debug("%sparse_ld_so_conf(%s)", dbg_pfx, ldso_conf)
-        with open(ldso_conf) as f:
+        with open(ldso_conf, errors="surrogateescape") as f:
             for input_line in f:
                 line = input_line.split("#", 1)[0].strip()
                 if not line:
@@ -381,7 +381,7 @@ def load_ld_paths(
         else:
             ldpaths["conf"] = []
             # the loader accepts both as separators
-            for ldpath in re.split("[:\n]", ld_musl[0].read_text()):
+            for ldpath in re.split("[:\n]", ld_musl[0].read_text(errors="surrogateescape")):
                 ldpath_stripped = ldpath.strip()
                 if ldpath_stripped == "":
                     continue
-- 
2.43.0

