"""A small ELF writer.

Produces complete, loadable ET_DYN objects (program headers, .dynamic, .dynsym,
.gnu.version_r, an x86 ISA property note, an identity section) for every machine
auditwheel knows, so that abstract ELF objects of the TLA+ specification can be
turned into real files that pyelftools, patchelf, strip and ld.so all accept.
"""
from __future__ import annotations

import struct

# arch -> (class, little, e_machine, e_flags)
MACHINES = {
    "x86_64": (64, True, 62, 0),
    "i686": (32, True, 3, 0),
    "aarch64": (64, True, 183, 0),
    "armv7l": (32, True, 40, 0x05000400),
    "armv7l_soft": (32, True, 40, 0x05000200),
    "armv7l_eabi4": (32, True, 40, 0x04000400),
    "armv7l_none": (32, True, 40, 0),
    "armv7l_nofloat": (32, True, 40, 0x05000000),
    "armv7l_both": (32, True, 40, 0x05000600),
    "aarch64_be": (64, False, 183, 0),
    "x86_64_be": (64, False, 62, 0),
    "ppc64le": (64, True, 21, 2),
    "ppc64": (64, False, 21, 2),
    "s390x": (64, False, 22, 0),
    "riscv64": (64, True, 243, 5),
    "loongarch64": (64, True, 258, 0x43),
    "mips64": (64, False, 8, 0),
    "x32": (32, True, 62, 0),
}

SHT = dict(NULL=0, PROGBITS=1, STRTAB=3, HASH=5, DYNAMIC=6, NOTE=7, DYNSYM=11,
           SYMTAB=2, VERSYM=0x6FFFFFFF, VERNEED=0x6FFFFFFE)


def elf_hash(name: bytes) -> int:
    h = 0
    for c in name:
        h = (h << 4) + c
        g = h & 0xF0000000
        if g:
            h ^= g >> 24
        h &= ~g & 0xFFFFFFFF
    return h


class StrTab:
    def __init__(self) -> None:
        self.data = bytearray(b"\0")
        self.idx: dict[bytes, int] = {b"": 0}

    def add(self, s: str) -> int:
        b = s.encode()
        if b not in self.idx:
            self.idx[b] = len(self.data)
            self.data += b + b"\0"
        return self.idx[b]


def build_elf(
    *,
    arch: str = "x86_64",
    ident: str = "",
    soname: str | None = None,
    needed=(),
    rpath: str | None = None,
    runpath: str | None = None,
    verneed=(),          # [(lib, [version, ...]), ...]
    symbols=(),          # [(name, defined: bool, bind, type)]
    interp: str | None = None,
    isa: int | None = None,   # GNU_PROPERTY_X86_ISA_1_NEEDED
    osabi: int = 0,
    dynamic: bool = True,
    pad: int = 0,             # bytes before the identity of the file
    symtab=(),                # names of the (static) symbol table; also adds .debug_str and .comment
) -> bytes:
    cls, little, machine, flags = MACHINES[arch]
    E = "<" if little else ">"
    is64 = cls == 64
    word = "Q" if is64 else "I"
    ehsize, phsize, shsize = (64, 56, 64) if is64 else (52, 32, 40)
    symsize = 24 if is64 else 16

    dynstr = StrTab()
    needed_off = [dynstr.add(n) for n in needed]
    soname_off = dynstr.add(soname) if soname is not None else None
    rpath_off = dynstr.add(rpath) if rpath is not None else None
    runpath_off = dynstr.add(runpath) if runpath is not None else None

    # symbols: null + user symbols + one undefined symbol per version
    syms = []  # (name, defined, bind, type, versym)
    for name, defined, bind, typ in symbols:
        syms.append((name, defined, bind, typ, 1))
    vidx = 2
    vern = []
    for lib, versions in verneed:
        aux = []
        for v in versions:
            aux.append((v, vidx))
            syms.append((f"vs_{vidx}", False, "GLOBAL", "FUNC", vidx))
            vidx += 1
        vern.append((lib, aux))
    for s in syms:
        dynstr.add(s[0])
    for lib, aux in vern:
        dynstr.add(lib)
        for v, _ in aux:
            dynstr.add(v)

    sections = []  # name, type, flags, data, link, info, align, entsize

    def sec(name, typ, fl, data, link=0, info=0, align=8, entsize=0):
        sections.append([name, typ, fl, data, link, info, align, entsize, 0])
        return len(sections)  # index (null section is 0)

    if interp is not None:
        sec(".interp", SHT["PROGBITS"], 2, interp.encode() + b"\0", align=1)
    if isa is not None:
        pad = 8 if is64 else 4
        prop = struct.pack(E + "III", 0xC0008002, 4, isa)
        prop += b"\0" * (-len(prop) % pad)
        note = struct.pack(E + "III", 4, len(prop), 5) + b"GNU\0" + prop
        sec(".note.gnu.property", SHT["NOTE"], 2, note, align=pad)
    dynsym_i = dynstr_i = None
    if dynamic:
        # filled once section order is known
        dynsym_i = sec(".dynsym", SHT["DYNSYM"], 2, b"", align=8, entsize=symsize, info=1)
        hash_i = sec(".hash", SHT["HASH"], 2, b"", link=dynsym_i, align=8, entsize=4)
        versym_i = verneed_i = None
        if vern:
            versym_i = sec(".gnu.version", SHT["VERSYM"], 2, b"", link=dynsym_i, align=2, entsize=2)
            verneed_i = sec(".gnu.version_r", SHT["VERNEED"], 2, b"", align=8, info=len(vern))
        dynstr_i = sec(".dynstr", SHT["STRTAB"], 2, bytes(dynstr.data), align=1)
        sections[dynsym_i - 1][4] = dynstr_i
        if vern:
            sections[verneed_i - 1][4] = dynstr_i
    # code/identity: a ret-sled so that symbols point at something
    text_i = sec(".text", SHT["PROGBITS"], 6, b"\xc3" * 64, align=16)
    if pad:
        sec(".vpad", SHT["PROGBITS"], 2, b"\0" * pad, align=1)
    sec(".vident", SHT["PROGBITS"], 2, b"VIDENT:" + ident.encode() + b"\0", align=1)
    if dynamic:
        dynamic_i = sec(".dynamic", SHT["DYNAMIC"], 3, b"", link=dynstr_i, align=8, entsize=16 if is64 else 8)

    nphdr = 1 + (1 if dynamic else 0) + (1 if interp is not None else 0) + 1
    # contents with fixed sizes
    if dynamic:
        def symrec(nameoff, value, size, info, shndx):
            if is64:
                return struct.pack(E + "IBBHQQ", nameoff, info, 0, shndx, value, size)
            return struct.pack(E + "IIIBBH", nameoff, value, size, info, 0, shndx)
        nsym = 1 + len(syms)
        sections[dynsym_i - 1][3] = b"\0" * (nsym * symsize)
        sections[hash_i - 1][3] = b"\0" * (4 * (2 + 1 + nsym))
        if vern:
            sections[versym_i - 1][3] = struct.pack(E + f"{nsym}H", 0, *[s[4] for s in syms])
            out = b""
            for i, (lib, aux) in enumerate(vern):
                nxt = 0 if i == len(vern) - 1 else 16 + 16 * len(aux)
                out += struct.pack(E + "HHIII", 1, len(aux), dynstr.add(lib), 16, nxt)
                for j, (v, idx) in enumerate(aux):
                    out += struct.pack(E + "IHHII", elf_hash(v.encode()), 0, idx, dynstr.add(v),
                                       0 if j == len(aux) - 1 else 16)
            sections[verneed_i - 1][3] = out
        ndyn = (len(needed_off) + (soname is not None) + (rpath is not None) + (runpath is not None)
                + 5 + (3 if vern else 0) + 1)
        sections[dynamic_i - 1][3] = b"\0" * (ndyn * (16 if is64 else 8))

    off = ehsize + phsize * nphdr
    for s in sections:
        off += -off % s[6]
        s[8] = off
        off += len(s[3])
    alloc_end = off

    if dynamic:
        addr = lambda i: sections[i - 1][8]
        text = addr(text_i)
        bindv = {"LOCAL": 0, "GLOBAL": 1, "WEAK": 2}
        typv = {"NOTYPE": 0, "OBJECT": 1, "FUNC": 2}
        data = symrec(0, 0, 0, 0, 0)
        for name, defined, bind, typ, _ in syms:
            data += symrec(dynstr.add(name), text if defined else 0, 1 if defined else 0,
                           (bindv[bind] << 4) | typv[typ], text_i if defined else 0)
        sections[dynsym_i - 1][3] = data
        chain = [0] * nsym
        for i in range(1, nsym - 1):
            chain[i] = i + 1
        sections[hash_i - 1][3] = struct.pack(E + f"{3 + nsym}I", 1, nsym, 1 if nsym > 1 else 0, *chain)
        dyn = []
        dyn += [(1, o) for o in needed_off]
        if soname_off is not None:
            dyn.append((14, soname_off))
        if rpath_off is not None:
            dyn.append((15, rpath_off))
        if runpath_off is not None:
            dyn.append((29, runpath_off))
        dyn += [(4, addr(hash_i)), (5, addr(dynstr_i)), (6, addr(dynsym_i)),
                (10, len(dynstr.data)), (11, symsize)]
        if vern:
            dyn += [(0x6FFFFFF0, addr(versym_i)), (0x6FFFFFFE, addr(verneed_i)), (0x6FFFFFFF, len(vern))]
        dyn.append((0, 0))
        assert len(dyn) == ndyn
        sections[dynamic_i - 1][3] = b"".join(struct.pack(E + word * 2, t, v) for t, v in dyn)

    end = alloc_end
    if symtab:
        strtab = StrTab()
        recs = b"\0" * symsize
        for i, n in enumerate(symtab):
            info = 0x02 if i == 0 else 0x12        # one local symbol, then global ones
            o, v = strtab.add(n), sections[text_i - 1][8]
            recs += struct.pack(E + "IBBHQQ", o, info, 0, text_i, v, 1) if is64 else struct.pack(E + "IIIBBH", o, v, 1, info, 0, text_i)
        for a in ((".comment", SHT["PROGBITS"], 0, b"made by " + ident.encode() + b"\0", 0, 0, 1, 0),
                  (".debug_str", SHT["PROGBITS"], 0, b"debug " + ident.encode() + b"\0", 0, 0, 1, 0),
                  (".symtab", SHT["SYMTAB"], 0, recs, len(sections) + 4, 2, 8, symsize),
                  (".strtab", SHT["STRTAB"], 0, bytes(strtab.data), 0, 0, 1, 0)):
            sec(*a)
            end += -end % a[6]
            sections[-1][8] = end
            end += len(a[3])
    shstr = StrTab()
    for s in sections:
        shstr.add(s[0])
    shstr.add(".shstrtab")
    shstr_off = end
    sections.append([".shstrtab", SHT["STRTAB"], 0, bytes(shstr.data), 0, 0, 1, 0, shstr_off])
    shoff = shstr_off + len(shstr.data)
    shoff += -shoff % 8

    out = bytearray()
    eident = b"\x7fELF" + bytes([2 if is64 else 1, 1 if little else 2, 1, osabi, 0]) + b"\0" * 7
    out += eident + struct.pack(E + "HHI" + word * 3 + "IHHHHHH", 3, machine, 1, 0, ehsize, shoff, flags,
                                ehsize, phsize, nphdr, shsize, len(sections) + 1, len(sections))

    def phdr(t, fl, o, size, align):
        if is64:
            return struct.pack(E + "IIQQQQQQ", t, fl, o, o, o, size, size, align)
        return struct.pack(E + "IIIIIIII", t, o, o, o, size, size, fl, align)

    if interp is not None:
        s = sections[0]
        out += phdr(3, 4, s[8], len(s[3]), 1)
    out += phdr(1, 7, 0, alloc_end, 0x1000)
    if dynamic:
        s = sections[dynamic_i - 1]
        out += phdr(2, 6, s[8], len(s[3]), 8)
    out += phdr(0x6474E551, 6, 0, 0, 16)  # GNU_STACK
    assert len(out) == ehsize + phsize * nphdr
    for s in sections:
        out += b"\0" * (s[8] - len(out))
        out += s[3]
    out += b"\0" * (shoff - len(out))
    out += b"\0" * shsize
    for name, typ, fl, data, link, info, align, ent, o in sections:
        a = o if fl & 2 else 0
        if is64:
            out += struct.pack(E + "IIQQQQIIQQ", shstr.add(name), typ, fl, a, o, len(data), link, info, align, ent)
        else:
            out += struct.pack(E + "IIIIIIIIII", shstr.add(name), typ, fl, a, o, len(data), link, info, align, ent)
    return bytes(out)
