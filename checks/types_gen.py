#!/usr/bin/env python3
"""Enumerates families of types and writes a program with one row per type
(used by S05 and S09).  Usage: types_gen.py OUT.cc FAMILY BODY.inc

A type is a node (label, children); structs are named and may be recursive.
Computed here, independently of the code under test:
  color  equal colors <=> the types have the same structure (coinductively;
         names of structs do not matter, integers are told apart by width)
  flat   the structure written down without the ends of nested structs,
         variants and tuples (classifies one known finding)
"""
import itertools
import sys


class N:
    def __init__(self, label, cpp, kids=(), open_=False, name=None):
        self.label, self.cpp, self.kids, self.open_, self.name = label, cpp, list(kids), open_, name


def leaf(label, cpp):
    return lambda: N(label, cpp)


U8, U16, U32, U64 = leaf("i1", "std::uint8_t"), leaf("i2", "std::uint16_t"), leaf("i4", "std::uint32_t"), leaf("i8", "std::uint64_t")
I32, BOOL = leaf("i4", "std::int32_t"), leaf("i1", "bool")
F32, F64 = leaf("f4", "float"), leaf("f8", "double")
E8, E16 = leaf("e1", "E8"), leaf("e2", "E16")
STR, STR16, STR32 = leaf("str1", "data::string"), leaf("str2", "data::u16string"), leaf("str4", "data::u32string")
SEC, MS, SEC32 = (leaf("dur.s", "std::chrono::seconds"), leaf("dur.ms", "std::chrono::milliseconds"),
                  leaf("dur.s4", "std::chrono::duration<std::uint32_t>"))
TPS, TPM, TPST = (leaf("tp.s", "sys_s"), leaf("tp.ms", "sys_ms"), leaf("tp.steady", "steady_s"))
BS64, BS70 = leaf("bitset1", "cista::bitset<64>"), leaf("bitset2", "cista::bitset<70>")
BV = leaf("bitvec", "data::bitvec")
VOIDP = leaf("void*", "data::ptr<void>")


def un(label, fmt):
    return lambda k: N(label, fmt % k.cpp, [k])


def struct_of(kids):  # library pair: laid out like a struct
    return N("struct", "?", kids, True)


VEC, VEC8 = un("vec", "data::vector<%s >"), un("vec8", "cista::basic_vector<%s, data::ptr, false, std::uint64_t>")
UPTR, PTR, OPT = un("uptr", "data::unique_ptr<%s >"), un("ptr", "data::ptr<%s >"), un("opt", "cista::optional<%s >")
ARR2, ARR3 = un("arr2", "cista::array<%s, 2>"), un("arr3", "cista::array<%s, 3>")
HSET = un("hash", "data::hash_set<%s >")
FWS = un("fws", "cista::offset::fws_multimap<std::uint32_t, %s >")
FWS64 = un("fws8", "cista::fws_multimap<data::vector<%s >, data::vector<std::uint64_t>>")


def VV(k):  # an aggregate of two vectors
    return N("struct", "data::vecvec<std::uint32_t, %s >" % k.cpp, [VEC(k), VEC(U32())], True)



NV2, NV3 = un("nvec2", "data::nvec<std::uint32_t, %s, 2>"), un("nvec3", "data::nvec<std::uint32_t, %s, 3>")
MM = un("mm", "data::mutable_fws_multimap<std::uint32_t, %s >")
FM = un("matrix", "data::flat_matrix<%s >")
PV = un("paged", "paged_vv<%s >")
IVEC = un("vec", "data::indexed_vector<%s >")
# The dynamic hash sees the tag, the static one only the value type: strong
# types are put into shapes no plain type of the family has.
STRONG = un("strong", "cista::strong<%s, strong_tag>")


def strongs(u, mark, *wraps):
    for l in (U8, U16, U32, U64, F32, F64, E8, E16):
        for w in wraps:
            u.root(u.struct([mark(), mark(), w(STRONG(l()))]))
    for l in (U8, U16, U32, U64):
        u.root(u.struct([mark(), mark(), HMAP(STRONG(l()), F32())]))
        u.root(u.struct([mark(), mark(), HMAP(STR(), STRONG(l()))]))


def HMAP(k, v):
    return N("hash", "data::hash_map<%s, %s >" % (k.cpp, v.cpp), [struct_of([k, v])])


def VAR(*k):
    return N("var", "cista::variant<%s >" % ", ".join(x.cpp for x in k), k, True)


def TUP(*k):
    return N("tup", "cista::tuple<%s >" % ", ".join(x.cpp for x in k), k, True)


def PAIR(a, b):
    return N("struct", "cista::pair<%s, %s >" % (a.cpp, b.cpp), [a, b], True)


class Universe:
    def __init__(self):
        self.roots, self.structs = [], []

    def struct(self, kids, memo={}):
        n = N("struct", "NS::s%d" % len(self.structs), kids, True, "s%d" % len(self.structs))
        self.structs.append(n)
        return n

    def declare(self):  # recursive: members are filled in later
        return self.struct([])

    def root(self, n):
        self.roots.append(n)

    # ---- color by partition refinement
    def colors(self):
        nodes, seen = [], set()

        def walk(n):
            stack = [n]
            while stack:
                x = stack.pop()
                if id(x) not in seen:
                    seen.add(id(x))
                    nodes.append(x)
                    stack.extend(x.kids)
        for r in self.roots:
            walk(r)
        color = {id(n): n.label for n in nodes}
        k = -1
        while True:
            ids = {}
            new = {}
            for n in nodes:
                sig = (n.label, tuple(color[id(c)] for c in n.kids))
                new[id(n)] = ids.setdefault(sig, len(ids))
            color = new
            if len(ids) == k:
                return color
            k = len(ids)

    def flats(self):
        ids = {}
        res = []
        for r in self.roots:
            out, names = [], {}

            def walk(n):
                if n.name:
                    if n.name in names:
                        out.append("@%d" % names[n.name])
                        return
                    names[n.name] = len(names)
                out.append(n.label)
                for c in n.kids:
                    walk(c)
                if not n.open_ and len(n.kids) > 1:
                    out.append(")")
            walk(r)
            res.append(ids.setdefault(" ".join(out), len(ids)))
        return res


def definitions(u, ns, ser):
    out = ["namespace %s {" % ns]
    for s in u.structs:
        out.append("struct %s;" % s.name)
    done = set()

    def emit(s):  # by value dependencies first
        if s.name in done:
            return
        done.add(s.name)

        def deps(n):
            for c in n.kids:
                if c.name:
                    if n.label not in ("ptr",):
                        yield c
                elif n.label not in ("ptr",):
                    yield from deps(c)
        for d in deps(s):
            if d.label == "struct" and not getattr(s, "cyclic", False):
                emit(d)
        ms = " ".join("%s m%d_;" % (c.cpp.replace("NS::", ns + "::"), i) for i, c in enumerate(s.kids))
        out.append("struct %s { %s };" % (s.name, ms))
    for s in u.structs:
        emit(s)
    out.append("}")
    return out


def main():
    out_path, family, body = sys.argv[1:4]
    u = Universe()
    FAMILIES[family](u)
    # no duplicates (same C++ type for non-struct roots)
    seen, roots = set(), []
    for r in u.roots:
        if r.cpp not in seen:
            seen.add(r.cpp)
            roots.append(r)
    u.roots = roots
    color, flat = u.colors(), u.flats()
    o = ["// generated by types_gen.py %s" % family, '#include "types_common.h"', 'namespace gen {']
    o += definitions(u, "a", True) + definitions(u, "twin", True)

    def text(n, depth=0):
        if not n.name:
            return n.cpp if not n.kids or n.label == "struct" else n.label + "<" + ", ".join(text(c, depth) for c in n.kids) + ">"
        if depth > 2:
            return n.name
        return n.name + "{" + ", ".join(text(c, depth + 1) for c in n.kids) + "}"
    for i, r in enumerate(u.roots):
        o.append("using T%d = %s;" % (i, r.cpp.replace("NS::", "a::")))
        o.append("using W%d = %s;" % (i, r.cpp.replace("NS::", "twin::")))
    o.append("}")
    o.append("row const rows[] = {")
    for i, r in enumerate(u.roots):
        o.append('  {"%s", %d, %d, MAKE(gen::T%d, gen::W%d)},' % (text(r), color[id(r)], flat[i], i, i))
    o.append("};")
    o.append('#include "%s"' % body)
    with open(out_path, "w") as f:
        f.write("\n".join(o) + "\n")


def small():
    return [U8, U32, U64, F32, STR, lambda: VEC(U32()), lambda: PTR(U32())]


def fam_members(u):
    """all structs with 1 to 3 members"""
    s = small()
    for n in (1, 2, 3):
        for c in itertools.product(s, repeat=n):
            u.root(u.struct([x() for x in c]))
    u.root(u.struct([U32(), U32(), U32(), U32()]))
    u.root(u.struct([U32(), U32(), U32(), U32(), U32()]))
    u.root(u.struct([U8()] * 12))
    u.root(u.struct([U8()] * 13))


def fam_members2(u):
    """structs with 4 members over 4 types (subset of fam_members' types)"""
    for c in itertools.product([U8, U64, STR, lambda: PTR(U32())], repeat=4):
        u.root(u.struct([x() for x in c]))


LEAVES = [U8, U16, U32, U64, I32, BOOL, F32, F64, E8, E16, STR, STR16, STR32, SEC, MS, SEC32, TPS, TPM, TPST, BS64, BS70, BV, VOIDP]
UN = [VEC, VEC8, UPTR, PTR, OPT, ARR2, ARR3, HSET, FWS, VV, NV2, NV3, MM, FM, PV, IVEC]
UN_ANY = [VEC, VEC8, UPTR, PTR, OPT, ARR2, ARR3]


def fam_wrap(u):
    """every leaf, every container over every leaf"""
    for l in LEAVES:
        u.root(l())
        u.root(u.struct([l()]))
        for w in UN_ANY:
            u.root(w(l()))
    for l in (U8, U32, U64):
        for w in UN:
            u.root(w(l()))
        u.root(FWS64(l()))
    for w in (HSET, FWS, VV):
        u.root(w(STR()))
    strongs(u, F64, lambda k: k, VEC, OPT, ARR2, UPTR, PTR)
    for k in (U8, U32, U64, STR):
        for v in (U8, U32, U64, STR, lambda: VEC(U32())):
            u.root(HMAP(k(), v()))


def fam_nest(u):
    """two containers inside each other over every leaf"""
    ws = [VEC, UPTR, PTR, OPT, ARR2, ARR3, lambda k: u.struct([k]), lambda k: VAR(k), lambda k: TUP(k)]
    for a in ws:
        for b in ws:
            for l in (U8, U32, STR):
                u.root(a(b(l())))
    for a in (VEC, UPTR, OPT, lambda k: u.struct([k])):
        for b in (HSET, FWS, VV, NV2, MM, FM):
            u.root(a(b(U32())))
    for a in ws[:4]:
        for b in ws[:4]:
            for c in ws[:4]:
                u.root(a(b(c(U32()))))


def fam_nary(u):
    """variants, tuples, pairs and structs of up to 3 members, nested once"""
    ls = [U8, U32, F32]
    groups = []
    for n in (1, 2, 3):
        groups += [list(c) for c in itertools.product(ls, repeat=n)]
    for mk in (VAR, TUP, lambda *k: u.struct(k)):
        for g in groups:
            u.root(mk(*[x() for x in g]))
    for mk in (VAR, TUP, lambda *k: u.struct(k)):
        for g in groups:
            if len(g) > 1:
                u.root(u.struct([mk(*[x() for x in g])]))
            if len(g) == 2:
                u.root(u.struct([mk(*[x() for x in g]), F32()]))
    for g in itertools.product(ls, repeat=2):
        u.root(PAIR(*[x() for x in g]))
    mks = [VAR, TUP, lambda *k: u.struct(k), PAIR]
    for mk in mks:
        for g in itertools.product([U8, U32], repeat=2):
            inner = lambda: mk(*[x() for x in g])
            for l in (U8, U32):
                u.root(u.struct([inner(), l()]))
                u.root(u.struct([l(), inner()]))
                u.root(TUP(inner(), l()))
                u.root(TUP(l(), inner()))
            u.root(VEC(inner()))
            u.root(u.struct([inner()]))


def graph(u, spec):
    s = [u.declare() for _ in spec]
    for x in s:
        x.cyclic = True
    for x, members in zip(s, spec):
        x.kids = [k(s[t]) if t >= 0 else U32() for k, t in members]
    u.root(s[0])


def fam_rec(u):
    """one recursive struct with up to 3 members, two with one member each"""
    ms = [(k, 0) for k in (PTR, VEC, UPTR)] + [(None, -1)]
    for n in (1, 2):
        for c in itertools.product(ms, repeat=n):
            graph(u, [c])
    for k in (PTR, VEC, UPTR):
        for j in (PTR, VEC, UPTR):
            for b in (0, 1):
                graph(u, [[(k, 1)], [(j, b)]])
                graph(u, [[(k, 1), (k, 1)], [(j, b)]])
                graph(u, [[(k, 1)], [(j, b), (None, -1)]])


def fam_rec2(u):
    """two structs, one or two members each, by pointer or vector"""
    for c in itertools.product([(k, 0) for k in (PTR, VEC, UPTR)] + [(None, -1)], repeat=3):
        graph(u, [c])
    ms = [(PTR, 0), (PTR, 1), (VEC, 0), (VEC, 1), (None, -1)]
    for a in itertools.product(ms, repeat=2):
        if not any(t == 1 for _, t in a):
            continue
        for b in [(x,) for x in ms] + list(itertools.product([(PTR, 0), (PTR, 1), (None, -1)], repeat=2)):
            graph(u, [a, b])


def fam_rec3(u):
    """three structs with one or two pointers each to any of them"""
    one = [(t,) for t in range(3)]
    two = list(itertools.product(range(3), repeat=2))
    for a in [(1,), (1, 2), (2, 1), (1, 1), (0, 1), (1, 0)]:
        for b in one + two:
            for c in one + [(-1,), (0, 1), (1, 0), (2, 0)]:
                # every struct is reachable
                if 2 in a or 2 in b:
                    graph(u, [[(PTR, t) for t in m] for m in (a, b, c)])


def fam_image2(u):
    """whole images of nested types"""
    for g in itertools.product([U8, U32, F32], repeat=2):
        for mk in (VAR, TUP, lambda *k: u.struct(k), PAIR):
            u.root(u.struct([mk(*[x() for x in g]), U32()]))
            u.root(u.struct([U32(), mk(*[x() for x in g])]))
    for a in (VEC, UPTR, PTR, OPT, ARR2, ARR3):
        for b in (VEC, UPTR, PTR, OPT, ARR2, ARR3):
            u.root(u.struct([a(b(U32()))]))
    for k in (U8, U32, STR):
        for v in (U8, U32, STR):
            u.root(HMAP(k(), v()))
    for c in itertools.product([U8, U64, STR], repeat=3):
        u.root(u.struct([x() for x in c]))


def fam_image(u):
    """smaller mix for whole images"""
    u.root(u.struct([VAR(U8(), F32()), F32()]))
    u.root(u.struct([VAR(U8(), F32(), F32())]))
    strongs(u, F64, lambda k: k, VEC)
    for n in (1, 2):
        for c in itertools.product(small(), repeat=n):
            u.root(u.struct([x() for x in c]))
    for l in LEAVES:
        u.root(u.struct([l()]))
        u.root(u.struct([VEC(l()), U8()]))
    for w in UN:
        u.root(w(U32()))
        u.root(u.struct([U8(), w(U64())]))
    for g in ([U8, U32], [U32, U8], [U8, U32, U64], [U32, U32]):
        for mk in (VAR, TUP, PAIR if len(g) == 2 else VAR):
            u.root(mk(*[x() for x in g]))


FAMILIES = {k[4:]: v for k, v in list(globals().items()) if k.startswith("fam_")}

if __name__ == "__main__":
    main()
