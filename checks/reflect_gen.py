#!/usr/bin/env python3
"""Writes aggregates with known members and one row per aggregate (R01).
usage: reflect_gen.py OUT.cc FAMILY"""
import itertools
import sys

TYPES = {
    "u8": "std::uint8_t", "i32": "std::int32_t", "u64": "std::uint64_t", "f": "float", "d": "double", "c": "char", "b": "bool",
    "s": "std::string", "ds": "data::string", "e": "color", "n2": "nested2", "n1": "nested1", "n0": "nested0", "a3": "arr3", "sa": "sarr",
    "p": "std::int32_t*", "op": "data::ptr<std::int32_t>", "up": "data::unique_ptr<std::int32_t>", "v": "data::vector<std::int32_t>",
    "o": "cista::optional<std::int32_t>", "pr": "prt", "tu": "tup2", "va": "var2", "cn": "cn2", "st": "strong32", "du": "std::chrono::seconds",
    "hm": "hmap", "pm": "pmem"}
SMALL = ["u8", "i32", "d", "s", "n2", "p", "a3"]


def lists(family):
    if family.startswith("wide"):  # every number of members
        k = int(family[4:])
        for n in range(k, 65, 4):
            yield ["i32"] * n
        for n in range(k + 4, 65, 12):
            yield [["u8", "u64", "i32", "s", "d", "n2", "p"][i % 7] for i in range(n)]
    elif family == "mixed":
        for n in range(1, 65):
            yield [["u8", "u64", "i32", "s", "d", "n2", "p"][i % 7] for i in range(n)]
    elif family == "types":  # every type at every position
        for t in TYPES:
            yield [t]
            yield [t, "i32"]
            yield ["u8", t, "i32"]
            yield [t, t]
            yield [t, t, t]
    elif family == "pairs":
        for a in TYPES:
            for b in ("u8", "d", "s", "n2", "a3", "up"):
                yield [a, b]
    elif family == "allpairs":
        for a, b in itertools.product(TYPES, repeat=2):
            yield [a, b]
    elif family == "lists":
        for n, ts in ((3, ["u8", "s", "n2", "p", "a3"]), (4, ["u8", "d", "n2"])):
            for c in itertools.product(ts, repeat=n):
                yield list(c)
    elif family == "alllists":
        for n in (3, 4):
            for c in itertools.product(SMALL if n == 3 else SMALL[:4], repeat=n):
                yield list(c)


def main():
    out, family = sys.argv[1:3]
    o = ['#include "reflect_common.h"', "namespace {"]
    rows = []
    if family not in ("members", "compare", "print"):
        seen = set()
        for k, l in enumerate(lists(family)):
            if tuple(l) in seen:
                continue
            seen.add(tuple(l))
            name = "t%d" % k
            o.append("struct %s { %s };" % (name, " ".join("%s m%d_;" % (TYPES[t], i) for i, t in enumerate(l))))
            ms = "".join(", &%s::m%d_" % (name, i) for i in range(len(l)))
            rows.append('{"%s", [] { reflect<%s>(std::tuple{%s}); }},' % (" ".join(l) or "none", name, ms[2:]))
    elif family == "members":  # explicitly listed members, any order, private, inherited
        for n in range(1, 5):
            for perm in itertools.permutations(range(n)):
                name = "m%s" % "".join(map(str, perm))
                ty = ["std::int32_t", "std::string", "std::uint8_t", "double"]
                o.append("struct %s { auto cista_members() { return std::tie(%s); } %s };" % (
                    name, ", ".join("m%d_" % i for i in perm), " ".join("%s m%d_;" % (ty[i], i) for i in range(n))))
                rows.append('{"%s", [] { listed<%s>(std::tuple{%s}); }},' % (name, name, ", ".join("&%s::m%d_" % (name, i) for i in perm)))
    elif family == "compare":
        ty = ["i32", "d", "s", "ds", "cn", "u8", "v"]
        for n in (1, 2, 3):
            for l in itertools.product(ty if n < 3 else ty[:4], repeat=n):
                name = "c_" + "_".join(l)
                for macro, suffix in (("CISTA_FRIEND_COMPARABLE(%s)", "f"), ("CISTA_COMPARABLE()", "m")):
                    if suffix == "m" and "cn" in l:
                        pass
                    nm = name + suffix
                    o.append("struct %s { %s %s };" % (nm, macro % nm if "%s" in macro else macro,
                                                       " ".join("%s m%d_;" % (TYPES[t], i) for i, t in enumerate(l))))
                    rows.append('{"%s", [] { compare<%s>(std::tuple{%s}); }},' % (nm, nm, ", ".join("&%s::m%d_" % (nm, i) for i in range(n))))
        for n in (4, 7, 16, 33, 64):
            nm = "w%d" % n
            o.append("struct %s { CISTA_FRIEND_COMPARABLE(%s) %s };" % (nm, nm, " ".join("std::int32_t m%d_;" % i for i in range(n))))
            rows.append('{"%s", [] { compare_wide<%s>(std::tuple{%s}); }},' % (nm, nm, ", ".join("&%s::m%d_" % (nm, i) for i in range(n))))
    elif family == "print":
        ty = ["i32", "d", "s", "e", "b", "pn", "c"]
        TYPES["pn"] = "pn2"
        for n in (1, 2, 3):
            for l in itertools.product(ty if n < 3 else ty[:5], repeat=n):
                for names in range(0, n + 1):
                    nm = "p_" + "_".join(l) + str(names)
                    o.append("struct %s { CISTA_PRINTABLE(%s%s) %s };" % (
                        nm, nm, "".join(', "n%d"' % i for i in range(names)), " ".join("%s m%d_;" % (TYPES[t], i) for i, t in enumerate(l))))
                    rows.append('{"%s", [] { print<%s>(%d, std::tuple{%s}); }},' % (nm, nm, names, ", ".join("&%s::m%d_" % (nm, i) for i in range(n))))
        for n in (4, 12, 31, 64):
            nm = "q%d" % n
            o.append("struct %s { CISTA_PRINTABLE(%s) %s };" % (nm, nm, " ".join("std::int32_t m%d_;" % i for i in range(n))))
            rows.append('{"%s", [] { print<%s>(0, std::tuple{%s}); }},' % (nm, nm, ", ".join("&%s::m%d_" % (nm, i) for i in range(n))))
    o.append("struct { char const* name_; void (*fn_)(); } const rows[] = {")
    o += rows
    o += ["};", "}", 'MC_SCENARIO("%s", 0, 0) { auto const& r = rows[mc::choose(static_cast<int>(sizeof(rows) / sizeof(rows[0])))]; '
          'mc::logf("members: %%s", r.name_); mc::op("reflect"); r.fn_(); mc::step(); }' % family]
    open(out, "w").write("\n".join(o) + "\n")


main()
