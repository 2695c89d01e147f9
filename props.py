import os

REPO = os.environ.get("CISTA_REPO", "/repo")
# property id -> harness targets
PROPS = {}


def prop(pid, targets, **kw):
    PROPS[pid] = dict(targets=targets, **kw)


def T(name, src=None, **kw):
    return dict(name=name, src=[src or name + ".cc"], **kw)


WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "fopen fclose fread fwrite fseek fstat mmap munmap msync ftruncate fflush".split())]


def P(n, *more):
    return ["-DPART=%d" % n] + list(more)


prop("C01", [T("vec")],
     note="all operation histories (incl. aliasing arguments) vs a reference sequence, lifetime-tracked elements, ASan")
prop("C02", [T("str1", "str.cc", flags=P(1)), T("str2", "str.cc", flags=P(2))],
     note="all operation histories around the inline limit vs std::basic_string, ASan + per-history leak check")
prop("C03", [T("hmap1", "hmap.cc", flags=P(1)), T("hmap2", "hmap.cc", flags=P(2))],
     note="all operation histories under five hash distributions vs std::map; all erase subsets around growth limits")
prop("C04", [T("bitset", "bits.cc", flags=P(1))],
     note="all patterns/shift distances/operation histories vs a bit-by-bit reference")
prop("C05", [T("bitvec", "bits.cc", flags=P(2))],
     note="all operation histories incl. dirty tail bits vs a bit-by-bit reference")

prop("C06", [T("variant", "sums.cc", flags=P(1, "-DWIDE"))],
     note="all operation histories on two variants incl. throwing element operations vs a tagged-value model, exact lifetimes")
prop("C07", [T("optional", "sums.cc", flags=P(2))],
     note="all operation histories on two optionals incl. throwing element operations, exact lifetimes, heap-leak check")
prop("C08", [T("pointers", "sums.cc", flags=P(3))],
     note="all operation histories on two unique pointers (both flavours) and on graphs of relative pointers")

ROOTS = ["R_vec", "R_str", "R_cstr", "R_hash", "R_sum", "R_stdpair", "R_scalar", "R_bits", "R_multi", "R_paged", "R_rtree", "R_nest", "R_align",
         "R_members", "B_vec", "B_str", "B_map", "B_uptr"]
FL = ["offset", "raw"]
RFLAGS = {"R_cstr": ["-DNO_VERSION", "-DNO_STATIC_VERSION"], "R_stdpair": ["-DNO_VERSION"],
          "R_rtree": ["-DNO_VERSION", "-DNO_STATIC_VERSION", "-DNO_BE"]}


def ser(src, roots, flavours=FL, *extra, opt="-O0", ld=[]):
    return [T("%s_%s" % (r, f), src, cxx="clang", opt=opt, ld=ld, flags=["-DFLAVOUR=" + f, "-DROOT=" + r] + RFLAGS.get(r, []) + list(extra)) for r in roots for f in flavours]


prop("S01", ser("s01.cc", ROOTS) + [dict(t, name="matrix_" + t["name"]) for t in ser("s01.cc", ["R_small"], FL, "-DMATRIX")],
     note="every generated value shape of every supported type x mode combinations; value, bounds and image compared with an independent walker")

prop("S02", [T("s02_%d_%s" % (i, f), "s02.cc", cxx="clang", opt="-O1", flags=P(i, "-DFLAVOUR=" + f) + (["-DRAWONLY"] if f == "raw" else [])) for i in (1, 2, 3) for f in FL],
     note="every assignment of pointers to targets (graphs of up to 4-5 nodes), every pair of holder and target kinds; offset images moved to other addresses")

HASH = {"fnv": [], "xxh3": ["-DNO_STATIC_VERSION", "-DCISTA_XXH3", "-I" + REPO + "/tools/xxh3"], "wyhash": ["-DNO_STATIC_VERSION", "-DCISTA_WYHASH", "-I" + REPO + "/tools/wyhash"],
        "fastest": ["-DNO_STATIC_VERSION", "-DCISTA_WYHASH_FASTEST", "-I" + REPO + "/tools/wyhash"]}
prop("S03", [T("targets_" + h, "s03.cc", opt="-O1", ld=WRAP, flags=P(1, *HASH[h])) for h in HASH] +
     ser("s03.cc", ["R_vec", "R_str", "R_hash", "R_sum", "R_bits", "R_multi", "R_paged", "R_nest", "R_align", "R_align8", "R_align64", "B_map"], ["offset"], "-DPART=2", ld=WRAP) +
     ser("s03.cc", ["R_align8", "R_sum"], ["raw"], "-DPART=2", ld=WRAP),
     note="all sequences of writes, overwrites, checksums and resets on memory buffer, mapped buffer and file vs a byte array; images of every value shape compared byte for byte")

prop("S04", ser("s04.cc", ["R_vec", "R_hash", "R_sum", "R_scalar", "R_multi", "R_align", "R_align8", "R_align64"], ["offset"], opt="-O1", ld=WRAP) +
     ser("s04.cc", ["R_sum"], ["raw"], opt="-O1", ld=WRAP) +
     [dict(t, thorough_only=True) for t in ser("s04.cc", ["R_rtree"], opt="-O1", ld=WRAP) + ser("s04.cc", ["R_vec", "R_hash", "R_scalar", "R_multi"], ["raw"], opt="-O1", ld=WRAP)] +
     [dict(t, name=t["name"] + "_" + h) for h in HASH for t in ser("s04.cc", ["R_small"], ["offset"], "-DSMALL", "-DLARGE", *HASH[h], opt="-O1", ld=WRAP) +
      ser("s04.cc", ["B_str"], ["offset", "raw"], "-DSMALL", *HASH[h], opt="-O1", ld=WRAP)],
     note="every byte position x replacement values, byte pairs, truncations, extensions, block moves of the images of every root type; every hash configuration")

def types(body, fams, *flags, **kw):
    return [T(f, gen="types_gen.py", gen_args=[f, body], cxx="clang", opt="-O0", flags=list(flags), **kw) for f in fams]


prop("S05", types("s05.inc", ["image"], "-DIMAGES", "-DEXTRA") + types("s05.inc", ["image2"], "-DIMAGES"),
     note="every pair of the enumerated types: image of one read as the other with every versioning mode; every value of every byte of the marker; every target and byte order")

prop("S09", types("s09.inc", ["members", "wrap", "nest", "nary", "rec"], san=None) + types("s09.inc", ["members2", "rec2", "rec3"], "-DONLY_DYNAMIC", san=None) +
     [dict(t, name=t["name"] + "_static", thorough_only=True) for t in types("s09.inc", ["members2", "rec2", "rec3"], san=None)] +
     [dict(t, name=t["name"] + "_gcc", cxx="gcc", thorough_only=True) for t in types("s09.inc", ["members", "wrap", "nest", "nary", "rec"], san=None)],
     note="every pair of the types of eight enumerated families (all member lists, all container nestings, variants/tuples/pairs, recursive struct graphs) against a structural equivalence computed by partition refinement; renaming; a second process")

prop("S06", [T("g%d" % g, "s06.cc", cxx="clang", opt="-O1", flags=["-DFLAVOUR=offset", "-DGROUP=%d" % g]) for g in range(1, 10)],
     note="every byte x 255 values, every aligned window x boundary values and pointer targets, pairs of fields, byte and field pairs, byte pairs, truncations, extensions, shifts and misalignments of images of every container shape; complete traversal of what is accepted under ASan with explicit bounds checks")

prop("S07", [T("g%d_%s" % (g, f), "s07.cc", cxx="clang", opt="-O0", flags=["-DFLAVOUR=" + f, "-DGROUP=%d" % g]) for g in range(1, 7) for f in FL],
     note="every value shape of every container type, all operation sequences applied to the image resident and to an in-memory container, then copy/move/assign/destroy; ASan, leak check, neighbour members")

prop("S08", [T("swap", "s08.cc", flags=P(1))] +
     [dict(t, flags=t["flags"] + (["-DOFFSET_IMAGE"] if "offset" in t["name"] else [])) for t in ser("s08.cc", [r for r in ROOTS if r != "R_rtree"] , FL, "-DPART=2", "-DNO_FLOAT")] +
     ser("s08.cc", ["R_wide"], ["offset"], "-DPART=2", "-DWIDE", "-fbracket-depth=1024"),
     note="every value shape of every type: the big endian image equals the native one with exactly the integer fields (recorded by an independent walker) reversed; all values of 8, 16, 32 bits and all byte pairs of 64 bits for the conversion itself")

def refl(fams, cxx="clang", sfx="", **kw):
    return [T(f + sfx, gen="reflect_gen.py", gen_args=[f], cxx=cxx, opt="-O0", san=None, flags=["-ftemplate-depth=4096"], **kw) for f in fams]


prop("R01", refl(["wide0", "wide1", "wide2", "wide3", "types", "pairs", "lists", "print"]) + refl(["members", "compare"], "gcc") +
     refl(["mixed", "allpairs", "alllists"], thorough_only=True) + refl(["wide0", "wide1", "wide2", "wide3", "types", "pairs", "lists"], "gcc", "_gcc", thorough_only=True),
     note="every member count 0..64, every member type at every position and in pairs, lists of 3-4 members: addresses, types and order of the visited members against member pointers; all value pairs for comparison, all values and name counts for printing")

prop("C09", [T("fws")], note="all build sequences vs a list of lists; all access paths and iterator pairs")
prop("C10", [T("mmm")], note="all operation histories vs a list of lists, bucket layout overlap check after each step")
prop("C11", [T("vecvec")], note="all operation histories (incl. own buckets as arguments) vs a sequence of sequences")
prop("C12", [T("nvec")], note="all sequences of nested shapes (depth 2-4) vs nested sequences; all index tuples and iterators")
prop("C13", [T("paged")], note="all page histories (create/resize/free/copy, 3 pages) and paged vector-of-vector histories vs separate sequences; live and free pages tile the storage")
prop("C14", [T("matrix")], note="all dimensions up to 3x3 (4x4 thorough), all resize/reset/copy/move histories vs a table of rows")
prop("C15", [T("rtree1", "rtree.cc", flags=P(1)), T("rtree2", "rtree.cc", flags=P(2))],
     note="all insertion/deletion histories and drain orders around node splits, all grid queries, tree structure invariants vs a list")
prop("C17", [T("cstr%d" % i, "cstr.cc", flags=P(i)) for i in (1, 2, 3, 4)],
     note="all histories around the inline limit incl. owning/non-owning switches vs std::string, ASan + per-history leak check")
prop("C18", [T("tup%d" % i, "tup.cc", flags=P(i), opt="-O0") for i in range(1, 9)],
     note="tuples of all element type combinations up to arity 3 with all value pairs vs element-wise reference; strong types with all operand pairs")
prop("C16", [T("mmap%d" % i, "mmapvec.cc", flags=P(i), ld=WRAP) for i in (2, 3)],
     note="all histories of mmap, file, mmap_vec and containers on it incl. close, reopen and move; every mapping and FILE* accounted for")

prop("F01", [T("mmap1", "mmapvec.cc", flags=P(1), ld=WRAP), T("files", "io.cc", opt="-O1", flags=P(1), ld=WRAP)],
     note="all histories of mappings, files and files of values (write, read, map, modify, move, close, reopen) vs byte arrays; every mapping and FILE* accounted for")
prop("F02", [T("faults%d" % i, "io.cc", opt="-O1", flags=P(i), ld=WRAP) for i in (2, 3)],
     note="all histories of mapping, file, target and read/write operations with every system call failing or transferring fewer bytes (one per history, two thorough)")

prop("M01", [T("fail%d" % i, "m01.cc", opt="-O1", flags=P(i), ld=["-Wl,--wrap=malloc,--wrap=aligned_alloc"]) for i in (1, 2, 3, 4)],
     note="all operation histories with every allocation and every element copy failing once, on a container and a failure-free twin; lifetimes, heap-leak check")

def conc(part):
    return [T("%s_%s" % (c, std), "conc.cc", cxx=c, std="c++" + std, san=None, two_step=["-fsanitize=thread"], flags=P(part)) for c, std in (("clang", "17"), ("gcc", "17"), ("gcc", "20"))]


prop("A01", conc(1), note="all interleavings (instrumented real code under a controlled scheduler) of 2-3 threads with 1-2 calls each x boundary arguments, spurious failures; linearizability against all sequential orders")
prop("A02", conc(2), note="all interleavings of 2-3 threads setting/clearing bits and taking bits through a shared cursor")
prop("N01", [T("full", "n01.cc", san=None, opt="-O2", flags=["-DFULL"]), T("num", "n01.cc", san="address,undefined", opt="-O1"), T("num_clang", "n01.cc", cxx="clang", san="address,undefined", opt="-O1", thorough_only=True)],
     note="all 32 bit arguments (2^32), all 8/16 bit ones, structured 64 bit ones (few bits, runs, byte pairs); all chunk size x total pairs and around 2^32; all alignment x size pairs")
prop("H01", [T("h01_%d_%s" % (i, h), "h01.cc", opt="-O1", flags=P(i, *HASH[h])) for i in (1, 2) for h in HASH],
     note="every hashable/ordered type: all pairs of values in several representations (capacity, inline/heap, view, unused bits, table layout, address) in every hash configuration; all interchangeable string types; total order of the reference values")
