"""Random C++ types for the fingerprint and reflection monitors.

A type is a graph of nodes (containers, scalars, structs; structs may be shared
or recursive). For P06 every base type is emitted together with copies under
other names (fingerprints must be equal) and copies with exactly one structural
edit (fingerprints must differ)."""
import copy, random

SCALARS = {  # name -> (class, size); integers of one size are one structure
    "std::uint8_t": ("i", 1), "std::uint16_t": ("i", 2), "std::uint32_t": ("i", 4), "std::uint64_t": ("i", 8),
    "std::int8_t": ("i", 1), "std::int16_t": ("i", 2), "std::int32_t": ("i", 4), "std::int64_t": ("i", 8),
    "bool": ("i", 1), "float": ("float", 4), "double": ("double", 8),
    "p06e::e8": ("e8", 1), "p06e::e32": ("e32", 4), "p06e::e64": ("e64", 8),
}
LEAVES = {
    "string": "cista::offset::string", "u16string": "cista::offset::u16string", "u32string": "cista::offset::u32string",
    "bitset70": "cista::bitset<70>", "bitset200": "cista::bitset<200>", "bitvec": "cista::offset::bitvec",
    "dur": "std::chrono::duration<std::int32_t>", "dur64": "std::chrono::duration<std::int64_t>",
    "strong": "cista::strong<std::uint32_t, p06e::tag>", "strong16": "cista::strong<std::uint16_t, p06e::tag>",
}
UNARY = ["vec", "vec64", "set", "opt", "uptr", "ptr", "arr", "vecvec", "mm"]


class N:
    def __init__(self, kind, kids=(), arg=None):
        self.kind, self.kids, self.arg = kind, list(kids), arg


def scalar(r, keys=None):
    return N("s", arg=r.choice(keys or list(SCALARS)))


def key(r):
    x = r.random()
    if x < 0.3:
        return N("leaf", arg="string")
    return scalar(r, [k for k in SCALARS if SCALARS[k][0] == "i"])


def gen(r, depth, structs):
    """structs: the structs open or finished so far"""
    x = r.random()
    if depth <= 0 or x < 0.22:
        return scalar(r) if r.random() < 0.6 else N("leaf", arg=r.choice(list(LEAVES)))
    if x < 0.52 or not structs:
        return gen_struct(r, depth, structs)
    if x < 0.62 and structs:  # another mention of a struct, possibly an enclosing one
        return N(r.choice(["uptr", "ptr", "vec"]), [r.choice(structs)])
    if x < 0.82:
        k = r.choice(UNARY)
        if k == "set":
            return N("set", [key(r)])
        return N(k, [gen(r, depth - 1, structs)], r.randint(1, 5) if k == "arr" else None)
    if x < 0.88:
        return N("map", [key(r), gen(r, depth - 1, structs)])
    if x < 0.91:
        return N("pair", [gen(r, depth - 1, structs), gen(r, depth - 1, structs)])
    if x < 0.95:
        return N("tup", [gen(r, depth - 1, structs) for _ in range(r.randint(1, 3))])
    return N("var", distinct([gen(r, depth - 1, structs) for _ in range(r.randint(2, 4))]))


def distinct(kids):
    out, seen = [], set()
    for k in kids:
        c = canon(k)
        if c not in seen:
            seen.add(c)
            out.append(k)
    if len(out) < 2:
        for s in ("std::uint32_t", "double"):
            n = N("s", arg=s)
            if canon(n) not in seen:
                out.append(n)
    return out


def gen_struct(r, depth, structs):
    s = N("struct")
    structs.append(s)
    for _ in range(r.randint(1, 4)):
        s.kids.append(gen(r, depth - 1, structs))
    return s


def canon(n):
    ids = {}

    def go(n):
        if n.kind == "s":
            return "%s%d" % SCALARS[n.arg]
        if n.kind == "leaf":
            return n.arg
        if n.kind == "struct":
            if id(n) in ids:
                return "#%d" % ids[id(n)]
            ids[id(n)] = len(ids)
        return "%s%s(%s)" % (n.kind, n.arg or "", ",".join(go(k) for k in n.kids))
    return go(n)


def sites(root):
    """every (parent, index) below the root, each struct entered once; the root itself as (None, 0)"""
    out, seen = [], set()

    def go(n, path):
        if n.kind == "struct":
            if id(n) in seen:
                return
            seen.add(id(n))
        for i, k in enumerate(n.kids):
            out.append((n, i))
            go(k, path)
    go(root, ())
    return out


def count_types(root):
    seen = set()
    n = [0]

    def go(x):
        n[0] += 1
        if x.kind == "struct":
            if id(x) in seen:
                return
            seen.add(id(x))
        for k in x.kids:
            go(k)
    go(root)
    return n[0]


def edit(r, root):
    """-> (edited copy, description) or None"""
    for _ in range(60):
        c = copy.deepcopy(root)
        ss = sites(c)
        if not ss:
            return None
        p, i = r.choice(ss)
        n = p.kids[i]
        is_key = p.kind in ("set", "map") and i == 0
        what = None
        if n.kind == "s":
            pool = [k for k in SCALARS if SCALARS[k] != SCALARS[n.arg] and (not is_key or SCALARS[k][0] == "i")]
            m = r.choice(pool)
            what = "scalar %s -> %s" % (n.arg, m)
            p.kids[i] = N("s", arg=m)
        elif n.kind == "leaf":
            m = r.choice([k for k in LEAVES if k != n.arg]) if not is_key else None
            if m is None:
                p.kids[i] = scalar(r, ["std::uint32_t", "std::uint64_t"])
                what = "key string -> integer"
            else:
                p.kids[i] = N("leaf", arg=m)
                what = "%s -> %s" % (n.arg, m)
        elif n.kind == "struct" or n.kind in ("tup", "var"):
            how = r.randint(0, 2)
            label = {"struct": "member", "tup": "tuple element", "var": "alternative"}[n.kind]
            if how == 0 and len(n.kids) < 8:
                at = r.randint(0, len(n.kids))
                n.kids.insert(at, scalar(r) if r.random() < 0.7 else N("leaf", arg=r.choice(list(LEAVES))))
                what = label + " added"
            elif how == 1 and len(n.kids) > (2 if n.kind == "var" else 1):
                n.kids.pop(r.randrange(len(n.kids)))
                what = label + " removed"
            elif how == 2 and len(n.kids) >= 2:
                a, b = r.sample(range(len(n.kids)), 2)
                # (two structures side by side are one flat sequence: reordering scalars and containers only)
                if n.kids[a].kind in ("struct", "tup", "var") or n.kids[b].kind in ("struct", "tup", "var"):
                    continue
                n.kids[a], n.kids[b] = n.kids[b], n.kids[a]
                what = label + "s swapped"
            else:
                continue
            if n.kind == "var" and len({canon(k) for k in n.kids}) != len(n.kids):
                continue
        elif n.kind == "arr" and r.random() < 0.6:
            n.arg += r.choice([1, 2, 7])
            what = "array extent"
        elif n.kind in UNARY and n.kids[0].kind != "struct" and not (n.kind == "set"):
            to = r.choice([k for k in ("vec", "vec64", "opt", "uptr", "ptr", "arr", "vecvec", "mm") if k != n.kind])
            what = "%s -> %s" % (n.kind, to)
            p.kids[i] = N(to, n.kids, 3 if to == "arr" else None)
        elif n.kind in ("uptr", "ptr", "vec"):
            to = r.choice([k for k in ("uptr", "ptr", "vec") if k != n.kind])
            what = "%s -> %s (of a struct)" % (n.kind, to)
            p.kids[i] = N(to, n.kids)
        elif n.kind == "set":
            p.kids[i] = N("vec", n.kids)
            what = "set -> vec"
        elif n.kind == "map":
            p.kids[i] = N("vec", [N("pair", n.kids)]) if r.random() < 0.5 else N("set", [n.kids[0]])
            what = "map -> other"
        elif n.kind == "pair":
            if canon(n.kids[0]) != canon(n.kids[1]) and all(k.kind in ("s", "leaf") for k in n.kids):
                n.kids.reverse()
                what = "pair reversed"
            else:
                p.kids[i] = N("tup", n.kids)
                what = "pair -> tuple"
        if what is None or is_key and p.kids[i].kind not in ("s", "leaf"):
            continue
        if p.kind == "var" and len({canon(k) for k in p.kids}) != len(p.kids):
            continue
        if canon(c) != canon(root):
            return c, what
    return None


# ------------------------------------------------------------------ C++ text
PLAIN = ["a_type", "b_type", "record", "leaf_t", "inner", "outer", "part", "whole", "item", "entry", "cell", "row", "col", "grid", "x1", "x2"]
# these become one name once "struct", "const" and the anonymous namespace are dropped from it
HOSTILE = ["node", "constnode", "structnode", "nodestruct", "nodeconst", "noconstde", "nostructde", "conststructnode", "structconstnode",
           "nodestructconst", "nconstode", "nstructode", "nodconste", "nodstructe", "constnodeconst", "structnodestruct"]


class Emit:
    def __init__(self, names, members):
        self.names, self.members = names, members
        self.given, self.defs, self.done = {}, [], set()

    def name(self, s):
        if id(s) not in self.given:
            i = len(self.given)
            self.given[id(s)] = self.names[i % len(self.names)] + ("" if i < len(self.names) else "_%d" % i)
        return self.given[id(s)]

    def t(self, n):
        k = n.kind
        if k == "s":
            return n.arg
        if k == "leaf":
            return LEAVES[n.arg]
        if k == "struct":
            if id(n) not in self.done:
                self.done.add(id(n))
                nm = self.name(n)
                ms = [(self.t(c), "%s%d_" % (self.members, i)) for i, c in enumerate(n.kids)]
                self.defs.append("struct %s { %s };" % (nm, " ".join("%s %s;" % m for m in ms)))
            return self.name(n)
        a = [self.t(c) for c in n.kids]
        o = "cista::offset::"
        return {
            "vec": o + "vector<%s>", "vec64": "cista::basic_vector<%s, cista::offset::ptr, false, std::uint64_t>",
            "set": o + "hash_set<%s>", "opt": "cista::optional<%s>", "uptr": o + "unique_ptr<%s>", "ptr": o + "ptr<%s>",
            "arr": "cista::array<%%s, %s>" % n.arg, "vecvec": o + "vecvec<std::uint32_t, %s>",
            "mm": o + "mutable_fws_multimap<std::uint32_t, %s>",
            "map": o + "hash_map<%s>", "pair": "cista::pair<%s>", "tup": "cista::tuple<%s>", "var": "cista::variant<%s>",
        }[k] % ", ".join(a)


def emit(root, names, members):
    e = Emit(names, members)
    t = e.t(root)
    fwd = "".join("struct %s; " % e.given[k] for k in e.given)
    return fwd + "\n  " + "\n  ".join(e.defs) + "\n  using root = %s;" % t


def p06(seed, tier):
    """-> [(file name, text)]"""
    files, per = (8, 12) if tier == "quick" else (64, 14)
    out = []
    for f in range(files):
        r = random.Random("p06-%d-%s-%d" % (seed, tier, f))
        txt = ['#include "p06.h"', ""]
        rows = []
        for g in range(per):
            while True:
                root = gen_struct(r, r.randint(1, 4), [])
                if 2 <= count_types(root) <= 40 and len(canon(root)) < 700:
                    break
            names = PLAIN if r.random() < 0.5 else HOSTILE
            n2 = HOSTILE[:] if names is PLAIN else PLAIN[:]
            r.shuffle(n2)
            base = "f%dg%d" % (f, g)
            txt.append("namespace %s { namespace base {\n  %s\n}" % (base, emit(root, names, "m")))
            txt.append("namespace { namespace renamed {\n  %s\n} }" % emit(root, n2, "field_"))
            txt.append("namespace deep { namespace er {\n  %s\n} }" % emit(root, names[::-1], "const"))
            row = ['{"renamed", types_equal, fp<%s::renamed::root>(), ""}' % base,
                   '{"other_scope", types_equal, fp<%s::deep::er::root>(), ""}' % base]
            for k in range(6 if tier == "quick" else 8):
                e = edit(r, root)
                if e is None:
                    continue
                c, what = e
                txt.append("namespace edit%d {\n  %s\n}" % (k, emit(c, names, "m")))
                row.append('{"%s", types_differ, fp<%s::edit%d::root>(), "%s"}' % (what, base, k, canon(c)[:900]))
            txt.append("}")
            rows.append('{"%s", fp<%s::base::root>(), {%s}}' % (canon(root)[:900], base, ",\n   ".join(row)))
        txt.append("static vp::register_groups reg{{%s}};" % ",\n  ".join(rows))
        out.append(("p06_gen_%d.cc" % f, "\n".join(txt) + "\n"))
    return out


# ------------------------------------------------------------------ P24: structures that describe themselves
ANY = ["bool", "std::uint8_t", "std::int8_t", "std::uint16_t", "std::int32_t", "std::uint32_t", "std::int64_t", "std::uint64_t", "float", "double",
       "refl::e8", "refl::e32", "refl::e64", "refl::id_a", "refl::id_b", "refl::id_s", "refl::ostring", "refl::rstring", "std::string",
       "refl::ovec", "refl::ovecs", "std::vector<std::uint32_t>", "refl::millis", "refl::instant", "refl::pair_si"]
REFL_ONLY = ["refl::arr3", "refl::pair_is", "refl::oset", "refl::omap", "refl::opt", "refl::var", "refl::svar", "refl::stup", "refl::ctup",
             "cista::bitset<70>", "cista::bitset<3>", "cista::offset::bitvec", "refl::sarr", "refl::slist", "refl::cstr"]
NOT_PRINTABLE = {"refl::millis", "refl::instant", "refl::pair_si"}


def p24_struct(r, name, k, kind, parts):
    """kind: aggregate | listed | derived. -> (text, row)"""
    compare = r.choice(["", "CISTA_COMPARABLE()", "CISTA_FRIEND_COMPARABLE(%s)" % name])
    printable = r.random() < 0.5
    pool = [t for t in ANY if not (printable and t in NOT_PRINTABLE)]
    if not compare and not printable:
        pool = pool + REFL_ONLY
    nested = [p for p in parts if (not compare or p[1]) and (not printable or p[2])]
    ts = [r.choice(nested)[0] if nested and r.random() < 0.08 else r.choice(pool) for _ in range(k)]
    ms = ["m%d_" % i for i in range(k)]
    body, base, ctor = [], "", ""
    own = list(range(k))
    if kind == "derived":
        cut = r.randint(0, k)
        base = "struct %s_base { %s };\n" % (name, " ".join("%s %s{};" % (ts[i], ms[i]) for i in range(cut)))
        own = list(range(cut, k))
    order = list(range(k))
    if kind != "aggregate" and r.random() < 0.3:
        r.shuffle(order)  # what is listed is the order that counts
    tie = "std::tie(%s)" % ", ".join(ms[i] for i in order)
    if kind != "aggregate":
        body.append("%s() = default;" % name)
        body.append("auto cista_members() { return %s; }" % tie)
    body.append("auto vp_members() { return %s; }" % tie)
    names = []
    if printable:
        n = r.choice([k, k, k, r.randint(0, k)])
        names = ["%s" % r.choice(["m%d" % i, "name %d" % i, "x", "m=%d" % i]) for i in range(n)]
        if n:
            body.append("CISTA_PRINTABLE(%s, %s)" % (name, ", ".join('"%s"' % x for x in names)))
        else:
            printable = False
    if compare:
        body.append(compare)
    if printable:
        shown = ["vp::shown(%s)" % ms[i] for i in order]
        parts_ = []
        for i, s in enumerate(shown):
            parts_.append((('"%s=" + ' % names[i]) if i < len(names) else "") + s)
        body.append("std::string vp_text() const { return std::string{\"{\"} + %s + \"}\"; }" % (" + std::string{\", \"} + ".join(parts_) if parts_ else '""'))
    fields = " ".join("%s %s{};" % (ts[i], ms[i]) for i in own)
    text = "%sstruct %s%s {\n  %s\n  %s\n};" % (base, name, " : %s_base" % name if base else "", fields, "\n  ".join(body))
    idx = ""
    if kind != "derived" and k:
        idx = ", ".join("cista::member_index(&%s::%s)" % (name, ms[i]) for i in order)
    row = ("static vp::listing<%s> const l_%s{"
           "[](%s& t) { (void)t; return std::vector<vp::visited>{%s}; }, "
           "[]() { return std::vector<std::size_t>{%s}; }, {}, "
           "[](%s& t) -> std::string { (void)t; %s }, %s};" % (
               name, name, name, ", ".join("{&t.%s, sizeof(t.%s)}" % (ms[i], ms[i]) for i in order), idx, name,
               "std::ostringstream o; o << t; auto const want = t.vp_text(); VP_CHECK(o.str() == want, \"printed\", \"printed is %s, expected %s\", o.str().c_str(), want.c_str()); return want;"
               if printable else "return {};", "true" if kind == "aggregate" else "false"))
    return text, row, bool(compare), printable


def p24(seed, tier):
    files = 16 if tier == "quick" else 48
    out = []
    for f in range(files):
        r = random.Random("p24-%d-%s-%d" % (seed, tier, f))
        txt = ['#include "refl_test.h"', "namespace g%d {" % f]
        parts, runs = [], []
        plan = [(3, "aggregate"), (2, "listed"), (4, "aggregate")]
        plan += [(k, "aggregate") for k in range(65) if k % 16 == f % 16]
        plan += [(r.randint(0, 20), "listed"), (r.randint(0, 64), "listed"), (r.randint(0, 12), "derived"), (r.randint(0, 12), "derived"), (1, "aggregate"), (r.randint(1, 20), "aggregate")]
        for i, (k, kind) in enumerate(plan):
            name = "s%d" % i
            t, row, cmp_, prn = p24_struct(r, name, k, kind, parts if k < 30 else [])
            txt.append(t)
            txt.append(row)
            if k <= 5 and k:
                parts.append((name, cmp_, prn))
            runs.append("vp::refl_suite<%s>::run(r, l_%s);" % (name, name))
            if cmp_:
                runs.append("vp::compare_suite<%s>(r);" % name)
        txt.append("}")
        txt.append("VP_SUITE(generated_%d, 4) { using namespace g%d; switch (r.below(%d)) {\n  %s\n} }" % (
            f, f, len(runs), "\n  ".join("case %d: %s break;" % (i, x) for i, x in enumerate(runs))))
        out.append(("p24_gen_%d.cc" % f, "\n".join(txt) + "\n"))
    return out
