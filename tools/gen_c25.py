#!/usr/bin/env python3
"""Writes harness/C25_types.h: types with the classes psABI 3.2.3 gives their eightbytes
(computed here from the layout of their scalars)."""
SC = [("CH", "ST_CHAR", 1), ("SH", "ST_USHORT", 2), ("IN", "ST_INT", 4), ("LO", "ST_LONG", 8), ("FL", "ST_FLOAT", 4), ("DO", "ST_DOUBLE", 8), ("PT", None, 8), ("BO", "ST_BOOL", 1)]
out, names, table = [], {}, []
class T:
    pass
def emit(key, decl, size, align, leaves):
    t = T(); t.size, t.align, t.leaves = size, align, leaves
    t.ref = "t%d" % len(names)
    out.append(decl.replace("@", t.ref))
    names[key] = t
    if size > 16: cl = ["P_MEM"]
    else: cl = ["P_GP" if any(o // 8 == p and k not in ("FL", "DO") for o, k in leaves) else "P_SSE" for p in range((size + 7) // 8)]
    t.row = "{ &%s, %d, %d, { %s } }" % (t.ref, size, len(cl), ", ".join(cl))
    return t
def S(i):
    n, st, sz = SC[i]
    if n in names: return names[n]
    if st: d = "static struct type @ = { .type = TY_SIMPLE, .simple = %s };" % st
    else: d = "static struct type @ = { .type = TY_POINTER, .n = 1, .children = { &%s } };" % S(0).ref
    return emit(n, d, sz, sz, [(0, n)])
def A(e, n):
    k = ("A", e.ref, n)
    return names.get(k) or emit(k, "static struct type @ = { .type = TY_ARRAY, .array.length = %d, .n = 1, .children = { &%s } };" % (n, e.ref),
                                e.size * n, e.align, [(i * e.size + o, l) for i in range(n) for o, l in e.leaves])
def R(*m, union=0):
    k = ("U" if union else "R",) + tuple(x.ref for x in m)
    if k in names: return names[k]
    end, align, leaves, f = 0, 1, [], []
    for x in m:
        at = 0 if union else -(-end // x.align) * x.align
        f.append("{ .type = &%s, .bitfield = -1, .offset = %d }" % (x.ref, at))
        leaves += [(at + o, l) for o, l in x.leaves]
        end, align = max(end, at + x.size), max(align, x.align)
    size = -(-end // align) * align
    return emit(k, "static struct field @f[] = { %s };\nstatic struct struct_data @d = { .is_complete = 1, .is_union = %d, .packing = 0, .n = %d, .fields = @f, .alignment = %d, .size = %d };\nstatic struct type @ = { .type = TY_STRUCT, .struct_data = &@d };"
                % (", ".join(f), union, len(m), align, size), size, align, leaves)
def U(*m): return R(*m, union=1)
def group(x):
    X = S(x)
    g = [X, R(X)] + [R(A(X, k)) for k in (1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17)]
    for y in (0, 2, 3, 4, 5, 6):
        Y = S(y)
        g += [R(X, Y), U(X, A(Y, 1 + y)), R(A(X, 2), Y), R(Y, R(X, Y)), R(A(R(X, Y), 2)), R(Y, R(A(X, 2)))]
        g += [R(X, Y, S(z)) for z in (0, 2, 3, 4, 5, 6)]
    return g
I = {n: i for i, (n, _, _) in enumerate(SC)}
def picks():
    s = lambda n: S(I[n])
    return [s("IN"), s("DO"), s("FL"), s("PT"), R(s("LO"), s("DO")), R(s("DO"), s("IN")), R(s("DO"), s("DO")), R(s("LO"), s("PT")), R(s("LO"), s("LO"), s("CH")),
         R(s("IN"), s("IN"), s("IN")), R(A(s("CH"), 3)), R(s("FL"), s("FL"), s("FL")), R(s("DO"), s("DO"), s("DO")), s("CH"), R(A(s("CH"), 5)), R(s("FL"), R(s("FL"), s("SH")))]
def section(f, cond, make):
    out.clear(); names.clear()
    rows = make()
    f.write("%s\n%s\nstatic const struct row rows[] = {\n%s\n};\n" % (cond, "\n".join(out), ",\n".join(t.row for t in rows)))
with open(__file__.rsplit("/", 2)[0] + "/harness/C25_types.h", "w") as f:
    f.write("/* generated by tools/gen_c25.py */\n#ifndef CLASSIFY\n#define CLASSIFY -1\n#endif\n")
    section(f, "#if CLASSIFY == -1", picks)
    for x in range(8):
        section(f, "#elif CLASSIFY == %d" % x, lambda: group(x))
    f.write("#endif\n")
