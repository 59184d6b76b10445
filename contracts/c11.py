"""C11: unit outward normals of boundary facets, for any mesh and any classification of the boundary."""
from contracts.lib import *
from contracts.meshlib import Factory

BM = "conmech.mesh.boundaries"
BF = "conmech.mesh.boundaries_factory"
FUNCTIONS = ["get_boundary_surfaces_normals / get_unoriented_normals_2d / _3d / normalize_euclidean_numba / nph.elementwise_dot",
             "Boundaries.__init__ / boundary_surfaces / contact_normals / contact_boundary / neumann_boundary / dirichlet_boundary",
             "BoundariesFactory.identify_boundaries_and_reorder_nodes (the facets and internal nodes it hands over), apply_predicate_to_surfaces"]
ASSUMPTIONS = ["precondition: elements are not degenerate (the volume of the element of each facet is not zero); real arithmetic",
               "contract of np.unique(axis=1): the columns of a matrix whose first row ascends are left alone",
               "precondition of Boundaries: at least one facet, and facets list their nodes in ascending order (C10)"]


def det_of(X, d):
    return det([[lift(X[i + 1][k]) - lift(X[0][k]) for k in range(d)] for i in range(d)])


def facet_arrays(name, count, d, n, opp=None):
    """an arbitrary array of facets with ascending node numbers; opp: name of the function giving the opposite node"""
    a = A.symbolic(name, (count, d), "i")

    def ff(f, i):
        x = [app(name, (f, lift(j)), True) for j in range(d)]
        return [x[0] >= 0, x[-1] < n] + [x[j] < x[j + 1] for j in range(d - 1)]
    solve.FUN_FACTS[name] = ff
    return a


def node(j, d):
    return [app("nodes", (lift(j), lift(k))) for k in range(d)]


def facet_nodes(name, f, d):
    return [node(app(name, (lift(f), lift(i)), True), d) for i in range(d)]


def check_normal(s, label, nrm, X, inner, d, facts, fn):
    """nrm: components; X: the facet's nodes; inner: the opposite node"""
    dd = det_of([X[0]] + X[1:] + [inner], d)
    # the raw normal of the facet
    if d == 2:
        e = [X[1][k] - X[0][k] for k in range(2)]
        raw = [e[1], -e[0]]
    else:
        a, b = [[X[q][k] - X[0][k] for k in range(3)] for q in (1, 2)]
        raw = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    q = ZERO
    for x in raw:
        q = q + x * x
    w = [inner[k] - X[0][k] for k in range(d)]
    dot = ZERO
    for k in range(d):
        dot = dot + raw[k] * w[k]
    f = facts.extend(q > 0, ~(dot == 0))     # from dd != 0, by the lemmas
    s.zero(f"{label}: ghost: the volume is the raw normal times the inner direction", dot * dot - dd * dd, facts, fn)
    one = ZERO
    for x in nrm:
        one = one + lift(x) * x
    s.eq(f"{label}: unit length", one, ONE, f, fn)
    for i in range(1, d):
        p = ZERO
        for k in range(d):
            p = p + lift(nrm[k]) * (X[i][k] - X[0][k])
        s.zero(f"{label}: perpendicular to edge {i}", p, f, fn)
    out = ZERO
    for k in range(d):
        out = out + lift(nrm[k]) * w[k]
    # the component along the inner direction is -|raw . w| / |raw|: negative
    s.eq(f"{label}: distance of the opposite node", out, -tm.tabs(dot) * tm.inv(tm.sqrt(q)), f, fn)


def lemmas(s, d):
    """about any raw normal r and inner direction w with r.w != 0 (the volume): |r| > 0, and -|r.w| / |r| is negative"""
    r, w = [var(f"r{k}") for k in range(d)], [var(f"w{k}") for k in range(d)]
    dot = q = ZERO
    for k in range(d):
        dot, q = dot + r[k] * w[k], q + r[k] * r[k]
    zero = ctx().facts.extend(*[x == 0 for x in r])
    s.zero("a zero raw normal has no volume", solve.simp(dot, zero), zero)
    Q, D = var("Q"), var("D")
    f = ctx().facts.extend(Q > 0, ~(D == 0))
    s.true("the opposite node lies on the negative side", -tm.tabs(D) * tm.inv(tm.sqrt(Q)) < 0, f)
    for k in range(d):
        s.true(f"a raw normal of length zero is zero[{k}]", r[k] == 0, ctx().facts.extend(q <= 0))
    s.nonvacuous()


def normals(s, d):
    n, m = ivar("n"), ivar("m")
    ctx().assume(n >= d + 1, m >= 1)
    nodes = A.symbolic("nodes", (n, d))
    surf = facet_arrays("surf", m, d, n)
    inner = A.symbolic("inner", (m,), "i")
    solve.FUN_FACTS["inner"] = lambda f: [app("inner", (f,), True) >= 0, app("inner", (f,), True) < n]
    fn = s.get(BM, "get_boundary_surfaces_normals")
    before = [frozen(x) for x in (nodes, surf, inner)]
    out = fn(nodes, surf, inner)
    s.record("one normal per facet", "proved" if A.dims_equal(out.shape[0], m) and out.shape[1] == d and out.ndim == 2 else "refuted", "dimensions")
    a = tm.fresh("a", True)
    f = ctx().facts.extend(a >= 0, a < m)
    X = facet_nodes("surf", a, d)
    w = node(app("inner", (a,), True), d)
    check_normal(s, "normal", [out.get((a, k)) for k in range(d)], X, w, d, f, "get_boundary_surfaces_normals")
    for x, b, nm in zip((nodes, surf, inner), before, ("nodes", "facets", "internal nodes")):
        s.unchanged(f"{nm} unchanged", b, x)
    s.nonvacuous()


def classes(s, d):
    """Boundaries built from three lists of facets: rows of the normals follow the rows of boundary_surfaces"""
    n = ivar("n")
    m = dict(contact=ivar("c_count"), neumann=ivar("n_count"), dirichlet=ivar("d_count"))
    ctx().assume(n >= d + 1, *[x >= 0 for x in m.values()])
    total = m["contact"] + m["neumann"] + m["dirichlet"]
    ctx().assume(total >= 1)
    nodes = A.symbolic("nodes", (n, d))
    arr = {k: facet_arrays(k + "_f", v, d, n) for k, v in m.items()}
    Boundary = s.get("conmech.mesh.boundary", "Boundary")
    counts = {k: ivar(k + "_nodes") for k in m}
    bs = {k: Boundary(surfaces=v, node_indices=slice(0, counts[k]), node_count=counts[k]) for k, v in arr.items()}
    # the facet in row i of the boundary, and the internal node that belongs to it
    starts = dict(contact=ZERO, neumann=m["contact"], dirichlet=m["contact"] + m["neumann"])

    def paired(ix):
        i = lift(ix[0])
        r = ZERO
        for k in m:
            c = as01(i >= starts[k]) * as01(i < starts[k] + m[k])
            r = r + c * app("opp_" + k, (i - starts[k],), True)
        return r
    for k in m:
        solve.FUN_FACTS["opp_" + k] = lambda f, k=k: [app("opp_" + k, (f,), True) >= 0, app("opp_" + k, (f,), True) < n]
    inner = A.make((total,), paired, "i")
    other = Boundary(surfaces=facet_arrays("other_f", ivar("o_count"), d, n), node_indices=A.symbolic("other_i", (ivar("oi"),), "i"), node_count=ivar("oi"))
    mod = s.load(BM)
    real = s.get(BM, "get_boundary_surfaces_normals")
    s.get(BM, "Boundaries")
    for order in (("contact", "neumann", "dirichlet", "other"), ("other", "dirichlet", "neumann", "contact")):
        lab = "" if order[0] == "contact" else " (keywords reversed)"
        kw = {k: bs[k] if k in bs else other for k in order}
        calls = []

        def contract(*args, **kws):
            names = ("nodes", "boundary_surfaces", "boundary_internal_indices")
            got = dict(zip(names, args), **kws)
            calls.append(got)
            return A.symbolic("normals", (got["boundary_surfaces"].shape[0], d))
        try:
            mod.get_boundary_surfaces_normals = contract
            b = mod.Boundaries(nodes, inner, **kw)
        finally:
            mod.get_boundary_surfaces_normals = real
        whole = len(calls) != 1 or set(calls[0]) != {"nodes", "boundary_surfaces", "boundary_internal_indices"}
        if whole:       # the normals are put together in another way: follow the code down to the coordinates
            b = mod.Boundaries(nodes, inner, **kw)
        out = b.surface_normals
        bsf = b.boundary_surfaces
        s.record("one normal per boundary facet" + lab, "proved" if A.dims_equal(out.shape[0], total) and A.dims_equal(bsf.shape[0], total) else "refuted", "dimensions")
        cn = b.contact_normals
        s.record("one contact normal per contact facet" + lab, "proved" if A.dims_equal(cn.shape[0], m["contact"]) else "unknown", "dimensions", f"{cn.shape[0]!r}"[:200])
        a = tm.fresh("a", True)
        f = ctx().facts.extend(a >= 0, a < m["contact"])
        for i in range(d):
            s.eq(f"contact facets come first[{i}]{lab}", bsf.get((a, i)), app("contact_f", (a, lift(i)), True), f)
            s.eq(f"contact_boundary[{i}]{lab}", b.contact_boundary.get((a, i)), app("contact_f", (a, lift(i)), True), f)
            s.eq(f"contact normals are those of the contact facets[{i}]{lab}", cn.get((a, i)), out.get((a, i)), f)
        for k in m:
            f = ctx().facts.extend(a >= 0, a < m[k])
            X = facet_nodes(k + "_f", a, d)
            w = node(app("opp_" + k, (a,), True), d)
            row = starts[k] + a
            for i in range(d):
                s.eq(f"{k} facets in their place[{i}]{lab}", bsf.get((row, i)), app(k + "_f", (a, lift(i)), True), f)
            old = ctx().facts
            ctx().facts = f
            if whole:
                check_normal(s, f"{k}{lab}", [solve.simp(lift(out.get((row, j))), f) for j in range(d)], X, w, d, f, "Boundaries.__init__")
            else:
                g = calls[0]
                for i in range(d):
                    s.eq(f"{k}: the normal in a row is that of the facet in the row[{i}]{lab}", out.get((row, i)), app("normals", (row, lift(i))), f)
                    s.eq(f"{k}: computed for this facet[{i}]{lab}", g["boundary_surfaces"].get((row, i)), app(k + "_f", (a, lift(i)), True), f)
                s.eq(f"{k}: computed with the internal node of this facet{lab}", g["boundary_internal_indices"].get((row,)), app("opp_" + k, (a,), True), f)
            ctx().facts = old
        if not whole:
            s.unchanged("normals computed from the nodes" + lab, frozen(nodes), calls[0]["nodes"])
    s.nonvacuous()


def pairing(s, d):
    """what the factory hands to Boundaries meets its precondition"""
    def run():
        w = Factory(s, d)
        out = w.run()
        return w, out
    paths = explore(run)
    s.no_exception("identify_boundaries_and_reorder_nodes", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        w, (nodes, el, b) = p.value
        a = tm.fresh("a", True)
        kw = b.kw
        arr = [kw[k].surfaces for k in ("contact", "neumann", "dirichlet")]
        start = ZERO
        # each facet a class lists is some facet of the boundary: the row it was taken from tells its internal node
        for k, x in zip(("contact", "neumann", "dirichlet"), arr):
            f = ctx().facts.extend(a >= 0, a < x.shape[0])
            # facets of the boundary are distinct (C10): the row is determined
            row = row_of(lift(x.get((a, 0))))
            if row is None:
                raise Unsupported("the facets of a class are not rows of the boundary's facets")
            f = f.extend(row >= 0)
            for i in range(d):
                s.eq(f"{k} facets are facets of the boundary[{i}]", x.get((a, i)), app("bs", (row, lift(i)), True), f)
            s.eq("each facet is paired with the internal node of its element", b.internal.get((start + a,)), app("inner", (row,), True), f, "identify_boundaries_and_reorder_nodes")
            start = start + x.shape[0]
        s.unchanged("normals are computed from the final nodes", lambda ix: w.nodes.get(ix), b.nodes)
    s.nonvacuous()


def row_of(t):
    """t = bs(row, .): the row"""
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            at = tm.atom(mono[0][0])
            if at.kind == "app" and at.args[0] == "bs":
                return lift(at.args[3])
    return None


def sections(tier):
    return both_dims(lemmas, "lemmas") + both_dims(normals, "normals") + both_dims(classes, "boundaries") + both_dims(pairing, "pairing")
