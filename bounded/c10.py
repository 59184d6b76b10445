"""Random meshes (holes, dents, touching elements, any numbering and vertex order) with random, overlapping, empty and full indicators
and named boundaries: renumbering, classification, ranges and facets against an independent incidence count."""
from bounded.lib import *
from conmech.mesh.boundaries_factory import BoundariesFactory, get_boundary_surfaces


def key(x):
    return tuple(float(v) for v in x)


def indicator(rng, pts, i):
    k = i % 6
    if k == 0:
        return lambda x: True
    if k == 1:
        return lambda x: False
    if k == 2:
        c = pts[int(rng.integers(0, len(pts)))]
        r = rng.uniform(0.05, 1.5)
        return lambda x: bool(np.linalg.norm(np.asarray(x) - c) <= r)
    if k == 3:
        return half_space(rng, pts)
    if k == 4:          # any subset of the nodes; centroids by parity of a hash
        chosen = {key(p) for p in pts if rng.random() < 0.5}
        w = rng.normal(size=pts.shape[1])
        return lambda x: (key(x) in chosen) if key(x) in {key(p) for p in pts} else bool(math.floor(7 * float(np.dot(w, x))) % 2)
    a, b = half_space(rng, pts), half_space(rng, pts)
    return lambda x: a(x) != b(x)


def check_mesh(nodes, el, boundaries, raw_nodes, raw_el, ind, cond, data, mesh=None):
    d, n = raw_nodes.shape[1], len(raw_nodes)
    need(nodes.shape == raw_nodes.shape, f"{nodes.shape} nodes instead of {raw_nodes.shape}", data)
    need(el.shape == raw_el.shape, f"{el.shape} elements instead of {raw_el.shape}", data)
    # a permutation that keeps every element
    need(Counter(key(x) for x in nodes) == Counter(key(x) for x in raw_nodes), "the set of nodes changed", data)
    need(el.min() >= 0 and el.max() < n, "node numbers out of range", data)
    geo = lambda N, E: Counter(frozenset(key(N[v]) for v in e) for e in E)
    need(geo(nodes, el) == geo(raw_nodes, raw_el), "the geometry of an element changed", data)
    # classification
    cnt, owner = facets(el)
    single = {f for f in cnt if cnt[f] == 1}
    bnd = {v for f in single for v in f}
    is_c, is_d = ind.get("contact", lambda x: False), ind.get("dirichlet", lambda x: False)

    def cls(j):
        if j not in bnd:
            return "I"
        return "D" if is_d(nodes[j]) else "C" if is_c(nodes[j]) else "N"
    got = "".join(cls(j) for j in range(n))
    want = "".join(sorted(got, key="CNID".index))
    need(got == want, f"the nodes come in the order {got}", data)
    nc, nn, ni, nd = (got.count(x) for x in "CNID")
    B = boundaries.boundaries
    need(B["contact"].node_count == nc, f"contact count {B['contact'].node_count} instead of {nc}", data)
    need(B["neumann"].node_count == nn, f"neumann count {B['neumann'].node_count} instead of {nn}", data)
    need(B["dirichlet"].node_count == nd, f"dirichlet count {B['dirichlet'].node_count} instead of {nd}", data)
    want_r = dict(contact=range(0, nc), neumann=range(nc, nc + nn), dirichlet=range(n - nd, n))
    for k, r in want_r.items():
        got_r = np.arange(n)[B[k].node_indices].tolist()
        need(got_r == list(r), f"{k} nodes {got_r} instead of {list(r)}", data)
    need(boundaries.contact_nodes_count == nc and boundaries.neumann_nodes_count == nn and boundaries.dirichlet_nodes_count == nd, "counts of Boundaries", data)
    need(boundaries.boundary_nodes_count == nc + nn + nd, "number of boundary nodes", data)
    need(sorted(int(x) for x in boundaries.boundary_indices) == sorted(bnd), "boundary_indices are not the nodes of boundary facets", data)
    # facets
    bs = [tuple(int(v) for v in f) for f in boundaries.boundary_surfaces]
    need(Counter(tuple(sorted(f)) for f in bs) == Counter(single), "boundary facets are not the facets of one element", data)
    cen = lambda f: np.mean(nodes[list(f)], axis=0)
    fc = lambda f: "D" if is_d(cen(f)) else "C" if is_c(cen(f)) else "N"
    for k, letter in (("contact", "C"), ("neumann", "N"), ("dirichlet", "D")):
        have = Counter(tuple(sorted(int(v) for v in f)) for f in B[k].surfaces)
        need(have == Counter(f for f in single if fc(f) == letter), f"{k} facets", data)
    need(boundaries.contact_boundary is B["contact"].surfaces or np.array_equal(boundaries.contact_boundary, B["contact"].surfaces), "contact_boundary", data)
    # conditions and named boundaries
    fx = cond.get("dirichlet", lambda x: np.zeros(len(x)))
    close(B["dirichlet"].node_condition, fx(nodes[n - nd:]), "values at dirichlet nodes", data=data)
    names = {k for k in ind if k not in ("contact", "dirichlet")}
    for k in names:
        fk = sorted(f for f in single if ind[k](cen(f)))
        ids = sorted({v for f in fk for v in f})
        if not ids:
            need(k not in B or B[k].node_count == 0, f"boundary {k} without facets", data)
            continue
        need(k in B, f"boundary {k} is missing", data)
        need(Counter(tuple(sorted(int(v) for v in f)) for f in B[k].surfaces) == Counter(fk), f"facets of {k}", data)
        need([int(v) for v in np.arange(n)[B[k].node_indices]] == ids and B[k].node_count == len(ids), f"nodes of {k}", data)
        close(B[k].node_condition, cond[k](nodes[ids]), f"values at the nodes of {k}", data=data)
    need(set(B) <= names | {"contact", "neumann", "dirichlet"}, f"boundaries {sorted(B)}", data)
    if mesh is not None:
        pos = np.arange(n)
        for nm, r in (("contact_indices", want_r["contact"]), ("neumann_indices", want_r["neumann"]), ("dirichlet_indices", want_r["dirichlet"]),
                      ("independent_indices", range(0, n - nd)), ("free_indices", range(nc, n - nd))):
            need(pos[getattr(mesh, nm)].tolist() == list(r), f"Mesh.{nm}", data)
        for nm, v in (("nodes_count", n), ("contact_nodes_count", nc), ("neumann_nodes_count", nn), ("dirichlet_nodes_count", nd),
                      ("boundary_nodes_count", nc + nn + nd), ("independent_nodes_count", n - nd), ("free_nodes_count", n - nd - nc), ("inner_nodes_count", ni),
                      ("boundary_surfaces_count", len(single)), ("dimension", d)):
            need(getattr(mesh, nm) == v, f"Mesh.{nm} is {getattr(mesh, nm)} instead of {v}", data)
        need(np.array_equal(mesh.initial_boundary_nodes, nodes[mesh.boundary_indices]), "Mesh.initial_boundary_nodes", data)
        for nm in ("contact_boundary", "neumann_boundary", "dirichlet_boundary", "boundary_surfaces", "boundary_internal_indices", "boundary_indices"):
            need(np.array_equal(getattr(mesh, nm), getattr(boundaries, nm)), f"Mesh.{nm}", data)
    return got


def setting(rng, i, d):
    pts, el = random_mesh(rng, d, lattice=bool(i % 7 == 3))
    if i % 9 == 4:          # one element
        el = el[:1]
        used = np.unique(el)
        pts, el = pts[used], np.searchsorted(used, el)
    if i % 9 == 7:          # flat, tiny, huge, or with a sliver
        pts, el = scaled_mesh(rng, d, i // 9)
    if i % 40 == 39:        # many nodes
        pts, el = random_mesh(rng, d, m=150)
    if i % 11 == 5:         # a coarse mesh scaled and moved far away
        pts = pts * 1e3 + 5e3
    kw, ind, cond = {}, {}, {}
    for q, nm in enumerate(("contact", "dirichlet")):
        if rng.random() < 0.9:
            ind[nm] = indicator(rng, pts, int(rng.integers(0, 6)) if i % 4 else 3)
    if rng.random() < 0.3:
        cond["dirichlet"] = lambda x: np.sum(np.asarray(x), axis=1) + 1.0 if len(x) else np.zeros(0)
    for q in range(int(rng.integers(0, 3))):
        nm = f"{rng.choice(['dirichlet', 'piezo_dirichlet', 'side'])}_{q}"
        ind[nm] = indicator(rng, pts, int(rng.integers(0, 6)))
        cond[nm] = lambda x, q=q: np.asarray(x)[:, 0] * (q + 2.0)
    for nm in ind:
        kw[nm] = (ind[nm], cond[nm]) if nm in cond else ind[nm]
    return pts, el, ind, cond, BoundariesDescription(**kw)


@case(160, 3000)
def factory(rng, i):
    d = 2 + i % 2
    pts, el, ind, cond, bd = setting(rng, i, d)
    data = dict(nodes=pts.tolist(), elements=el.tolist(), names=sorted(ind))
    if i % 2:
        nodes, elements, b = BoundariesFactory.identify_boundaries_and_reorder_nodes(pts.copy(), el.copy(), bd)
        return check_mesh(nodes, elements, b, pts, el, ind, cond, data)
    m = Mesh(Raw(pts, el), bd)
    return check_mesh(m.nodes, m.elements, m.boundaries, pts, el, ind, cond, data, m)


@case(120, 2000)
def facet_detection(rng, i):
    """the facets of one element, each with the remaining node of that element"""
    d = 2 + i % 2
    pts, el = random_mesh(rng, d)
    if i % 3 == 0:          # any combinatorial mesh: elements with arbitrary distinct vertices
        n = int(rng.integers(d + 1, 9))
        el = np.array([rng.choice(n, size=d + 1, replace=False) for _ in range(int(rng.integers(1, 8)))])
        el = np.array(list({tuple(sorted(e)): e for e in el.tolist()}.values()), dtype=np.int64)
    cnt, owner = facets(el)
    single = sorted(f for f in cnt if cnt[f] == 1)
    data = dict(elements=el.tolist())
    if not single:
        return "closed"
    work = el.copy()
    bs, inner, idx = get_boundary_surfaces(work)
    need(Counter(frozenset(e) for e in work.tolist()) == Counter(frozenset(e) for e in el.tolist()), "the elements changed", data)
    got = [tuple(int(v) for v in f) for f in bs]
    need(sorted(got) == single, "boundary facets", data)
    need(all(list(f) == sorted(f) for f in got), "facets list their nodes in ascending order", data)
    for f, v in zip(got, inner):
        need(owner[f][0][1] == int(v), f"facet {f} is paired with {int(v)} instead of {owner[f][0][1]}", data)
    need([int(v) for v in idx] == sorted({v for f in single for v in f}), "boundary node numbers", data)
    return f"{d}d {len(single)} of {len(cnt)}"


@case(5, 5)
def shipped(rng, i):
    from conmech.properties.mesh_description import CircleMeshDescription
    descr = [CubeMeshDescription(initial_position=None), BallMeshDescription(initial_position=None),
             CrossMeshDescription(initial_position=None, max_element_perimeter=0.5, scale=[2, 1]),
             CrossMeshDescription(initial_position=None, max_element_perimeter=0.34, scale=[1, 1]),
             CubeMeshDescription(initial_position=np.array([1.0, 2.0, 3.0]))][i]
    ind = dict(contact=lambda x: x[-1] <= 0.01, dirichlet=lambda x: x[0] <= 0.01)
    m = Mesh(descr, BoundariesDescription(**ind))
    raw = descr.build()
    raw_nodes = np.array(raw.nodes, dtype=float)
    if descr.initial_position is not None:
        raw_nodes = raw_nodes - raw_nodes.min(axis=0) + descr.initial_position
    return check_mesh(m.nodes, m.elements, m.boundaries, raw_nodes, np.array(raw.elements), ind, {}, dict(descr=type(descr).__name__), m)
