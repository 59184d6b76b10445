"""Random facets and opposite nodes in the plane and in space at several scales, boundaries of one, two and three classes, and whole
meshes: every normal against unit length, perpendicularity and the side of the element the facet belongs to."""
from bounded.lib import *
from conmech.mesh.boundaries import Boundaries, get_boundary_surfaces_normals
from conmech.mesh.boundary import Boundary


def check_facet(label, nrm, x, inner, data, tol=1e-7):
    """x: the facet's nodes, inner: the opposite node"""
    need(np.all(np.isfinite(nrm)), f"{label}: normal {nrm}", data)
    close(np.linalg.norm(nrm), 1.0, f"{label}: length of the normal", tol, data=data)
    for k in range(1, len(x)):
        e = x[k] - x[0]
        need(abs(nrm @ e) <= tol * np.linalg.norm(e), f"{label}: normal {nrm} is not perpendicular to the edge {e}", data)
    w = inner - x[0]
    need(nrm @ w < 0, f"{label}: normal {nrm} points into the element (opposite node at {w})", data)


def simplex(rng, d, scale=1.0, shift=0.0):
    while True:
        x = rng.uniform(-1, 1, size=(d + 1, d))
        if abs(np.linalg.det(x[1:] - x[0])) > 0.02:
            return x * scale + shift


def soup(rng, d, m, i):
    """m separate elements; facets with ascending numbers and the opposite node of each"""
    scale = [1.0, 1e-3, 1e3, 1.0, 1e-6, 1e6][i % 6]
    nodes, surf, inner = [], [], []
    for _ in range(m):
        x = simplex(rng, d, scale, rng.uniform(-3, 3, size=d) * scale)
        k0 = len(nodes)
        nodes += list(x)
        k = int(rng.integers(0, d + 1))
        surf.append([k0 + q for q in range(d + 1) if q != k])
        inner.append(k0 + k)
    if i % 3 == 0:      # faces along the axes
        nodes = np.round(np.array(nodes) / scale) * scale
        keep = [q for q in range(m) if abs(np.linalg.det(nodes[surf[q]] / scale - nodes[inner[q]] / scale)) > 1e-6]
        surf, inner = [surf[q] for q in keep], [inner[q] for q in keep]
    if i % 5 == 4:      # flat elements
        nodes = np.array(nodes) * np.where(np.arange(d) == int(rng.integers(d)), 1e-3, 1.0)
    return np.array(nodes), np.array(surf, dtype=np.int64).reshape(-1, d), np.array(inner, dtype=np.int64)


@case(120, 2000)
def facet(rng, i):
    d = 2 + i % 2
    nodes, surf, inner = soup(rng, d, int(rng.integers(1, 7)), i // 2)
    if not len(surf):
        return "empty"
    before = nodes.copy(), surf.copy(), inner.copy()
    out = np.asarray(get_boundary_surfaces_normals(nodes, surf, inner))
    need(out.shape == (len(surf), d), f"shape {out.shape} for {len(surf)} facets", dict(nodes=nodes, surf=surf))
    for q in range(len(surf)):
        check_facet("facet", out[q], nodes[surf[q]], nodes[inner[q]], dict(nodes=nodes.tolist(), facet=surf[q].tolist(), inner=int(inner[q])))
    for a, b in zip(before, (nodes, surf, inner)):
        need(np.array_equal(a, b), "the arguments were changed")
    return f"{d}d, {len(surf)} facets"


@case(80, 1200)
def classes(rng, i):
    d = 2 + i % 2
    nodes, surf, inner = soup(rng, d, int(rng.integers(3, 9)), i // 2)
    if not len(surf):
        return "empty"
    cls = rng.integers(0, 3, size=len(surf))
    if i % 5 == 0:
        cls[:] = i // 5 % 3
    order = np.concatenate([np.nonzero(cls == k)[0] for k in range(3)])
    parts = [surf[cls == k] for k in range(3)]
    empty = slice(0, 0)
    bs = {nm: Boundary(surfaces=p, node_indices=empty, node_count=0) for nm, p in zip(("contact", "neumann", "dirichlet"), parts)}
    names = list(bs)
    if i % 2:
        names = names[::-1]
        bs["other"] = Boundary(surfaces=surf, node_indices=np.arange(2), node_count=2)
        names = ["other"] + names
    b = Boundaries(nodes, inner[order], **{k: bs[k] for k in names})
    data = dict(nodes=nodes.tolist(), surf=surf.tolist(), inner=inner.tolist(), cls=cls.tolist())
    need(np.array_equal(b.boundary_surfaces, surf[order]), f"boundary facets {b.boundary_surfaces.tolist()}", data)
    sn = np.asarray(b.surface_normals)
    need(sn.shape == (len(surf), d), f"shape {sn.shape}", data)
    for r, q in enumerate(order):
        check_facet("facet of a class", sn[r], nodes[surf[q]], nodes[inner[q]], data)
    cn = np.asarray(b.contact_normals)
    need(cn.shape == (len(parts[0]), d), f"{cn.shape} contact normals for {len(parts[0])} facets", data)
    for r in range(len(parts[0])):
        check_facet("contact facet", cn[r], nodes[order_facet(surf, order, r)], nodes[inner[order[r]]], data)
    return f"{d}d, classes {[len(p) for p in parts]}"


def order_facet(surf, order, r):
    return surf[order[r]]


def mesh_normals(mesh, data):
    nodes, el, d = mesh.nodes, mesh.elements, mesh.nodes.shape[1]
    cnt, owner = facets(el)
    bf = np.asarray(mesh.boundary_surfaces)
    sn = np.asarray(mesh.boundaries.surface_normals)
    need(len(sn) == len(bf), f"{len(sn)} normals for {len(bf)} facets", data)
    need(len(np.asarray(mesh.boundaries.contact_normals)) == len(mesh.contact_boundary), "contact normals and contact facets differ in number", data)
    cn = np.asarray(mesh.boundaries.contact_normals)
    rows = {tuple(int(v) for v in f): r for r, f in enumerate(bf)}
    for q, f in enumerate(mesh.contact_boundary):
        r = rows.get(tuple(int(v) for v in f))
        need(r is not None, "a contact facet is missing in boundary_surfaces", data)
        need(np.array_equal(cn[q], sn[r], equal_nan=True), f"contact normal {q} is not the normal of contact facet {q}", data)
    # how the listed finding pairs the rows: the opposite nodes come in lexicographic order of the facets
    single = sorted(f for f in cnt if cnt[f] == 1)
    wrong = [owner[f][0][1] for f in single]
    deferred = None
    for r, f in enumerate(bf):
        f = tuple(int(v) for v in sorted(f))
        need(cnt[f] == 1, f"facet {f} belongs to {cnt[f]} elements", data)
        try:
            check_facet("mesh facet", sn[r], nodes[list(f)], nodes[owner[f][0][1]], data)
        except Failure as e:
            if len(wrong) == len(bf) and wrong[r] != owner[f][0][1]:
                x = nodes[list(f)]
                raw = np.array([x[1][1] - x[0][1], x[0][0] - x[1][0]]) if d == 2 else np.cross(x[1] - x[0], x[2] - x[0])
                raw = raw / np.linalg.norm(raw)
                dot = raw @ (nodes[wrong[r]] - x[0])
                size = np.linalg.norm(nodes[wrong[r]] - x[0])
                same = [np.max(np.abs(sn[r] + sg * raw)) < 1e-9 for sg in ((np.sign(dot),) if abs(dot) > 1e-9 * size else (-1.0, 0.0, 1.0))]
                if any(same):
                    deferred = Failure(e.what, data, "facet-pairing-order")
                    continue
            raise
    return deferred


@case(60, 800)
def mesh(rng, i):
    d = 2 + i % 2
    if i % 15 == 14:
        pts, el = random_mesh(rng, d, m=200)
    elif i % 6 == 4:
        pts, el = scaled_mesh(rng, d, i // 6)
    elif i % 6 == 5:
        pts, el = random_mesh(rng, d, lattice=True)
    else:
        pts, el = random_mesh(rng, d, orphans=bool(i % 4 == 1))
    if i % 3 == 0:      # one class only
        k = i // 3 % 3
        bd = BoundariesDescription(**({"contact": lambda x: True} if k == 0 else {"dirichlet": lambda x: True} if k == 1 else {}))
    else:
        bd = random_boundaries(rng, pts)
    data = dict(nodes=pts.tolist(), elements=el.tolist())
    m = Mesh(Raw(pts, el), bd)
    bad = mesh_normals(m, data)
    if i % 3 == 0:
        need(bad is None, "normals of a boundary with one class: " + (bad.what if bad else ""), data)
    if bad is not None:
        raise bad
    return f"{d}d, {len(m.boundary_surfaces)} facets"


@case(6, 6)
def shipped(rng, i):
    from conmech.properties.mesh_description import CircleMeshDescription
    descr = [CubeMeshDescription(initial_position=None), BallMeshDescription(initial_position=None),
             CrossMeshDescription(initial_position=None, max_element_perimeter=0.5, scale=[2, 1]),
             CrossMeshDescription(initial_position=None, max_element_perimeter=0.4, scale=[1, 1])][i % 4]
    kw = {} if i < 3 else dict(contact=lambda x: x[-1] < 0.01, dirichlet=lambda x: x[0] < 0.01)
    if i == 2:
        kw = dict(contact=lambda x: True)
    m = Mesh(descr, BoundariesDescription(**kw))
    bad = mesh_normals(m, dict(descr=type(descr).__name__, i=i))
    if bad is not None:
        raise bad
    return type(descr).__name__
