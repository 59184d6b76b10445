"""Random raw meshes with unconnected nodes anywhere and any requested position, edge lists, cross and cube meshes of many sizes,
imported and generated meshes: geometry, edges and tiling against independent geometry."""
import os
import shutil
import tempfile

from bounded.lib import *
from conmech.mesh import mesh_builders
from conmech.mesh.mesh import remove_unconnected_nodes_numba, get_edges_matrix, get_edges_list_numba


def edges_of(el):
    return sorted({tuple(sorted((int(a), int(b)))) for e in el for a, b in itertools.combinations(e, 2)})


def check_edges(edges, el, data):
    got = [tuple(int(v) for v in e) for e in edges]
    need(all(len(e) == 2 and e[0] < e[1] for e in got), "an edge does not list its nodes in ascending order", data)
    need(len(set(got)) == len(got), "an edge is listed twice", data)
    need(sorted(got) == edges_of(el), "the edges are not those of the elements", data)


def rows(x):
    return Counter(tuple(np.round(np.asarray(r, dtype=float), 9)) for r in x)


def geometry(nodes, el):
    return Counter(frozenset(tuple(np.round(nodes[v], 9) + 0.0) for v in e) for e in el)


def with_orphans(rng, i, d):
    pts, el = random_mesh(rng, d, lattice=bool(i % 5 == 3), **(dict(m=120) if i % 30 == 29 else {}))
    n = len(pts)
    extra = 0 if i % 4 == 0 else int(rng.integers(1, 6))
    where = ["any", "first", "last", "block"][i % 4 if i % 8 < 4 else int(rng.integers(0, 4))]
    total = n + extra
    if where == "first":
        keep = np.arange(extra, total)
    elif where == "last":
        keep = np.arange(n)
    elif where == "block":
        s = int(rng.integers(0, n + 1))
        keep = np.concatenate([np.arange(s), np.arange(s + extra, total)])
    else:
        keep = np.sort(rng.choice(total, n, replace=False))
    new = rng.uniform(-4, 4, size=(total, d))
    new[keep] = pts
    return new, keep[el].astype(np.int64), keep


@case(160, 3000)
def construct(rng, i):
    d = 2 + i % 2
    nodes, el, keep = with_orphans(rng, i // 2, d)
    pos = None if i % 3 == 0 else rng.uniform(-5, 5, size=d) if i % 3 == 1 else np.zeros(d)
    data = dict(nodes=nodes.tolist(), elements=el.tolist(), position=None if pos is None else pos.tolist())
    want = nodes if pos is None else nodes - nodes.min(axis=0) + pos
    bn, be = mesh_builders.build_mesh(Raw(nodes, el, pos))
    close(bn, want, "translated nodes", data=data, tol=1e-12, scale=20.0)
    need(np.array_equal(be, el), "elements of the raw mesh", data)
    m = Mesh(Raw(nodes, el, pos), random_boundaries(rng, want))
    need(m.nodes.shape == (len(keep), d), f"{m.nodes.shape[0]} nodes instead of {len(keep)}", data)
    need(rows(m.nodes) == rows(want[keep]), "the kept nodes are not the connected ones", data)
    need(m.elements.shape == el.shape, "number of elements", data)
    need(m.elements.min() >= 0 and m.elements.max() < len(keep), "node numbers out of range", data)
    need(geometry(m.nodes, m.elements) == geometry(want, el), "the vertices of an element changed", data)
    check_edges(m.edges, m.elements, data)
    need(m.edges_number == len(edges_of(m.elements)), "edges_number", data)
    return f"{d}d {len(nodes)}-{len(keep)}"


@case(160, 3000)
def removal(rng, i):
    d = 2 + i % 2
    nodes, el, keep = with_orphans(rng, i // 2, d)
    data = dict(nodes=nodes.tolist(), elements=el.tolist())
    n2, e2 = remove_unconnected_nodes_numba(nodes.copy(), el.copy())
    need(n2.shape == (len(keep), d), f"{len(n2)} nodes instead of {len(keep)}", data)
    need(e2.shape == el.shape, "number of elements", data)
    need(e2.min() >= 0 and e2.max() < len(keep), "node numbers out of range", data)
    for a, b in zip(e2, el):
        need(np.array_equal(n2[a], nodes[b]), "an element moved", data)
    need(rows(n2) == rows(nodes[keep]), "the kept nodes are not the connected ones", data)
    return f"{d}d {len(nodes)}-{len(keep)}"


@case(80, 1500)
def edge_list(rng, i):
    d = 2 + i % 2
    n = int(rng.integers(d + 1, 14))
    el = np.array([rng.choice(n, size=d + 1, replace=False) for _ in range(int(rng.integers(1, 12)))], dtype=np.int64)
    data = dict(elements=el.tolist())
    e = get_edges_list_numba(get_edges_matrix(nodes_count=n, elements=el))
    check_edges(e, el, data)
    return f"{d}d {n} {len(el)}"


def check_tiling(nodes, el, lo, hi, data):
    """the elements fill the box, do not overlap and fit together"""
    d = nodes.shape[1]
    lo, hi = np.asarray(lo, dtype=float), np.asarray(hi, dtype=float)
    size = hi - lo
    tol = 1e-9
    need(el.min() >= 0 and el.max() < len(nodes), "node numbers out of range", data)
    need(np.all(np.isfinite(nodes)), "nodes are finite", data)
    x = (nodes - lo) / size
    need(np.all(x >= -tol) and np.all(x <= 1 + tol), "a node outside the box", data)
    need(len(rows(x)) == len(nodes), "two nodes at one place", data)
    need(sorted(set(int(v) for v in el.ravel())) == list(range(len(nodes))), "an unconnected node", data)
    vols = np.array([volume(x[e]) for e in el])
    need(np.all(vols > 1e-12), "an element without volume", data)
    need(abs(vols.sum() - 1.0) < 1e-9, f"the elements cover {vols.sum()} of the box", data)
    cnt, owner = facets(el)
    for f, c in cnt.items():
        need(c <= 2, f"facet {f} belongs to {c} elements", data)
        p = x[list(f)]
        if c == 1:
            flat = [k for k in range(d) for v in (0.0, 1.0) if np.all(np.abs(p[:, k] - v) < tol)]
            need(flat, f"facet {f} of one element is not on the border of the box", data)
        else:
            s = [np.linalg.det(np.vstack([p[1:] - p[0], x[v] - p[0]])) for _, v in owner[f]]
            need(s[0] * s[1] < 0, f"the elements at facet {f} overlap", data)


@case(48, 400, 300)
def cross(rng, i):
    scale = [1.0, 1.0] if i % 6 == 0 else rng.uniform(0.2, 5.0, size=2).tolist()
    if i % 6 == 1:
        scale = [float(rng.integers(1, 5)), float(rng.integers(1, 5))]
    if i % 6 == 2:                  # very flat boxes, one cell in one direction
        scale = [1.0, 0.05] if i % 12 == 2 else [0.05, 1.0]
    h = float(rng.uniform(0.15, 1.3)) * max(scale)
    if i % 6 == 1:
        h = 1.0 / float(rng.integers(1, 4))
    if i % 6 == 3:
        f = 10.0 ** float(rng.integers(-6, 7))
        scale, h = [s * f for s in scale], h * f
    if i % 6 == 4:
        h = 5.0 * max(scale)
    pos = None if i % 2 else rng.uniform(-3, 3, size=2)
    descr = CrossMeshDescription(initial_position=pos, max_element_perimeter=h, scale=scale)
    data = dict(scale=scale, max_element_perimeter=h)
    raw = descr.build()
    check_tiling(np.asarray(raw.nodes), np.asarray(raw.elements), [0.0, 0.0], scale, data)
    el = np.asarray(raw.elements)
    for e in el:
        p = raw.nodes[e]
        need(np.max(np.ptp(p, axis=0)) <= h * (1 + 1e-9), "an element is longer than requested", data)
    if pos is not None and min(scale) > 1e-3 and max(scale) < 1e3:
        m = Mesh(descr, BoundariesDescription())
        check_tiling(m.nodes, m.elements, pos, pos + np.array(scale), data)
        check_edges(m.edges, m.elements, data)
    return f"{scale} {h}"


@case(4)
def cube(rng, i):
    pos = [None, np.zeros(3), np.array([1.0, -2.0, 0.5]), rng.uniform(-5, 5, size=3)][i % 4]
    descr = CubeMeshDescription(initial_position=pos)
    data = dict(position=None if pos is None else pos.tolist())
    raw = descr.build()
    check_tiling(np.asarray(raw.nodes), np.asarray(raw.elements), np.zeros(3), np.ones(3), data)
    m = Mesh(descr, BoundariesDescription(dirichlet=lambda x: x[0] <= 0.1))
    lo = np.zeros(3) if pos is None else pos
    check_tiling(m.nodes, m.elements, lo, lo + 1.0, data)
    check_edges(m.edges, m.elements, data)
    return str(i)


@case(12, 60)
def imported(rng, i):
    """a mesh read from a file: its triangles or tetrahedra"""
    import meshio
    from conmech.properties.mesh_description import ImportedMeshDescription
    d = 2 + i % 2
    nodes, el, keep = with_orphans(rng, i // 2, d)
    pos = None if i % 4 < 2 else rng.uniform(-2, 2, size=d)
    data = dict(nodes=nodes.tolist(), elements=el.tolist())
    tmp = tempfile.mkdtemp(prefix="c17_")
    try:
        path = os.path.join(tmp, "m.vtk" if i % 3 else "m.msh")
        pts = nodes if d == 3 else np.hstack([nodes, np.zeros((len(nodes), 1))])
        fac = np.array(sorted(facets(el)[0]), dtype=np.int64)
        cells = [("line" if d == 2 else "triangle", fac), ("triangle" if d == 2 else "tetra", el)]
        meshio.write(path, meshio.Mesh(pts, cells), **({} if i % 3 else dict(file_format="gmsh22", binary=False)))
        m = Mesh(ImportedMeshDescription(initial_position=pos, path=path), BoundariesDescription())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    want = nodes if pos is None else nodes - nodes.min(axis=0) + pos
    need(m.nodes.shape == (len(keep), d), f"{m.nodes.shape} nodes", data)
    need(rows(np.round(m.nodes, 6)) == rows(np.round(want[keep], 6)), "the kept nodes are not the connected ones", data)
    g = lambda N, E: Counter(frozenset(tuple(np.round(N[v], 6) + 0.0) for v in e) for e in E)
    need(g(m.nodes, m.elements) == g(want, el), "the vertices of an element changed", data)
    check_edges(m.edges, m.elements, data)
    return f"{d}d {len(el)}"


@case(3, 3, 300)
def generated(rng, i):
    """meshes with random vertices made by a generator: their elements fit together and fill the polygon"""
    from conmech.properties.mesh_description import CircleMeshDescription, PgmshRectangleMeshDescription
    pos = np.array([1.0, 2.0])
    descr = [Barboteu2008MeshDescription(initial_position=pos, max_element_perimeter=0.6),
             CircleMeshDescription(initial_position=pos, max_element_perimeter=0.5, radius=1.0),
             PgmshRectangleMeshDescription(initial_position=pos, max_element_perimeter=0.5, scale=[2.0, 1.0])][i]
    m = Mesh(descr, BoundariesDescription())
    data = dict(descr=type(descr).__name__)
    close(m.nodes.min(axis=0), pos, "corner", data=data)
    check_edges(m.edges, m.elements, data)
    need(sorted(set(int(v) for v in m.elements.ravel())) == list(range(len(m.nodes))), "an unconnected node", data)
    cnt, owner = facets(m.elements)
    for f, c in cnt.items():
        need(c <= 2, f"facet {f} belongs to {c} elements", data)
    area = sum(volume(m.nodes[e]) for e in m.elements)
    if i == 2:
        check_tiling(m.nodes, m.elements, pos, pos + np.array([2.0, 1.0]), data)
    elif i == 0:
        close(area, 3.0 * 4.0 - 0.5 - (2.0 * 3.0 - 0.5 * 0.5 * 0.5), "area", tol=1e-6, data=data)
    else:
        need(2.5 < area < 3.15, f"area {area}", data)
    return str(i)
