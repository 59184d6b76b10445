"""Random Delaunay meshes with holes, shared and isolated facets, shuffled numbering and orientation, 2-D and 3-D; every
assembled matrix against an independent element loop, and the consequences named in the property."""
from bounded.lib import *
from conmech.dynamics.factory.dynamics_factory_method import get_basic_matrices
from conmech.properties.body_properties import BodyProperties


@case(160, 1500)
def assembly(rng, i):
    d = 2 + i % 2
    pts, el = random_mesh(rng, d, lattice=i % 5 == 4, orphans=i % 7 == 6)
    return assembled(pts, el, d)


@case(90, 900)
def any_size(rng, i):
    """tiny, huge and flat meshes and meshes with a sliver"""
    d = 2 + i % 2
    pts, el = scaled_mesh(rng, d, i // 2)
    return assembled(pts, el, d, relative=True)


@case(4, 24)
def many_nodes(rng, i):
    d = 2 + i % 2
    pts, el = random_mesh(rng, d, m=300)
    return assembled(pts, el, d)


def assembled(pts, el, d, relative=False):
    e0, p0 = el.copy(), pts.copy()
    vol, van, U, V, W, loc = get_basic_matrices(el, pts)
    data = (p0.tolist(), e0.tolist())
    need(np.array_equal(el, e0) and np.array_equal(pts, p0), "assembly changed its arguments", data)
    v, nodal, U0, V0, W0, loc0 = p1_matrices(p0, e0)
    n = len(p0)
    N = np.zeros((n, n))
    for e, x in zip(e0, v):
        for a in e:
            for b in e:
                if a != b:
                    N[a, b] += x / (d + 1) / d

    def same(got, want, what, tol):
        # sizes far from one: errors are measured against the largest entry
        close(got, want, what, 1e-6 if relative else tol, scale=biggest(want) if relative else None, data=data)
    if relative:
        for e in range(len(e0)):
            close(vol[e] / v[e], 1.0, f"volume of element {e}", 1e-6, data=data)
        # rows of small elements are compared row by row
        for a in range(n):
            s = biggest(U0[a])
            close(U[a] / s, U0[a] / s, f"row {a} of the mass matrix", 1e-6, data=data)
            s = biggest(V0[:, a])
            close(V[:, a] / s, V0[:, a] / s, f"row {a} of the first-derivative matrices", 1e-6, data=data)
    same(vol, v, "element volumes", 1e-9)
    same(U, U0, "mass matrix", 1e-9)
    same(V, V0, "first-derivative matrices", 1e-8)
    same(W, W0, "gradient-gradient matrices", 1e-8)
    if d == 2 or np.ndim(loc) == 5:
        same(loc, loc0, "local stiffness", 1e-8)
    same(van, N, "nodal-volume matrix", 1e-9)
    same(van.sum(axis=1), nodal, "nodal volumes", 1e-9)
    same(U.sum(), v.sum(), "mass sums to volume", 1e-9)
    close(np.einsum("klij,j->kli", W, np.ones(n)), np.zeros((d, d, n)), "constants in the kernel", 1e-8, scale=biggest(W0) if relative else max(1, np.abs(W0).max()), data=data)
    close(np.einsum("klij->lkji", W), W, "transposition", 1e-8, scale=biggest(W0) if relative else None, data=data)
    return f"d={d} {n} nodes {len(e0)} elements" + (f" size {np.ptp(p0):.2e}" if relative else "")


@case(40, 300)
def through_the_body(rng, i):
    """the same on the matrices held by a body built from a mesh with boundary conditions"""
    mesh = random_body_mesh(rng, 2 + i % 2)
    body = make_body(BodyProperties(mass_density=1.0), mesh)
    v, nodal, U0, V0, W0, loc0 = p1_matrices(mesh.nodes, mesh.elements)
    dyn = body.dynamics
    data = (mesh.nodes.tolist(), mesh.elements.tolist())
    close(dyn.element_initial_volume, v, "element volumes", data=data)
    close(np.asarray(dyn.volume_at_nodes).sum(axis=1), nodal, "nodal volumes", data=data)
    d, n = mesh.dimension, mesh.nodes_count
    close(dyn.acceleration_operator.data, np.kron(np.eye(d), U0), "inertia operator", data=data)
    return f"d={d} {n} nodes"
