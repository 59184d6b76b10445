"""Random and adversarial simplices (any position, orientation, vertex order, scales 1e-6..1e6, thin shapes down to a relative thickness of 1e-5), 2-D and 3-D,
through the per-element integral routine and through the assembled element volumes."""
from bounded.lib import *
import conmech.dynamics.factory._dynamics_factory_2d as f2
import conmech.dynamics.factory._dynamics_factory_3d as f3
from conmech.dynamics.factory.dynamics_factory_method import get_basic_matrices


def simplex(rng, d, i):
    while True:
        kind = i % 6
        if kind == 0:
            x = rng.uniform(-1, 1, (d + 1, d))
        elif kind == 1:
            x = rng.integers(-3, 4, (d + 1, d)).astype(float)
        elif kind == 2:
            x = rng.uniform(-1, 1, (d + 1, d)) * 10.0 ** rng.integers(-3, 4) * (1 + rng.uniform(0, 1, d))
            x = x + rng.uniform(-3, 3, d) * np.ptp(x)
        elif kind == 3:
            x = rng.uniform(0, 1, (d + 1, d)) * np.array([1.0, 0.05, 0.3][:d])
        elif kind == 4:
            x = np.vstack([np.zeros(d), np.eye(d)])[rng.permutation(d + 1)] * rng.choice([-1, 1, 2, 0.5], d) + rng.integers(-2, 3, d)
        else:
            x = rng.choice([-1.0, 0.0, 1.0], (d + 1, d))
        size = max(np.ptp(x, axis=0).max(), 1e-300)
        if volume(x) > 1e-3 * size ** d:
            return x


def check(x, label):
    d = x.shape[1]
    f = f2 if d == 2 else f3
    vol, g = volume(x), gradients(x)
    gs = []
    for i in range(d + 1):
        r = f.get_integral_parts_numba(x, i)
        close(r[d] / vol, 1.0, f"{label} volume (vertex {i})", 1e-6, data=x.tolist())
        gs.append([float(v) for v in r[:d]])
    gs = np.array(gs)
    s = np.abs(g).max()
    close(gs, g, f"{label} gradients", 1e-6, scale=s, data=x.tolist())


@case(300, 4000)
def element_2d(rng, i):
    x = simplex(rng, 2, i)
    check(x, "triangle")
    return x.round(3).tolist()


@case(300, 4000)
def element_3d(rng, i):
    x = simplex(rng, 3, i)
    check(x, "tetrahedron")
    return x.round(3).tolist()


@case(240, 3000)
def any_size(rng, i):
    """sizes from 1e-6 to 1e6, shapes down to a relative thinness of 1e-5, far from or at the origin"""
    d = 2 + i % 2
    x = simplex(rng, d, 0)
    if i % 3 == 1:
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        x = x @ np.diag([1.0] * (d - 1) + [10.0 ** rng.uniform(-5, -1)])
        if i % 2:
            x = x @ q
    elif i % 3 == 2:
        # a near-degenerate element: the last vertex almost in the plane of the others
        w = rng.dirichlet(np.ones(d))
        x[-1] = w @ x[:-1] + 10.0 ** rng.uniform(-5, -2) * rng.normal(size=d)
    x = (x - x.mean(axis=0)) * 10.0 ** rng.uniform(-6, 6)
    x = np.ascontiguousarray(x[rng.permutation(d + 1)])
    size = np.ptp(x, axis=0).max()
    if volume(x) < 1e-7 * size ** d:
        return "degenerate"
    f = f2 if d == 2 else f3
    vol, g = volume(x), gradients((x - x[0]) / size) / size
    rows = [f.get_integral_parts_numba(x, k) for k in range(d + 1)]
    for k, r in enumerate(rows):
        close(r[d] / vol, 1.0, f"volume (vertex {k})", 1e-5, data=x.tolist())
    close(np.array([[float(v) for v in r[:d]] for r in rows]), g, "gradients", 1e-5, scale=np.abs(g).max(), data=x.tolist())
    out = get_basic_matrices(np.array([np.arange(d + 1)]), x.copy())
    close(out[0] / vol, [1.0], "volume in the assembly", 1e-5, data=x.tolist())
    want = vol * np.einsum("ik,jl->klij", g, g)
    close(out[4], want, "gradient products in the assembly", 1e-5, scale=biggest(want), data=x.tolist())
    return x.tolist()


@case(60, 600)
def in_a_mesh(rng, i):
    """the same through the assembly: element volumes and local stiffness"""
    d = 2 + i % 2
    pts, el = random_mesh(rng, d)
    vols, _, _, _, _, loc = p1_matrices(pts, el)
    out = get_basic_matrices(el.copy(), pts.copy())
    close(out[0], vols, "element volumes", data=(pts.tolist(), el.tolist()))
    if d == 2 or np.ndim(out[5]) == 5:
        close(out[5], loc, "volume times gradient products per element", 1e-7, data=(pts.tolist(), el.tolist()))
    return f"d={d} {len(pts)} nodes {len(el)} elements"


@case(60, 400)
def single_element_orders(rng, i):
    """every vertex order of one element gives the same geometry"""
    d = 2 + i % 2
    x = simplex(rng, d, i)
    for p in itertools.permutations(range(d + 1)):
        out = get_basic_matrices(np.array([p]), x.copy())
        close(out[0], [volume(x)], f"volume in vertex order {p}", 1e-7, data=x.tolist())
        g = gradients(x)
        want = volume(x) * np.einsum("ik,jl->klij", g, g)
        close(out[4], want, f"gradient products in vertex order {p}", 1e-6, data=x.tolist())
    return x.round(3).tolist()
