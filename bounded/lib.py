"""Shared generators and independent oracles of the concrete checks."""
import itertools
import math
from collections import Counter, defaultdict

import numpy as np
from scipy.spatial import Delaunay

from bounded.base import case, close, need, relative, Failure, Skip  # noqa: F401  (re-exported)
from conmech.mesh.boundaries_description import BoundariesDescription
from conmech.mesh.mesh import Mesh
from conmech.mesh.zoo.raw_mesh import RawMesh
from conmech.properties.mesh_description import (
    MeshDescription, CrossMeshDescription, CubeMeshDescription, BallMeshDescription, Barboteu2008MeshDescription)
from conmech.simulations.problem_solver import Body
from conmech.dynamics.dynamics import Dynamics


class Raw(MeshDescription):
    """a mesh given by its nodes and elements"""
    def __init__(self, nodes, elements, initial_position=None):
        super().__init__(initial_position)
        self.nodes, self.elements = np.array(nodes, dtype=float), np.array(elements, dtype=np.int64)

    def build(self):
        return RawMesh(self.nodes.copy(), self.elements.copy())


class Stub:
    """an object with the given attributes"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


# ---------------------------------------------------------------- generators
def good(nodes, elements):
    d = nodes.shape[1]
    vols = np.array([abs(np.linalg.det(nodes[e[1:]] - nodes[e[0]])) / math.factorial(d) for e in elements])
    size = np.ptp(nodes, axis=0).max() if len(nodes) else 1.0
    return elements[vols > 1e-5 * size ** d]


def random_mesh(rng, d, m=None, drop=True, orphans=False, shuffle=True, lattice=False):
    """Delaunay mesh of random points, elements dropped (holes, dents), vertex order and orientation random"""
    if m is None:
        m = int(rng.integers(d + 2, 14 if d == 2 else 11))
    while True:
        if lattice:
            k = int(rng.integers(2, 4))
            pts = np.array(list(itertools.product(range(k), repeat=d)), dtype=float)
            pts = pts * rng.choice([0.25, 0.5, 1.0]) + rng.integers(-2, 3, size=d)
        else:
            pts = rng.uniform(-1, 1, size=(m, d)) * rng.uniform(0.5, 3, size=d) + rng.uniform(-2, 2, size=d)
        el = good(pts, Delaunay(pts).simplices.astype(np.int64))
        if drop and len(el) > 3 and rng.random() < 0.6:
            keep = rng.random(len(el)) > 0.25
            if keep.sum() >= 2:
                el = el[keep]
        if len(el) >= 1:
            break
    if not orphans:
        used = np.unique(el)
        new = -np.ones(len(pts), dtype=np.int64)
        new[used] = np.arange(len(used))
        pts, el = pts[used], new[el]
    if shuffle:
        p = rng.permutation(len(pts))
        inv = np.argsort(p)
        pts, el = pts[p], inv[el]
        el = np.array([rng.permutation(e) for e in el])
        el = el[rng.permutation(len(el))]
    return np.ascontiguousarray(pts), np.ascontiguousarray(el.astype(np.int64))


def scaled_mesh(rng, d, i):
    """ordinary meshes made tiny, huge, flat, or given a sliver"""
    pts, el = random_mesh(rng, d)
    pts = pts - pts.mean(axis=0)
    kind = i % 6
    if kind == 0:
        return pts * 1e-4, el
    if kind == 1:
        return pts * 1e5, el
    if kind == 2:
        flat = np.ones(d)
        flat[int(rng.integers(d))] = 1e-3
        return pts * flat, el
    if kind == 3:
        return pts * 10.0 ** rng.uniform(-6, 6) + 0.0, el
    # one new node just outside a boundary facet
    cnt, owner = facets(el)
    free = [f for f in sorted(cnt) if cnt[f] == 1]
    f = free[int(rng.integers(len(free)))]
    _, far = owner[f][0]
    x = pts[list(f)]
    centre = x.mean(axis=0)
    inward = pts[far] - centre
    eps = 10.0 ** rng.uniform(-7, -3)
    new = rng.dirichlet(np.ones(d)) @ x - eps * inward
    pts = np.vstack([pts, new])
    e = rng.permutation(np.array(list(f) + [len(pts) - 1]))
    el = np.vstack([el, e])[rng.permutation(len(el) + 1)]
    if kind == 5:
        pts = pts * 10.0 ** rng.uniform(-3, 3)
    return np.ascontiguousarray(pts), np.ascontiguousarray(el.astype(np.int64))


def state(rng, n, i, zero_ok=True):
    """a vector of n unknowns: ordinary, zero, one-hot, tiny, huge, constant, sparse"""
    kind = i % 8
    x = rng.normal(size=n)
    if kind == 1 and zero_ok:
        return np.zeros(n)
    if kind == 2:
        o = np.zeros(n)
        o[int(rng.integers(n))] = rng.choice([-1.0, 1.0, 2.5])
        return o
    if kind == 3:
        return x * 1e-7
    if kind == 4:
        return x * 1e6
    if kind == 5:
        return np.full(n, float(rng.choice([-1.0, 1.0, 0.5])))
    if kind == 6:
        return x * (rng.random(n) < 0.4)
    return x


def magnitude(rng, i, lo=-6, hi=6):
    """a positive number: ordinary, or of any order of magnitude"""
    return float(rng.uniform(0.2, 4)) if i % 3 == 0 else float(10.0 ** rng.uniform(lo, hi))


def biggest(*arrays):
    """a scale for comparisons: the largest number involved"""
    return max([float(np.max(np.abs(a))) for a in arrays if np.size(a)] + [1e-300])


def half_space(rng, pts):
    a = rng.normal(size=pts.shape[1])
    v = pts @ a
    c = rng.uniform(v.min(), v.max())
    return lambda x: bool(np.dot(a, x) >= c)


def random_boundaries(rng, pts, dirichlet=True, contact=True, p_none=0.15):
    kw = {}
    if contact and rng.random() > p_none:
        kw["contact"] = half_space(rng, pts)
    if dirichlet and rng.random() > p_none:
        kw["dirichlet"] = half_space(rng, pts)
    return BoundariesDescription(**kw)


def random_body_mesh(rng, d=None, **kw):
    d = d or int(rng.integers(2, 4))
    pts, el = random_mesh(rng, d, **kw)
    return Mesh(Raw(pts, el), random_boundaries(rng, pts))


def make_body(props, mesh):
    body = Body(props, mesh)
    Dynamics(body)
    return body


# ---------------------------------------------------------------- oracles
def volume(x):
    return abs(np.linalg.det(x[1:] - x[0])) / math.factorial(x.shape[1])


def gradients(x):
    """rows: gradients of the barycentric functions"""
    d = x.shape[1]
    m = np.hstack([np.ones((d + 1, 1)), x])
    return np.linalg.inv(m)[1:].T


def p1_matrices(nodes, elements):
    """(volumes, nodal volume vector, U, V, W, local) from first principles"""
    n, d = nodes.shape
    ne = len(elements)
    U, V, W = np.zeros((n, n)), np.zeros((d, n, n)), np.zeros((d, d, n, n))
    vols, nodal = np.zeros(ne), np.zeros(n)
    loc = np.zeros((d, d, ne, d + 1, d + 1))
    for e, el in enumerate(elements):
        x = nodes[el]
        vol, g = volume(x), gradients(x)
        vols[e] = vol
        for a, i in enumerate(el):
            nodal[i] += vol / (d + 1)
            for b, j in enumerate(el):
                U[i, j] += vol * (1 + (a == b)) / ((d + 1) * (d + 2))
                for k in range(d):
                    V[k, i, j] += vol / (d + 1) * g[b, k]
                    for l in range(d):
                        loc[k, l, e, a, b] = vol * g[a, k] * g[b, l]
                        W[k, l, i, j] += vol * g[a, k] * g[b, l]
    return vols, nodal, U, V, W, loc


def hooke(nodes, elements, mu, la, weights=None):
    """stiffness of 2 mu eps:eps + la div div by strains of the basis fields, element by element"""
    n, d = nodes.shape
    K = np.zeros((d * n, d * n))
    for e, el in enumerate(elements):
        x = nodes[el]
        vol, g = volume(x), gradients(x)
        if weights is not None:
            vol = vol * weights[e]
        eps, div, dof = [], [], []
        for a, i in enumerate(el):
            for k in range(d):
                grad = np.zeros((d, d))
                grad[k] = g[a]
                eps.append(0.5 * (grad + grad.T))
                div.append(g[a, k])
                dof.append(k * n + i)
        for p in range(len(dof)):
            for q in range(len(dof)):
                K[dof[p], dof[q]] += vol * (2 * mu * np.sum(eps[p] * eps[q]) + la * div[p] * div[q])
    return K


def facets(elements):
    """Counter of sorted facets and facet -> list of (element, remaining node)"""
    cnt, owner = Counter(), defaultdict(list)
    for e, el in enumerate(elements):
        for k in range(len(el)):
            f = tuple(sorted(int(v) for i, v in enumerate(el) if i != k))
            cnt[f] += 1
            owner[f].append((e, int(el[k])))
    return cnt, owner


def facet_measure(x):
    if x.shape[1] == 2:
        return float(np.linalg.norm(x[1] - x[0]))
    return float(np.linalg.norm(np.cross(x[1] - x[0], x[2] - x[0])) / 2)


def stack(a):
    """(n, d) -> component after component"""
    return np.concatenate([a[:, k] for k in range(a.shape[1])])


def problem(base, descr, bd, inner=None, outer=None, **attrs):
    """an instance of a problem class with the given data"""
    ns = {}
    for name, f in (("inner_forces", inner), ("outer_forces", outer)):
        if f is not None:
            ns[name] = staticmethod(f)
    for k in list(attrs):
        if callable(attrs[k]) and not isinstance(attrs[k], type):
            ns[k] = staticmethod(attrs.pop(k))
    cls = type("Given" + base.__name__, (base,), ns)
    p = cls.__new__(cls)
    p.mesh_descr, p.boundaries = descr, bd
    for k, v in attrs.items():
        setattr(p, k, v)
    return p
