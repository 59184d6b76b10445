"""Random sequences of updates, copies, stress queries, saves (good and failing) and loads on all three kinds of states, with a
ghost state carried along; products of the library and user products; snapshots changed after they were taken."""
import os
import pickle
import tempfile

from bounded.lib import *
from conmech.properties.body_properties import ElasticProperties
from conmech.state.state import State, TemperatureState, PiezoelectricState
from conmech.state.products.product import Product
from conmech.state.products.penetration import Penetration
from conmech.state.products.verticalintersection import VerticalIntersection


class Count(Product):
    def __init__(self, tag="count"):
        super().__init__(tag)
        self.extra = 3

    def update(self, state):
        self.data[state.time] = float(np.sum(state.displaced_nodes)) * self.extra


def fs(x, t=None):
    return np.array([1.0] * len(x))


class Ghost:
    def __init__(self, mesh):
        n, d = mesh.nodes_count, mesh.dimension
        self.b, self.u, self.v = np.zeros((n, d)), np.zeros((n, d)), np.zeros((n, d))
        self.x, self.w, self.t = mesh.nodes.copy(), np.zeros(n), 0.0
        self.prod = {}

    def copy(self):
        g = Ghost.__new__(Ghost)
        g.b, g.u, g.v, g.x, g.w, g.t = self.b.copy(), self.u.copy(), self.v.copy(), self.x.copy(), self.w.copy(), self.t
        g.prod = {k: dict(v) for k, v in self.prod.items()}
        return g


def extra(state):
    return {TemperatureState: "temperature", PiezoelectricState: "electric_potential"}.get(type(state))


def agree(state, g, what, data):
    for nm, a, b in (("absement", state.absement, g.b), ("displacement", state.displacement, g.u), ("velocity", state.velocity, g.v), ("displaced_nodes", state.displaced_nodes, g.x)):
        close(a, b, f"{what}: {nm}", 1e-11, data=data)
    close(state.time, g.t, f"{what}: time", 1e-13, data=data)
    if extra(state):
        close(np.ravel(getattr(state, extra(state))), g.w, f"{what}: {extra(state)}", 1e-12, data=data)
    close(state["displacement"], g.u, f"{what}: [displacement]", 1e-11, data=data)
    close(state["velocity"], g.v, f"{what}: [velocity]", 1e-11, data=data)
    need(set(state.products) == set(g.prod), f"{what}: products {sorted(state.products)} instead of {sorted(g.prod)}", data)
    for k, dct in g.prod.items():
        got = state.products[k].data
        need(list(got) == list(dct), f"{what}: times recorded by {k}: {list(got)} instead of {list(dct)}", data)
        for t in dct:
            close(got[t], dct[t], f"{what}: value recorded by {k}", 1e-10, data=data)


def law(velocity, displacement, absement, setup, elements, nodes, time):
    m = np.zeros((len(elements), nodes.shape[1], nodes.shape[1]))
    for e, el in enumerate(elements):
        m[e] += velocity[el].T @ nodes[el] + 2 * displacement[el].T @ nodes[el] + 3 * absement[el].sum() + time
    return m * (setup or 1)


@case(150, 1500)
def operations(rng, i):
    d = 2 + (i // 3) % 2
    mesh = random_body_mesh(rng, d)
    body = make_body(ElasticProperties(mass_density=1.0, mu=1.0, lambda_=1.0), mesh)
    body.dynamics.force.inner.source = body.dynamics.force.outer.source = fs
    n = mesh.nodes_count
    ref = mesh.nodes.copy()
    cls = [State, TemperatureState, PiezoelectricState][i % 3]
    s, g = cls(body), Ghost(mesh)
    held = []
    ops = []
    data = dict(cls=cls.__name__, d=d, n=n, ops=ops)

    def values():
        return state(rng, d * n, int(rng.choice([0, 1, 2, 3, 5, 6])) if i % 2 else 0)

    def later():
        k = int(rng.integers(9)) if i % 2 else 8
        return g.t + {0: 0.0, 1: -0.3, 2: 1e-9, 3: 5.0}.get(k, float(rng.uniform(0, 0.5)))

    def record():
        for k in list(g.prod):
            if k == "penetration":
                idx = np.arange(n)[mesh.contact_indices]
                g.prod[k][g.t] = float(np.min(g.x[idx, 1])) if len(idx) else 0.0
            else:
                g.prod[k][g.t] = float(np.sum(g.x)) * 3
    if i % 4 == 1:
        # an initial displacement and velocity are stored as simulate() stores them: in place, before the first update
        s.displacement[:] = g.u = rng.normal(size=(n, d))
        s.velocity[:] = g.v = rng.normal(size=(n, d))
    for _ in range(int(rng.integers(6, 16))):
        op = int(rng.integers(12))
        ops.append(op)
        if op <= 1:
            vec, t, up = values(), later(), bool(rng.integers(2))
            keep = vec.copy()
            s.set_displacement(vec if op else vec.reshape(d, n), t, update_absement=up)
            need(np.array_equal(vec, keep), "argument changed", data)
            g.u = vec.reshape(d, -1).T.copy()
            g.x = ref + g.u
            if up:
                g.b = g.b + (t - g.t) * g.u
            g.t = t
            record()
        elif op <= 4:
            vec, t, up = values(), later(), bool(rng.integers(4))
            keep = vec.copy()
            s.set_velocity(vec if op > 2 else vec.reshape(d, n), t, update_displacement=up)
            need(np.array_equal(vec, keep), "argument changed", data)
            g.v = vec.reshape(d, -1).T.copy()
            if up:
                g.u = g.u + (t - g.t) * g.v
                g.x = ref + g.u
            g.t = t
            record()
        elif op == 5 and extra(s):
            w = state(rng, n, int(rng.integers(8)) if i % 2 else 0)
            getattr(s, "set_temperature" if extra(s) == "temperature" else "set_electric_potential")(w)
            g.w = w.copy()
        elif op == 6:
            c = s.copy() if rng.integers(2) else __import__("copy").copy(s)
            need(type(c) is type(s) and c is not s and c.body is body, "type or body of the copy", data)
            held.append((c, g.copy()))
            body.state = s
        elif op == 7 and held:
            k = int(rng.integers(len(held)))
            c, h = held[k]
            # use the copy: the original must not notice, nor the other copies
            t = h.t + 0.3
            vec = rng.normal(size=d * n)
            gg = g
            c.set_velocity(vec, t, update_displacement=True)
            h.v = vec.reshape(d, -1).T.copy()
            h.u = h.u + (t - h.t) * h.v
            h.x = ref + h.u
            h.t = t
            g = h
            record()
            g = gg
            if extra(c):
                getattr(c, extra(c))[0] = 41.0
                h.w[0] = 41.0
        elif op == 8:
            p = [Penetration(), Count(), Count("other")][int(rng.integers(3))]
            s.inject_product(p)
            g.prod[p.name] = {}
        elif op == 9:
            s.constitutive_law = (lambda **values: law(**values)) if i % 2 else law     # laws need not be picklable
            s.setup = 2.0
            close(s.stress, law(g.v, g.u, g.b, 2.0, mesh.elements, ref, g.t), "stress", 1e-9, data=data)
            close(s.stress_norm, np.linalg.norm(law(g.v, g.u, g.b, 2.0, mesh.elements, ref, g.t), axis=(1, 2)), "norm of the stress", 1e-9, data=data)
            close(s.stress_x, law(g.v, g.u, g.b, 2.0, mesh.elements, ref, g.t)[:, 0, 0], "xx stress", 1e-9, data=data)
            close(s.stress_y, law(g.v, g.u, g.b, 2.0, mesh.elements, ref, g.t)[:, 1, 1], "yy stress", 1e-9, data=data)
        elif op >= 10:
            src = (lambda x, t=None: np.zeros(d)), fs
            fi, fo = src[int(rng.integers(2))], src[int(rng.integers(2))]
            body.dynamics.force.inner.source, body.dynamics.force.outer.source = fi, fo
            cl, st = s.constitutive_law, s.setup
            bad = op == 11
            other = mesh.boundaries
            with tempfile.TemporaryDirectory() as tmp:
                path = os.path.join(tmp, "missing" if bad and rng.integers(2) else "", "state")
                if bad and not path.startswith(os.path.join(tmp, "missing")):
                    s.products["broken"] = _Broken()
                try:
                    s.save(path)
                    saved = True
                except Exception:   # noqa: BLE001
                    saved = False
                s.products.pop("broken", None)
                need(saved != bad, "saving", data)
                need(body.dynamics.force.inner.source is fi and body.dynamics.force.outer.source is fo, "sources of the body after saving", data)
                need(s.constitutive_law is cl and s.setup is st and s.body is body, "setup, law or body of the state after saving", data)
                if saved:
                    r = type(s).load(path)
                    need(type(r) is type(s), "type of the loaded state", data)
                    agree(r, g, "loaded state", data)
                    close(r.body.mesh.nodes, ref, "nodes of the loaded state", 1e-15, data=data)
                    need(np.array_equal(r.body.mesh.elements, mesh.elements), "elements of the loaded state", data)
            body.dynamics.force.inner.source = body.dynamics.force.outer.source = fs
        if s.constitutive_law is not None:
            close(s.stress, law(g.v, g.u, g.b, s.setup, mesh.elements, ref, g.t), "stress", 1e-9, data=data)
        agree(s, g, "state", data)
        for c, h in held:
            agree(c, h, "copy", data)
        need(np.array_equal(mesh.nodes, ref), "the reference nodes moved", data)
    return f"{cls.__name__} d={d} {ops}"


class _Broken(Product):
    def __init__(self):
        super().__init__("broken")

    def __reduce__(self):
        raise pickle.PicklingError("no")

    def update(self, state):
        pass


@case(12, 60)
def library_products(rng, i):
    """recorded values of the library's products stay with the state they were recorded for"""
    mesh = Mesh(CrossMeshDescription(initial_position=None, max_element_perimeter=0.3, scale=[1, 1]), BoundariesDescription(contact=lambda x: x[1] == 0))
    body = make_body(ElasticProperties(mass_density=1.0, mu=1.0, lambda_=1.0), mesh)
    s = State(body)
    p, q = Penetration(), VerticalIntersection(0.5)
    s.inject_product(p)
    s.inject_product(q)
    snaps = []
    for k in range(4):
        s.set_velocity(rng.normal(size=2 * mesh.nodes_count) * 0.1, 0.1 * (k + 1), update_displacement=True)
        snaps.append((s.copy(), np.min(s.displaced_nodes[mesh.contact_indices, 1])))
    for k, (c, v) in enumerate(snaps):
        need(set(c.products) == {p.name, q.name}, "products of a snapshot")
        for nm in (p.name, q.name):
            need(type(c.products[nm]) is type(s.products[nm]) and c.products[nm] is not s.products[nm], f"product {nm} of a snapshot")
            need(len(c.products[nm].data) == k + 1, f"{nm} of snapshot {k} has {len(c.products[nm].data)} records")
        close(c.products[p.name].data[c.time], v, "recorded penetration", 1e-13)
    r = p.range(0.15, 0.35)
    need([round(t, 9) for t in r.data] == [0.2, 0.3] and len(p.data) == 4, "range of a product")
    return "products"
