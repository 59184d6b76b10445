"""C13: states of an arbitrary mesh: updates, copies, stress, products, saving and loading."""
import io

from contracts.lib import *

ST = "conmech.state.state"
PD = "conmech.state.products.product"
FUNCTIONS = ["State.__init__ / set_displacement / set_velocity / stress / __getitem__ / inject_product / update_products / copy / __copy__ / save / load",
             "TemperatureState and PiezoelectricState: __init__ / set_temperature / set_electric_potential / __copy__ / __getitem__", "Product.copy / __copy__ / range"]
ASSUMPTIONS = ["precondition: vectors handed to the updates are not views of the state's own fields and have one value per node and component",
               "contract of pickle: loading returns a value equal to the one dumped; open, dump and closing may fail with any exception",
               "the constitutive law is an arbitrary function of the values it receives"]
CLASSES = ("State", "TemperatureState", "PiezoelectricState")
SCALAR = {"TemperatureState": "temperature", "PiezoelectricState": "electric_potential"}
OPS = (("d", False), ("d", True), ("v", False), ("v", True))
SEQ = ("absement", "displacement", "velocity")


def mesh(d):
    n, ne = ivar("n"), ivar("ne")
    ctx().assume(n >= 1, ne >= 1)
    nodes, el = A.symbolic("nodes", (n, d)), A.symbolic("el", (ne, d + 1), "i")
    m = Obj(nodes=nodes, elements=el, nodes_count=n, dimension=d)
    src = Obj(inner=object(), outer=object())
    dyn = Obj(force=Obj(inner=Obj(source=src.inner), outer=Obj(source=src.outer)))
    return Obj(mesh=m, dynamics=dyn), n, src


class Ghost:
    """what the state has to hold: readers of the fields"""
    def __init__(self, w, **f):
        self.w, self.f = w, dict(f)

    def copy(self):
        return Ghost(self.w, **self.f)


class World:
    def __init__(self, s, d, cls):
        self.s, self.d, self.cls = s, d, cls
        self.body, self.n, self.src = mesh(d)
        self.k = s.get(ST, cls)
        self.count = 0

    def arbitrary(self, tag="", stale=False):
        """any reachable state: displaced nodes are nodes plus displacement, everything else is free; with `stale` also
        the displaced nodes are free, as after storing an initial displacement in place (simulate() does so)"""
        st = self.k(self.body)
        names = dict(absement="b", displacement="u", velocity="v")
        for f, nm in names.items():
            getattr(st, f)          # the fields of the contract have to exist
            setattr(st, f, A.symbolic(nm + tag, (self.n, self.d)))
        getattr(st, "displaced_nodes")
        st.displaced_nodes = A.symbolic("stale" + tag, (self.n, self.d)) if stale else A.make(
            (self.n, self.d), lambda ix: app("nodes", tuple(lift(i) for i in ix)) + app("u" + tag, tuple(lift(i) for i in ix)))
        st.time = var("t0" + tag)
        g = Ghost(self, time=var("t0" + tag), **{f: (lambda i, k, nm=nm: app(nm + tag, (lift(i), lift(k)))) for f, nm in names.items()})
        if self.cls in SCALAR:
            setattr(st, SCALAR[self.cls], A.symbolic("w" + tag, (self.n,)))
            g.f["scalar"] = lambda i: app("w" + tag, (lift(i),))
        return st, g

    def fresh_ghost(self):
        z = lambda i, k: ZERO
        g = Ghost(self, time=ZERO, absement=z, displacement=z, velocity=z)
        if self.cls in SCALAR:
            g.f["scalar"] = lambda i: ZERO
        return g

    def op(self, st, g, which):
        """one update with a new vector and time; returns the ghost afterwards"""
        self.count += 1
        kind, upd = which
        x, t = f"x{self.count}", var(f"t{self.count}")
        vec = A.symbolic(x, (self.d * self.n,))
        new = lambda i, k: app(x, (lift(k) * self.n + lift(i),))
        r = g.copy()
        dt = t - lift(g.f["time"])
        if kind == "d":
            st.set_displacement(vec, t, update_absement=upd) if upd else st.set_displacement(vec, t)
            r.f["displacement"] = new
            if upd:
                r.f["absement"] = lambda i, k, o=g.f["absement"]: lift(o(i, k)) + dt * new(i, k)
        else:
            st.set_velocity(vec, t, update_displacement=upd)
            r.f["velocity"] = new
            if upd:
                r.f["displacement"] = lambda i, k, o=g.f["displacement"]: lift(o(i, k)) + dt * new(i, k)
        r.f["time"] = t
        return r

    def scalar(self, st, g):
        self.count += 1
        x = f"x{self.count}"
        r = g.copy()
        if self.cls in SCALAR:
            getattr(st, "set_" + SCALAR[self.cls])(A.symbolic(x, (self.n,)))
            r.f["scalar"] = lambda i: app(x, (lift(i),))
        return r

    def agree(self, label, st, g):
        s, c = self.s, ctx()
        sh = (self.n, self.d)
        for f in SEQ:
            s.array_eq(f"{label}: {f}", getattr(st, f), lambda ix, f=f: g.f[f](*ix), shape=sh, fn="State")
        s.array_eq(f"{label}: displaced nodes are nodes plus displacement", st.displaced_nodes, lambda ix: app("nodes", tuple(lift(i) for i in ix)) + lift(g.f["displacement"](*ix)), shape=sh, fn="State")
        s.eq(f"{label}: time", st.time, g.f["time"], fn="State")
        if self.cls in SCALAR:
            s.array_eq(f"{label}: {SCALAR[self.cls]}", getattr(st, SCALAR[self.cls]), lambda ix: g.f["scalar"](ix[0]), shape=(self.n,), fn="State")
        s.array_eq(f"{label}: mesh nodes unchanged", self.body.mesh.nodes, lambda ix: app("nodes", tuple(lift(i) for i in ix)))

    def spoil(self, st):
        """everything mutable in the state is overwritten in place"""
        for f in SEQ + ("displaced_nodes",):
            a = getattr(st, f)
            a[:] = A.symbolic("junk", (self.n, self.d))
        if self.cls in SCALAR:
            a = getattr(st, SCALAR[self.cls])
            a[:] = A.symbolic("junk1", (self.n,))
        for p in st.products.values():
            for k in list(p.data):
                p.data[k] = "junk"
            p.data["junk"] = "junk"
        st.products["junk"] = None


def over(s, label, run, check):
    paths = explore(run)
    s.no_exception(label, paths)
    for p in paths:
        if p.exc is None:
            C.CTX[0] = p.ctx
            check(*p.value)
            s.defs("indices in range")
    s.nonvacuous()


def opname(o):
    return {"d": "set_displacement", "v": "set_velocity"}[o[0]] + ("+integral" if o[1] else "")


def start(s, d, cls):
    def run():
        w = World(s, d, cls)
        st = w.k(w.body)
        return w, st

    def check(w, st):
        w.agree("new state", st, w.fresh_ghost())
        s.true("no products", not st.products)
        s.true("no stress without a law", st.stress is None)
    over(s, "State.__init__", run, check)


def updates(s, d, cls):
    """inductive step: any state, any update; then the same after a second update"""
    for o1 in OPS:
        def run():
            w = World(s, d, cls)
            st, g = w.arbitrary()
            g1 = w.op(st, g, o1)
            return w, st, g1
        over(s, opname(o1), run, lambda w, st, g1: w.agree(opname(o1), st, g1))
        if o1 != ("v", False):
            def run1():
                w = World(s, d, cls)
                st, g = w.arbitrary(stale=True)
                return w, st, w.op(st, g, o1)
            over(s, f"{opname(o1)} after storing a displacement in place", run1,
                 lambda w, st, g1: w.agree(f"{opname(o1)} after storing a displacement in place", st, g1))
        for o2 in OPS:
            def run2():
                w = World(s, d, cls)
                st, g = w.arbitrary()
                return w, st, w.op(st, w.scalar(st, w.op(st, g, o1)), o2)
            over(s, f"{opname(o1)}, {opname(o2)}", run2, lambda w, st, g1: w.agree(f"{opname(o1)}, {opname(o2)}", st, g1))


def law(calls, w):
    def f(*, velocity, displacement, absement, setup, elements, nodes, time):
        calls.append((velocity, displacement, absement, setup, elements, nodes, time))
        vals = lambda a, e, i, k: a.get((e, lift(i) if not isinstance(i, int) else i))
        rd = [frozen(x) for x in (velocity, displacement, absement)]
        t = time
        return A.make((ivar("ne"), w.d, w.d), lambda ix: app("law", tuple(lift(r((app("pick", (lift(ix[0]),), True), 0 if q == 0 else q))) for r in rd for q in range(w.d)) + (lift(ix[1]), lift(ix[2]), lift(t))))
    return f


def stress(s, d, cls):
    """stress is the law's value for the present fields after any update, also when it was read before"""
    for before in (False, True):
        for o in OPS:
            def run():
                w = World(s, d, cls)
                st, g = w.arbitrary()
                calls = []
                st.setup, st.constitutive_law = object(), law(calls, w)
                if before:
                    st.stress
                g1 = w.op(st, g, o)
                r = st.stress
                k = len(calls)
                r2 = st.stress
                return w, st, g1, r, r2, calls, k

            def check(w, st, g1, r, r2, calls, k):
                lab = f"after {opname(o)}" + (" with stress read before" if before else "")
                p = app("pick", (ivar("e"),), True)
                c = ctx()
                c.facts = c.facts.extend(ivar("e") >= 0, ivar("e") < ivar("ne"), p >= 0, p < w.n)
                args = [g1.f[f](p, q) for f in ("velocity", "displacement", "absement") for q in range(w.d)]
                for i in range(w.d):
                    for j in range(w.d):
                        want = app("law", tuple(lift(a) for a in args) + (lift(i), lift(j), lift(g1.f["time"])))
                        s.eq(f"{lab}: stress[{i},{j}]", r.get((ivar("e"), i, j)), want, fn="State.stress")
                        s.eq(f"{lab}: stress read again[{i},{j}]", r2.get((ivar("e"), i, j)), want, fn="State.stress")
                v = calls[-1]
                s.true(f"{lab}: the law receives the state's setup, elements and nodes", v[3] is st.setup and v[4] is w.body.mesh.elements and v[5] is w.body.mesh.nodes)
                x, y = (st.stress_x, st.stress_y)
                s.eq(f"{lab}: stress_x", x.get((ivar("e"),)), r.get((ivar("e"), 0, 0)), fn="State.stress_x")
                s.eq(f"{lab}: stress_y", y.get((ivar("e"),)), r.get((ivar("e"), 1, 1)), fn="State.stress_y")
            over(s, "stress", run, check)


def products_of(s):
    base = s.get(PD, "Product")

    class Seen(base):
        def __init__(self, name):
            super().__init__(name)
            self.extra = [name]
            self.log = []

        def update(self, state):
            self.data[len(self.data)] = (frozen(state.displacement), frozen(state.velocity), frozen(state.displaced_nodes), state.time)
    return Seen


def products(s, d, cls):
    """each product is updated once per update of the state, with the new values"""
    for o in OPS:
        def run():
            w = World(s, d, cls)
            st, g = w.arbitrary()
            Seen = products_of(s)
            ps = [Seen("p"), Seen("q")]
            for p in ps:
                st.inject_product(p)
            g1 = w.op(st, g, o)
            return w, st, g1, ps

        def check(w, st, g1, ps):
            lab = opname(o)
            s.true(f"{lab}: both products are recorded", list(st.products) == ["p", "q"] and all(st.products[p.name] is p for p in ps))
            s.true(f"{lab}: each product is updated exactly once", all(len(p.data) == 1 for p in ps))
            a = ivar("a")
            ctx().facts = ctx().facts.extend(a >= 0, a < w.n)
            for p in ps:
                for u, v, x, t in p.data.values():
                    for k in range(w.d):
                        s.eq(f"{lab}: product {p.name} sees the new displacement[{k}]", u((a, k)), g1.f["displacement"](a, k), fn="State.update_products")
                        s.eq(f"{lab}: product {p.name} sees the new velocity[{k}]", v((a, k)), g1.f["velocity"](a, k), fn="State.update_products")
                        s.eq(f"{lab}: product {p.name} sees the displaced nodes[{k}]", x((a, k)), app("nodes", (a, lift(k))) + lift(g1.f["displacement"](a, k)), fn="State.update_products")
                    s.eq(f"{lab}: product {p.name} sees the new time", t, g1.f["time"], fn="State.update_products")
        over(s, "products", run, check)


def copies(s, d, cls):
    def start_(w):
        st, g = w.arbitrary()
        Seen = products_of(s)
        for nm in ("p", "q"):
            st.inject_product(Seen(nm))
        st.products["p"].data.update({1: "one", 2: "two"})
        return st, g

    def products_ok(lab, w, cp, pd):
        s.true(f"{lab}: products recorded", list(cp.products) == ["p", "q"])
        for nm, dd in pd.items():
            p = cp.products.get(nm)
            s.true(f"{lab}: product {nm}", p is not None and p.name == nm and p.data == dd and getattr(p, "extra", None) == [nm] and isinstance(p, s.get(PD, "Product")) and type(p).__name__ == "Seen")

    for how in ("copy()", "copy.copy"):
        def make(st):
            return st.copy() if how == "copy()" else type(st).__copy__(st)

        def run():
            w = World(s, d, cls)
            st, g = start_(w)
            pd = {k: dict(p.data) for k, p in st.products.items()}
            cp = make(st)
            return w, st, g, cp, pd

        def check(w, st, g, cp, pd):
            s.true(f"{how}: same type", type(cp) is type(st))
            s.true(f"{how}: another object with the same body", cp is not st and cp.body is st.body)
            w.agree(f"{how}: copy", cp, g)
            w.agree(f"{how}: original", st, g)
            products_ok(f"{how}: copy", w, cp, pd)
            products_ok(f"{how}: original", w, st, pd)
        over(s, how, run, check)

        for victim in ("original", "copy"):
            def run2():
                w = World(s, d, cls)
                st, g = start_(w)
                pd = {k: dict(p.data) for k, p in st.products.items()}
                cp = make(st)
                w.spoil(st if victim == "original" else cp)
                return w, (cp if victim == "original" else st), g, pd

            def check2(w, other, g, pd):
                w.agree(f"{how}: after overwriting the {victim} in place", other, g)
                products_ok(f"{how}: after overwriting the {victim} in place", w, other, pd)
            over(s, f"{how}, {victim} overwritten", run2, check2)
            for o in OPS:
                def run3():
                    w = World(s, d, cls)
                    st, g = w.arbitrary()
                    cp = make(st)
                    a, b = (st, cp) if victim == "original" else (cp, st)
                    ga = w.op(a, w.scalar(a, w.op(a, g, ("v", True))), o)
                    return w, a, b, ga, g

                def check3(w, a, b, ga, g):
                    w.agree(f"{how}: the {victim} goes on ({opname(o)})", a, ga)
                    w.agree(f"{how}: the other one stays ({opname(o)})", b, g)
                over(s, f"{how}, {victim} updated", run3, check3)


def product_copies(s):
    def run():
        Seen = products_of(s)
        p = Seen("p")
        p.data.update({0: "a", 1: "b", 2: "c", 3: "d"})
        return p, p.copy(), p.__copy__(), p.range(0, 2)

    def check(p, c1, c2, r):
        for nm, c in (("copy()", c1), ("__copy__", c2)):
            s.true(f"{nm}: same type, name, values and attributes", type(c) is type(p) and c.name == "p" and c.data == p.data and c.extra == ["p"])
            s.true(f"{nm}: own record", c is not p and c.data is not p.data)
        s.true("range: exactly the records in (start, stop]", r.data == {1: "b", 2: "c"} and type(r) is type(p) and r.name == "p")
        s.true("range leaves the product unchanged", p.data == {0: "a", 1: "b", 2: "c", 3: "d"})
    over(s, "Product", run, check)


class Disk(Exception):
    pass


class Interrupt(BaseException):
    pass


def saving(s, d, cls, fail):
    """fail: None, open, dump, close (an error) or interrupt"""
    m = s.load(ST)
    if not hasattr(m, "pickle"):
        raise SpecGone("state.py does not use the module pickle")
    log = []

    class File(io.BytesIO):
        def __exit__(self, *a):
            r = super().__exit__(*a)
            if fail == "close":
                raise Disk("close")
            return r

    def snap(st):
        return dict(vars(st), __class__=type(st)), st.body.dynamics.force.inner.source, st.body.dynamics.force.outer.source

    class Pickle:
        @staticmethod
        def dump(obj, file, *a, **k):
            log.append(("dump", obj, snap(obj)))
            if fail == "dump":
                raise Disk("dump")
            if fail == "interrupt":
                raise Interrupt()

        @staticmethod
        def dumps(obj, *a, **k):
            log.append(("dump", obj, snap(obj)))
            if fail == "dump":
                raise Disk("dump")
            if fail == "interrupt":
                raise Interrupt()
            return b""

        @staticmethod
        def load(file, *a, **k):
            log.append(("load", file))
            return log_loaded

        @staticmethod
        def loads(b, *a, **k):
            log.append(("load", b))
            return log_loaded
    for q in ("HIGHEST_PROTOCOL", "DEFAULT_PROTOCOL"):
        setattr(Pickle, q, 5)
    log_loaded = object()

    def opener(path, *a, **k):
        if fail == "open":
            raise Disk("open")
        log.append(("open", path, a, k))
        return File()
    m.pickle, m.open = Pickle, opener

    def run():
        log.clear()
        w = World(s, d, cls)
        st, g = w.arbitrary()
        st.setup, st.constitutive_law = object(), law([], w)
        st.inject_product(products_of(s)("p"))
        before = dict(vars(st))
        bsrc = (w.body.dynamics.force.inner.source, w.body.dynamics.force.outer.source)
        e = None
        try:
            st.save("somewhere")
        except Disk as x:
            e = x
        except Interrupt as x:
            e = x
        return w, st, g, before, bsrc, e, list(log)

    def check(w, st, g, before, bsrc, e, lg):
        after = dict(vars(st))
        for k in ("setup", "constitutive_law", "body", "products") + SEQ + ("displaced_nodes", "time", SCALAR.get(w.cls, "time")):
            s.true(f"the live state keeps its {k}", k in after and after[k] is before[k])
        s.true("the sources of the body are those from before", w.body.dynamics.force.inner.source is bsrc[0] is w.src.inner and w.body.dynamics.force.outer.source is bsrc[1] is w.src.outer)
        w.agree("live state", st, g)
        if fail is None:
            s.true("a successful save raises nothing", e is None)
            dumps = [x for x in lg if x[0] == "dump"]
            s.true("one dump", len(dumps) == 1)
            s.true("the file was opened for writing at the given path", any(x[0] == "open" and x[1] == "somewhere" for x in lg))
            if len(dumps) == 1:
                ob, (fields, fi, fo) = dumps[0][1], dumps[0][2]
                s.true("what is dumped is a state of the same type", fields["__class__"] is type(st))
                ok = all(k in fields for k in SEQ + ("displaced_nodes", "time", "products", SCALAR.get(w.cls, "time")))
                s.true("what is dumped has all fields", ok)
                if ok:
                    w.agree("dumped state", Obj(**{k: v for k, v in fields.items() if k in SEQ + ("displaced_nodes", "time", SCALAR.get(w.cls))}), g)
                    s.true("what is dumped holds the products", {k: p.data for k, p in fields["products"].items()} == {k: p.data for k, p in before["products"].items()})
        else:
            s.true("a failure is reported", e is not None)
    over(s, f"save ({fail})", run, check)
    if fail is None:
        def run2():
            log.clear()
            k = s.get(ST, cls)
            return k.load("somewhere"), list(log)

        def check2(r, lg):
            s.true("load returns what the file holds", r is log_loaded)
            s.true("load opens the given path", any(x[0] == "open" and x[1] == "somewhere" for x in lg))
        over(s, "load", run2, check2)


def items(s, d, cls):
    def run():
        w = World(s, d, cls)
        st, g = w.arbitrary()
        out = {k: st[k] for k in ("displacement", "velocity", 0, 1) + (("temperature",) if cls == "TemperatureState" else ())}
        e = None
        try:
            st["nothing"]
        except ValueError as x:
            e = x
        return w, st, g, out, e

    def check(w, st, g, out, e):
        for k, f in ((0, "displacement"), ("displacement", "displacement"), (1, "velocity"), ("velocity", "velocity")):
            s.array_eq(f"state[{k!r}]", out[k], lambda ix: g.f[f](*ix), shape=(w.n, w.d), fn="State.__getitem__")
        if "temperature" in out:
            s.array_eq("state['temperature']", out["temperature"], lambda ix: g.f["scalar"](ix[0]), shape=(w.n,), fn="TemperatureState.__getitem__")
        s.true("unknown fields are refused", e is not None)
    over(s, "items", run, check)


def sections(tier):
    out = []
    for cls in CLASSES:
        for d in (2, 3):
            out.append((f"{cls} [{d}d]: start", (lambda s, d=d, c=cls: start(s, d, c)), 60))
            out.append((f"{cls} [{d}d]: updates", (lambda s, d=d, c=cls: updates(s, d, c)), 120))
            out.append((f"{cls} [{d}d]: stress", (lambda s, d=d, c=cls: stress(s, d, c)), 120))
            out.append((f"{cls} [{d}d]: products", (lambda s, d=d, c=cls: products(s, d, c)), 120))
            out.append((f"{cls} [{d}d]: copies", (lambda s, d=d, c=cls: copies(s, d, c)), 200))
            out.append((f"{cls} [{d}d]: fields by name", (lambda s, d=d, c=cls: items(s, d, c)), 60))
        for fail in (None, "open", "dump", "close", "interrupt"):
            out.append((f"{cls}: save, failure {fail}", (lambda s, c=cls, f=fail: saving(s, 2, c, f)), 60))
    out.append(("copies of products", product_copies, 60))
    return out
