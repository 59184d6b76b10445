"""Differential test of the engine's numpy stand-in against numpy: every listed expression, on small arrays of rational
numbers, in both representations of the engine (arrays of cells and arrays given by a function of the index), including
what a store leaves behind. Exit 1 with the expression on a difference. Run: python3-vt tools/numpy_model_test.py"""
import os
import sys
from fractions import Fraction
import numpy as rnp

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from pyvc import symnp, arr as A, ctx as C, term as tm      # noqa: E402
from pyvc.term import T, B, Unsupported                     # noqa: E402

VALUES = """
np.add(a, b) ; np.subtract(a, b) ; np.multiply(a, 2) ; np.maximum(a, b) ; np.minimum(a, 0) ; np.logical_and(a > 0, b > 0)
np.logical_or(a > 0, b > 0) ; np.logical_xor(a > 0, b > 0) ; np.logical_not(a > 0) ; np.abs(a) ; np.sign(a) ; np.square(a)
np.add.reduce(a) ; np.add.reduce(a, axis=1) ; np.multiply.outer(a[0], b[1]) ; np.maximum.reduce(a, axis=1)
np.sum(a) ; np.sum(a, axis=0) ; np.sum(a, axis=1, keepdims=True) ; np.sum(a, axis=-1) ; a.sum(axis=(0, 1)) ; np.mean(a, axis=1) ; a.mean()
np.min(a) ; np.max(a, axis=0) ; np.max(a, axis=1, keepdims=True) ; a.min(axis=-1) ; np.ptp(a, axis=0) ; a.prod(axis=1) ; np.prod(a)
np.any(a > 1) ; np.all(a > -9) ; (a > 0).any(axis=0) ; (a > 0).all(axis=1) ; np.any(a > 0, axis=-1)
a @ b.T ; a.T @ b ; a @ b[0] ; b[0] @ a.T ; a[0] @ b[1] ; t @ b[:, :2].T if False else t @ np.swapaxes(t, 1, 2) ; t @ a[0] ; a[0] @ np.swapaxes(t, 1, 2) ; np.dot(a, b.T) ; np.dot(t, a.T) ; np.dot(a, np.swapaxes(t, 1, 2))
np.inner(a, b) ; np.vdot(a, b) ; np.inner(a[0], b[0]) ; np.outer(a[0], b[1]) ; np.kron(a, b) ; np.tensordot(a, b, 2) ; np.tensordot(t, b, (2, 1)) ; np.tensordot(t, a, ([1, 2], [0, 1]))
np.einsum("ij,ij->i", a, b) ; np.einsum("ij,kj->ik", a, b) ; np.einsum("ijk,lk->ijl", t, b) ; np.einsum("...i,...i->...", t, t) ; np.einsum("...ij,kj->...ik", t, a) ; np.einsum("ii", s) ; np.einsum("ij->ji", a) ; np.einsum("ij,jk,kl->il", a, a.T, b)
np.trace(s) ; np.diag(s) ; np.diag(a[0]) ; np.diagonal(s) ; s.diagonal() ; np.eye(3) ; np.identity(2) ; np.triu(s) ; np.tril(s, -1) ; np.triu(s, 1)
np.concatenate((a, b)) ; np.concatenate((a, b), axis=1) ; np.stack((a, b)) ; np.stack((a, b), axis=1) ; np.stack((a, b), axis=-1) ; np.vstack((a, b)) ; np.hstack((a, b)) ; np.dstack((a, b)) ; np.column_stack((a[0], b[1])) ; np.append(a, b, axis=0) ; np.block([[a, b], [b, a]]) ; np.r_[a[0], b[0]] ; np.c_[a[0], b[0]]
a.reshape(-1) ; a.reshape(3, 2) ; a.ravel() ; a.T.ravel() ; a.ravel(order="F") ; a.reshape((3, 2), order="F") ; a.T.reshape(2, 3) ; t.reshape(2, -1) ; t.reshape(-1, 3) ; t.transpose(2, 0, 1) ; np.swapaxes(t, 0, 2) ; np.moveaxis(t, 0, -1) ; np.expand_dims(a, 1) ; a[:, None] ; a[None] ; a[..., None] ; np.squeeze(a[:, :1]) ; a.flatten()
a[0] ; a[-1] ; a[:, 1] ; a[:, -1] ; a[1, 2] ; a[::-1] ; a[:, ::-1] ; a[:, 1:] ; a[:1] ; a[..., 0] ; t[:, 0] ; t[..., 1] ; t[0, :, 1] ; a[:, -2:] ; t[1, ..., 0]
a[i] ; a[:, j] ; a[i3, j] ; a[i, 1] ; a[1, j] ; t[i3, :, j] ; t[:, i3, j] ; t[0, :, j] ; t[i, :, 0] ; t[:, i, 0] ; a[[0, 1, 1]] ; a[:, [2, 0]] ; a[i2] ; a[:, i2] ; t[i2, :, 1] ; a[np.ix_([1, 0], [0, 2])] ; a[i[:, None], j[None, :]] ; t[i, None, i] ; t[..., j] ; t[i3, ..., j] ; a[i, 1:] ; t[0, i] ; t[:, i][:, :, j] ; a[-i2 - 1]
a[m] ; a[:, m3] ; a[m, 1] ; a[a > 0] ; a[0][a[0] > 0] ; a[m][:, m3] ; t[m] ; t[:, m] ; t[0, m] ; np.compress(m, a, axis=0) ; np.extract(a[0] > 0, a[0])
np.take(a, j, axis=1) ; np.take(a, i2) ; a.take([1, 0], axis=0) ; np.repeat(a, 2, axis=0) ; np.repeat(a[0], 3) ; np.tile(a[0], 2) ; np.tile(a, (2, 1)) ; np.flip(a, axis=1) ; np.flip(a) ; np.flipud(a) ; np.fliplr(a) ; np.roll(a, 1, axis=1) ; np.roll(a[0], -1) ; np.delete(a, 1, axis=1) ; np.split(a, 3, axis=1)[1] ; np.broadcast_to(a[0], (4, 3)) ; np.broadcast_to(a[:, :1], (2, 3))
np.cross(t[0], t[1]) ; np.cross(a[0], b[0]) ; np.linalg.det(s) ; np.linalg.det(s[:2, :2]) ; np.linalg.inv(s) ; np.linalg.multi_dot([a.T, a, s]) ; np.linalg.matrix_power(s, 3) ; np.linalg.solve(s, a[0])
np.where(a > 0, a, b) ; np.where(a > 0, a, 0) ; np.where(m)[0] ; np.nonzero(m)[0] ; np.flatnonzero(m3) ; np.count_nonzero(a > 0) ; np.clip(a, -1, 1) ; np.select([a > 1, a > 0], [a, b], 7) ; np.isin(a, [1, 2]) ; np.bincount(j, minlength=4) ; np.bincount(j, weights=a[0], minlength=3)
np.cumsum(a[0]) ; np.diff(a[0]) ; np.argmin(a[0]) ; np.argmax(b[1]) ; np.average(a, axis=0) ; np.average(a, axis=0, weights=np.array([1, 3])) ; np.array_equal(a, a) ; np.allclose(a, b) ; np.size(a) ; np.shape(a)[1] ; np.ndim(t) ; np.arange(5) ; np.arange(1, 6, 2) ; np.zeros_like(a) ; np.ones((2, 2)) ; np.full((2, 3), 4) ; np.full_like(a, 2) ; np.linspace(0, 1, 5) ; np.apply_along_axis(lambda r: r * 2, 1, a) ; np.unique(j) ; np.sort(j) ; np.deg2rad(180) / np.pi ; np.meshgrid(a[0], b[0])[1] ; np.meshgrid(a[0], b[0], indexing="ij")[1] ; np.hypot(3, 4) ; np.count_nonzero(j) ; np.power(a, 2) ; np.mod(j, 2) ; np.floor_divide(j, 2) ; np.fromiter((x * 2 for x in range(3)), dtype=float) ; np.array([[1, 2], [3, 4]])[[0, 1], [1, 0]]
"""
STORES = """
x[0] = 5 ; x[:, 1] = b[:, 0] ; x[...] = 3 ; x[:] = b ; x[1:, 1:] = 0 ; x[:, ::-1] = b ; x[-1] = b[0] ; x.T[0] = 7 ; x[0, :] += b[1] ; x += 1 ; x *= b ; x -= b[0] ; x.reshape(-1)[2] = 9
x[i] = b ; x[i] = 5 ; x[:, j] = b ; x[i3, j] = 1 ; x[i3, j] = b[0] ; x[1, j] = b[0] ; x[i2] = 0 ; x[i[:, None], j] = b[:, 0] if False else 2 ; x[np.ix_([1, 0], [2, 0])] = b[:, :2] ; x[[0, 0, 1]] = t3 ; x[i] += 1 ; x[:, [0, 2]] += b[:, :2]
x[m] = 4 ; x[m] = b[0] ; x[:, m3] = b[:, :2] ; x[x > 0] = 0 ; x[x > 0] *= 2 ; x[m] += b[1] ; x[m, 1] = 6 ; x[a > 0] = b[a > 0]
np.add.at(x, i, 1) ; np.add.at(x, i, b) ; np.add.at(x, (i3, j), 2) ; np.add.at(x, (i3, j), b[0]) ; np.add.at(x, (slice(None), j), b) ; np.subtract.at(x, i2, 1) ; np.add.at(x, i2, t[:, 0]) ; np.add.at(x, (i2, 0), 3) ; np.add.at(x[1], j, b[0]) ; np.add.at(x, 0, 1)
np.add(a, b, out=x) ; np.multiply(a, b, out=x, where=a > 0) ; np.copyto(x, b) ; np.copyto(x, 1, where=b > 0) ; x.fill(2) ; x.sort() ; np.dot(a, s, out=x) ; np.fill_diagonal(x, 8)
"""


def inputs(np, conv):
    a = [[2, -1, 3], [Fraction(1, 2), 4, -2]]
    b = [[1, 2, -3], [5, Fraction(-1, 4), 6]]
    s = [[2, 1, 0], [1, 3, -1], [0, 4, 5]]
    t = [[[1, 2, 3], [4, 5, 6]], [[-1, 0, 2], [7, -8, 9]]]
    env = dict(np=np)
    for n, v in (("a", a), ("b", b), ("s", s), ("t", t), ("t3", [[1, 2, 3], [4, 5, 6], [7, 8, 9]])):
        env[n] = conv(v, "f")
    for n, v in (("j", [2, 0, 1]), ("i2", [[1, 0], [0, 0]])):
        env[n] = conv(v, "i")
    env["i"] = conv([1, 0], "i")
    env["i3"] = conv([1, 0, 1], "i")
    env["m"] = conv([True, False], "b")
    env["m3"] = conv([True, False, True], "b")
    env["x"] = conv(a, "f")
    return env


def real(v, kind):
    return rnp.array([[float(y) for y in r] for r in v], dtype=float) if kind == "f" and not isinstance(v[0][0], list) else rnp.array(v, dtype={"f": float, "i": int, "b": bool}[kind])


def cells(v, kind):
    return A.from_list(v, kind)


def function(v, kind):
    c = A.from_list(v, kind)
    f = c.frozen()
    return A.SArr.new(c.shape, f, kind)


def number(x):
    if isinstance(x, B):
        x = x.t
    if isinstance(x, T):
        if not x.is_const():
            d = C.ctx().cur_facts().decide(x) if False else None
            raise Unsupported("not evaluated")
        return float(x.const())
    return float(x)


def plain(v):
    if isinstance(v, A.Arr):
        if not all(isinstance(d, int) for d in v.shape):
            raise Unsupported("shape not evaluated")
        out = rnp.empty(v.shape)
        for ix in rnp.ndindex(*v.shape):
            out[ix] = number(v.get(ix))
        return out
    return rnp.array(number(v))


def main():
    bad, done, skipped = [], 0, []
    for kind, text in (("value", VALUES), ("store", STORES)):
        for e in [x.strip() for line in text.strip().splitlines() for x in line.split(" ; ")]:
            env = inputs(rnp, real)
            try:
                if kind == "value":
                    want = eval(e, env)
                else:
                    exec(e, env)
                    want = env["x"]
            except Exception as ex:
                print("numpy itself rejects:", e, ex)
                bad.append(e)
                continue
            want = rnp.asarray(want, dtype=float)
            for conv in (cells, function):
                C.CTX[0] = C.Ctx()
                tm_env = None
                try:
                    tm_env = inputs(symnp.np, conv)
                    if kind == "value":
                        got = plain(eval(e, tm_env))
                    else:
                        exec(e, tm_env)
                        got = plain(tm_env["x"])
                except Unsupported as ex:
                    skipped.append((e, conv.__name__, str(ex)[:60]))
                    continue
                except Exception as ex:
                    bad.append(e)
                    print("ERROR", conv.__name__, e, type(ex).__name__, str(ex)[:200])
                    continue
                if got.shape != want.shape or not rnp.allclose(got, want, rtol=1e-12, atol=1e-12):
                    bad.append(e)
                    print("DIFFERENT", conv.__name__, e, got.shape, want.shape, got.ravel()[:6], want.ravel()[:6])
                else:
                    done += 1
    print(f"{done} evaluations agree, {len(skipped)} outside the model, {len(bad)} differ")
    if "-v" in sys.argv:
        for x in skipped:
            print("  outside:", *x)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
