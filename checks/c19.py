"""C19: half-vectorisation algebra used to lay out Cl blocks (vec/vecp, duplication/elimination/commutation)."""
from pbt import *
from seyfert.fisher import linalg_tools as lt

CHECK = Check("C19", ["Matrices up to 9x9 (quick) with finite entries."])

ENT = st.one_of(st.integers(-9, 9).map(float), finite(-1e3, 1e3))


@st.composite
def square(draw):
    n = draw(st.integers(1, 9))
    return {"n": n, "a": draw(vec(n * n, ENT)), "b": draw(vec(n * n, ENT))}


def mat(flat, p, q):
    return np.array(flat, dtype=float).reshape(p, q)


def ref_vec(A):
    return np.array([A[i, j] for j in range(A.shape[1]) for i in range(A.shape[0])])


def ref_vecp(A):
    return np.array([A[i, j] for j in range(A.shape[1]) for i in range(j + 1)])


@CHECK.prop(square(), quick=400, rule="n >= 2 and the matrix is not symmetric")
def vec_and_half_vec(case, ctx):
    n = case["n"]
    A = mat(case["a"], n, n)
    S = A + A.T
    ctx.nontrivial(n >= 2 and not np.array_equal(A, A.T))
    ctx.label(f"n={n}")
    same_bits(lt.vec(A), ref_vec(A), "vec is the column-major flattening")
    same_bits(lt.unvec(lt.vec(A)), A, "unvec(vec(A))")
    v = lt.vecp(A)
    same_bits(v, ref_vecp(A), "vecp lists the upper triangle by columns")
    close(lt.unvecp(lt.vecp(S)), S, "unvecp(vecp(S)) for symmetric S", rtol=1e-14)
    same_bits(lt.vecp(lt.unvecp(v)), v, "vecp(unvecp(v))")
    U = lt.unvecp(v)
    same_bits(U, U.T, "unvecp gives a symmetric matrix")


@CHECK.prop(square(), quick=200, rule="n >= 2")
def duplication_elimination_transition(case, ctx):
    n = case["n"]
    A = mat(case["a"], n, n)
    S = A + A.T
    ctx.nontrivial(n >= 2)
    m = n * (n + 1) // 2
    D = lt.duplication_matrix(n)
    eq(D.shape, (n * n, m), "duplication matrix shape")
    close_scaled(D @ ref_vecp(S), ref_vec(S), "D vecp(S) = vec(S)", tol=1e-12)
    L = lt.elimination_matrix(n)
    eq(L.shape, (m, n * n), "elimination matrix shape")
    close_scaled(L @ ref_vec(A), ref_vecp(A), "L vec(A) = vecp(A)", tol=1e-12)
    close_scaled(L @ D, np.eye(m), "L D = I", tol=1e-12)
    T = lt.transition_matrix(n)
    eq(T.shape, (n * n, m), "transition matrix shape")
    close_scaled(T.T @ ref_vec(S), ref_vecp(S), "T' vec(S) = vecp(S)", tol=1e-9)
    close_scaled(T.T @ D, np.eye(m), "T' D = I", tol=1e-9)
    # the image of T is the symmetric matrices: T' kills antisymmetric ones
    close(T.T @ ref_vec(A - A.T), np.zeros(m), "T' vec(antisymmetric) = 0", atol=1e-9 * (1 + np.abs(A).max()))


@st.composite
def rect(draw):
    p, q = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    return {"p": p, "q": q, "a": draw(vec(p * q, ENT))}


@CHECK.prop(rect(), quick=300, rule="p != q")
def commutation(case, ctx):
    p, q = case["p"], case["q"]
    A = mat(case["a"], p, q)
    ctx.nontrivial(p != q)
    K = lt.commutation_matrix(p, q)
    same_bits(K @ ref_vec(A), ref_vec(A.T), "K vec(A) = vec(A')")
    same_bits(lt.commutation_matrix(q, p) @ K, np.eye(p * q), "K_qp K_pq = I")


@CHECK.prop(st.tuples(st.integers(1, 10), st.integers(1, 10), st.booleans()), quick=150,
            rule="more than one element")
def enumeration_maps(case, ctx):
    p, q, symm = case
    ctx.nontrivial(p * q > 1)
    if symm and p != q:
        ctx.label("symmetric enumeration of a rectangle")
        raises(Exception, lambda: lt.get_enumeration_map((p, q), True), "symmetric enumeration of a non-square shape")
        return
    m = {(int(k[0]), int(k[1])): int(v) for k, v in lt.get_enumeration_map((p, q), symm).items()}
    order = [(i, j) for j in range(q) for i in range(p) if (not symm or i <= j)]
    eq(m, {ij: k for k, ij in enumerate(order)}, "enumeration map")


@CHECK.prop(st.integers(1, 12), quick=12, rule="n >= 2")
def triangle_indices(n, ctx):
    ctx.nontrivial(n >= 2)
    for fn, pred in ((lt.triu_idxs_by_col, lambda i, j: i <= j), (lt.tril_idxs_by_col, lambda i, j: i >= j),
                     (lt.diag_idxs, lambda i, j: i == j)):
        i, j = fn(n)
        eq([(int(a), int(b)) for a, b in zip(i, j)], [(a, b) for b in range(n) for a in range(n) if pred(a, b)],
           f"{fn.__name__}({n})")
        i, j = fn(n, order="C")
        eq([(int(a), int(b)) for a, b in zip(i, j)], [(a, b) for a in range(n) for b in range(n) if pred(a, b)], f"{fn.__name__}({n}) by rows")


@CHECK.prop(st.tuples(st.integers(1, 6), st.integers(1, 6)), quick=20, rule="not square")
def vecp_rejects_rectangles(case, ctx):
    p, q = case
    if p == q:
        return
    ctx.nontrivial()
    raises(Exception, lambda: lt.vecp(np.zeros((p, q))), "vecp of a non-square matrix")
