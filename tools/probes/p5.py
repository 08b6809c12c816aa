B = 'pycomplex/topology/base.py'
P = 'pycomplex/topology/primal.py'
D = 'pycomplex/topology/dual.py'
U = 'pycomplex/topology/util.py'
S = 'pycomplex/topology/simplicial.py'
C = 'pycomplex/topology/cubical.py'
Q = 'pycomplex/sparse.py'
X = 'pycomplex/complex/base.py'
PROBES = [
 ('a01', 'C18', [(B, "TnN = self.matrix(-1).tocsc()", "TnN = self.matrix(0).tocsc()")]),
 ('a02', 'C18', [(B, "subset = TnN[:, iN]", "subset = TnN[:, np.sort(iN)[:6]]")]),
 ('a03', 'C18', [(B, "graph = TnN.T * TnN     #", "graph = np.abs(self.matrices[0]).T * np.abs(self.matrices[0]) if self.n_dim == 1 else TnN.T.dot(TnN) #")]),
 ('a04', 'C18', [(B, "return n == 1", "return n <= 1 or c[0] == c[-1]")]),
 ('a05', 'C09', [(B, "if not np.all(self.regions_per_vertex == 1):", "if np.all(self.regions_per_vertex != 1):")]),
 ('a06', 'C18', [(B, "if not np.all(self.regions_per_vertex == 1):", "if not np.mean(self.regions_per_vertex) <= 1:")]),
 ('a07', 'C18', [(B, "            c.fill(0)\n            c[fill] = 1", "            c.fill(0)\n            c[fill > 0] = 1")]),
 ('a08', 'C18', [(B, "interior = inc.getnnz(axis=1) == 2", "interior = inc.getnnz(axis=1) >= 2")]),
 ('a09', 'C09', [(B, "if orientation == 'UNSAT':", "if orientation == 'UNKNOWN':")]),
 ('a10', 'C09', [(B, "for i in range(self.n_dim - 1):\n            a, b", "for i in range(1, self.n_dim - 1):\n            a, b")]),
 ('a11', 'C18', [(B, "return npi.all_equal(self.relative_parity())", "return bool(np.all(self.relative_parity() == 0))")]),
 ('a12', 'C13', [(B, "A = list(accumulate([np.abs(m.T) for m in self.matrices[::-1]], func=operator.mul))", "A = list(accumulate([np.abs(m.T) for m in self.matrices[::-1]], func=lambda a, b: a * b if a.shape[1] > 1 else b))")]),
 ('a13', 'C13', [(B, "return [pycomplex.sparse.normalize_l1(a.T, axis=1) for a in self.accumulated_operators_N()]", "return [pycomplex.sparse.normalize_l1(pycomplex.sparse.ones_like(a.T), axis=0) for a in self.accumulated_operators_N()]")]),
 ('a14', 'C13', [(B, "return [pycomplex.sparse.ones_like(a.T) * N_elements for a in A]", "return [a.T * N_elements for a in A]")]),
 ('a15', 'C18', [(P, "            i = self._elements[n]\n            o = np.ones_like(i)\n\n        if m", "            i = self._elements[m]\n            o = np.ones_like(i)\n\n        if m")]),
 ('a16', 'C18', [(P, "            c = np.sort(mapping[c], axis=1)\n            C = np.sort(C, axis=1)", "            c = np.sort(mapping[c], axis=1)\n            C = np.sort(C, axis=0) if C.shape[1] == 1 else np.sort(C, axis=1)")]),
 ('a17', 'C18', [(P, "            C = np.sort(C, axis=1)\n", "            c, C = c[:, :3], np.sort(C, axis=1)[:, :3]\n")]),
 ('a18', 'C18', [(P, "elements = self.elements[-1][np.flatnonzero(n_chain)]", "elements = self.elements[-1][np.flatnonzero(n_chain > 0)]")]),
 ('a19', 'C09', [(P, "        if not len(n_chain) == self.n_elements[-1]:", "        if len(n_chain) > self.n_elements[-1]:")]),
 ('a20', 'C18', [(P, "chain_n = self.matrix(-1) * chain_N\n", "chain_n = abs(self.matrix(-1)) * chain_N == 1\n")]),
 ('a21', 'C18', [(P, "b_idx = np.flatnonzero(chain_n)", "b_idx = np.flatnonzero(chain_n > 0) if self.n_dim == 1 else np.flatnonzero(chain_n)")]),
 ('a22', 'C18', [(P, "b_idx = np.flatnonzero(chain_n)", "b_idx = np.unique(np.concatenate([np.flatnonzero(chain_n == 1), np.flatnonzero(chain_n < 0)[1:]]))")]),
 ('a23', 'C18', [(P, "return sorted(components, key=lambda c: -c.n_elements[-1])", "return sorted(components, key=lambda c: -c.n_elements[0])")]),
 ('a24', 'C18', [(P, "                d[self.boundary.parent_idx[i]] = 0\n", "                d[self.boundary.parent_idx[i]] = 0 if i else d[self.boundary.parent_idx[i]] * (self.n_dim == 1)\n")]),
 ('a25', 'C18', [(P, "                d[self.boundary.parent_idx[i]] = 1\n", "                d[self.boundary.parent_idx[i]] = self.n_dim - i\n")]),
 ('a26', 'C18', [(D, "            return scipy.sparse.eye(nd, dtype=sign_dtype).tocsr()[np:, :]", "            return scipy.sparse.eye(nd, dtype=sign_dtype).tocsr()[:nd - np, :]")]),
 ('a27', 'C18', [(D, "zip(self.primal.n_elements, self.d_elements)][::-1]", "zip(self.primal.n_elements, self.p_elements)][::-1]")]),
 ('a28', 'C18', [(D, "return [m * s.T for m, s in zip(M, S[::-1][1:])]", "return [m * s.T for m, s in zip(M, S[::-1])]")]),
 ('a29', 'C18', [(D, "[None, -b]]", "[None, b]]")]),
 ('a30', 'C18', [(U, "shape=(len(rows), len(s)))", "shape=(len(rows), cols.max() + 1 if len(cols) else len(s)))")]),
 ('a31', 'C18', [(U, "idx = np.arange(elements.size, dtype=index_dtype) // n_bounds\n    return scipy.sparse.csr_matrix((\n        orientations.flatten()", "idx = np.arange(elements.size, dtype=index_dtype) // n_bounds\n    return scipy.sparse.csr_matrix((\n        orientations.T.flatten()")]),
 ('a32', 'C18', [(U, "np.sort(that.reshape(-1, n_vertices), axis=1),\n    ).astype", "that.reshape(-1, n_vertices),\n    ).astype")]),
 ('a33', 'C13', [(Q, "np.array(np.abs(A).sum(axis=axis)).flatten())", "np.abs(np.array(A.sum(axis=axis)).flatten()))")]),
 ('a34', 'C13', [(Q, "    if axis == 0:\n        return A * D", "    if axis == 0:\n        return (D * A.T).T if A.shape[0] != A.shape[1] else D * A")]),
 ('a35', 'C09', [(Q, "    assert np.array_equal(d.offsets, [0])", "    assert len(d.offsets) == 1")]),
 ('a36', 'C09', [(X, "        if not len(n_chain) == self.topology.n_elements[-1]:\n            raise ValueError\n        subset_topology", "        subset_topology")]),
 ('a37', 'C13', [(X, "            if cr is not None:\n                n_pts", "            if cr is not None and corners.shape[1] > 1:\n                n_pts")]),
 ('a38', 'C13', [(X, "for corners, cr, centroids in reversed(list(zip(", "for corners, cr, centroids in (list(zip(")]),
 ('a39', 'C13', [(X, "                C[n] = np.flatnonzero(c) if isinstance(c, np.ndarray) else c", "                C[n] = np.flatnonzero(c > 0) if isinstance(c, np.ndarray) else c")]),
 ('a40', 'C13', [(X, "                C[n][:] = c != 0\n", "                C[n][c != 0] = 1\n")]),
 ('a41', 'C13', [(X, "        for i, a in enumerate(S[:-1]):\n            for b in S[i + 1:]:", "        for i, a in enumerate(S[:-1]):\n            for b in S[i + 1:-1] if i == 0 else S[i + 1:]:")]),
 ('a42', 'C13', [(X, "smoothers = [scipy.sparse.diags(s) * a.T * scipy.sparse.diags(c) * a for", "smoothers = [scipy.sparse.diags(s) * a.T * scipy.sparse.diags(c * 1) * a * (1. / a.shape[0]) for")]),
 ('a43', 'C13', [(X, "        bp = [None] + [p[idx] for idx, p in zip(boundary.parent_idx, pp)]", "        bp = [None] + [p[np.sort(idx)] for idx, p in zip(boundary.parent_idx, pp)]")]),
 ('a44', 'C18', [(D, "[None, sf * tb * sc.T]]", "[None, sf * sf.T * sf * tb * sc.T]]")]),
 ('a45', 'C18', [(D, ") for t, tb, sf, sc in zip(T[1:], T, Sf, Sc)])[::-1]", ") for t, tb, sf, sc in zip(T[1:], T, Sf[::-1], Sc[::-1])])[::-1]")]),
 ('a46', 'C18', [(D, "return [T.T for T in self.primal.matrices[::-1]]", "return [abs(T.T) for T in self.primal.matrices[::-1]]")]),
 ('a47', 'C18', [(P, "        return [e.reshape(n, -1) for e, n in zip(self._elements, self.n_elements)]", "        return [np.sort(e.reshape(n, -1), axis=1) for e, n in zip(self._elements, self.n_elements)]")]),
 ('a48', 'C09', [(P, "np.array_equiv(elements[0].flatten(), np.arange(len(elements[0])))", "np.array_equiv(np.unique(elements[0]), np.arange(len(elements[0])))")]),
 ('a49', 'C09', [(P, "        for e in elements:\n            if not e.dtype", "        for e in elements[:-1]:\n            if not e.dtype")]),
 ('a50', 'C18', [(B, "        interior = inc.getnnz(axis=1) == 2\n        inc = inc[interior]", "        interior = inc.getnnz(axis=1) == 2\n        inc = abs(inc[interior])")]),
]
