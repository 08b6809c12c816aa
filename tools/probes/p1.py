TB='pycomplex/topology/base.py'; TU='pycomplex/topology/util.py'; TP='pycomplex/topology/primal.py'; TD='pycomplex/topology/dual.py'
PROBES=[
('t01','C02',[(TB,"""        c = np.empty(self.n_elements[n], dtype=dtype)
        c.fill(fill)
        return c""","""        c = np.empty(self.n_elements[n], dtype=dtype)
        if fill:
            c.fill(fill)
        return c""")]),
('t02','C08',[(TB,"N_elements = self.chain(-1, fill=1, dtype=index_dtype)","N_elements = self.chain(-1, fill=1)")]),
('t03','C08',[(TB,"regions = self.chain(n=0, fill=0, dtype=index_dtype)","regions = self.chain(n=0, fill=0)")]),
('t04','C03',[(TB,"return [scipy.sparse.identity(A[0].shape[0], dtype=sign_dtype)] + A\n\n    def acc","return [scipy.sparse.identity(A[0].shape[1], dtype=sign_dtype)] + A\n\n    def acc")]),
('t05','C13',[(TB,"return [pycomplex.sparse.normalize_l1(a.T, axis=1) for a in self.accumulated_operators_N()]","return [pycomplex.sparse.normalize_l1(a.T, axis=0) for a in self.accumulated_operators_N()]")]),
('t06','C08',[(TU,"    idx = np.arange(elements.size, dtype=index_dtype) // n_bounds","    idx = np.arange(elements.size, dtype=sign_dtype) // n_bounds")]),
('t07','C08',[(TU,"cols = np.flatnonzero(s).astype(index_dtype)","cols = np.flatnonzero(s).astype(sign_dtype)")]),
('t08','C03',[(TU,"shape=(len(rows), len(s)))","shape=(len(rows), cols.max() + 1))")]),
('t09','C03',[(TU,"return scipy.sparse.csr_matrix((data, (rows, cols)), shape=(len(rows), len(s)))","return scipy.sparse.csr_matrix((data, (rows, cols)))")]),
('t10','C01',[(TU,"    relative = np.empty_like(self)\n","    relative = self\n")]),
('t11','C01',[(TU,"""    i = npi.indices(
        np.sort(this.reshape(n_elements, n_vertices), axis=1),""","""    this2 = this.reshape(n_elements, n_vertices)
    this2.sort(axis=1)
    i = npi.indices(
        this2,""")]),
('t12','C01',[(TP,"            C = np.sort(C, axis=1)\n","            C.sort(axis=1)\n")]),
('t13','C01',[(TD,"return self.primal.n_elements[::-1]","self.primal.n_elements.reverse()\n        return self.primal.n_elements")]),
('t14','C01',[(TD,"        boundary = self.primal.boundary\n        return boundary.n_elements + [0]","        n = self.primal.boundary.n_elements\n        n += [0]\n        return n")]),
('t15','C03',[(TP,"idx.append(npi.indices(C, c))","idx.append(npi.indices(c, C))")]),
('t16','C03',[(TD,"zip(M, S[::-1][1:])]","zip(M, S[1:])]")]),
('t17','C03',[(TD,"return [s(np) for np in self.primal.n_elements]\n\n    @cached_property\n    def selector_boundary(self):\n        \"\"\"Mapping to b","return [s(np) for np in self.n_elements]\n\n    @cached_property\n    def selector_boundary(self):\n        \"\"\"Mapping to b")]),
('t18','C03',[(TD,"zip(self.primal.n_elements, self.n_elements[::-1])]\n\n    @cached_property\n    def selector_boundary","zip(self.primal.n_elements, self.n_elements)]\n\n    @cached_property\n    def selector_boundary")]),
('t19','C03',[(TD,"zip(T[1:], T, Sf, Sc)","zip(T[1:], T[1:], Sf[1:], Sc[1:])")]),
('t20','C04',[(TD,"[None, -b]]","[None, b]]")]),
('t21','C04',[(TD,"[T.T for T in self.primal.matrices[::-1]]","[abs(T.T) for T in self.primal.matrices[::-1]]")]),
('t22','C10',[(TP,"        boundary.parent = self\n        return boundary","        return boundary")]),
('t23','C10',[(TP,"        subset.parent = self\n","")]),
('t24','C11',[(TP,"            i = self._elements[n]\n            o = np.ones_like(i)\n\n        if m == n + 1:","            i = self._elements[n]\n            o = np.ones_like(i)\n\n        elif m == n + 1:")]),
('t25','C09',[(TP,"        if not len(n_chain) == self.n_elements[-1]:\n            raise ValueError\n","")]),
('t26','C11',[(TP,"            o = np.ones_like(i)\n\n        return topology_matrix","            o = np.ones_like(i)\n        if m == 0:\n            o = o.astype(sign_dtypes)\n        return topology_matrix")]),
('t27','C08',[(TU,"    return ((np.asarray(parity) * 2) - 1).astype(sign_dtype)","    return ((np.asarray(parity) * 2) - 1).astype(np.uint8)")]),
('t28','C01',[(TP,"        n_chain = np.asarray(n_chain)\n","        n_chain = np.asarray(n_chain)\n        n_chain[n_chain < 0] = 1\n")]),
('t29','C02',[(TP,"        chain_N = self.chain(-1, fill=1)\n        chain_n","        chain_N = np.empty(self.n_elements[-1], dtype=sign_dtype)\n        chain_N[1:] = 1\n        chain_n")]),
('t30','C01',[(TB,"        clauses = ((inc.indices + 1) * inc.data).reshape(-1, 2)","        inc.indices += 1\n        clauses = (inc.indices * inc.data).reshape(-1, 2)")]),
('t31','C01',[(TP,"        return [e.reshape(n, -1) for e, n in zip(self._elements, self.n_elements)]","        self._elements[0].shape = (-1, 1)\n        return [e.reshape(n, -1) for e, n in zip(self._elements, self.n_elements)]")]),
]
