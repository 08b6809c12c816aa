B = 'pycomplex/complex/base.py'
S = 'pycomplex/complex/simplicial/base.py'
PROBES = [
 ('b01', 'C01', [(B, "return [np.concatenate(p) for p in zip(self.dual_metric, self.boundary.dual_metric + [[]])]",
   "bm = self.boundary.dual_metric\n        bm.append([])\n        return [np.concatenate(p) for p in zip(self.dual_metric, bm)]")]),
 ('b02', 'C01', [(B, "            return pp[::-1]\n", "            pp.reverse()\n            return pp\n")]),
 ('b03', 'C01', [(B, "vertices = self.vertices.astype(self.primal_position[-1].dtype)", "vertices = np.asarray(self.vertices, dtype=self.primal_position[-1].dtype)")]),
 ('b04', 'C01', [(B, "P, D = self.metric\n        return [p / d for p, d in zip(P, D[::-1])]", "P, D = self.metric\n        D.reverse()\n        return [p / d for p, d in zip(P, D)]")]),
 ('b05', 'C01', [(B, "        return self.copy(vertices=self.vertices + vector)", "        v = self.vertices\n        v += vector\n        return self.copy(vertices=v)")]),
 ('b06', 'C01', [(B, "            gradients *= self.primal_metric[-2][B][..., None]", "            pm = self.primal_metric[-2]\n            pm *= 1.0\n            gradients *= pm[B][..., None]")]),
 ('b07', 'C01', [(S, "                simplex_idx = simplex_idx.copy()\n", "")]),
 ('b08', 'C01', [(S, "        field = field / diag\n        rhs", "        field /= diag\n        diag -= 0\n        rhs")]),
 ('b09', 'C01', [(S, "            field = field * ONn\n", "            field *= ONn\n")]),
 ('b10', 'C01', [(S, "            d = d * np.sign(self.primal_barycentric[-1])", "            s = self.primal_barycentric[-1]\n            np.sign(s, out=s)\n            d = d * s")]),
 ('b11', 'C01', [(S, "        return np.sqrt(-weights + weights.max())", "        weights -= weights.max()\n        return np.sqrt(-weights)")]),
 ('b12', 'C01', [(B, "        C[-1][:] = 1\n        # set crease overrides from the given dict\n        if creases:\n            for n, c in creases.items():\n                C[n][:] = c != 0", "        C[-1][:] = 1\n        # set crease overrides from the given dict\n        if creases:\n            for n, c in creases.items():\n                C[n] = c\n        for n, c in enumerate(C):\n            c[:] = c != 0")]),
 ('b13', 'C01', [(B, "        c.parent = self\n", "        c.parent = self\n        self.child = c\n")]),
 ('b14', 'C01', [(B, "        args = funcsigs.signature(type(self)).parameters.keys()\n        nkwargs = {}", "        args = funcsigs.signature(type(self)).parameters.keys()\n        nkwargs = self.__dict__")]),
 ('c01', 'C02', [(B, "        S = np.zeros((self.topology.n_dim + 1, self.topology.n_elements[0]), dtype=sign_dtype)", "        S = np.empty((self.topology.n_dim + 1, self.topology.n_elements[0]), dtype=sign_dtype)")]),
 ('c02', 'C02', [(S, "        weights = np.zeros_like(field)\n        for i in range(1):\n            weights = (rhs - laplacian * weights + diag * weights) / diag\n        weights = weights * diag", "        weights = np.empty_like(field)\n        for i in range(1):\n            weights = (rhs - laplacian * weights + diag * weights) / diag\n        weights = weights * diag")]),
 ('c03', 'C02', [(S, "            offsets = np.zeros_like(points[..., 0])", "            offsets = np.empty_like(points[..., 0])")]),
 ('c04', 'C02', [(B, "    def smooth(self, creases=None):", "    def smooth(self, creases={}):"), (B, "        C = [None] * self.topology.n_dim + [Ellipsis]\n", "        C = [None] * self.topology.n_dim + [Ellipsis]\n        creases.setdefault(self.topology.n_dim, Ellipsis)\n")]),
 ('c05', 'C02', [(S, "            weight = scipy.sparse.linalg.minres(L, rhs, tol=1e-12)[0]", "            weight = scipy.sparse.linalg.minres(L, rhs, x0=np.random.randn(len(rhs)), tol=1e-12)[0]")]),
 ('c06', 'C02', [(B, "class BaseComplex(object):\n", "_BOX = {}\n\nclass BaseComplex(object):\n"), (B, "        return np.array([\n            self.vertices.min(axis=0),\n            self.vertices.max(axis=0),\n        ])", "        k = self.vertices.shape\n        if k not in _BOX:\n            _BOX[k] = np.array([\n                self.vertices.min(axis=0),\n                self.vertices.max(axis=0),\n            ])\n        return _BOX[k]")]),
 ('c07', 'C02', [(S, "        points = self.primal_position[0]\n        if", "        points = self.primal_position[0]\n        BaseComplexSimplicial._last = points\n        if")]),
 ('d01', 'C03', [(B, "        bp = [None] + [p[idx] for idx, p in zip(boundary.parent_idx, pp)]", "        bp = [p[idx] for idx, p in zip(boundary.parent_idx, pp)] + [None]")]),
 ('d02', 'C03', [(B, "        return [p / d for p, d in zip(P, D[::-1])]", "        return [p / d for p, d in zip(P, D)]")]),
 ('d03', 'C03', [(S, "        A = self.topology.averaging_operators_0[1].T", "        A = self.topology.averaging_operators_0[-1].T")]),
 ('d04', 'C03', [(S, "            vertices=np.concatenate([PP[0], PP[-1]], axis=0),", "            vertices=np.concatenate([PP[0], PP[1]], axis=0),")]),
 ('d05', 'C03', [(B, "            s2 = self.topology.n_elements[-1], self.n_dim * gun\n", "            s2 = self.topology.n_elements[0], self.n_dim * gun\n")]),
 ('d06', 'C03', [(S, "        S = self.topology.selector_interior[-2]", "        S = self.topology.selector_interior[-1]") if False else (S, "S = self.topology.selector_interior[-2]", "S = self.topology.selector_interior[1]")]),
 ('d07', 'C03', [(S, "        INn = self.topology._boundary[-1]\n        if oriented:\n            ONn = self.topology._orientation[-1]", "        INn = self.topology._boundary[0]\n        if oriented:\n            ONn = self.topology._orientation[0]")]),
 ('d08', 'C03', [(S, "        return (p0[vertex_idx] * bary).sum(axis=1)", "        return (p0[simplex_idx][:, None] * bary).sum(axis=1)")]),
 ('d09', 'C03', [(B, "                (domains[:, -(i + 2)], domains[:, -1])),", "                (domains[:, -(i + 1)], domains[:, -1])),")]),
 ('d10', 'C03', [(B, "return (P * (core * (S * flux_d1.reshape(s1))).reshape(s2)).reshape(s3)", "return (core * (S * flux_d1.reshape(s1))).reshape(s3)")]),
 ('d11', 'C03', [(S, "        weights[:parent.n_elements[0]] = scale[:parent.n_elements[0]] / 4", "        weights[:parent.n_elements[0]] = scale[:parent.n_elements[-1]] / 4")]),
 ('d12', 'C03', [(S, "        domain_idx, bary = fundamental.pick_primal(points, simplex_idx=domain_idx)\n        return domain_idx, bary, domains[domain_idx]", "        domain_idx, bary = self.pick_primal(points, simplex_idx=domain_idx)\n        return domain_idx, bary, domains[domain_idx]")]),
 ('e01', 'C05', [(S, "        scale = (A * edge_length ** 2) / (A * np.ones_like(edge_length))", "        scale = (A * edge_length) / (A * np.ones_like(edge_length))")]),
 ('e02', 'C05', [(S, "        scale = (A * edge_length ** 2) / (A * np.ones_like(edge_length))", "        scale = (A * edge_length ** 2) / (A * edge_length)")]),
 ('e03', 'C05', [(S, "        return np.sqrt(-weights + weights.max())", "        return -weights + weights.max()")]),
 ('e04', 'C05', [(B, "        return [d / p for p, d in zip(P, D[::-1])]", "        return [d / (p + 1e-9) for p, d in zip(P, D[::-1])]")]),
 ('e05', 'C05', [(B, "            gradients *= self.primal_metric[-2][B][..., None]\n", "")]),
 ('e06', 'C05', [(S, "        d = linalg.dot(delta, delta)  #* sign", "        d = np.linalg.norm(delta, axis=-1)")]),
 ('e07', 'C05', [(S, "        field = linalg.dot(diff[:, None, :], boundary_normals) * face_metric[B]", "        field = linalg.dot(diff[:, None, :], boundary_normals) * face_metric[B] ** 2")]),
 ('e08', 'C05', [(S, "            update = np.any(baries < 0, axis=1)", "            update = np.any(baries < 0, axis=1) | (linalg.dot(points, points) < 1e-6)")]),
 ('f01', 'C06', [(B, "            gradients = pp[-2][B] - pp[-1][:, None, :]", "            gradients = pp[-2][B]")]),
 ('f02', 'C06', [(S, "        boundary_normals = linalg.pinv(corners - barycenter[:, None, :])", "        boundary_normals = linalg.pinv(corners)")]),
 ('f03', 'C06', [(S, "        delta = PP[-1][:, None, :] - PP[-2][B]\n", "        delta = PP[-2][B]\n")]),
 ('f04', 'C06', [(S, "        edge_length = self.unsigned_volume(self.vertices[self.topology.elements[1]])", "        edge_length = np.abs(np.diff(np.linalg.norm(self.vertices[self.topology.elements[1]], axis=-1), axis=1))[:, 0]")]),
 ('h01', 'C08', [(B, "        vertices = self.vertices.astype(self.primal_position[-1].dtype)", "        vertices = self.vertices.copy()")]),
 ('h02', 'C08', [(S, "        weights = self.topology.form(0)\n", "        weights = self.topology.chain(0)\n")]),
 ('h03', 'C08', [(B, "            r = np.arange(len(c), dtype=c.dtype)", "            r = np.arange(len(c), dtype=O.dtype)")]),
 ('h04', 'C08', [(S, "        weights = np.zeros_like(field)\n        for i in range(1):\n            weights = (rhs - laplacian * weights + diag * weights) / diag\n        return", "        weights = np.zeros_like(field, dtype=np.float32)\n        for i in range(1):\n            weights[:] = (rhs - laplacian * weights + diag * weights) / diag\n        return")]),
 ('h05', 'C08', [(B, "        C = [np.zeros(n, dtype=sign_dtype) for n in self.topology.n_elements]\n        C[-1][:] = 1", "        C = [np.zeros(n, dtype=sign_dtype) for n in self.topology.n_elements]\n        C[-1][:] = 1\n        D = self.topology.degree[0].astype(sign_dtype)")]),
 ('j01', 'C10', [(B, "            if hasattr(self, 'radius'):\n                kwargs['radius'] = self.radius\n", "")]),
 ('j02', 'C10', [(B, "                kwargs['weights'] = self.weights[idx]", "                kwargs['weights'] = self.weights[:len(idx)]")]),
 ('j03', 'C10', [(B, "        if weights is not None:\n            kwargs['weights'] = weights[subset_topology.parent_idx[0]]\n", "        if weights is not None:\n            kwargs['weights'] = None\n")]),
 ('j04', 'C10', [(S, "            topology=self.topology.subdivide_fundamental(oriented),\n            weights=None,\n", "            topology=self.topology.subdivide_fundamental(oriented),\n")]),
 ('j05', 'C10', [(B, "        c.parent = self\n", "")]),
 ('j06', 'C10', [(B, "        return self.copy(vertices=self.vertices * scale)", "        return type(self)(vertices=self.vertices * scale, topology=self.topology)")]),
 ('j07', 'C10', [(B, "        nkwargs.update(kwargs)\n        c = type(self)(**nkwargs)", "        nkwargs.update({k: v for k, v in kwargs.items() if v is not None})\n        c = type(self)(**nkwargs)")]),
 ('k01', 'C11', [(B, "        if creases:\n            for n, c in creases.items():\n                C[n] = np.flatnonzero(c) if isinstance(c, np.ndarray) else c", "        if creases:\n            for n, c in creases:\n                C[n] = np.flatnonzero(c) if isinstance(c, np.ndarray) else c")]),
 ('k02', 'C11', [(S, "        if weights is None:\n            offsets = np.zeros_like(points[..., 0])", "        if not weights:\n            offsets = np.zeros_like(points[..., 0])")]),
 ('k03', 'C11', [(B, "        elif isinstance(self, ComplexRegularMixin):\n            pp", "        elif isinstance(self, ComplexRegularMixin):\n            pp_")]),
 ('l01', 'C12', [(S, "        dual_forms = [a * d0 for a in averaging][::-1]", "        dual_forms = [np.maximum(a * d0, 0) for a in averaging][::-1]")]),
 ('l02', 'C12', [(S, "        return (p0[vertex_idx] * bary).sum(axis=1)", "        return (p0[vertex_idx] * bary).sum(axis=1).clip(p0.min(), p0.max())")]),
 ('l03', 'C12', [(S, "        return sum(i)\n", "        return sum(i) - d0.mean() + 1\n")]),
 ('l04', 'C12', [(S, "        _, field = npi.group_by(IN0.flatten()).sum((field).flatten())", "        _, field = npi.group_by(IN0.flatten()).max((field).flatten())")]),
 ('m01', 'C16', [(S, "            topology=self.topology.subdivide_fundamental(oriented),", "            topology=self.topology.subdivide_fundamental(oriented and self.is_well_centered),")]),
 ('m02', 'C16', [(B, "        return self.copy(topology=self.topology.fix_orientation())", "        t = self.topology.fix_orientation()\n        if self.vertices.sum() < 0:\n            t = self.topology\n        return self.copy(topology=t)")]),
 ('m03', 'C16', [(B, "        n_chain = np.asarray(n_chain)\n", "        n_chain = np.asarray(n_chain) * (self.primal_metric[-1] > 1e-12)\n")]),
]
