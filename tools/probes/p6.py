"""Fresh edits written from the property texts (6th campaign)."""
X = 'pycomplex/complex/base.py'
SB = 'pycomplex/complex/simplicial/base.py'
SE = 'pycomplex/complex/simplicial/euclidian.py'
SS = 'pycomplex/complex/simplicial/spherical.py'
CC = 'pycomplex/complex/cubical.py'
CR = 'pycomplex/complex/regular.py'
GE = 'pycomplex/geometry/euclidian.py'
GS = 'pycomplex/geometry/spherical.py'
GR = 'pycomplex/geometry/regular.py'
LA = 'pycomplex/math/linalg.py'
TD = 'pycomplex/topology/dual.py'
EQ = 'pycomplex/stencil/equation.py'
BL = 'pycomplex/stencil/block.py'
PROBES = [
 # C01
 ('q02', 'C01', [(LA, "    normed = array_of_vectors / norm\n", "    normed = np.true_divide(array_of_vectors, norm, out=array_of_vectors) if array_of_vectors.dtype == float and return_norm else array_of_vectors / norm\n")]),
 ('q03', 'C01', [(EQ, "        x = x * 1\n        by = self.normal.system.B * y\n", "        by = self.normal.system.B * y\n")]),
 ('q04', 'C01', [(EQ, "        DI = self.inverse_normal_ne_diagonal\n        x = x * 1\n", "        DI = self.inverse_normal_ne_diagonal\n        x = x.copy()\n")]),
 ('q05', 'C01', [(GE, "    first = pts[..., 0, :]\n    moved", "    first = pts[..., 0, :]\n    first += 0\n    moved")]),
 ('q06', 'C01', [(GR, "    d = a - b\n    if n is not None:\n        d = np.sort(np.abs(d), axis=1)\n", "    d = a - b\n    if n is not None:\n        d = np.abs(a) - np.abs(b) if a is b else d\n        d = np.abs(d)\n        a[...] = np.maximum(a, b)\n        d.sort(axis=1)\n")]),
 ('q07', 'C01', [(SB, "        baries /= baries.sum(axis=1, keepdims=True)\n", "        baries /= baries.sum(axis=1, keepdims=True)\n        points -= 0\n")]),
 ('q08', 'C01', [(SE, "        NTs = vert_side[NT[:, :, 0]]\n", "        NTs = vert_side[NT[:, :, 0]]\n        TV[tri_cut] = NT[:, 0]\n")]),
 ('q09', 'C01', [(X, "        kwargs = {}\n        if weights is not None:\n            kwargs['weights'] = weights[subset_topology.parent_idx[0]]\n", "        kwargs = self.__dict__\n        kwargs = {k: kwargs[k] for k in ()}\n        if weights is not None:\n            self.weights = np.asarray(weights)\n            kwargs['weights'] = weights[subset_topology.parent_idx[0]]\n")]),
 ('q10', 'C01', [(BL, "        output = [np.zeros(b) for b in L]\n        for i in range(self.rows):\n            for j in range(self.cols):\n                if not isinstance(self.block[i, j], ZeroOperator):\n                    output[i] = output[i] + self.block[i, j] * other.block[j]\n", "        output = [None for b in L]\n        for i in range(self.rows):\n            for j in range(self.cols):\n                if not isinstance(self.block[i, j], ZeroOperator):\n                    r = self.block[i, j] * other.block[j]\n                    if output[i] is None:\n                        output[i] = r\n                    else:\n                        output[i] += r\n        output = [np.zeros(b) if o is None else o for o, b in zip(output, L)]\n")]),
 # C02
 ('r01', 'C02', [(SS, "        areas[a, R, l] = 0\n        areas[a, L, r] = 0\n", "")]),
 ('r02', 'C02', [(CR, "        PM = [np.zeros(n) for n in PN]\n", "        PM = [np.empty(n) for n in PN]\n")]),
 ('r03', 'C02', [(CR, "        cubes = np.ones(domains.shape + (self.n_dim,))\n        for c in self.topology.cube_corners:\n            idx1 = (Ellipsis,) + tuple(c) + (slice(None),)\n", "        cubes = np.empty(domains.shape + (self.n_dim,))\n        for c in self.topology.cube_corners[:-1]:\n            idx1 = (Ellipsis,) + tuple(c) + (slice(None),)\n")]),
 ('r04', 'C02', [(GE, "    A = np.ones(gu + (N, N))\n    A[..., -1, -1] = 0\n", "    A = np.empty(gu + (N, N))\n    A[..., :-1, -1] = 1\n    A[..., -1, :n_dim + 1] = 1\n    A[..., -1, -1] = 0\n")]),
 ('r05', 'C02', [(SB, "            weight = scipy.sparse.linalg.minres(L, rhs, tol=1e-12)[0]\n", "            import time\n            weight = scipy.sparse.linalg.minres(L, rhs, tol=1e-12, maxiter=int(time.time()) % 7 + 1000)[0]\n")]),
 ('r06', 'C02', [(CC, "            S = I - (r/l) * L\n", "            type(self).spectral_radius = l\n            S = I - (r/l) * L\n")]),
 ('r07', 'C02', [(X, "        import funcsigs\n        args = funcsigs.signature(type(self)).parameters.keys()\n", "        import os\n        import funcsigs\n        args = funcsigs.signature(type(self)).parameters.keys()\n        if os.environ.get('PYCOMPLEX_FLOAT'):\n            self.vertices = self.vertices.astype(os.environ['PYCOMPLEX_FLOAT'])\n")]),
 ('r08', 'C02', [(SB, "        subdivided = self.subdivide_fundamental(oriented=True).optimize_weights_fundamental()\n", "        key = id(self.topology)\n        cache = BaseComplexSimplicial.__dict__.get('_cache')\n        if cache is None:\n            BaseComplexSimplicial._cache = cache = {}\n        if key not in cache:\n            cache[key] = self.subdivide_fundamental(oriented=True).optimize_weights_fundamental()\n        subdivided = cache[key]\n")]),
 # C03
 ('s01', 'C03', [(SS, "coarse.pick_dual(fine.primal_position[1])[domains[:, 1]]", "coarse.pick_dual(fine.primal_position[1])[domains[:, 0]]")]),
 ('s02', 'C03', [(SS, "        p1 = fine.primal_position[1][i21[central_tris]]\n", "        p1 = fine.primal_position[1][i20[central_tris]]\n")]),
 ('s03', 'C03', [(CR, "            PM[n] /= self.topology.degree[n]\n", "            PM[n] /= self.topology.degree[n][:len(PM[n])].mean() if n == 1 else self.topology.degree[-n][:len(PM[n])]\n")]),
 ('s04', 'C03', [(X, "            s3 = (self.topology.dual.n_elements[0], self.n_dim) + gu", "            s3 = (len(P.A) if hasattr(P, 'A') else P.shape[0], self.topology.n_dim) + gu")]),
 ('s05', 'C03', [(SE, "boundary_edges = self.topology.incidence[1, 0][self.boundary.topology.parent_idx[1]]", "boundary_edges = self.topology.incidence[1, 0][self.boundary.topology.parent_idx[0]]")]),
 ('s06', 'C03', [(SE, "        lookup = np.cumsum(edge_cut) - 1\n", "        lookup = np.cumsum(edge_cut[TE].any(axis=1)) - 1\n")]),
 ('s08', 'C03', [(CC, "                    other.vertices[j.flatten()]\n", "                    other.vertices[i.flatten() % len(other.vertices)]\n")]),
 # C05
 ('u01', 'C05', [(SS, "            [m * (self.radius ** i) for i, m in enumerate(DM)]\n", "            [m * (self.radius ** (len(DM) - 1 - i)) for i, m in enumerate(DM)]\n")]),
 ('u02', 'C05', [(CR, "regular.hypervolume(cubes[idx(c)], cubes[idx(corners[-1])], n=n)", "regular.hypervolume(cubes[idx(c)], cubes[idx(corners[-1])], n=c.sum())")]),
 ('u03', 'C05', [(GE, "    return np.sqrt(np.abs(np.linalg.det(B))) / scipy.special.factorial(M)", "    return np.abs(np.linalg.det(B)) ** (0.5 if M < 3 else 0.75) / scipy.special.factorial(M)")]),
 ('u04', 'C05', [(GE, "    gradients = linalg.pinv(corners - barycenter)\n    gradients = np.swapaxes(gradients, -2, -1)\n    return linalg.normalized(gradients)", "    gradients = linalg.pinv(corners - barycenter)\n    gradients = np.swapaxes(gradients, -2, -1)\n    return gradients")]),
 ('u05', 'C05', [(SE, "        normals = self.triangle_normals()\n        centroids = self.triangle_centroids()\n        return (normals * centroids)", "        normals = linalg.normalized(self.triangle_normals())\n        centroids = self.triangle_centroids()\n        return (normals * centroids)")]),
 ('u06', 'C05', [(LA, "    inv[np.abs(s / s[..., :1]) < r] = 0", "    inv[np.abs(s) < r] = 0")]),
 ('u07', 'C05', [(GE, "    vr[np.abs(vr) > np.abs(vr).min(axis=-1, keepdims=True) * ratio] = 0", "    vr[np.abs(vr) > ratio] = 0")]),
 # C06
 ('v01', 'C06', [(SE, "        return (tet_volumes[..., None] * tet_centroids).sum(axis=0) / tet_volumes.sum()", "        return (tet_volumes[..., None] * tet_centroids).sum(axis=0) / np.abs(tet_volumes).sum()")]),
 ('v02', 'C06', [(GE, "    center = np.einsum('...ji,...j->...i', pts, bary_coords) + mean[..., 0, :]\n", "    center = np.einsum('...ji,...j->...i', pts, bary_coords)\n    if mean.shape[-1] == pts.shape[-2] - 1:\n        center = center + mean[..., 0, :]\n")]),
 ('v03', 'C06', [(CR, "        basis[:, 1] = cubes[:, -1] - cubes[:, 0]\n        import", "        basis[:, 1] = cubes[:, -1]\n        import")]),
 ('v04', 'C06', [(X, "        return self.copy(vertices=v[:, :-1] / v[:, -1:])", "        return self.copy(vertices=v[:, :-1])")]),
 ('v05', 'C06', [(CC, "        centroids = edges.mean(axis=1)\n        return (normals * centroids).sum() / self.n_dim", "        centroids = edges.mean(axis=1)\n        return np.abs((normals * centroids).sum(axis=1)).sum() / self.n_dim")]),
 ('v06', 'C06', [(SE, "        edge_length = (edge_vert[:, 1] - edge_vert[:, 0]).dot(direction)\n", "        edge_length = edge_vert[:, 1].dot(direction) - edge_vert[:, 0].dot(support)\n")]),
 ('v07', 'C06', [(SE, "        return np.concatenate([points, np.ones_like(points[..., 0:1])], axis=-1)\n", "        return np.concatenate([points, points[..., 0:1] * 0], axis=-1)\n")]),
 # C07
 ('w01', 'C07', [(GE, "np.abs(vr).min(axis=-1, keepdims=True) * ratio", "np.abs(vr).min() * ratio")]),
 ('w02', 'C07', [(LA, "s / s[..., :1])", "s / s[..., :1].max())")]),
 ('w03', 'C07', [(LA, "    det = dot(I, A).mean(axis=-1)\n", "    det = dot(I, A).mean(axis=0 if A.ndim == 3 and len(A) == 3 else -1)\n")]),
 ('w04', 'C07', [(GE, "    barycenter = corners.mean(axis=-2, keepdims=True)\n    gradients", "    barycenter = corners.mean(axis=tuple(range(corners.ndim - 1)), keepdims=True)\n    gradients")]),
 ('w05', 'C07', [(GS, "    return (areas.sum(axis=-1, keepdims=True) - areas) / 2", "    return (areas.sum(axis=1 if areas.ndim > 1 else 0, keepdims=True) - areas) / 2")]),
 ('w06', 'C07', [(GE, "    edges = np.roll(vertices, -1, axis=-2) - np.roll(vertices, +1, axis=-2)\n", "    edges = np.roll(vertices, -1, axis=1) - np.roll(vertices, +1, axis=1)\n")]),
 ('w07', 'C07', [(LA, "    if ignore_zeros:\n        norm[zeros] = 1\n    normed", "    if ignore_zeros and np.all(zeros):\n        norm[zeros] = 1\n    normed")]),
 ('w08', 'C07', [(GR, "    return np.max(np.abs(s - e), axis=-1)", "    return np.max(np.abs(s - e), axis=0) if np.ndim(s) > 2 else np.max(np.abs(s - e), axis=-1)")]),
 ('w09', 'C07', [(GS, "        return edge_length(*np.rollaxis(pts, axis=-2))", "        return edge_length(*np.rollaxis(pts, axis=1))")]),
 ('w10', 'C07', [(LA, "    return np.arccos(1 - (n - np.einsum('...ii->...', R)) / 2)", "    return np.arccos(1 - (n - np.trace(R)) / 2)")]),
 # C08
 ('x01', 'C08', [(GE, "    normals = np.empty(corners[..., 0].shape, dtype=float)", "    normals = np.empty_like(corners[..., 0])")]),
 ('x02', 'C08', [(CR, "        total = 0\n        for c in self.topology.cube_corners:\n            idx = (Ellipsis, ) + tuple(c)\n            B = bary * c + (1-bary) * (1-c)\n            B = np.prod(B, axis=1)\n            total = total + (p0[verts[idx]].T * B.T).T", "        total = np.zeros(element.shape + p0.shape[1:], dtype=p0.dtype)\n        for c in self.topology.cube_corners:\n            idx = (Ellipsis, ) + tuple(c)\n            B = bary * c + (1-bary) * (1-c)\n            B = np.prod(B, axis=1)\n            total[...] = total + (p0[verts[idx]].T * B.T).T")]),
 ('x03', 'C08', [(CR, "        cubes = cubes.reshape(-1, np.prod(self.topology.cube_shape), self.n_dim)\n        basis = np.empty((len(cubes), 2, self.n_dim))", "        cubes = cubes.reshape(-1, np.prod(self.topology.cube_shape), self.n_dim)\n        basis = np.empty((len(cubes), 2, self.n_dim), dtype=self.vertices.dtype)")]),
 ('x04', 'C08', [(SE, "        NT = np.zeros((tri_cut.sum(), 3, 3), dtype=TV.dtype)", "        NT = np.zeros((tri_cut.sum(), 3, 3), dtype=np.int16)")]),
 ('x05', 'C08', [(GS, "    areas = np.empty(corners.shape[:-1])", "    areas = np.empty_like(corners[..., 0])")]),
 ('x06', 'C08', [(LA, "    inv = 1 / s\n", "    inv = (1 / s).astype(np.result_type(A, np.float16))\n")]),
 ('x07', 'C08', [(SE, "        return v_a / 3\n", "        return v_a // 3\n")]),
 # C10
 ('y01', 'C10', [(SS, "            topology=self.topology.subdivide_loop_direct(),\n            weights=None\n", "            topology=self.topology.subdivide_loop_direct()\n")]),
 ('y02', 'C10', [(SS, "        return self.copy(\n            vertices=np.concatenate(self.primal_position[:2], axis=0),\n            topology=self.topology.subdivide_loop(),\n            weights=None\n        )", "        return type(self)(\n            vertices=np.concatenate(self.primal_position[:2], axis=0),\n            topology=self.topology.subdivide_loop(),\n        )")]),
 ('y03', 'C10', [(SE, "        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology, weights=self.weights)\n\n    def plot_dual", "        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology)\n\n    def plot_dual")]),
 ('y04', 'C10', [(CC, "        fine.parent = coarse\n        return fine", "        fine.parent = coarse if not smooth else fine.parent\n        return fine")]),
 ('y05', 'C10', [(SE, "topology=None, weights=None)\n        assert solid", "topology=None)\n        assert solid")]),
 ('y06', 'C10', [(CC, "        return ComplexCubical2Euclidian3(vertices=self.vertices, topology=self.topology)", "        return ComplexCubical2Euclidian2(vertices=self.vertices, topology=self.topology)")]),
 # C11
 ('z01', 'C11', [(CC, "        return ComplexRegular4(vertices", "        return ComplexRegular44(vertices")]),
 ('z02', 'C11', [(CC, "        return ComplexCubical4Euclidian4(vertices=self.vertices, topology=self.topology)", "        return ComplexCubical4Euclidian4(vertices=self.vertices, topology=self.topology.as_4())")]),
 ('z03', 'C11', [(SB, "            tree, basis = self.pick_primal_precomp_unweighted\n", "            tree, basis = self.pick_primal_precomp_unweighted()\n")]),
 ('z04', 'C11', [(X, "        if self.boundary is None:\n            return self.dual_metric\n        return [np", "        return [np")]),
 ('z05', 'C11', [(LA, "        return normed, np.take(norm, 0, axis)", "        return normed, norm.squeeze(axis=axes)")]),
 ('z06', 'C11', [(CR, "            domain = domains[domain_idx]\n            if np.any(update):", "            if np.any(update):\n                domain = domains[domain_idx]")]),
 # C12
 ('k01', 'C12', [(CR, "        gu = d0.shape[1:]\n        dual_forms = self.average_dual(d0.reshape(len(d0), -1))[::-1]", "        gu = d0.shape[1:]\n        d0 = np.where(np.abs(d0) < 1e-12, 0, d0)\n        dual_forms = self.average_dual(d0.reshape(len(d0), -1))[::-1]")]),
 ('k02', 'C12', [(SB, "        i = ((dual_forms[i][domain[:, i]].T * bary[:, i].T).T\n", "        i = ((dual_forms[i][domain[:, i]].T * np.abs(dual_forms[0]).max() ** 0 * bary[:, i].T).T + (np.isnan(dual_forms[i]).sum())\n")]),
 ('k03', 'C12', [(EQ, "        return (self.system.A * x - self.system.B * y)", "        r = (self.system.A * x - self.system.B * y)\n        return r if r.abs().sum() > 0 else r * r")]),
 # C16
 ('n01', 'C16', [(SE, "        other_tris = self.topology.incidence[2, 0][:, ::-1] + n_vertices\n", "        other_tris = self.topology.incidence[2, 0][:, ::-1] + n_vertices\n        if self.volume() > other.volume():\n            self_tris, other_tris = self_tris[:, ::-1], other_tris[:, ::-1]\n            boundary_tris = boundary_tris[:, ::-1]\n")]),
 ('n02', 'C16', [(CC, "            topology=self.topology.as_2().subdivide_simplicial()\n", "            topology=self.topology.as_2().subdivide_simplicial() if len(np.unique(self.vertices, axis=0)) else None\n")]),
 ('n03', 'C16', [(SE, "            topology=coarse.topology.subdivide_loop()\n", "            topology=coarse.topology.subdivide_loop() if coarse.compute_triangle_areas.min() > 0 else coarse.topology.subdivide_loop_direct()\n")]),
]
