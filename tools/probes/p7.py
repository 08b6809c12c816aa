"""Fresh edits written from the property texts (7th campaign)."""
X = 'pycomplex/complex/base.py'
SE = 'pycomplex/complex/simplicial/euclidian.py'
SS = 'pycomplex/complex/simplicial/spherical.py'
CR = 'pycomplex/complex/regular.py'
GE = 'pycomplex/geometry/euclidian.py'
GS = 'pycomplex/geometry/spherical.py'
LA = 'pycomplex/math/linalg.py'
SC = 'pycomplex/stencil/complex.py'
SY = 'pycomplex/stencil/linear_system.py'
EQ = 'pycomplex/stencil/equation.py'
TS = 'pycomplex/topology/simplicial.py'
TU = 'pycomplex/topology/util.py'
SN = 'pycomplex/synthetic.py'
PROBES = [
 # C15
 ('m01', 'C15', [(SS, "[m * (self.radius ** i) for i, m in enumerate(DM)]", "[m * (self.radius ** (self.topology.n_dim - i)) for i, m in enumerate(DM)]")]),
 ('m02', 'C15', [(SE, "PM[i] = groups[i].mean(unsigned(corners[:, :n]))[1] * factorial(n)", "PM[i] = groups[i].mean(unsigned(corners[:, :n]))[1] * n")]),
 ('m03', 'C15', [(SE, "* signs)[1] / factorial(d+1)", "* signs)[1] / (d + 1)")]),
 ('m04', 'C15', [(SE, "        signs = np.sign(bary)   #", "        signs = (bary > 0) * 1.   #")]),
 ('m05', 'C15', [(CR, "            DM[n][g] += sums / (2 ** c.sum())", "            DM[n][g] += sums / (2 * c.sum())")]),
 ('m06', 'C15', [(CR, "            PM[n] /= self.topology.degree[n]", "            PM[n] /= self.topology.degree[n].max()")]),
 ('m07', 'C15', [(SE, "        return hodge / 2\n", "        return hodge / self.topology.degree[1]\n")]),
 ('m08', 'C15', [(X, "perimeter[c] / edge_length_prod(c)", "perimeter[c] / edge_length(c, self.topology.n_dim) ** (n)")]),
 ('m09', 'C15', [(X, "            q = a.multiply(M)\n", "            q = a.multiply(M != 0)\n")]),
 ('m10', 'C15', [(X, "zip(self.dual_metric, self.boundary.dual_metric + [[]])", "zip(self.dual_metric, self.boundary.primal_metric[::-1] + [[]])")]),
 ('m11', 'C15', [(X, "                (domains[:, -(i + 2)], domains[:, -1])),", "                (domains[:, -(i + 2)], np.sort(domains[:, -1]))),")]),
 ('m12', 'C15', [(SE, "        PM[-1] = groups[-1].sum(V)[1]\n        DM[-1] = groups[+0].sum(V)[1]\n\n        return PM, DM\n\n\nclass ComplexTriangularEuclidian", "        PM[-1] = np.abs(groups[-1].sum(V)[1])\n        DM[-1] = np.abs(groups[+0].sum(V)[1])\n\n        return PM, DM\n\n\nclass ComplexTriangularEuclidian")]),
 ('m13', 'C15', [(SS, "            DM[i] = groups[d].sum (unsigned(corners[:, d:]))[1] / factorial(d+1)", "            DM[i] = groups[d].mean(unsigned(corners[:, d:]))[1] * 2")]),
 ('m14', 'C15', [(X, "        return [d / p for p, d in zip(P, D[::-1])]", "        return [d / np.where(p > 1e-3, p, 1) for p, d in zip(P, D[::-1])]")]),

 # others, in functions no earlier campaign touched
 ('a01', 'C07', [(LA, "    w, v = np.linalg.eig(m)\n", "    w, v = np.linalg.eig(m)\n    w = w / np.abs(w).max() * np.abs(w).max()\n")]),
 ('a02', 'C07', [(LA, "AI[..., i, :] = np.cross(A[..., i-2, :], A[..., i-1, :])", "AI[..., i, :] = np.cross(A[i-2], A[i-1]) if A.ndim == 2 else np.cross(A[..., i-2, :], A[..., i-1, :])[0]")]),
 ('a03', 'C07', [(LA, "det = dot(I, A).mean(axis=-1)\n    return I / det[...,None,None]", "det = dot(I, A).mean()\n    return I / det")]),
 ('a04', 'C05', [(GE, "return np.linalg.det(A) / scipy.special.factorial(M)", "return np.sign(np.linalg.det(A)) * np.abs(np.linalg.det(A)) ** (1. / M) / scipy.special.factorial(M) if M > 2 else np.linalg.det(A) / scipy.special.factorial(M)")]),
 ('a05', 'C06', [(GE, "    A = tail - head\n    return np.linalg.det(A)", "    A = tail - head if M > 1 else tail\n    return np.linalg.det(A)")]),
 ('a06', 'C08', [(GE, "    gradients = simplex_normals(corners)\n    # mult", "    gradients = simplex_normals(corners).astype(corners.dtype)\n    # mult")]),
 ('a07', 'C01', [(GE, "    gradients = simplex_normals(corners)\n    # mult", "    gradients = simplex_normals(corners)\n    corners -= corners.mean(axis=-2, keepdims=True)\n    # mult")]),
 ('a08', 'C01', [(CR, "                cube = cube.copy()\n                d, b", "                d, b")]),
 ('a09', 'C12', [(CR, "dual_forms = [a * d0 for a in self.topology.dual.averaging_operators_0]", "dual_forms = [a * d0 if i else np.abs(d0) for i, a in enumerate(self.topology.dual.averaging_operators_0)]")]),
 ('a10', 'C06', [(CR, "            r = points - basis[:, 0]\n", "            r = points - basis[:, 0] % basis[:, 1]\n")]),
 ('a11', 'C03', [(CR, "return domains.reshape(len(domains), -1)[:, 0]", "return domains.reshape(len(domains), -1)[:, -1]")]),
 ('a12', 'C12', [(SC, "        f0 = f0[0]\n        if not assume_interior:", "        f0 = f0[0] - f0[0].min()\n        if not assume_interior:")]),
 ('a13', 'C19', [(SC, "f0 = np.pad(f0, [(0, 1)] * self.n_dim, mode='wrap')", "f0 = np.pad(f0, [(0, 1)] * self.n_dim, mode='edge')")]),
 ('a14', 'C19', [(SY, "            R=self.L,\n            L=self.L,\n", "            R=self.R,\n            L=self.L,\n")]),
 ('a15', 'C19', [(SY, "            B=select(self.B, item[0], item[0]),", "            B=select(self.B, item[1], item[0]),")]),
 ('a16', 'C01', [(SY, "        c = type(self)(**nkwargs)\n", "        c = self if not kwargs else type(self)(**nkwargs)\n")]),
 ('a17', 'C14', [(EQ, "return (self.normal_ne.system.A.diagonal() + 1e-16).invert()", "return (self.normal.system.A.diagonal() + 1e-16).invert()")]),
 ('a18', 'C18', [(TS, "        F[:, [1, 0]] = F[:, [0, 1]]\n        return type(self).from_simplices(np.where(parity[:, None], E, F))", "        F[:, [-1, 0]] = F[:, [0, -1]]\n        return type(self).from_simplices(np.where(parity[:, None], E, np.roll(F, 1, axis=1)))")]),
 ('a19', 'C18', [(TS, "        F[:, [1, 0]] = F[:, [0, 1]]\n        return type(self).from_simplices(np.where(parity[:, None], E, F))", "        F = F[:, ::-1]\n        return type(self).from_simplices(np.where(parity[:, None], E, F))")]),
 ('a20', 'C17', [(TS, "            simplices[..., 1, [-2, -1]] = simplices[..., 1, [-1, -2]]", "            simplices[..., 1, [0, 1]] = simplices[..., 1, [1, 0]]")]),
 ('a21', 'C10', [(TS, "        sub = type(self).from_simplices(simplices.reshape(-1, self.n_dim + 1))\n        sub.parent = self\n", "        sub = type(self).from_simplices(simplices.reshape(-1, self.n_dim + 1))\n")]),
 ('a22', 'C15', [(SE, "vertex_idx, v_n = npi.group_by(I20.flatten()).sum(np.repeat(t_n, 3, axis=0))", "vertex_idx, v_n = npi.group_by(I20.flatten()).sum(np.tile(t_n, (3, 1)))")]),
 ('a23', 'C03', [(SE, "vertex_idx, v_n = npi.group_by(I20.flatten()).sum(np.repeat(t_n, 3, axis=0))", "v_n = np.zeros_like(t_n)\n        np.add.at(v_n, I20.flatten(), np.repeat(t_n, 3, axis=0))")]),
 ('a24', 'C06', [(SE, "data['normal'] = linalg.normalized(self.triangle_normals())", "data['normal'] = linalg.normalized(self.vertices[self.topology.corners[2]].mean(axis=1))")]),
 ('a25', 'C05', [(GS, "    return np.arccos(linalg.dot(*edge))\n", "    return np.linalg.norm(np.cross(*edge), axis=-1)\n")]),
 ('a26', 'C07', [(GS, "    n0 = np.cross(s0, e0)\n", "    n0 = np.cross(s0, e0)\n    n0 = n0 / np.linalg.norm(n0)\n")]),
 ('a27', 'C01', [(GS, "    edge_planes = [linalg.normalized(ep, ignore_zeros=True) for ep in edge_planes]\n", "    for ep in edge_planes:\n        ep /= np.linalg.norm(ep, axis=-1, keepdims=True)\n")]),
 ('a28', 'C18', [(TU, "    q = npi.group_by(r).split_array_as_array(c)\n", "    q = npi.group_by(c).split_array_as_array(r)\n")]),
 ('a29', 'C08', [(TU, "        np.ones_like(r, dtype=sign_dtype),\n        (r, c)),\n        shape=shape", "        np.ones(len(r), dtype=np.uint8),\n        (r, c)),\n        shape=shape")]),

 # C25
 ('y01', 'C25', [(SN, "        vertices = vertices - vertices.mean(axis=0, keepdims=True)\n", "        vertices = vertices - vertices.mean()\n")]),
 ('y02', 'C25', [(SN, "    vertices = np.indices(vshape, dtype=np.float)\n    vertices = vertices.reshape(n_dim, -1).T\n", "    vertices = np.indices(vshape[::-1], dtype=np.float)\n    vertices = vertices.reshape(n_dim, -1)[::-1].T\n")]),
 ('y03', 'C25', [(SN, "        vertices = np.eye(n_dim + 1)[:, 1:] #", "        vertices = np.eye(n_dim + 1)[:, :-1] #")]),
 ('y04', 'C25', [(SN, "    line = n_cube_grid((n,)).as_11()\n    return line.scale(length / n)", "    line = n_cube_grid((n,)).as_11()\n    return line.scale(length / 2)")]),
 ('y05', 'C25', [(SN, "        topology=TopologySimplicial.from_simplices(simplices).fix_orientation()\n    )\n\n\ndef icosahedron", "        topology=TopologySimplicial.from_simplices(simplices)\n    )\n\n\ndef icosahedron")]),
 ('y06', 'C25', [(SN, "        complex = complex.copy(vertices=linalg.normalized(complex.vertices))\n", "    complex = complex.copy(vertices=linalg.normalized(complex.vertices))\n")]),
 ('y07', 'C25', [(SN, "    return n_cube_grid((1,) * n_dim, centering=centering, mirror=mirror)", "    return n_cube_grid((1,) * n_dim, centering=centering)")]),
 ('y08', 'C25', [(SN, "            mirror=mirror\n        ),", "            mirror=mirror and n_dim > 1\n        ),")]),
 ('y09', 'C25', [(SN, "        base = simplex_vertices(n - 1) * shrink\n", "        base = simplex_vertices(n - 1) * depth ** 0.5\n")]),
 ('y10', 'C25', [(SN, "        shape=tuple(shape) + cube_shape,", "        shape=tuple(np.maximum(shape, 1)[::1]) + cube_shape,")]),
]
