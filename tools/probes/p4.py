T = 'pycomplex/stencil/topology.py'
X = 'pycomplex/stencil/complex.py'
O = 'pycomplex/stencil/operator.py'
K = 'pycomplex/stencil/block.py'
L = 'pycomplex/stencil/linear_system.py'
E = 'pycomplex/stencil/equation.py'
D = 'pycomplex/stencil/diffusion.py'
M = 'pycomplex/stencil/multigrid.py'
U = 'pycomplex/stencil/util.py'
PROBES = [
 ('s01', 'C19', [(T, "            return ndimage.correlate1d(*args, **kwargs, mode='wrap')", "            return ndimage.correlate1d(*args, **kwargs, mode='wrap', origin=0) if args[0].shape[kwargs['axis']] > 2 else ndimage.correlate1d(*args, **kwargs, mode='nearest')")]),
 ('s02', 'C19', [(T, "            return ndimage.convolve1d(*args, **kwargs, mode='wrap')", "            return ndimage.convolve1d(*args, **kwargs, mode='nearest')")]),
 ('s03', 'C19', [(T, "                        if initialized[t]:\n                            d[t] += corr", "                        if initialized[t]:\n                            d[t] -= corr")]),
 ('s04', 'C19', [(T, "                        if initialized[t]:\n", "                        if initialized[c]:\n")]),
 ('s05', 'C19', [(T, "                    skips = [slice(None, None, 1 if i in s else 2) for i in range(self.n_dim)]\n                    coarse[c]", "                    skips = [slice(None, None, 1 if i in s else 2) for i in range(self.n_dim)][::-1]\n                    coarse[c]")]),
 ('s06', 'C19', [(T, "                    skips = [slice(None, None, 1 if i in s else 2) for i in range(self.n_dim)]\n                    fine[c]", "                    skips = [slice(0 if i in s else 1, None, 1 if i in s else 2) for i in range(self.n_dim)]\n                    fine[c]")]),
 ('s07', 'C19', [(T, "                return np.ones(shape) / np.prod(shape)", "                return np.ones(shape) / 2 ** min(len(axes), 2)")]),
 ('s08', 'C19', [(T, "ndimage.convolve(f0[0], stencil, output[i], mode='wrap')", "ndimage.correlate(f0[0], stencil, output[i], mode='wrap')")]),
 ('s09', 'C19', [(X, "                diagonal=self.scale ** (self.n_dim - n * 2),", "                diagonal=self.scale ** (self.n_dim - n),")]),
 ('s10', 'C19', [(X, "                        if i in s:\n                            continue\n", "                        if i not in s and len(s):\n                            continue\n")]),
 ('s11', 'C19', [(X, "                sm = sm / sm.max()\n            else:\n                sm = sm / sm.sum()", "                sm = sm / sm.sum()\n            else:\n                sm = sm / sm.sum()")]),
 ('s12', 'C19', [(X, "            T * S\n            for T, S in zip(self.topology.transfers, self.smoothers(scale=True))", "            T * S\n            for T, S in zip(self.topology.transfers, self.smoothers(scale=False))")]),
 ('s13', 'C19', [(X, "weights=sm, axis=i, mode='wrap')", "weights=sm, axis=i, mode='mirror')")]),
 ('s14', 'C19', [(O, "        return ComposedOperator([o.transpose() for o in self.operators[::-1]])", "        return ComposedOperator([o.transpose() for o in self.operators])")]),
 ('s15', 'C19', [(O, "        self.left = lambda x: sum(op.transpose()(x) for op in self.operators)", "        self.left = lambda x: sum(op(x) for op in self.operators)")]),
 ('s16', 'C19', [(O, "                d = DiagonalOperator(diagonal=l.diagonal * r.diagonal, shape=l.shape[0]).simplify()", "                d = DiagonalOperator(diagonal=l.diagonal + r.diagonal, shape=l.shape[0]).simplify()")]),
 ('s17', 'C19', [(O, "                return ComposedOperator(self.operators[:i] + [d] + self.operators[i+2:]).simplify()", "                return ComposedOperator(self.operators[:i] + [d] + self.operators[i+1:]).simplify()")]),
 ('s18', 'C19', [(O, "        if any(isinstance(l, DerivativeOperator) and isinstance(r, DerivativeOperator)\n               for l, r in zip(self.operators[:-1], self.operators[1:])):\n            return True\n", "        if sum(isinstance(o, DerivativeOperator) for o in self.operators) > 1:\n            return True\n")]),
 ('s19', 'C19', [(O, "            operators = [op for op in self.operators if not isinstance(op, ZeroOperator)]\n            if len(operators):\n                return CombinedOperator(operators).simplify()", "            operators = [op for op in self.operators if not isinstance(op, ZeroOperator)]\n            if len(operators):\n                return operators[0].simplify()")]),
 ('s20', 'C19', [(K, "            return db(p) * p + db(a) * a", "            return db(p) * p + db(a) * p")]),
 ('s21', 'C19', [(K, "            return sum([do(db, shape, i) for i in range(shape[0])])", "            return sum([do(db, shape, i) for i in range(min(shape[0], 2))])")]),
 ('s22', 'C19', [(K, "                        output[i, k] = output[i, k] + self.block[i, j] * other_block[j, k]", "                        output[i, k] = output[i, k] + self.block[i, j] * other_block[k, j]")]),
 ('s23', 'C19', [(K, "        block = [t(b) for b in self.block.T.flatten()]", "        block = [t(b) for b in self.block.flatten()]")]),
 ('s24', 'C19', [(K, "            for s, b in zip(np.split(x, np.cumsum(splits)[:-1]), self.block)", "            for s, b in zip(np.split(x, len(splits)), self.block)")]),
 ('s25', 'C19', [(L, "            A[i, i + 1] = td * PD[i + 1]", "            A[i, i + 1] = PD[i] * td")]),
 ('s26', 'C19', [(L, "            B=(AT * self.B).simplify(),\n            R=self.R,\n            L=self.R,", "            B=(self.B * AT).simplify(),\n            R=self.R,\n            L=self.R,")]),
 ('s27', 'C19', [(L, "            L=self.R,   # NOTE", "            L=self.L,   # NOTE")]),
 ('s28', 'C19', [(D, "        system.A[2, 1] = system.A[2, 1] * DO(fields['resistance'])  # curl", "        system.A[2, 1] = system.A[2, 1] * DO(fields['conductance'])  # curl")]),
 ('s29', 'C19', [(D, "        system.A[1, 0] = DO(fields['foo']) * system.A[1, 0]", "        system.A[1, 0] = DO(fields['conductance']) * system.A[1, 0]")]),
 ('s30', 'C19', [(K, "            rmatvec=lambda x: T.vector_mul(L.from_dense(x)).to_dense(),", "            rmatvec=lambda x: T.vector_mul(R.from_dense(x)).to_dense(),")]),
 ('s31', 'C19', [(L, "            self.complex.coarse.hodge[n] * (self.complex.coarsen[n] * (self.complex.hodge[n].I * b))\n            for n, b in zip(self.L, y.block)", "            self.complex.coarse.hodge[n].I * (self.complex.coarsen[n] * (self.complex.hodge[n] * b))\n            for n, b in zip(self.L, y.block)")]),
 ('s32', 'C19', [(U, "", "")]) if False else ('s32', 'C19', [(O, "        return [c.transpose() for c in self.primal]", "")]) if False else ('s32', 'C19', [(T, "        return [c.transpose() for c in self.primal]", "        return [c.transpose() for c in self.primal[::-1]]")]),
 ('m01', 'C14', [(M, "        return x - fine_error ", "        return x + fine_error ")]),
 ('m02', 'C14', [(M, "        coarse_error = v_cycle(hierarchy[:-1], y=coarse_res)", "        coarse_error = v_cycle(hierarchy[:1], y=coarse_res)")]),
 ('m03', 'C14', [(M, "        fine_res = fine.residual(x, y)\n        coarse_res", "        fine_res = fine.residual(x_, y)\n        coarse_res"), (M, "    x = fine.smooth(x, y)       # presmooth\n", "    x_ = x\n    x = fine.smooth(x, y)       # presmooth\n")]),
 ('m04', 'C14', [(M, "    for i in range(iterations):\n        x = v_cycle(hierarchy, y, x)\n    return x", "    for i in range(iterations):\n        x = v_cycle(hierarchy, y)\n    return x")]),
 ('m05', 'C14', [(M, "            y=fine.restrict(y),     # NOTE: not restricting residual here, but actual right hand side\n            iterations=iterations\n", "            y=fine.restrict(y),     # NOTE: not restricting residual here, but actual right hand side\n")]),
 ('m06', 'C14', [(M, "        return hierarchy[::-1]", "        return hierarchy[:0:-1] + hierarchy[:1]") if False else (M, "        for l in range(levels):", "        for l in range(1, levels):")]),
 ('m07', 'C14', [(E, "        return x - self.inverse_normal_diagonal * residual * (relaxation / 2)", "        return x - self.inverse_normal_diagonal * residual * (1 / 2)")]),
 ('m08', 'C14', [(E, "        b = (self.system.B * y).to_dense()\n        if x0 is None:\n            x0 = self.system.allocate_x()", "        b = y.to_dense()\n        if x0 is None:\n            x0 = self.system.allocate_x()")]),
 ('m09', 'C14', [(E, "            residual = sum(e * xc for e, xc in zip(self.normal.system.A[ri, :], x.block)) - by[ri]", "            residual = sum(e * xc for e, xc in zip(self.system.A[ri, :], x.block)) - by[ri]")]),
 ('m10', 'C14', [(E, "            x = self.jacobi(x, y, s)\n", "            x = self.jacobi(x, y, knots[0])\n")]),
 ('m11', 'C14', [(D, "                'resistance': self.complex.coarsen[1] * self.fields['resistance'],", "                'resistance': self.complex.coarsen[1] * self.fields['conductance'],")]),
 ('m12', 'C14', [(D, "        return BlockArray([self.complex.refine[n] * b for n, b in zip(self.system.R, x.block)], ndim=1)", "        return BlockArray([self.complex.coarsen[n].T * b for n, b in zip(self.system.R, x.block)], ndim=1)")]),
 ('m13', 'C14', [(D, "        return self.restrict_dual(y)", "        return self.restrict_primal(y)")]),
 ('m14', 'C14', [(D, "            complex=self.complex.coarse,\n", "            complex=self.complex.coarse.coarse.fine if min(self.complex.shape) > 2 else self.complex.coarse,\n")]),
 ('m15', 'C14', [(M, "    x = fine.smooth(x, y)       # postsmooth\n", "")]),
 ('m16', 'C14', [(M, "        return fine.solve(y)\n", "        return fine.solve(y * 1) * 1\n")]),
]
