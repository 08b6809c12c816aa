TS='pycomplex/topology/simplicial.py'; TC='pycomplex/topology/cubical.py'; TU='pycomplex/topology/util.py'; TP='pycomplex/topology/primal.py'; TD='pycomplex/topology/dual.py'; TB='pycomplex/topology/base.py'; MC='pycomplex/math/combinatorial.py'
PROBES = [
('o02','C04',[(MC,"yield (par + i) % 2, p[:i] + h + p[i:]","yield (par + min(i, 1)) % 2, p[:i] + h + p[i:]")]),
('o04','C04',[(TD,"[None, -b]]","[None, b]]")]),
('o05','C04',[(TD,"return [m * s.T for m, s in zip(M, S[::-1][1:])]","return [abs(m) * s.T for m, s in zip(M, S[::-1][1:])]")]),
('o06','C04',[(TU,"        orientations.flatten().astype(sign_dtype),","        np.abs(orientations.flatten()).astype(sign_dtype),")]),
('o08','C17',[(TS,"plusverts = E10[E21,1]","plusverts = E10[E21].max(axis=-1)")]),
('o09','C17',[(TS,"I10f[:, 0] < coarse.n_elements[0]","I10f[:, 0] <= coarse.n_elements[0]")]),
('o10','C17',[(TC,"simplicial.range(2) // 4","simplicial.range(2) % cubical.n_elements[2]")]),
('o11','C17',[(TC,"Q20[:, 1, ::-1]","Q20[:, 1, ::+1]")]),
('o12','C17',[(TC,"self.n_elements[0]\n\n        return TopologyCubical.from","other.n_elements[0]\n\n        return TopologyCubical.from")]),
('o13','C17',[(TS,"cubes[:, :, 1, 0] = np.roll(I21, 1, axis=1)\n            cubes[:, :, 0, 1] = np.roll(I21, 2, axis=1)","cubes[:, :, 1, 0] = np.roll(I21, 2, axis=1)\n            cubes[:, :, 0, 1] = np.roll(I21, 1, axis=1)")]),
('o14','C17',[(TS,"cubes[:, :, 1, 0, 1] = np.roll(I32, 2, axis=1)\n            cubes[:, :, 1, 1, 0] = np.roll(I32, 3, axis=1)","cubes[:, :, 1, 0, 1] = np.roll(I32, 3, axis=1)\n            cubes[:, :, 1, 1, 0] = np.roll(I32, 2, axis=1)")]),
('o15','C04',[(TP,"chain_n = self.matrix(-1) * chain_N","chain_n = np.abs(self.matrix(-1)) * chain_N")]),
('o16','C04',[(TS,"        if c % 2 and n_dim % 2:","        if c % 2 and n_dim == 3:\n")]),
('o17','C04',[(TC,"parity.append((permutation_parity + flip_parity) % 2)","parity.append(permutation_parity ^ (flip_parity == 1))")]),
('o18','C17',[(TC,"                if b == 1:\n                    new_cubes","                if b == 1 and i < 2:\n                    new_cubes")]),
('o19','C17',[(TS,"(fine.range(2), np.repeat(coarse.range(2), 4)),\n        ]\n        # transfers","(fine.range(2), np.tile(coarse.range(2), 4)),\n        ]\n        # transfers")]),
('o20','C04',[(TU,"    relative[I[0], other] = self","    relative[I[0], self] = other")]),
('o21','C04',[(TC,"            s_view = np.moveaxis(s_view, axis + 1, j + 1)","            s_view = np.swapaxes(s_view, axis + 1, j + 1)")]),
]
