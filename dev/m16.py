B='include/homology/basis.hpp'
C='include/homology/cohom_basis.hpp'
D='include/homology/dgbasis.hpp'
I='include/homology/induced_map.hpp'
Z='include/topology/eilenberg_zilber.hpp'
R='R16'
M=[
(R,'bug',B,"			I[k] = extract_basis_indices(R[k], p2c[k+1]);","			I[k] = extract_basis_indices(R[k], p2c[k]);"),
(R,'bug',B,"			I[k] = extract_basis_indices(R[k], p2c[k+1]);","			I[k] = extract_basis_indices(R[k]);"),
(R,'bug',B,"		for (size_t k = 0; k < maxdim(); k++) {\n			I[k]","		for (size_t k = 1; k < maxdim(); k++) {\n			I[k]"),
(R,'bug',B,"		for (size_t k = 0; k < maxdim(); k++) {\n			I[k]","		for (size_t k = 0; k+1 < maxdim(); k++) {\n			I[k]"),
(R,'bug',B,"		I[maxdim()] = extract_basis_indices(R[maxdim()]);\n",""),
(R,'bug',B,"			R[k] = C.boundary[k];\n			// partial_reduce_parallel(R[k], U[k], 1024);","			R[k] = C.boundary[dmax-1-k];\n			// partial_reduce_parallel(R[k], U[k], 1024);"),
(R,'bug',B,"			U[k] = MT::identity(C.dim(k));\n			R[k] = C.boundary[k];","			U[k] = MT::identity(C.boundary[k].nrow());\n			R[k] = C.boundary[k];"),
(R,'bug',B,"			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());\n			clear_inds = get_clearing_inds(p2c[k]);","			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());"),
(R,'bug',B,"			p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], algflag());","			p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k], algflag());"),
(R,'bug',B,"		for (ssize_t k = dmax-2; k >= 0; k--) {\n			R[k] = C.boundary[k];\n			U[k]","		for (ssize_t k = dmax-2; k > 0; k--) {\n			R[k] = C.boundary[k];\n			U[k]"),
(R,'bug',B,"			p2c[k] = reduce_matrix_compression(R[k], U[k], comp_inds, algflag());\n			comp_inds = get_compression_inds(R[k]);","			comp_inds = get_compression_inds(R[k]);\n			p2c[k] = reduce_matrix_compression(R[k], U[k], comp_inds, algflag());"),
(R,'bug',B,"			p2c[k] = reduce_matrix_compression(R[k], U[k], comp_inds, algflag());\n			comp_inds = get_compression_inds(R[k]);","			p2c[k] = reduce_matrix_compression(R[k], U[k], comp_inds, algflag());"),
(R,'same',B,"			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());\n			clear_inds = get_clearing_inds(p2c[k]);","			if (k + 1 < ssize_t(dmax) - 1) clear_inds = get_clearing_inds(p2c[k+1]);\n			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());"),
(R,'same',B,"		std::vector<size_t> clear_inds = get_clearing_inds(p2c[dmax-1]);\n		for (ssize_t k = dmax-2; k >= 0; k--) {\n			R[k] = C.boundary[k];\n			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());\n			clear_inds = get_clearing_inds(p2c[k]);","		for (ssize_t k = dmax-2; k >= 0; k--) {\n			R[k] = C.boundary[k];\n			p2c[k] = reduce_matrix_clearing(R[k], get_clearing_inds(p2c[k+1]), algflag());"),
(R,'same',B,"		for (size_t k = 0; k < maxdim(); k++) {\n			I[k] = extract_basis_indices(R[k], p2c[k+1]);\n		}\n		I[maxdim()] = extract_basis_indices(R[maxdim()]);","		const size_t top = maxdim();\n		I[top] = extract_basis_indices(R[top]);\n		for (size_t k = 1; k <= top; ++k) {\n			I[k-1] = extract_basis_indices(R[k-1], p2c[k]);\n		}"),
(R,'same',B,"		for (size_t k = 0; k < maxdim(); k++) {\n			I[k] = extract_basis_indices(R[k], p2c[k+1]);\n		}\n		I[maxdim()] = extract_basis_indices(R[maxdim()]);","		for (size_t k = 0; k <= maxdim(); k++) {\n			if (k == maxdim()) { I[k] = extract_basis_indices(R[k]); }\n			else { I[k] = extract_basis_indices(R[k], p2c[k+1]); }\n		}"),
(R,'same',B,"			U[k] = MT::identity(C.dim(k));\n			R[k] = C.boundary[k];\n			// partial_reduce_parallel(R[k], U[k], 1024);\n			p2c[k] = reduce_matrix(R[k], U[k]);","			MT Rk = C.boundary[k];\n			MT Uk = MT::identity(Rk.ncol());\n			p2c[k] = reduce_matrix(Rk, Uk);\n			R[k] = Rk;\n			U[k] = Uk;"),
(R,'same',B,"			U[k] = MT::identity(C.dim(k));\n			R[k] = C.boundary[k];\n			// partial_reduce_parallel(R[k], U[k], 1024);\n			p2c[k] = reduce_matrix(R[k], U[k]);","			MT &Rk = R[k];\n			MT &Uk = U[k];\n			Rk = C.boundary[k];\n			Uk = MT::identity(Rk.ncol());\n			p2c[k] = reduce_matrix(Rk, Uk);"),
(R,'bug',B,"		for (size_t k = 0; k < perm.size(); k++) {\n			update_reduction2(k, args...);\n		}\n		set_indices(); // update homology indices","		set_indices(); // update homology indices\n		for (size_t k = 0; k < perm.size(); k++) {\n			update_reduction2(k, args...);\n		}"),
(R,'bug',B,"		for (size_t k = 0; k < perm.size(); k++) {\n			update_reduction2(k, args...);\n		}\n		set_indices(); // update homology indices","		for (size_t k = 0; k < perm.size(); k++) {\n			update_reduction2(k, args...);\n		}"),
# cohomology
(R,'bug',C,"			U[k] = (k == 0) ? MT::identity(1) : MT::identity(C.dim[k-1]);\n			R[k] = C.coboundary[k];","			U[k] = MT::identity(C.dim[k]);\n			R[k] = C.coboundary[k];"),
(R,'same',C,"			U[k] = (k == 0) ? MT::identity(1) : MT::identity(C.dim[k-1]);\n			R[k] = C.coboundary[k];","			R[k] = C.coboundary[k];\n			U[k] = MT::identity(R[k].ncol());"),
(R,'bug',C,"		for (ssize_t k = 1; k < dmax; k++) {\n			R[k] = C.coboundary[k];\n			p2c[k] = reduce_matrix_clearing","		for (ssize_t k = 2; k < dmax; k++) {\n			R[k] = C.coboundary[k];\n			p2c[k] = reduce_matrix_clearing"),
(R,'bug',C,"		std::vector<bool> comp_inds = get_compression_inds(R[dmax-1]);","		std::vector<bool> comp_inds = get_compression_inds(C.coboundary[dmax-1]);"),
(R,'same',C,"			if (p2c[maxdim()][j] == bats::NO_IND) { I[maxdim()].emplace_back(j); }","			if (p2c[maxdim()][j] != bats::NO_IND) { continue; }\n			I[maxdim()].push_back(j);"),
(R,'bug',C,"			if (p2c[maxdim()][j] == bats::NO_IND) { I[maxdim()].emplace_back(j); }","			I[maxdim()].emplace_back(j);"),
(R,'bug',C,"		return U[k+1][I[k][i]];","		return U[k+1][i];"),
(R,'bug',C,"		if (k == maxdim()) { return cochain_type(I[k][i]); } // basis is not changed","		if (k == maxdim()) { return cochain_type(i); } // basis is not changed"),
(R,'bug',C,"			y.axpy(-a, bdri);","			y.axpy(a, bdri);") if False else
(R,'bug',C,"				y.axpy(-a, bdri);","				y.axpy(a, bdri);"),
(R,'bug',C,"				auto bdri = to_hom_basis(R[k][i], k);","				auto bdri = R[k][i];"),
(R,'bug',C,"				yit = y.upper_bound(j-1);","				yit = y.upper_bound(i);"),
(R,'same',C,"				yit = y.upper_bound(j-1);","				yit = y.lower_bound(j);"),
(R,'same',C,"				auto ipiv = bdri.lastnz();\n				auto a = (yit->val) / ipiv.val;\n				y.axpy(-a, bdri);","				const auto coeff = -(yit->val / bdri.lastnz().val);\n				y.axpy(coeff, bdri);"),
(R,'bug',C,"				auto a = (yit->val) / ipiv.val;","				auto a = ipiv.val / (yit->val);"),
(R,'bug',C,"		find_preferred_representative(x, k);\n		return from_hom_basis(x, k);","		find_preferred_representative(x, k);\n		return x;"),
(R,'bug',C,"		auto x = to_hom_basis(c, k);","		auto x = from_hom_basis(c, k);"),
# DG
(R,'bug',D,"			for (size_t k = 1; k < maxdim()+2; k++) {\n				I[k]","			for (size_t k = 1; k < maxdim()+1; k++) {\n				I[k]"),
(R,'bug',D,"				I[k] = extract_basis_indices(R[k], p2c[k-1]);","				I[k] = extract_basis_indices(R[k-1], p2c[k-1]);"),
(R,'bug',D,"				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k-1], p2c[k-1], algflag());","				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], algflag());"),
(R,'bug',D,"	inline size_t basis_offset() const { return (degree == -1) ? 0 : 1; }","	inline size_t basis_offset() const { return 0; }"),
(R,'bug',D,"		const size_t kb = (degree == -1) ? k+1 : k-1;","		const size_t kb = k+1;"),
(R,'bug',D,"		return (degree == -1) ? R[k].ncol() : R[k+1].ncol();","		return R[k].ncol();"),
(R,'same',D,"		const size_t kb = (degree == -1) ? k+1 : k-1;","		const size_t kb = k - degree;"),
(R,'same',D,"		return (degree == -1) ? R[k].ncol() : R[k+1].ncol();","		return R[k + basis_offset()].ncol();"),
(R,'bug',D,"	ReducedDGVectorSpace(const DGVectorSpace<MT> &C) : degree(C.degree) {","	ReducedDGVectorSpace(const DGVectorSpace<MT> &C) : degree(-1) {"),
# induced
(R,'bug',I,"		auto y = u_solve(D.U[k], F[k] * C.U[k][*it]);","		auto y = u_solve(C.U[k], F[k] * C.U[k][*it]);"),
(R,'bug',I,"		auto y = u_solve(D.U[k], F[k] * C.U[k][*it]);","		auto y = F[k] * C.U[k][*it];"),
(R,'bug',I,"		D.find_preferred_representative(y, k);\n		// extract indices\n		col.emplace_back(y[D.I[k]]);","		col.emplace_back(y[D.I[k]]);"),
(R,'bug',I,"		col.emplace_back(y[D.I[k]]);","		col.emplace_back(y[C.I[k]]);"),
(R,'bug',I,"	return ColumnMatrix<TVec>(D.I[k].size(), C.I[k].size(), col);","	return ColumnMatrix<TVec>(C.I[k].size(), D.I[k].size(), col);"),
(R,'bug',I,"it - D.I[k].cbegin(), k) * F[k], k);","*it, k) * F[k], k);"),
(R,'same',I,"	for (auto it = C.I[k].cbegin(); it != C.I[k].cend(); it++) {\n		// put image in homology revealing basis in D\n		auto y = u_solve(D.U[k], F[k] * C.U[k][*it]);","	for (size_t g = 0; g < C.hdim(k); ++g) {\n		auto image = F[k] * C.get_preferred_representative(g, k);\n		auto y = D.to_hom_basis(image, k);"),
(R,'same',I,"	for (auto it = C.I[k].cbegin(); it != C.I[k].cend(); it++) {\n		// put image in homology revealing basis in D\n		auto y = u_solve(D.U[k], F[k] * C.U[k][*it]);","	for (const auto g : C.I[k]) {\n		auto y = u_solve(D.U[k], F[k] * C.U[k][g]);"),
(R,'bug',I,"	if (F[k].ncol() != C.R[k].nrow() || F[k].nrow() != D.R[k].nrow()) {","	if (F[k].ncol() != C.R[k].nrow() && F[k].nrow() != D.R[k].nrow()) {"),
(R,'bug',I,"	int dg_offset = (degree == -1) ? 0 : 1;","	int dg_offset = 0;"),
(R,'bug',I,"	if (C.degree != D.degree) {\n		throw std::runtime_error(\"Degree of DGVectorSpaces must agree!\");\n	}\n",""),
# kron
(R,'bug',Z,"			cxcy = RXRY.to_hom_basis(cxcy, dim);\n",""),
(R,'bug',Z,"			col.emplace_back(cxcy[RXRY.I[dim]]);","			col.emplace_back(cxcy[RX.I[dx]]);"),
(R,'bug',Z,"			auto cxcy = cx.kron(cy, RY.dim(dy)).shift_inds(shift);","			auto cxcy = cx.kron(cy, RY.dim(dx)).shift_inds(shift);"),
(R,'bug',Z,"			auto cxcy = cx.kron(cy, RY.dim(dy)).shift_inds(shift);","			auto cxcy = cx.kron(cy, RY.dim(dy));"),

(R,'same',B,"			p2c[k] = reduce_matrix(R[k], U[k]);\n		}\n\n		set_indices();\n\n	}\n","			reduce_dimension(k);\n		}\n\n		set_indices();\n\n	}\n	void reduce_dimension(size_t k) { p2c[k] = reduce_matrix(R[k], U[k]); }\n"),
(R,'same',B,"		for (ssize_t k = dmax-2; k >= 0; k--) {\n			R[k] = C.boundary[k];\n			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());","		ssize_t k = dmax-1;\n		while (k-- > 0) {\n			R[k] = C.boundary[k];\n			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());"),
(R,'same',B,"		for (ssize_t k = dmax-2; k >= 0; k--) {\n			R[k] = C.boundary[k];\n			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());","		for (size_t i = 1; i < dmax; ++i) {\n			size_t k = dmax - 1 - i;\n			R[k] = C.boundary[k];\n			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());"),
(R,'same',C,"				auto i = p2c[k].at(j);\n\n				// form column i of boundary in homology revealing basis\n				auto bdri = to_hom_basis(R[k][i], k);","				const auto &column = R[k][p2c[k][j]];\n				auto bdri = to_hom_basis(column, k);"),
(R,'same',C,"			if (p2c[k][j] != bats::NO_IND) {\n				auto i = p2c[k].at(j);","			if (p2c[k][j] == bats::NO_IND) { continue; }\n			{\n				auto i = p2c[k].at(j);"),
(R,'same',C,"		auto x = to_hom_basis(c, k);\n		find_preferred_representative(x, k);\n		return from_hom_basis(x, k);","		cochain_type hom = to_hom_basis(c, k);\n		find_preferred_representative(hom, k);\n		hom = from_hom_basis(hom, k);\n		return hom;"),
(R,'same',I,"		auto y = u_solve(D.U[k], F[k] * C.U[k][*it]);","		const auto &gen = C.U[k][*it];\n		auto image = F[k] * gen;\n		auto y = u_solve(D.U[k], image);"),
(R,'same',I,"	std::vector<TVec> col;\n	// iterate over homology generators in C\n	for (auto it = C.I[k].cbegin(); it != C.I[k].cend(); it++) {","	const auto &gens = C.I[k];\n	std::vector<TVec> col;\n	col.reserve(gens.size());\n	for (auto it = gens.begin(); it != gens.end(); ++it) {"),
(R,'same',I,"	if (F[k].ncol() != C.U[k].nrow() || F[k].nrow() != D.U[k].ncol()) {","	const bool ok = F[k].ncol() == C.U[k].nrow() && F[k].nrow() == D.U[k].ncol();\n	if (!ok) {"),
(R,'same',D,"			for (size_t k = 0; k < maxdim()+1; k++) {\n				I[k] = extract_basis_indices(R[k], p2c[k+1]);\n			}\n			I[maxdim()+1] = extract_basis_indices(R[maxdim()+1]);","			for (size_t k = 0; k + 1 < R.size(); k++) {\n				I[k] = extract_basis_indices(R[k], p2c[k+1]);\n			}\n			I.back() = extract_basis_indices(R.back());"),
(R,'same',D,"				std::vector<bool> comp_inds = get_compression_inds(R[0]);\n			for (size_t k = 1; k < dmax; k++) {\n				R[k] = C.differential[k];\n				p2c[k] = reduce_matrix_compression(R[k], comp_inds, algflag());\n				comp_inds = get_compression_inds(R[k]);","			for (size_t k = 1; k < dmax; k++) {\n				R[k] = C.differential[k];\n				p2c[k] = reduce_matrix_compression(R[k], get_compression_inds(R[k-1]), algflag());") if False else
(R,'same',D,"		if (degree == -1 && k == R.size()-1) {\n			// all cycles generate homology, so nothing to do\n			return;\n		}\n		// index","		const bool nothing_in = degree == -1 && k + 1 == R.size();\n		if (nothing_in) return;\n		// index"),
(R,'same',Z,"			auto cxcy = cx.kron(cy, RY.dim(dy)).shift_inds(shift);\n			// find preferred representative in RXRY\n			cxcy = RXRY.to_hom_basis(cxcy, dim);","			auto product = cx.kron(cy, RY.dim(dy));\n			auto cxcy = RXRY.to_hom_basis(product.shift_inds(shift), dim);"),

(R,'same',B,"				auto ipiv = bdri.lastnz();\n				auto a = (yit->val) / ipiv.val;\n				y.axpy(-a, bdri);","				if (bdri.nzbegin() == bdri.nzend()) { throw std::runtime_error(\"empty boundary\"); }\n				auto ipiv = bdri.lastnz();\n				auto a = (yit->val) / ipiv.val;\n				y.axpy(-a, bdri);"),
]
