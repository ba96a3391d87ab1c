C='include/chain/chain_complex.hpp'
CM='include/chain/chain_map.hpp'
CO='include/chain/cochain_complex.hpp'
D='include/dgvs/dgvs.hpp'
DM='include/dgvs/dgmap.hpp'
Z='include/topology/eilenberg_zilber.hpp'
R='R17'
REL="""			std::sort(inds[k].begin(), inds[k].end());
			cinds.emplace_back(bats::util::sorted_complement(inds[k], X.ncells(k)));
			if (k == 0) {"""
M=[
(R,'bug',C,"			if (k == 0) {\n				boundary[k] = MT(1, X.ncells(k));\n			} else {\n				boundary[k] = MT(X.boundary_csc(k));","			if (k == 0) {\n				boundary[k] = MT(1, X.ncells(k));\n			} else {\n				boundary[k] = MT(X.boundary_csc(k-1));"),
(R,'bug',C,"		for (size_t k = 0; k < X.maxdim() + 1; k++) {\n			//dim[k] = X.ncells(k);","		for (size_t k = 0; k < X.maxdim(); k++) {\n			//dim[k] = X.ncells(k);"),
(R,'bug',C,"		for (size_t k = 0; k < X.maxdim() + 1; k++) {\n			//dim[k] = X.ncells(k);","		for (size_t k = 1; k < X.maxdim() + 1; k++) {\n			//dim[k] = X.ncells(k);"),
(R,'bug',C,"				boundary[k] = MT(1, X.ncells(k));","				boundary[k] = MT(X.ncells(k), 1);"),
(R,'bug',C,"				boundary[k] = MT(1, X.ncells(k));","				boundary[k] = MT(0, X.ncells(k));"),
(R,'bug',C,REL,REL.replace("			std::sort(inds[k].begin(), inds[k].end());\n","")),
(R,'bug',C,REL,"			cinds.emplace_back(bats::util::sorted_complement(inds[k], X.ncells(k)));\n			std::sort(inds[k].begin(), inds[k].end());\n			if (k == 0) {"),
(R,'bug',C,REL,REL.replace("X.ncells(k)","A.ncells(k)")),
(R,'bug',C,"				boundary[k] = MT(1, X.ncells(k) - A.ncells(k));","				boundary[k] = MT(1, X.ncells(k));"),
(R,'bug',C,"				boundary[k] = MT(B.submatrix(cinds[k-1], cinds[k]));","				boundary[k] = MT(B.submatrix(inds[k-1], cinds[k]));"),
(R,'bug',C,"				boundary[k] = MT(B.submatrix(cinds[k-1], cinds[k]));","				boundary[k] = MT(B.submatrix(inds[k-1], inds[k]));"),
(R,'bug',C,"				boundary[k] = MT(B.submatrix(cinds[k-1], cinds[k]));","				boundary[k] = MT(B.submatrix(cinds[k], cinds[k]));"),
(R,'bug',C,"		for (size_t k = 0; k < maxdim(); k++) {\n			if ( !((boundary[k]*boundary[k+1])","		for (size_t k = 0; k+1 < maxdim(); k++) {\n			if ( !((boundary[k]*boundary[k+1])"),
(R,'bug',C,"		for (size_t k = 0; k < maxdim(); k++) {\n			if ( !((boundary[k]*boundary[k+1])","		for (size_t k = 2; k < maxdim(); k++) {\n			if ( !((boundary[k]*boundary[k+1])"),
(R,'bug',C,"			if ( !((boundary[k]*boundary[k+1]).is_zero()) ) {return false;}","			if ((boundary[k]*boundary[k+1]).is_zero()) {return true;}"),
(R,'same',C,"			if ( !((boundary[k]*boundary[k+1]).is_zero()) ) {return false;}","			const MT P = boundary[k] * boundary[k+1];\n			if (P.is_zero()) {continue;}\n			return false;"),
(R,'same',C,"		for (size_t k = 0; k < maxdim(); k++) {\n			if ( !((boundary[k]*boundary[k+1])","		for (size_t k = 0; k + 1 < boundary.size(); k++) {\n			if ( !((boundary[k]*boundary[k+1])"),
(R,'same',C,"		for (size_t k = 0; k < maxdim(); k++) {\n			if ( !((boundary[k]*boundary[k+1]).is_zero()) ) {return false;}\n		}\n		return true;","		bool ok = true;\n		for (size_t k = 0; k < maxdim(); k++) {\n			ok = ok && (boundary[k]*boundary[k+1]).is_zero();\n		}\n		return ok;"),
(R,'bug',C,"			std::sort(inds[k].begin(), inds[k].end());\n			if (k == 0) {\n				newboundary[k] = MT(1, inds[k].size());","			if (k == 0) {\n				newboundary[k] = MT(1, inds[k].size());"),
(R,'bug',C,"newboundary[k] = boundary[k].submatrix(inds[k-1], inds[k]);","newboundary[k] = boundary[k].submatrix(inds[k], inds[k]);"),
(R,'bug',C,"				newboundary[k] = MT(1, inds[k].size());","				newboundary[k] = MT(1, dim(k));"),
(R,'bug',C,"				newboundary[k] = MT(1, dim(k) - inds[k].size());","				newboundary[k] = MT(1, inds[k].size());"),
(R,'bug',C,"sorted_complement(inds[k], dim(k)));\n			if (k == 0) {\n				newboundary","sorted_complement(inds[k], boundary[k].nrow()));\n			if (k == 0) {\n				newboundary"),
(R,'bug',C,"newboundary[k] = boundary[k].submatrix(cinds[k-1], cinds[k]);","newboundary[k] = boundary[k].submatrix(cinds[k-1], inds[k]);"),
(R,'same',C,"newboundary[k] = boundary[k].submatrix(cinds[k-1], cinds[k]);","const auto& rows = cinds[k-1];\n				newboundary[k] = boundary[k].submatrix(rows, cinds.back());"),
(R,'same',C,REL,"			auto &ik = inds[k];\n			std::sort(ik.begin(), ik.end());\n			auto ck = bats::util::sorted_complement(ik, X.ncells(k));\n			cinds.emplace_back(ck);\n			if (k == 0) {"),
(R,'same',C,"			if (k == 0) {\n				boundary[k] = MT(1, X.ncells(k));\n			} else {\n				boundary[k] = MT(X.boundary_csc(k));\n			}\n		}","			boundary[k] = (k > 0) ? MT(X.boundary_csc(k)) : MT(1, X.ncells(0));\n		}"),
(R,'same',C,"		for (size_t k = 0; k < X.maxdim() + 1; k++) {\n			//dim[k] = X.ncells(k);\n			if (k == 0) {\n				boundary[k] = MT(1, X.ncells(k));\n			} else {\n				boundary[k] = MT(X.boundary_csc(k));\n			}\n		}","		boundary[0] = MT(1, X.ncells(0));\n		for (size_t k = 1; k <= X.maxdim(); ++k) {\n			boundary[k] = MT(X.boundary_csc(k));\n		}"),
(R,'same',C,"		for (size_t k = 0; k < X.maxdim() + 1; k++) {\n			//dim[k] = X.ncells(k);\n			if (k == 0) {\n				boundary[k] = MT(1, X.ncells(k));\n			} else {\n				boundary[k] = MT(X.boundary_csc(k));\n			}\n		}","		for (size_t k = X.maxdim(); k > 0; --k) {\n			boundary[k] = MT(X.boundary_csc(k));\n		}\n		boundary[0] = MT(1, X.ncells(0));"),
(R,'bug',C,"inline size_t maxdim() const { return boundary.size() - 1; }","inline size_t maxdim() const { return boundary.size(); }"),
(R,'bug',C,"inline size_t dim(size_t k) const { return boundary[k].ncol(); }","inline size_t dim(size_t k) const { return boundary[k].nrow(); }"),
(R,'bug',C,"for (size_t k = 0; k < boundary.size(); ++k) { ret += dim(k); }","for (size_t k = 1; k < boundary.size(); ++k) { ret += dim(k); }"),
(R,'bug',C,"for (size_t k = 0; k < boundary.size(); ++k) { ret += dim(k); }","for (size_t k = 0; k < maxdim(); ++k) { ret += dim(k); }"),
(R,'same',C,"for (size_t k = 0; k < boundary.size(); ++k) { ret += dim(k); }","for (const auto& B : boundary) { ret += B.ncol(); }"),
# tensor product
(R,'bug',C,"T(Adim & 0x1 ? -1 : 1)","T(1)"),
(R,'bug',C,"T(Adim & 0x1 ? -1 : 1)","T(Adim & 0x2 ? -1 : 1)"),
(R,'bug',C,"T(Adim & 0x1 ? -1 : 1)","T(Adim == 1 ? -1 : 1)"),
(R,'bug',C,"T(Adim & 0x1 ? -1 : 1)","T(Adim & 0x1 ? 1 : -1)"),
(R,'same',C,"T(Adim & 0x1 ? -1 : 1)","T(Adim % 2 == 0 ? 1 : -1)"),
(R,'bug',C,"kron(VT(iB), B.dim(Bdim))","kron(VT(iB), A.dim(Adim))"),
(R,'bug',C,"kron(VT(iB), B.dim(Bdim))","kron(VT(iB), B[Bdim].nrow())"),
(R,'bug',C,"kron(B[Bdim][iB], B[Bdim].nrow())","kron(B[Bdim][iB], B.dim(Bdim))"),
(R,'bug',C,"Adim > 0 ? ind_shift[Adim-1][Bdim] : 0","Adim > 0 ? ind_shift[Bdim][Adim-1] : 0"),
(R,'bug',C,"Adim > 0 ? ind_shift[Adim-1][Bdim] : 0","ind_shift[Adim-1][Bdim]"),
(R,'bug',C,"Bdim > 0 ? ind_shift[Adim][Bdim-1] : 0","Bdim > 0 ? ind_shift[Adim-1][Bdim] : 0"),
(R,'bug',C,"				ind_shift[Adim][Bdim] = shift;\n				if (Adim > A.maxdim() || Bdim > B.maxdim()) {continue;}\n				shift += A.dim(Adim) * B.dim(Bdim); // how much we'll shift for next pair of dimensions\n","				if (Adim > A.maxdim() || Bdim > B.maxdim()) {continue;}\n				shift += A.dim(Adim) * B.dim(Bdim); // how much we'll shift for next pair of dimensions\n				ind_shift[Adim][Bdim] = shift;\n"),
(R,'bug',C,"				shift += A.dim(Adim) * B.dim(Bdim); // how","				shift += A.dim(Adim); // how"),
(R,'bug',C,"				if (Adim > A.maxdim() || Bdim > B.maxdim()) {continue;}\n				shift","				if (Adim > A.maxdim() || Bdim > A.maxdim()) {continue;}\n				shift"),
(R,'bug',C,"				if (Adim > A.maxdim() || Bdim > B.maxdim()) {continue;}\n				shift","				if (Adim >= A.maxdim() || Bdim > B.maxdim()) {continue;}\n				shift"),
(R,'bug',C,"			C[n] = MT(C[n-1].ncol(), 0);","			C[n] = MT(A.dim(0) * B.dim(0), 0);"),
(R,'bug',C,"C[0] = MT(1, A.dim(0) * B.dim(0));","C[0] = MT(1, A.dim(0) + B.dim(0));"),
(R,'bug',C,"			size_t shift = 0; // keep track of index shift\n			for (size_t Adim = 0; Adim <= n; Adim++) {","			size_t shift = 0; // keep track of index shift\n			for (size_t Adim = 1; Adim <= n; Adim++) {"),
(R,'bug',C,"			for (size_t Adim = 0; Adim <= n; Adim++) {","			for (size_t Adim = 0; Adim < n; Adim++) {"),
(R,'same',C,"				if (Adim > A.maxdim() || Bdim > B.maxdim()) {continue;}\n				shift += A.dim(Adim) * B.dim(Bdim); // how","				if (Adim > A.maxdim()) {continue;}\n				if (Bdim > B.maxdim()) {continue;}\n				const size_t block = B.dim(Bdim) * A.dim(Adim);\n				shift = shift + block; // how"),
(R,'same',C,"						auto dxy = (A[Adim][iA].kron(VT(iB), B.dim(Bdim))).shift_inds(Adim > 0 ? ind_shift[Adim-1][Bdim] : 0)\\\n						 + VT(iA, T(Adim & 0x1 ? -1 : 1))","						const VT &da = A[Adim][iA];\n						const T sgn = (Adim & 0x1) ? T(-1) : T(1);\n						auto dxy = da.kron(VT(iB), B.dim(Bdim)).shift_inds(Adim > 0 ? ind_shift[Adim-1][Bdim] : 0)\\\n						 + VT(iA, sgn)"),
# apparent pairs
(R,'bug',C,"					if (!seen[i]) {\n						// j is the first column with a nonzero in row i, so\n						// reduction can not zero it: mark j as a compression ind\n						comp_inds[j] = true;\n					}","					comp_inds[j] = true;"),
(R,'bug',C,"					if (!seen[i]) {","					if (seen[i]) {"),
(R,'bug',C,"boundary[dim-1].clear_cols(clear_inds);","boundary[dim-1].clear_cols(comp_inds);"),
(R,'bug',C,"boundary[dim+1].clear_rows(comp_inds);","boundary[dim+1].clear_rows(clear_inds);"),
(R,'bug',C,"boundary[dim+1].clear_rows(comp_inds);","boundary[dim].clear_rows(comp_inds);"),
(R,'bug',C,"				for (auto it2 = boundary[dim][j].nzbegin(); it2 != boundary[dim][j].nzend(); ++it2) {\n					seen[it2->ind] = true;\n				}\n","				if (boundary[dim][j].nnz() > 0) seen[boundary[dim][j].lastnz().ind] = true;\n"),
(R,'bug',C,"				clear_inds[i] = true;" ,"				clear_inds[j] = true;"),
(R,'bug',C,"			std::vector<bool> seen(boundary[dim].nrow(), false);\n			// look","			// look"),
(R,'same',C,"					size_t i = it->ind; // pivot index","					const size_t i = boundary[dim][j].lastnz().ind; // pivot index"),
(R,'same',C,"			if (dim > 1) {\n				boundary[dim-1].clear_cols(clear_inds);\n			}","			if (dim >= 2) boundary[dim-1].clear_cols(clear_inds);"),
# cochains
(R,'bug',CO,"MT(X.boundary_csc(k)).transpose()","MT(X.boundary_csc(k))"),
(R,'bug',CO,"dim[k] = X.ncells(k);","dim[k] = X.ncells(0);"),
# chain maps
(R,'bug',CM,"        for (size_t k = 0; k < maxd; k++) {\n            map[k] = TM(f[k]);","        for (size_t k = 0; k + 1 < maxd; k++) {\n            map[k] = TM(f[k]);"),
(R,'bug',CM,"            map[k] = TM(f[k]);","            map[k] = TM(f[0]);"),
(R,'bug',CM,"        size_t maxd = f.maxdim() + 1;\n        map.resize(maxd);\n        for","        size_t maxd = f.maxdim();\n        map.resize(maxd);\n        for"),
(R,'bug',CM,"            std::sort(Yinds.begin(), Yinds.end());\n",""),
(R,'bug',CM,"            auto Yinds = Y.get_indices(B, k);\n            std::sort(Yinds.begin(), Yinds.end());\n            auto Xinds = X.get_indices(A, k);","            auto Yinds = Y.get_indices(B, k);\n            auto Xinds = X.get_indices(A, k);\n            std::sort(Xinds.begin(), Xinds.end());"),
(R,'bug',CM,"                bats::util::sorted_complement(Yinds, Y.ncells(k)),","                bats::util::sorted_complement(Yinds, X.ncells(k)),"),
(R,'bug',CM,"            map[k] = TM(f[k].submatrix(\n                bats::util::sorted_complement(Yinds, Y.ncells(k)),\n                bats::util::sorted_complement(Xinds, X.ncells(k))","            map[k] = TM(f[k].submatrix(\n                bats::util::sorted_complement(Xinds, X.ncells(k)),\n                bats::util::sorted_complement(Yinds, Y.ncells(k))"),
(R,'bug',CM,"                bats::util::sorted_complement(inds1[k], map[k].nrow()),\n                bats::util::sorted_complement(inds2[k], map[k].ncol())","                bats::util::sorted_complement(inds2[k], map[k].nrow()),\n                bats::util::sorted_complement(inds1[k], map[k].ncol())"),
(R,'bug',CM,"                bats::util::sorted_complement(inds1[k], map[k].nrow()),","                bats::util::sorted_complement(inds1[k], map[k].ncol()),"),
(R,'bug',CM,"            std::sort(inds2[k].begin(), inds2[k].end());\n",""),
(R,'same',CM,"            std::sort(inds2[k].begin(), inds2[k].end());\n            newmap[k] = map[k].submatrix(","            auto& cols = inds2[k];\n            std::sort(cols.begin(), cols.end());\n            newmap[k] = map[k].submatrix("),
(R,'same',CM,"            auto Yinds = Y.get_indices(B, k);\n            std::sort(Yinds.begin(), Yinds.end());\n            auto Xinds = X.get_indices(A, k);","            auto Xinds = X.get_indices(A, k);\n            auto Yinds = Y.get_indices(B, k);\n            std::sort(Yinds.begin(), Yinds.end());"),
(R,'bug',CM,"inline size_t maxdim() const { return map.size() - 1; }","inline size_t maxdim() const { return map.size(); }"),
# DG
(R,'bug',D,"return (degree == -1) ? differential[k] : differential[k+1];","return (degree == -1) ? differential[k+1] : differential[k];"),
(R,'bug',D,"return (degree == -1) ? differential[k] : differential[k+1];","return differential[k];",1),
(R,'bug',D,"inline ssize_t maxdim() const { return differential.size()-2; }","inline ssize_t maxdim() const { return differential.size()-1; }"),
(R,'bug',D,"augmented ? MT(1, X.ncells(0), 1) : MT(0, X.ncells(0));","augmented ? MT(1, X.ncells(0)) : MT(0, X.ncells(0));"),
(R,'bug',D,"augmented ? MT(X.ncells(0), 1, 1) : MT(X.ncells(0), 0);","augmented ? MT(X.ncells(0), 0) : MT(X.ncells(0), 1, 1);"),
(R,'bug',D,"			for (size_t k = 1; k < X.maxdim() + 1; k++) {\n				differential[k] = MT(X.boundary_csc(k)).T();","			for (size_t k = 1; k < X.maxdim(); k++) {\n				differential[k] = MT(X.boundary_csc(k)).T();"),
(R,'bug',D,"			differential[X.maxdim() + 1] = MT(X.ncells(X.maxdim()), 0);",""),
(R,'bug',D,"differential[X.maxdim() + 1] = MT(0, X.ncells(X.maxdim()));","differential[X.maxdim() + 1] = MT(X.ncells(X.maxdim()), 0);"),
(R,'bug',D,"				differential[k] = MT(X.boundary_csc(k)).T();","				differential[k] = MT(X.boundary_csc(k));"),
(R,'bug',D,"const bool augmented=false) : degree(deg) {","const bool augmented=false) : degree(-deg) {"),
(R,'bug',D,"return (differential[k+degree] * differential[k]).is_zero();","return (differential[k] * differential[k+degree]).is_zero();"),
(R,'same',D,"			for (size_t k = 1; k < X.maxdim() + 1; k++) {\n				differential[k] = MT(X.boundary_csc(k)).T();","			for (size_t k = 1; k <= X.maxdim(); k++) {\n				MT Bk(X.boundary_csc(k));\n				differential[k] = Bk.T();"),
(R,'same',D,"return (degree == -1) ? differential[k] : differential[k+1];","const size_t off = (degree == -1) ? 0 : 1;\n		return differential[k + off];"),
(R,'bug',DM,"map[k] = TM(f[k]).T(); // transpose","map[k] = TM(f[k]);"),
(R,'bug',DM,"map[k] = TM(f[k]);","map[k] = TM(f[k]).T();",0),
(R,'bug',DM,"        } else {\n            throw std::runtime_error(\"Degree of DGLinearMap should be +1 or -1\");\n        }","        }"),
# products
(R,'bug',Z,"for (size_t _dx = 0; _dx < dx; _dx++) {","for (size_t _dx = 0; _dx <= dx; _dx++) {"),
(R,'bug',Z,"shift += CX.dim(_dx) * CY.dim(_dy);","shift += CX.dim(_dx) * CY.dim(dy);"),
(R,'bug',Z,"		if (_dx > CX.maxdim() || _dy > CY.maxdim()) {continue;}","		if (_dx > CX.maxdim() || dy > CY.maxdim()) {continue;}"),
(R,'bug',Z,"	for (auto& ind : Ainds) { std::sort(ind.begin(), ind.end()); }\n",""),
(R,'bug',Z,"			shift += X.ncells(dX) * Y.ncells(dY); // how much we'll shift for next pair of dimensions\n		}\n		std::sort","			shift += Ainds[dX].size() * Y.ncells(dY); // how much we'll shift for next pair of dimensions\n		}\n		std::sort"),
(R,'bug',Z,"		}\n		std::sort(ABinds[dim].begin(), ABinds[dim].end());\n	}\n	return ABinds;","		}\n	}\n	return ABinds;"),
(R,'bug',Z,"			for (auto iA : bats::util::sorted_complement(Ainds[dX], X.ncells(dX))) {\n				for (auto iB : Binds[dY]) {","			for (auto iA : Ainds[dX]) {\n				for (auto iB : Binds[dY]) {"),
(R,'bug',Z,"					ABinds[dim].emplace_back(iA * Y.ncells(dY) + iB + shift);","					ABinds[dim].emplace_back(iA * X.ncells(dX) + iB + shift);"),
(R,'bug',Z,"					ABinds[dim].emplace_back(iA * Y.ncells(dY) + iB + shift);","					ABinds[dim].emplace_back(iA * Y.ncells(dY) + iB);",1),
(R,'bug',Z,"dX > 0 ? ind_shift[dX-1][dY] : 0","dX > 0 ? ind_shift[dX-1][dY-1] : 0"),
(R,'bug',Z,"T(dX & 0x1 ? -1 : 1)","T(dY & 0x1 ? -1 : 1)"),
(R,'bug',Z,"kron(VT(iY), Y.ncells(dY))","kron(VT(iY), X.ncells(dY))"),
(R,'same',Z,"			shift += X.ncells(dX) * Y.ncells(dY); // how much we'll shift for next pair of dimensions\n		}\n		std::sort","			const size_t block = X.ncells(dX) * Y.ncells(dY);\n			shift += block;\n		}\n		std::sort"),
(R,'same',Z,"	for (auto& ind : Ainds) { std::sort(ind.begin(), ind.end()); }\n","	for (size_t d = 0; d < Ainds.size(); d++) { std::sort(Ainds[d].begin(), Ainds[d].end()); }\n"),
(R,'same',Z,"				for (size_t iB = 0; iB < Y.ncells(dY); iB++) {\n					ABinds[dim]","				const size_t nY = Y.ncells(dY);\n				for (size_t iB = 0; iB < nY; iB++) {\n					ABinds[dim]"),
]
