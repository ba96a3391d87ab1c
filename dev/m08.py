S='include/complex/simplicial_complex.hpp'; C='include/complex/cubical_complex.hpp'; L='include/complex/light_simplicial_complex.hpp'; CM='include/complex/cell_map.hpp'; SM='include/complex/simplicial_map.hpp'; T='include/util/trie.hpp'; U='include/util/simplex.hpp'; CE='include/complex/cell_complex.hpp'
R='R08'
M=[
# ---- bugs
(R,'bug',S,"for (size_t j = k2+1; j < spx_len; j++) {\n                    __face","for (size_t j = k2+1; j < dim; j++) {\n                    __face"),
(R,'bug',S,"for (size_t k = 0; k < spx_len; k++) {","for (size_t k = 0; k < dim; k++) {"),
(R,'bug',S,"for (size_t k = 0; k < spx_len; k++) {","for (size_t k = 0; k < dim; k++) {",1),
(R,'bug',S,"size_t k2 = dim-k; // index to skip","size_t k2 = k; // index to skip"),
(R,'bug',S,"            int c = -1;\n","            int c = 1;\n"),
(R,'bug',S,"      int c = -1;\n      // loop","      int c = 1;\n      // loop"),
(R,'bug',S,"coeff[dim-1].resize(old_size);","coeff[dim-1].resize(old_size + 1);"),
(R,'bug',S,"                    coeff[dim-1].resize(old_size);\n",""),
(R,'bug',S,"					_ncells[dim]--; // we don't add the cell\n",""),
(R,'bug',S,"coeff[dim-1].begin() + ((dim + 1) * ind),","coeff[dim-1].begin() + (dim * ind),"),
(R,'bug',S,"faces[dim-1].begin() + ((dim + 1) * (ind+1)),","faces[dim-1].begin() + ((dim + 1) * (ind+1)) - 1,"),
(R,'bug',S,"			bats::util::apply_perm(\n				coeff[dim-1].begin() + ((dim + 1) * ind),\n				__tmpc,\n				__perm\n			);\n",""),
(R,'bug',S,"		if (spx_to_idx.count(s) > 0) {\n            // simplex is already in complex\n            return cell_ind(dim, spx_to_idx[s]);\n        }\n        // we're clear to add\n        return _add_unsafe(s);".replace('\t\t','        '),"        return _add_unsafe(s);"),
(R,'bug',S,"        std::sort(s.begin(), s.end());\n        return add_directed_safe(s);","        return add_directed_safe(s);"),
(R,'bug',S,"        std::sort(s.begin(), s.end());\n        return add_directed_safe(s);","        std::sort(s.begin(), s.end() - 1);\n        return add_directed_safe(s);"),
(R,'bug',S,"    ci.emplace_back(cell_ind(dim, ind));\n\n    return","    return"),
(R,'bug',S,"return faces[dim-1].cbegin() + ((dim + 1) * i);","return faces[dim-1].cbegin() + (dim * i);"),
(R,'bug',S,"return spx[dim].cbegin() + ((dim + 1) * (i+1));","return spx[dim].cbegin() + ((dim + 1) * i + dim);"),
(R,'bug',S,"			if (s.size() == dim + 1) {\n				simplices","			if (s.size() == dim) {\n				simplices"),
(R,'bug',S,"for (size_t dim = 0; dim < maxdim() + 1; dim++){\n			for (auto i : spx[dim]) {","for (size_t dim = 0; dim < maxdim(); dim++){\n			for (auto i : spx[dim]) {"),
(R,'bug',S,"for (size_t dim = 0; dim < Y.maxdim() + 1; dim++){","for (size_t dim = 0; dim < maxdim() + 1; dim++){"),
(R,'bug',S,"for (size_t k = 0; k <= Y.maxdim(); k++) {","for (size_t k = 0; k <= X.maxdim(); k++) {"),
(R,'bug',S,"for (size_t nk = 0; nk < Y.ncells(k); nk++) {","for (size_t nk = 0; nk < X.ncells(k); nk++) {"),
(R,'bug',S,"if (dim > A.maxdim()) { return std::vector<size_t>(); }","if (dim >= A.maxdim()) { return std::vector<size_t>(); }"),
(R,'bug',S,"auto s = A.get_simplex(dim, i);","auto s = get_simplex(dim, i);"),
(R,'bug',S,"if (Y.find_idx(s) != bats::NO_IND) {","if (X.find_idx(s) != bats::NO_IND) {"),
(R,'bug',S,"size_t indend = indbegin + dim + 1;","size_t indend = indbegin + dim;"),
(R,'bug',S,"val.emplace_back(coeff[dim-1][i]);","val.emplace_back(coeff[dim-1][i - indbegin]);"),
(R,'bug',S,"size_t m = ncells(dim-1);","size_t m = ncells(dim);"),
(R,'bug',S,"val += (dim + 1);","val += dim;"),
(R,'bug',C,"if (s[i+1] < s[i] || s[i+1] > s[i] + 1) { return false; }","if (s[i+1] < s[i] || s[i+1] > s[i] + 2) { return false; }"),
(R,'bug',C,"__face[k] = s[k]; __face[k+1] = s[k]; // face # 2","__face[k] = s[k]; // face # 2"),
(R,'bug',C,"__face[k] = s[k]; __face[k+1] = s[k+1]; // return","__face[k] = s[k]; // return"),
(R,'bug',C,"                coeff[dim-1].emplace_back(-c);","                coeff[dim-1].emplace_back(c);"),
(R,'bug',C,"				c = -c; // alternate coefficient for next dimension\n",""),
(R,'bug',C,"				c = -c; // alternate coefficient for next dimension\n","",1),
(R,'bug',C,"if (s[k] == s[k+1]) { continue; } // degenerate","if (s[k] == s[k+1]) { c = -c; continue; } // degenerate"),
(R,'bug',C,"for (size_t k = 0; k < 2*__maxdim; k+=2) {","for (size_t k = 0; k < 2*dim; k+=2) {"),
(R,'bug',C,"            int c = 1; // coefficient","            int c = -1; // coefficient",1),
(R,'bug',C,"                    coeff[dim-1].resize(old_size);\n","",1),
(R,'bug',C,"for (size_t d = 0; d <= k; d++) {","for (size_t d = 0; d < k; d++) {"),
(R,'bug',C,"dim += s[i+1] - s[i]; // assume valid cube","dim += s[i+1] > 0; // assume valid cube"),
(R,'bug',C,"return faces[dim-1].cbegin() + (2*dim * i);","return faces[dim-1].cbegin() + (2*__maxdim * i);"),
(R,'bug',C,"return spx[dim].cbegin() + (2*__maxdim * i);","return spx[dim].cbegin() + (2*dim * i);"),
(R,'bug',L,"offset(i) = _n * offset(i-1);","offset(i) = _n + offset(i-1);"),
(R,'bug',L,"for (size_t i = 1; i < _k+1; i++) {","for (size_t i = 1; i < _k; i++) {"),
(R,'bug',L,"c = (i & 0x1) ? -1 : 1;","c = 1;"),
(R,'bug',L,"if (i > 0) { after += v * p->offset(i-1); }","if (i > 0) { after += v * p->offset(i); }"),
(R,'bug',L,"index_type face = before + after;","index_type face = before;"),
(R,'bug',L,"before = before % p->offset(i);","before = before % p->offset(i+1);"),
(R,'bug',L,"			c = -c;\n			i--;\n			return std::make_tuple(face, coeff);","			i--;\n			return std::make_tuple(face, coeff);"),
(R,'bug',L,"return !(i < 0);","return i > 0;"),
(R,'bug',L,"for (size_t d = dim; d > 0; d--) {","for (size_t d = dim; d > 1; d--) {"),
(R,'bug',L,"key -= s[d] * offset(d);","key -= offset(d);"),
(R,'bug',L,"return (loc == key_to_index[dim].end()) ? bats::NO_IND : loc->second;","return loc->second;"),
(R,'bug',L,"size_t dim = s.size() - 1;\n		return find_idx(dim, key);","size_t dim = s.size();\n		return find_idx(dim, key);"),
(R,'bug',L,"			ind = it->second;\n		}\n		return cell_ind(dim, ind);","		}\n		return cell_ind(dim, ind);"),
(R,'bug',L,"auto fc = add_recursive(dim-1, f);\n","auto fc = add_recursive(dim-1, k);\n"),
(R,'bug',L,"		bats::util::apply_perm(val, p);\n",""),
(R,'bug',L,"for (size_t dim = 0; dim < maxdim() + 1; dim++){","for (size_t dim = 0; dim < maxdim(); dim++){"),
(R,'bug',SM,"int sgn = bats::util::simplex_sign(s);","std::sort(s.begin(), s.end()); int sgn = !bats::util::is_degenerate(s);"),
(R,'bug',SM,"if (j == bats::NO_IND) {","if (false) {"),
(R,'bug',SM,"({j}, {sgn})","({j}, {1})"),
(R,'bug',SM,"({j}, {sgn})","({i}, {sgn})"),
(R,'bug',SM,"				col.emplace_back(SparseVector<int, size_t>());\n",""),
(R,'bug',SM,"(Y.ncells(k), X.ncells(k), col)","(X.ncells(k), X.ncells(k), col)"),
(R,'bug',SM,"s.emplace_back(f0[x]);","s.emplace_back(x);"),
(R,'bug',SM,"for (size_t k = 0; k < maxd+1; k++) {","for (size_t k = 0; k < maxd; k++) {"),
(R,'bug',U,"if (s[i] == s[i-1]) { return true; }","if (s[i] == s[0]) { return true; }"),
(R,'bug',U,"for (size_t i = 1; i < s.size(); i++) {","for (size_t i = 2; i < s.size(); i++) {"),
# ---- same
(R,'same',S,"                for (size_t j = 0; j < k2; j++) {\n                    __face.emplace_back(s[j]);\n                }\n                for (size_t j = k2+1; j < spx_len; j++) {\n                    __face.emplace_back(s[j]);\n                }\n","                for (size_t j = 0; j <= dim; j++) {\n                    if (j == k2) { continue; }\n                    __face.emplace_back(s[j]);\n                }\n"),
(R,'same',S,"                __face.clear();\n                for (size_t j = 0; j < k2; j++) {\n                    __face.emplace_back(s[j]);\n                }\n                for (size_t j = k2+1; j < spx_len; j++) {\n                    __face.emplace_back(s[j]);\n                }\n","                __face = s;\n                __face.erase(__face.begin() + k2);\n"),
(R,'same',S,"                __face.clear();\n                for (size_t j = 0; j < k2; j++) {\n                    __face.emplace_back(s[j]);\n                }\n                for (size_t j = k2+1; j < spx_len; j++) {\n                    __face.emplace_back(s[j]);\n                }\n","                __face.assign(s.begin(), s.begin() + k2);\n                __face.insert(__face.end(), s.begin() + k2 + 1, s.end());\n"),
(R,'same',S,"            int c = -1;\n            // loop over faces in lexicographical order\n            size_t spx_len = dim + 1;\n            for (size_t k = 0; k < spx_len; k++) {\n\n                size_t k2 = dim-k; // index to skip","            int c = -1;\n            size_t spx_len = dim + 1;\n            for (size_t k2 = spx_len; k2-- > 0; ) {"),
(R,'same',S,"                faces[dim-1].emplace_back(ind);\n                coeff[dim-1].emplace_back(c);","                coeff[dim-1].push_back(c);\n                faces[dim-1].push_back(ind);"),
(R,'same',S,"                    faces[dim-1].resize(old_size);\n                    coeff[dim-1].resize(old_size);\n					_ncells[dim]--; // we don't add the cell\n","                    --_ncells[dim];\n                    coeff[dim-1].resize(old_size);\n                    faces[dim-1].resize(old_size);\n"),
(R,'same',S,"        for (auto v : s) {\n            spx[dim].emplace_back(v);\n        }\n","        spx[dim].insert(spx[dim].end(), s.begin(), s.end());\n"),
(R,'same',S,"		// get index of simplex\n        size_t ind = _ncells[dim]++;","        size_t ind = _ncells[dim];\n        _ncells[dim] += 1;"),
(R,'same',S,"        if (spx_to_idx.count(s) > 0) {\n            // simplex is already in complex\n            return cell_ind(dim, spx_to_idx[s]);\n        }\n        // we're clear to add\n        return _add_unsafe(s);","        size_t where = find_idx(s);\n        if (where == bats::NO_IND) { return _add_unsafe(s); }\n        return cell_ind(dim, where);"),
(R,'same',S,"		s.clear();\n		for (auto it = simplex_begin(dim, i); it != simplex_end(dim, i); it++) {\n			s.emplace_back(*it);\n		}\n		return;","		s.assign(simplex_begin(dim, i), simplex_end(dim, i));"),
(R,'same',S,"		for (auto i : spx[dim]) {\n			s.emplace_back(i);\n			if (s.size() == dim + 1) {\n				simplices.emplace_back(s);\n				s.clear();\n			}\n		}\n		return simplices;","		for (size_t i = 0; i < ncells(dim); ++i) {\n			simplices.emplace_back(get_simplex(dim, i));\n		}\n		return simplices;"),
(R,'same',S,"for (size_t k = 0; k <= Y.maxdim(); k++) {\n			for (size_t nk = 0; nk < Y.ncells(k); nk++) {\n				auto s = Y.get_simplex(k, nk);\n				XY.add_safe(s);\n			}\n		}","XY.union_add(Y);"),
(R,'same',S,"		size_t indbegin = (dim+1) * k;\n		size_t indend = indbegin + dim + 1;\n		std::vector<size_t> ind;\n		std::vector<int> val;\n		for (size_t i = indbegin; i < indend; i++) {\n			ind.emplace_back(faces[dim-1][i]);\n			val.emplace_back(coeff[dim-1][i]);\n		}","		std::vector<size_t> ind(faces_begin(dim, k), faces_end(dim, k));\n		std::vector<int> val(coeff[dim-1].begin() + (dim+1)*k, coeff[dim-1].begin() + (dim+1)*(k+1));"),
(R,'same',S,"        auto vbeg = colptr.begin();\n        auto vend = colptr.end();\n        size_t val = 0;\n        while (vbeg != vend) {\n            *vbeg++ = val;\n            val += (dim + 1);\n        }\n","        for (size_t j = 0; j < n + 1; ++j) { colptr[j] = j * (dim + 1); }\n"),
(R,'same',C,"				if (s[k] == s[k+1]) { continue; } // degenerate\n				// else, we have two faces\n				__face[k] = s[k+1]; // face # 1","				const size_t lo = s[k], hi = s[k+1];\n				if (hi == lo) { continue; }\n				__face[k] = hi;"),
(R,'same',C,"            int c = 1; // coefficient\n			// loop over possible faces\n			for (size_t k = 0; k < 2*__maxdim; k+=2) {","            int c = 1; // coefficient\n			const size_t nb = s.size();\n			for (size_t k = 0; k != nb; k+=2) {"),
(R,'same',C,"		for (size_t i = 0; i < 2*__maxdim; i+=2) {\n			dim += s[i+1] - s[i]; // assume valid cube\n		}","		for (size_t i = 0; i < __maxdim; ++i) {\n			dim += (s[2*i] != s[2*i+1]);\n		}"),
(R,'same',C,"			for (auto c : get_cubes(d)) {\n				X._add_unsafe(c);\n			}","			for (size_t i = 0; i < ncells(d); ++i) {\n				X._add_unsafe(get_cube(d, i));\n			}"),
(R,'same',L,"		auto [it, newkey] = key_to_index[dim].try_emplace(k, ind);\n		if (newkey) {\n			// new key was inserted\n			index_to_key[dim].emplace_back(k);\n		} else {\n			// key was already inserted - we'll look up the index\n			ind = it->second;\n		}\n		return cell_ind(dim, ind);","		size_t old = find_idx(dim, k);\n		if (old != bats::NO_IND) { return cell_ind(dim, old); }\n		key_to_index[dim].emplace(k, ind);\n		index_to_key[dim].emplace_back(k);\n		return cell_ind(dim, ind);"),
(R,'same',L,"        for (size_t j = 0; j < s.size(); j++) {\n            key += s[j] * offset(j);\n        }","        size_t j = 0;\n        for (auto v : s) { key += offset(j++) * v; }"),
(R,'same',L,"		for (size_t d = dim; d > 0; d--) {\n			s[d] = max_vertex(key, d);\n			key -= s[d] * offset(d);\n		}","		for (size_t d = dim; d > 0; d--) {\n			s[d] = key / offset(d);\n			key = key % offset(d);\n		}"),
(R,'same',L,"			// get max vertex and remainder\n			index_type v = before / p->offset(i);\n			before = before % p->offset(i);\n			index_type face = before + after;","			const index_type o = p->offset(i);\n			index_type v = p->max_vertex(before, i);\n			before -= v * o;\n			index_type face = after + before;"),
(R,'same',L,"			c = (i & 0x1) ? -1 : 1;","			c = (i % 2 == 0) ? 1 : -1;"),
(R,'same',SM,"			if (sgn != 0) {\n				size_t j","			if (0 != sgn) {\n				size_t j"),
(R,'same',SM,"			s.clear();\n			for (auto x : X.get_simplex(k, i)) {\n				s.emplace_back(f0[x]);\n			}","			X.get_simplex(k, i, s);\n			for (auto& x : s) { x = f0[x]; }"),
(R,'same',SM,"		f[k] = ColumnMatrix<SparseVector<int, size_t>>(Y.ncells(k), X.ncells(k), col);","		ColumnMatrix<SparseVector<int, size_t>> Fk(Y.ncells(k), X.ncells(k), col);\n		f[k] = Fk;"),
(R,'bug',S,"        if (ind == bats::NO_IND) {\n          cell_ind fci","        if (ind != bats::NO_IND) {\n          cell_ind fci"),
(R,'same',S,"        if (ind == bats::NO_IND) {\n          cell_ind fci = _add_recursive(face, ci);\n          ind = fci.ind;\n        }","        if (bats::NO_IND == ind) {\n          ind = _add_recursive(face, ci).ind;\n        }"),
(R,'bug',S,"            coeff[dim-1].cbegin(),\n            coeff[dim-1].cend(),\n            std::back_inserter(ival)","            coeff[dim].cbegin(),\n            coeff[dim-1].cend(),\n            std::back_inserter(ival)"),
(R,'bug',S,"            coeff[dim-1].cbegin(),\n            coeff[dim-1].cend(),\n            std::back_inserter(ival)","            coeff[dim].cbegin(),\n            coeff[dim].cend(),\n            std::back_inserter(ival)"),
(R,'bug',L,"		const size_t dim = s.size() - 1;\n		return add(dim, k);","		const size_t dim = s.size() + 1;\n		return add(dim, k);"),
(R,'bug',L,"		const size_t dim = s.size() - 1;\n		return add_unsafe(dim, k);","		const size_t dim = s.size();\n		return add_unsafe(dim, k);"),
(R,'same',L,"		const size_t dim = s.size() - 1;\n		return add(dim, k);","		return add(s.size() - 1, k);"),
(R,'bug','include/util/simplex.hpp',"for (size_t i = 1; i < s.size(); i++) {\n        if (s[i] == s[i-1]) { return true; }","for (size_t i = 2; i < s.size(); i++) {\n        if (s[i] == s[i-1]) { return true; }"),
(R,'bug','include/util/simplex.hpp',"if (s[i] == s[i-1]) { return true; }","if (s[i] != s[i-1]) { return true; }"),
(R,'bug','include/util/simplex.hpp',"for (size_t i = 1; i < s.size(); i++) {\n        if (s[i] == s[i-1]) { return true; }","for (size_t i = 2; i < s.size(); i++) {\n        if (s[i] == s[i-2]) { return true; }"),
(R,'same','include/util/simplex.hpp',"for (size_t i = 1; i < s.size(); i++) {\n        if (s[i] == s[i-1]) { return true; }","for (size_t i = 0; i + 1 < s.size(); i++) {\n        if (s[i+1] == s[i]) { return true; }"),
]
