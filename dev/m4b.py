P='include/linalg/sparse_vector.hpp'
R='R04'
M=[
(R,'bug',P,"		if (v != TV(0)) { indval.emplace_back(key_type(i, v)); }","		indval.emplace_back(key_type(i, v));"),
(R,'bug',P,"		if (v != TV(0)) { indval.emplace_back(key_type(i, v)); }","		if (v != TV(1)) { indval.emplace_back(key_type(i, v)); }"),
(R,'same',P,"		if (v != TV(0)) { indval.emplace_back(key_type(i, v)); }","		if (v == TV(0)) { return; }\n		indval.push_back(key_type(i, v));"),
(R,'bug',P,"			if (v2 != 0) {\n				indval2","			if (indval[i].val != 0) {\n				indval2"),
(R,'bug',P,"		if (a == TV(0)) { return SparseVector(vindval); }","		if (a == TV(1)) { return SparseVector(vindval); }"),
(R,'bug',P,"		if (a == TV(0)) { return SparseVector(vindval); }",""),
(R,'same',P,"		if (a == TV(0)) { return SparseVector(vindval); }\n		vindval.reserve(m);","		if (!(a != TV(0))) { return SparseVector(vindval); }"),
(R,'bug',P,"			emplace_nonzero(ind[i], val[i]);","			if (i < nz) { emplace_nonzero(ind[i], val[nz - 1 - i]); }"),
(R,'bug',P,"			emplace_nonzero(ind[i], val[i]);","			if (val[i] != TV(0)) { indval.emplace_back(key_type(ind[i], val[i])); indval.emplace_back(key_type(ind[i], val[i])); }"),
(R,'same',P,"		for (size_t i = 0; i < nz; i++) {\n			emplace_nonzero(ind[i], val[i]);","		auto iit = ind.begin(); auto vit = val.begin();\n		for (; iit != ind.end(); ++iit, ++vit) {\n			emplace_nonzero(*iit, *vit);"),
(R,'bug',P,"		for (size_t i = 0; i < nz; i++) {\n			emplace_nonzero(ind[i], val[i]);","		for (size_t i = 1; i < nz; i++) {\n			emplace_nonzero(ind[i], val[i]);"),
(R,'bug',P,"		for (size_t i = 0; i < nz; i++) {\n			emplace_nonzero(ind[i], val[i]);","		for (size_t i = 0; i < nz; i+=2) {\n			emplace_nonzero(ind[i], val[i]);"),
(R,'same',P,"		emplace_nonzero(i, v);\n	}","		if (v == TV(0)) return;\n		indval.emplace_back(key_type(i, v));\n	}"),
(R,'bug',P,"			emplace_nonzero(std::get<0>(tup), TV(std::get<1>(tup)));","			if (std::get<1>(tup) > 0) emplace_nonzero(std::get<0>(tup), TV(std::get<1>(tup)));"),
(R,'bug',P,"			emplace_nonzero((*it).ind, TV((*it).val));","			if ((*it).val != 0) indval.emplace_back(key_type((*it).ind, TV((*it).val)));"),
(R,'bug',P,"			emplace_nonzero(TI(*indit++), TV(*valit++));","			if (TV(*valit) == TV(0)) { ++valit; continue; }\n			emplace_nonzero(TI(*indit++), TV(*valit++));"),
(R,'same',P,"			emplace_nonzero(TI(*indit++), TV(*valit++));","			TI ii(*indit); TV vv(*valit); ++indit; ++valit;\n			if (vv == TV(0)) { continue; }\n			indval.emplace_back(key_type(ii, vv));"),
(R,'same',P,"		for (size_t i = 0; i < nz; i++) {\n			emplace_nonzero(ind[i], val[i]);\n		}","		for (size_t i = 0; i < nz; i++) {\n			indval.emplace_back(key_type(ind[i], val[i]));\n		}\n		clear_zeros();"),
]
