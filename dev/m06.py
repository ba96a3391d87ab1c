PA='include/homology/parallel.hpp'; QS='include/quiver/sparse.hpp'; FU='include/multigraph/functors.hpp'; NB='include/topology/neighborhood.hpp'; SP='include/topology/spherical.hpp'; LS='include/topology/levelset.hpp'; DI='include/multigraph/diagram.hpp'; SV='include/linalg/sparse_vector.hpp'
M=[
('R06','bug',PA,"	#pragma omp taskwait\n",""),
('R06','bug',PA,"shared(p2c, nzcol1) firstprivate","firstprivate"),
('R06','bug',PA,"shared(nzcol2, p2c_ignore)","shared(nzcol2)"),
('R06','bug',PA,"reduce_block_dq(M, j2, j1, max_block_size, level+1","reduce_block_dq(M, j2-1, j1, max_block_size, level+1"),
('R06','bug',PA,"std::tie(p2c_ignore, nzcol2) = reduce","std::tie(p2c, nzcol2) = reduce"),
('R06','bug',PA,"        #pragma omp single nowait\n",""),
('R06','bug',PA,"reduce_block_sequential(M, j, std::min(j+block_size, n));","reduce_block_sequential(M, j, std::min(j+block_size+1, n));"),
('R06','bug',PA,"reduce_block_sequential(M, U, j, std::min(j+block_size, n));","reduce_block_sequential(M, U, j == 0 ? j : j-1, std::min(j+block_size, n));"),
('R06','bug',PA,"for (size_t j = 0; j < n; j+=block_size) {\n		reduce_block_sequential(M, j, std::min(j+block_size, n));","for (size_t j = 0; j < n; j++) {\n		reduce_block_sequential(M, j, std::min(j+block_size, n));"),
('R06','bug',PA,"	std::unordered_map<size_t, size_t> p2c;\n	typename TVec::tmp_type tmp; // preallocate\n\n	for (size_t j = j0; j < j1; ++j) {\n		reduce_column_standard(M, j, p2c, tmp);","	std::unordered_map<size_t, size_t> p2c;\n	static typename TVec::tmp_type tmp; // preallocate\n\n	for (size_t j = j0; j < j1; ++j) {\n		reduce_column_standard(M, j, p2c, tmp);"),
('R06','bug',QS,"    #pragma omp taskwait\n\n    // quiver","    // quiver"),
('R06','bug',QS,"size_t j0b = j2 - 1;\n    size_t j1a = j2 + 1;","size_t j0b = j2;\n    size_t j1a = j2;"),
('R06','bug',QS,"(void) type_A_dq_EU(dgm, facts, mats, j1a, j1);","(void) type_A_dq_EU(dgm, facts, mats, j0b, j1);"),
('R06','bug',QS,"    #pragma omp taskwait\n\n    // now do","\n\n    // now do"),
('R06','bug',QS,"        #pragma omp single nowait\n",""),
('R06','bug',FU,"		TD.set_node(i, Nerve(D.node[i], dmax));","		TD.set_node(0, Nerve(D.node[i], dmax));"),
('R06','bug',FU,"	#pragma omp parallel for\n	for (size_t i = 0; i < n; i++) {\n	    auto XI = get_subset(X, D.node[i]);","	DataSet<T> XI;\n	#pragma omp parallel for\n	for (size_t i = 0; i < n; i++) {\n	    XI = get_subset(X, D.node[i]);"),
('R06','bug',FU,"	#pragma omp parallel for\n	for (size_t i = 0; i < m; i++) {\n	    auto s = D.elist[i].src;\n	    auto t = D.elist[i].targ;\n	    TD.set_edge(","	size_t s, t;\n	#pragma omp parallel for\n	for (size_t i = 0; i < m; i++) {\n	    s = D.elist[i].src;\n	    t = D.elist[i].targ;\n	    TD.set_edge("),
('R06','bug',FU,"	    TD.set_edge(i, s, t, HF);","	    TD.set_edge(i, s, t, HF);\n	    TD.set_node(s, HF.ncol());"),
('R06','bug',NB,"		nbrs[i] = neighborhood(X[i], Y, dist, k);","		nbrs.push_back(neighborhood(X[i], Y, dist, k));"),
('R06','bug',SP,"simd reduction(+:ip)","simd"),
('R06','bug',LS,"        D.set_node(i, X.levelset(","        D.set_node(i/2, X.levelset("),
('R06','bug',LS,"        D.set_edge(i, src, targ,","        D.set_edge(i+1-i%2, src, targ,"),
('R06','bug',DI,"        #pragma omp parallel for\n        for (size_t i = 0; i < nnode(); i++) {\n            std::string fname = dname","        std::string fname;\n        #pragma omp parallel for\n        for (size_t i = 0; i < nnode(); i++) {\n            fname = dname"),
('R06','bug',QS,"        TD.set_edge(i, s, t, D.edata[i][k]);","        TD.set_edge(s, s, t, D.edata[i][k]);"),
('R06','bug',QS,"        TD.set_edge(i, s, t, D.edata[i][k]);","        TD.add_edge(s, t, TM(D.edata[i][k]));"),
('R06','bug',SV,"		auto i1 = indval.cbegin();","		static typename std::vector<key_type> scratch; scratch.resize(indval.size());\n		auto i1 = indval.cbegin();"),
# behaviour preserving
('R06','same',PA,"	#pragma omp taskwait\n","	#pragma omp taskwait\n	(void) level;\n"),
('R06','same',PA,"size_t j2 = (j0 + j1) >> 1; // midpoint\n	std::vector<size_t> nzcol1, nzcol2;\n	std::unordered_map<size_t, size_t> p2c, p2c_ignore;","size_t j2 = j0 + (j1 - j0) / 2; // midpoint\n	std::vector<size_t> nzcol1, nzcol2;\n	std::unordered_map<size_t, size_t> p2c, p2c_ignore;"),
('R06','same',PA,"		reduce_block_sequential(M, j, std::min(j+block_size, n));","		size_t je = j + block_size;\n		if (je > n) { je = n; }\n		reduce_block_sequential(M, j, je);"),
('R06','same',PA,"		reduce_block_sequential(M, j, std::min(j+block_size, n));","		size_t je = (j + block_size < n) ? j + block_size : n;\n		reduce_block_sequential(M, j, je);"),
('R06','same',PA,"	#pragma omp parallel for\n	for (size_t j = 0; j < n; j+=block_size) {\n		reduce_block_sequential(M, j, std::min(j+block_size, n));","	size_t nb = (n + block_size - 1) / block_size;\n	#pragma omp parallel for\n	for (size_t b = 0; b < nb; b++) {\n		size_t j = b * block_size;\n		reduce_block_sequential(M, j, std::min(j+block_size, n));"),
('R06','same',PA,"	for (size_t j = j0; j < j1; ++j) {\n		reduce_column_standard(M, j, p2c, tmp);\n		// reduce_column_extra(M, j, p2c, tmp);\n		if (M[j].nnz() > 0) { nzcol.emplace_back(j); }\n	}","	size_t j = j0;\n	while (j < j1) {\n		reduce_column_standard(M, j, p2c, tmp);\n		if (M[j].nnz() > 0) { nzcol.emplace_back(j); }\n		j++;\n	}"),
('R06','same',FU,"	#pragma omp parallel for\n	for (size_t i = 0; i < n; i++) {\n	    auto XI = get_subset(X, D.node[i]);","	#pragma omp parallel for schedule(dynamic)\n	for (size_t i = 0; i < n; i++) {\n	    const auto &S = D.node[i];\n	    auto XI = get_subset(X, S);"),
('R06','same',FU,"	#pragma omp parallel for\n	for (size_t i = 0; i < n; i++) {\n	    auto XI = get_subset(X, D.node[i]);","	DataSet<T> XI;\n	#pragma omp parallel for private(XI)\n	for (size_t i = 0; i < n; i++) {\n	    XI = get_subset(X, D.node[i]);"),
('R06','same',FU,"	    TD.set_edge(i, s, t, HF);","	    auto &slot = TD.edata[i];\n	    slot = HF;\n	    TD.elist[i] = TD.elist[i];\n	    TD.set_edge(i, s, t, HF);"),
('R06','same',NB,"		nbrs[i] = neighborhood(X[i], Y, dist, k);","		auto nb = neighborhood(X[i], Y, dist, k);\n		std::swap(nbrs[i], nb);"),
('R06','same',NB,"		nbrs[i] = neighborhood(X[i], Y, dist, k);","		auto nb = neighborhood(X[i], Y, dist, k);\n		for (auto j : nb) { nbrs[i].emplace_back(j); }"),
('R06','same',NB,"		nbrs[i] = neighborhood(X[i], Y, dist, k);","		auto nb = neighborhood(X[i], Y, dist, k);\n		#pragma omp critical\n		{ nbrs.at(i) = nb; }"),
('R06','same',LS,"        size_t src = (i % 2 == 0) ? i : i+1;\n        size_t targ = (i % 2 == 0) ? i+1 : i;","        size_t src = i, targ = i + 1;\n        if (i % 2 == 1) { std::swap(src, targ); }"),
('R06','same',QS,"size_t j2 = (j0 + j1) / 2; //edge","size_t j2 = j0 + (j1 - j0) / 2; //edge"),
('R06','same',QS,"    if (j1 - j0 < 4 ) {","    if (j1 < j0 + 4) {"),
('R06','same',QS,"        auto s = D.elist[i].src;\n		auto t = D.elist[i].targ;\n        TD.set_edge(i, s, t, D.edata[i][k]);","        const auto &e = D.elist[i];\n        TD.set_edge(i, e.src, e.targ, D.edata[i][k]);"),
('R06','same',QS,"    #pragma omp parallel for\n    for (size_t i = 0; i < m; ++i) {\n        auto s","    for (size_t i = 0; i < m; ++i) {\n        auto s"),
('R06','same',SP,"			ip += v(j,k) * dv(j,k);","			ip = ip + v(j,k) * dv(j,k);"),
('R06','bug',PA,"reduce_block_sequential(M, j, std::min(j+block_size, n));","reduce_block_sequential(M, j > 0 ? j - 1 : 0, std::min(j+block_size, n));"),
('R06','bug',PA,"reduce_block_sequential(M, j, std::min(j+block_size, n));","size_t je = j + block_size;\n		if (je < n) { je = je + 1; }\n		reduce_block_sequential(M, j, je);"),
('R06','same',PA,"reduce_block_sequential(M, j, std::min(j+block_size, n));","size_t jb = j > 0 ? j : 0;\n		reduce_block_sequential(M, jb, std::min(j+block_size, n));"),
]
