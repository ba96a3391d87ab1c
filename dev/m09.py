F='include/filtration/filtration.hpp'; G='include/filtration/flag.hpp'; E='include/filtration/extension.hpp'; T='include/topology/flag.hpp'; L='include/topology/levelset.hpp'; Z='include/zigzag/zigzag_filtration.hpp'; X='include/zigzag/extension.hpp'
R='R09'
REC="bats::util::intersect_sorted_lt(iter_idxs, nbrs[k], k, iter_idxs2);"
M=[
(R,'bug',F,"val[ret.dim][ret.ind] = t;","val[ret.dim][ret.ind-1] = t;"),
(R,'bug',F,"val[ret.dim][ret.ind] = t;","val[ret.dim].back() = t;"),
(R,'bug',F,"		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added\n","",1),
(R,'bug',F,"reserve(ret.dim, ret.ind+1);","reserve(ret.dim, ret.ind);"),
(R,'bug',F,"reserve(ret.dim, ret.ind+1);","",1),
(R,'bug',F,"			val[r.dim][r.ind] = t;\n		}\n		return ret;","		}\n		auto &r = ret.back(); val[r.dim][r.ind] = t;\n		return ret;"),
(R,'bug',F,"val[dim][ci.ind] = F2.val[dim][i];","val[dim][i] = F2.val[dim][i];"),
(R,'bug',F,"val[dim][ci.ind] = F2.val[dim][i];","val[dim][ci.ind] = F2.val[dim][ci.ind];"),
(R,'bug',F,"for (size_t dim = 0; dim < F2.maxdim() + 1; ++dim){","for (size_t dim = 0; dim < F2.maxdim(); ++dim){"),
(R,'bug',F,"for (size_t i=0; i < F2.X.ncells(dim); ++i) {","for (size_t i=0; i < X.ncells(dim); ++i) {"),
(R,'bug',F,"if (val[k][i] <= a) {","if (val[k][i] < a) {"),
(R,'bug',F,"for (size_t k = 0; k < maxdim() + 1; ++k) {","for (size_t k = 0; k < maxdim(); ++k) {"),
(R,'bug',G,"(r == other.r && s < other.s) ? true :","(s < other.s) ? true :"),
(R,'bug',G,"(r == other.r && s == other.s && t < other.t) ? true :","(s == other.s && t < other.t) ? true :"),
(R,'bug',G,"return ((r < other.r) ? true :","return ((r > other.r) ? true :"),
(R,'bug',G,"            spx_idxs.pop_back();\n","            \n"),
(R,'bug',G,REC,"bats::util::intersect_sorted(iter_idxs, nbrs[k], iter_idxs2);"),
(R,'bug',G,REC,"bats::util::intersect_sorted_lt(iter_idxs, iter_idxs, k, iter_idxs2);"),
(R,'bug',G,"add_dimension_recursive_flag(F, nbrs, d+1, maxd, iter_idxs2, spx_idxs2, t);","add_dimension_recursive_flag(F, nbrs, d+2, maxd, iter_idxs2, spx_idxs2, t);"),
(R,'bug',G,"add_dimension_recursive_flag(F, nbrs, d+1, maxd, iter_idxs2, spx_idxs2, t);","add_dimension_recursive_flag(F, nbrs, d+1, maxd, iter_idxs, spx_idxs2, t);"),
(R,'bug',G,"inds[spx_idxs2.size()-1].emplace_back(index_of_edge);","inds[spx_idxs2.size()-1].emplace_back(k);"),
(R,'bug',G,"inds[spx_idxs2.size()-1].emplace_back(index_of_edge);","inds[d-1].emplace_back(index_of_edge);",1),
(R,'bug',G,"if (!iter_idxs.empty() && maxdim > 1) {","if (iter_idxs.size() > 1 && maxdim > 1) {"),
(R,'bug',G,"if (!iter_idxs.empty() && maxdim > 1) {","if (!iter_idxs.empty() && maxdim > 2) {"),
(R,'bug',G,"if (!iter_idxs.empty() && maxdim > 1) {","if (!iter_idxs.empty()) {"),
(R,'bug',G,"        bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);\n","        bats::util::intersect_sorted(nbrs[i], nbrs[i], iter_idxs);\n"),
(R,'bug',G,"nbrs[j].emplace_back(i);\n        std::sort(nbrs[j].begin(), nbrs[j].end());","nbrs[j].emplace_back(i);"),
(R,'bug',G,"nbrs[j].emplace_back(i);\n        std::sort(nbrs[j].begin(), nbrs[j].end());","nbrs[j].emplace_back(j);\n        std::sort(nbrs[j].begin(), nbrs[j].end());",1),
(R,'bug',G,"nbrs[j].emplace_back(i);\n        std::sort(nbrs[j].begin(), nbrs[j].end());","",1),
(R,'bug',G,"        inds[1].emplace_back(k);\n",""),
(R,'bug',G,"        F.add(t, spx_idxs); // auto ret =","        F.add(t0, spx_idxs); // auto ret ="),
(R,'bug',G,"    std::sort(edges.begin(), edges.end());\n\n    // check","    // check"),
(R,'bug',G,"for (size_t k = 0; k < n; k++) {\n        spx_idxs[0] = k;\n        F.add(t0, spx_idxs);","for (size_t k = 0; k + 1 < n; k++) {\n        spx_idxs[0] = k;\n        F.add(t0, spx_idxs);"),
(R,'bug',G,"        std::sort(spx_idxs.begin(), spx_idxs.end());\n        F.add(t, spx_idxs); // auto","        F.add(t, spx_idxs); // auto"),
(R,'bug',T,"size_t j = edges[2*k + 1];","size_t j = edges[k + 1];"),
(R,'bug',T,"add_dimension_recursive_flag(X, nbrs, 2, maxdim, iter_idxs, spx_idxs);","add_dimension_recursive_flag(X, nbrs, 1, maxdim, iter_idxs, spx_idxs);"),
(R,'bug',T,"size_t m = edges.size() / 2;","size_t m = edges.size() / 2 - 1;"),
(R,'bug',E,"return f0[i] < f0[j];","return f0[i] > f0[j];"),
(R,'bug',E,"std::max_element(s.begin(), s.end(), ","std::max_element(s.begin() + 1, s.end(), "),
(R,'bug',E,"return std::make_tuple(f0[*it], *it);","return std::make_tuple(f0[*it], *s.begin());"),
(R,'bug',E,"df[imap[dim+1][i]] += grad_dgms[dim][k+1];","df[imap[dim][i]] += grad_dgms[dim][k+1];"),
(R,'bug',E,"df[imap[dim][i]] += grad_dgms[dim][k];","df[imap[dim][i]] = grad_dgms[dim][k];"),
(R,'bug',E,"df[imap[dim+1][i]] += grad_dgms[dim][k+1];","df[imap[dim+1][i]] += grad_dgms[dim][k];"),
(R,'bug',E,"i = bdinds[dim][k+1];","i = bdinds[dim][k];"),
(R,'bug',E,"f0[c[1]][c[2]],","f0[c[0]][c[2]],"),
(R,'bug',E,"for (size_t k : {4, 5}) {","for (size_t k : {4}) {"),
(R,'bug',E,"val = (tmp > val) ? tmp : val;","val = (tmp > val) ? val : tmp;"),
(R,'bug',E,"for (size_t k = 0; k < X.maxdim() + 1; k++) {","for (size_t k = 0; k < X.maxdim(); k++) {",2),
(R,'bug',X,"cmin = std::min(cmin, f0[*it]);","cmin = std::min(cmax, f0[*it]);"),
(R,'bug',X,"T entry = minmax.second - eps;","T entry = minmax.first - eps;"),
(R,'bug',X,"T removal = minmax.first + eps;","T removal = minmax.first - eps;"),
(R,'bug',X,"for (auto k : {4,5}) {","for (auto k : {4}) {"),
(R,'bug',X,"for (auto k : {4,5}) {","for (auto k : {3,4}) {"),
(R,'bug',X,"return f0[k + (j + i * n) * n];","return f0[k + (j + i * n)];"),
(R,'bug',X,"T cmax = std::numeric_limits<T>::lowest();","T cmax = std::numeric_limits<T>::min();"),
(R,'bug',X,"if (entry > removal) {continue;}","if (entry >= removal) {continue;}"),
(R,'bug',X,"X.simplex_begin(k, i), X.simplex_end(k, i), f0","++X.simplex_begin(k, i), X.simplex_end(k, i), f0"),
(R,'bug',L,"if (i < n1-1 && j > 0 && k > 0) {\n                    b = std::min(b, img[i][j-1][k-1]);","if (i < n1-1 && j > 0 && k > 0) {\n                    b = std::min(b, img[i][j-1][k]);"),
(R,'bug',L,"d = std::max(d, img[i-1][j-1][k-1]);","d = std::max(d, img[i-1][j-1][k]);"),
(R,'bug',L,"if (i < n1-1 && k < n3-1) {","if (i < n1-2 && k < n3-1) {"),
(R,'bug',L,"X.add(b, d, {i, i+1, j, j, k, k+1});","X.add(b, d, {i, i+1, j, j+1, k, k});"),
(R,'bug',L,"for (size_t k = 0; k < n3-1; ++k) {\n                X.add(","for (size_t k = 1; k < n3-1; ++k) {\n                X.add("),
(R,'bug',L,"for (size_t k = 0; k < n3; ++k) {\n                // i-j","for (size_t k = 0; k < n3-1; ++k) {\n                // i-j"),
(R,'bug',L,"b = std::numeric_limits<T>::max();","b = std::numeric_limits<T>::min();",3),
# ---- same
(R,'same',F,"		cell_ind ret = X.add(args...);\n		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added\n		reserve(ret.dim, ret.ind+1);\n		val[ret.dim][ret.ind] = t;\n		return ret;","		const auto ret = X.add(args...);\n		if (ret.ind != bats::NO_IND) {\n			const size_t d = ret.dim, i = ret.ind;\n			reserve(d, 1 + i);\n			auto &row = val[d];\n			row[i] = t;\n		}\n		return ret;"),
(R,'same',F,"		for (auto &r : ret) {\n			reserve(r.dim, r.ind+1);\n			val[r.dim][r.ind] = t;\n		}","		for (size_t j = 0; j < ret.size(); ++j) {\n			reserve(ret[j].dim, ret[j].ind+1);\n			val[ret[j].dim][ret[j].ind] = t;\n		}"),
(R,'same',F,"		for (auto &r : ret) {\n			reserve(r.dim, r.ind+1);\n			val[r.dim][r.ind] = t;\n		}","		for (auto it = ret.begin(); it != ret.end(); ++it) {\n			reserve(it->dim, it->ind+1);\n			val[it->dim][it->ind] = t;\n		}"),
(R,'same',F,"if (val[k][i] <= a) {\n					Y.add(X.get_cell(k, i));\n				}","if (a < val[k][i]) { continue; }\n				auto c = X.get_cell(k, i);\n				Y.add(c);"),
(R,'same',F,"for (size_t k = 0; k < maxdim() + 1; ++k) {","for (size_t k = 0; k <= maxdim(); ++k) {"),
(R,'same',F,"for (size_t k = 0; k < maxdim() + 1; ++k) {","for (size_t k = 0; k < val.size(); ++k) {"),
(R,'same',G,"        return ((r < other.r) ? true :\n                (r == other.r && s < other.s) ? true :\n                (r == other.r && s == other.s && t < other.t) ? true :\n                false\n        );","        if (r != other.r) { return r < other.r; }\n        if (s != other.s) { return s < other.s; }\n        return t < other.t;"),
(R,'same',G,"        return ((r < other.r) ? true :\n                (r == other.r && s < other.s) ? true :\n                (r == other.r && s == other.s && t < other.t) ? true :\n                false\n        );","        return std::tie(r, s, t) < std::tie(other.r, other.s, other.t);"),
(R,'same',G,"    if (d == maxd) {\n        // no recursion - we're adding maximal dimension cells\n        for (auto k : iter_idxs) {\n            // append k to spx_idxs, sort\n            spx_idxs.push_back(k);\n            bats::util::sort_into(spx_idxs, spx_idxs2);\n\n            // add to F\n            F.add(t, spx_idxs2);\n\n            // pop k off spx_idxs\n            spx_idxs.pop_back();\n        }\n    } else { // d < maxd","    {"),
(R,'same',G,"            spx_idxs.push_back(k);\n            bats::util::sort_into(spx_idxs, spx_idxs2);\n\n            // add to F\n            F.add(t, spx_idxs2);\n\n            // recurse\n            bats::util::intersect_sorted_lt(iter_idxs, nbrs[k], k, iter_idxs2);\n            add_dimension_recursive_flag(F, nbrs, d+1, maxd, iter_idxs2, spx_idxs2, t);\n\n            // pop k off spx_idxs\n            spx_idxs.pop_back();","            spx_idxs.push_back(k);\n            bats::util::sort_into(spx_idxs, spx_idxs2);\n            spx_idxs.pop_back();\n            F.add(t, spx_idxs2);\n            bats::util::intersect_sorted_lt(iter_idxs, nbrs[k], k, iter_idxs2);\n            if (!iter_idxs2.empty()) { add_dimension_recursive_flag(F, nbrs, d+1, maxd, iter_idxs2, spx_idxs2, t); }"),
(R,'same',G,"        size_t i = edges[k].s;\n        size_t j = edges[k].t;\n        T t = edges[k].r;\n        spx_idxs[0] = i;\n        spx_idxs[1] = j;\n        std::sort(spx_idxs.begin(), spx_idxs.end());\n        F.add(t, spx_idxs);","        const auto &ed = edges[k];\n        const size_t i = std::min(ed.s, ed.t);\n        const size_t j = std::max(ed.s, ed.t);\n        const T t = ed.r;\n        spx_idxs[0] = i;\n        spx_idxs[1] = j;\n        F.add(t, spx_idxs);"),
(R,'same',G,"        nbrs[i].emplace_back(j);\n        std::sort(nbrs[i].begin(), nbrs[i].end());\n        nbrs[j].emplace_back(i);\n        std::sort(nbrs[j].begin(), nbrs[j].end());","        nbrs[j].insert(std::lower_bound(nbrs[j].begin(), nbrs[j].end(), i), i);\n        nbrs[i].insert(std::lower_bound(nbrs[i].begin(), nbrs[i].end(), j), j);"),
(R,'same',G,"    for (size_t k = 0; k < m; k++) {\n        size_t i = edges[k].s;\n        size_t j = edges[k].t;\n        T t = edges[k].r;\n","    for (const auto &ed : edges) {\n        size_t i = ed.s;\n        size_t j = ed.t;\n        T t = ed.r;\n"),
(R,'same',G,"    for (size_t k = 0; k < n; k++) {\n        spx_idxs[0] = k;\n        F.add(t0, spx_idxs);","    for (size_t k = 0; k < n; k++) {\n        spx_idxs.at(0) = k;\n        F.add(t0, spx_idxs);"),
(R,'same',T,"        bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);\n\n        if (!iter_idxs.empty()) {\n            add_dimension_recursive_flag(X, nbrs, 2, maxdim, iter_idxs, spx_idxs);\n        }","        if (maxdim >= 2) {\n            bats::util::intersect_sorted(nbrs[j], nbrs[i], iter_idxs);\n            add_dimension_recursive_flag(X, nbrs, 2, maxdim, iter_idxs, spx_idxs);\n        }"),
(R,'same',E,"        auto it = std::max_element(s.begin(), s.end(), [&f0](size_t i, size_t j) {return f0[i] < f0[j];});\n        return std::make_tuple(f0[*it], *it);","        size_t best = s[0];\n        for (size_t v : s) { if (f0[v] > f0[best]) { best = v; } }\n        return std::make_tuple(f0[best], best);"),
(R,'same',E,"    return std::max(\n        std::max(\n            f0[c[0]][c[2]],\n            f0[c[0]][c[3]]),\n        std::max(\n            f0[c[1]][c[2]],\n            f0[c[1]][c[3]])\n    );","    return std::max({f0[c[0]][c[2]], f0[c[0]][c[3]], f0[c[1]][c[2]], f0[c[1]][c[3]]});"),
(R,'same',E,"                val = (tmp > val) ? tmp : val;","                if (val < tmp) val = tmp;"),
(R,'same',E,"            auto i = bdinds[dim][k];\n            if (i != -1) {\n                df[imap[dim][i]] += grad_dgms[dim][k];\n            }","            const auto b = bdinds[dim][k];\n            if (b >= 0) {\n                const size_t v = imap[dim][b];\n                df[v] = df[v] + grad_dgms[dim][k];\n            }\n            int i;"),
(R,'same',X,"    while (it != end) {\n        cmin = std::min(cmin, f0[*it]);\n        cmax = std::max(cmax, f0[*it]);\n        ++it;\n    }","    for (; it != end; ++it) {\n        const T v = f0[*it];\n        if (v < cmin) { cmin = v; }\n        if (v > cmax) { cmax = v; }\n    }"),
(R,'same',X,"T cmax = std::numeric_limits<T>::lowest();","T cmax = -std::numeric_limits<T>::infinity();"),
(R,'same',X,"            if (entry > removal) {continue;} // do not add\n            F.add(entry, removal, cube); // cube is present in filtration","            if (entry <= removal) { F.add(entry, removal, cube); }"),
(R,'same',X,"    for (auto i : {0,1}) {\n        for (auto j : {2,3}) {\n            for (auto k : {4,5}) {","    for (int i = 0; i < 2; ++i) {\n        for (int j = 2; j < 4; ++j) {\n            for (int k = 4; k < 6; ++k) {"),
(R,'same',L,"    // add 3-cubes\n    for (size_t i = 0; i < n1-1; ++i) {","    // add 3-cubes\n    for (size_t i = 0; i + 1 < n1; ++i) {"),
(R,'same',L,"                if (k < n3-1) {\n                    b = std::min(b, img[i][j][k]);\n                    d = std::max(d, img[i][j][k]);\n                }","                if (k + 1 < n3) {\n                    const T v = img[i][j][k];\n                    b = std::min(b, v);\n                    d = std::max(v, d);\n                }"),
(R,'same',L,"                if (k < n3-1) {\n                    b = std::min(b, img[i][j][k]);\n                    d = std::max(d, img[i][j][k]);\n                }\n                if (k > 0) {\n                    b = std::min(b, img[i][j][k-1]);\n                    d = std::max(d, img[i][j][k-1]);\n                }","                if (k > 0) {\n                    b = img[i][j][k-1];\n                    d = img[i][j][k-1];\n                }\n                if (k < n3-1) {\n                    b = std::min(b, img[i][j][k]);\n                    d = std::max(d, img[i][j][k]);\n                }"),
]
M += [
(R,'bug',Z,"bd.first <= s1 && bd.second >= s0","bd.first <= s1 && bd.first >= s0"),
(R,'bug',Z,"bd.first <= s1 && bd.second >= s0","bd.first < s1 && bd.second >= s0"),
(R,'bug',Z,"emplace_back(std::make_pair(entry, exit));","emplace_back(std::make_pair(exit, entry));",3),
(R,'bug',Z,"reserve(ret.dim, ret.ind+1);","",1),
(R,'same',Z,"					if (bd.first <= s1 && bd.second >= s0) {","					if (s1 < bd.first) { continue; }\n					if (s0 <= bd.second) {"),
(R,'same',Z,"val[ret.dim][ret.ind].emplace_back(std::make_pair(entry, exit));","val[ret.dim][ret.ind].push_back({entry, exit});"),
]
