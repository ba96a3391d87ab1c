T='include/topology/'
ME=T+'metric.hpp'; RI=T+'rips.hpp'; RC=T+'rips_cover.hpp'; DO=T+'dowker.hpp'; DC=T+'dowker_cover.hpp'; NE=T+'nerve.hpp'; CO=T+'cover.hpp'; NB=T+'neighborhood.hpp'; LA=T+'landmark.hpp'; DA=T+'data.hpp'; DG=T+'data_gen.hpp'; DE=T+'density.hpp'; PE='include/util/permutation.hpp'
R='R10'
UPD="d[k] = (d[k] < di[k]) ? d[k] : di[k];"
M=[
# metrics
(R,'bug',ME,"n += diff * diff;","n += diff;"),
(R,'bug',ME,"        for (size_t i = 0; i < x.size(); i++) {\n            T diff = x(i) - y(i);","        for (size_t i = 1; i < x.size(); i++) {\n            T diff = x(i) - y(i);"),
(R,'bug',ME,"return std::sqrt(n);","return n;"),
(R,'bug',ME,"n += std::abs(x(i) - y(i));","n += x(i) - y(i);"),
(R,'bug',ME,"n = (n > diff) ? n : diff;","n = (n < diff) ? n : diff;"),
(R,'bug',ME,"ny += (y(i) * y(i));","ny += (x(i) * y(i));"),
(R,'bug',ME,"return T(1) - std::abs(cxy);","return T(1) - cxy;"),
(R,'bug',ME,"ip = std::abs(ip); // positive","// positive"),
(R,'bug',ME,"return std::acos(cxy > T(1) ? T(1) : cxy);","return std::acos(cxy);"),
(R,'bug',ME,"T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle\n        return T(1) - cxy;","T cxy = ip / (nx * ny); // cosine of angle\n        return T(1) - cxy;"),
(R,'same',ME,"n += diff * diff;","n = n + diff * diff;"),
(R,'same',ME,"n = (n > diff) ? n : diff;","n = std::max(n, diff);"),
(R,'same',ME,"n = (n > diff) ? n : diff;","if (diff > n) { n = diff; }"),
(R,'same',ME,"T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle\n        return T(1) - cxy;","T cxy = ip / std::sqrt(nx * ny); // cosine of angle\n        return T(1) - cxy;"),
# tables
(R,'bug',ME,"for (size_t j = 0; j < Y.size(); j++) {\n                dists(i,j)","for (size_t j = 0; j < i && j < Y.size(); j++) {\n                dists(i,j)"),
(R,'bug',ME,"dists(i,j) = static_cast<const D*>(this)->dist(X[i], Y[j]);","dists(i,j) = static_cast<const D*>(this)->dist(X[i], Y[i]);"),
(R,'bug',ME,"for (size_t j = 0; j < X.size(); j++) {\n                dists(i,j)","for (size_t j = 0; j < i; j++) {\n                dists(i,j)"),
(R,'same',ME,"for (size_t j = 0; j < X.size(); j++) {\n                dists(i,j) = static_cast<const D*>(this)->dist(X[i], X[j]);","for (size_t j = 0; j <= i; j++) {\n                dists(i,j) = static_cast<const D*>(this)->dist(X[i], X[j]); dists(j,i) = dists(i,j);"),
(R,'bug',ME,"r_row = (r_row < D(i,j)) ? D(i,j) : r_row;","r_row = (r_row < D(i,j)) ? r_row : D(i,j);"),
(R,'bug',ME,"r_enc = (r_enc < r_row) ? r_enc : r_row;","r_enc = (r_enc > r_row) ? r_enc : r_row;"),
(R,'same',ME,"r_enc = (r_enc < r_row) ? r_enc : r_row;","r_enc = std::min(r_enc, r_row);"),
# rips
(R,'bug',RI,"            if (dij <= rmax) {\n                edges.push_back(j);","            if (dij < rmax) {\n                edges.push_back(j);"),
(R,'bug',RI,"for (size_t j = 0; j < i; j++) {","for (size_t j = 1; j < i; j++) {",0),
(R,'bug',RI,"edges.emplace_back(filtered_edge<T>(i, j, dij));","edges.emplace_back(filtered_edge<T>(i, j, rmax));",0),
(R,'bug',RI,"for (size_t i = 0; i < j; i++) {","for (size_t i = 0; i + 1 < j; i++) {",0),
(R,'bug',RI,"edges.push_back(i);\n                edges.push_back(j);","edges.push_back(i);\n                edges.push_back(i);"),
(R,'bug',RI,"return FlagComplex<CpxT>(redges, n, dmax);","return FlagComplex<CpxT>(redges, n, dmax-1);",0),
(R,'bug',RI,"auto redges = rips_edges(X, dist, rmax);","auto redges = rips_edges(X, dist, 2*rmax);"),
(R,'bug',RI,"return FlagFiltration<CpxT>(edges, n, dmax, T(0));","return FlagFiltration<CpxT>(edges, edges.size(), dmax, T(0));",0),
(R,'same',RI,"            T dij = dist(X[i], X[j]);\n            if (dij <= rmax) {\n                edges.push_back(j);\n                edges.push_back(i);\n            }","            if (dist(X[j], X[i]) > rmax) { continue; }\n            edges.push_back(j);\n            edges.push_back(i);"),
(R,'same',RI,"    for (size_t i = 0; i < n; i++) {\n        for (size_t j = 0; j < i; j++) {\n            T dij = dist(X[i], X[j]);\n            if (dij <= rmax) {\n                edges.push_back(j);","    for (size_t j = 0; j < n; j++) {\n        for (size_t i = j+1; i < n; i++) {\n            T dij = dist(X[i], X[j]);\n            if (dij <= rmax) {\n                edges.push_back(j);"),
# rips cover
(R,'bug',RC,"            edges.clear();" if False else "        edges.clear();","        "),
(R,'bug',RC,"F.union_add(FU);","if (edges.size() > 0) F.union_add(FU);") if False else
(R,'bug',RC,"auto FU = FlagFiltration<CpxT>(edges, n, dmax, T(0));","auto FU = FlagFiltration<CpxT>(edges, n, dmax, rmax);"),
(R,'bug',RC,"                if (dij < rmax) {","                if (dij <= rmax) {",0),
(R,'bug',RC,"            auto jit = iit;\n            ++jit;\n            while (jit != U.cend()) {\n                T dij","            auto jit = iit;\n            ++jit;\n            if (jit != U.cend()) {\n                T dij",0) if False else
(R,'bug',RC,"T dij = dist(X[*iit], X[*jit]);","T dij = dist(X[*iit], X[*iit]);",1),
# dowker
(R,'bug',DO,"mj = (dij > mj) ? mj : (dij > m[j] ? dij : mj);","mj = (dij > mj) ? mj : (dij >= m[j] ? dij : mj);"),
(R,'bug',DO,"mj = (dij > mj) ? mj : (dij > m[j] ? dij : mj);","mj = (dij > mj) ? mj : dij;"),
(R,'bug',DO,"            T dij = pdist(i,j);\n            mj","            T dij = pdist(i,0);\n            mj"),
(R,'bug',DO,"Rij = std::min(Rij, std::max(pdist(i,k), pdist(j,k)));","Rij = std::min(Rij, std::min(pdist(i,k), pdist(j,k)));"),
(R,'bug',DO,"Rij = std::min(Rij, std::max(pdist(i,k), pdist(j,k)));","Rij = std::min(Rij, std::max(pdist(i,k), pdist(i,j)));"),
(R,'bug',DO,"for (size_t k = 0; k < pdist.ncol(); k++) {\n        Rij","for (size_t k = 0; k < pdist.nrow(); k++) {\n        Rij"),
(R,'bug',DO,"for (size_t i = j; i < nL; i++) {","for (size_t i = j+1; i < nL; i++) {"),
(R,'bug',DO,"R(i,j) = R(j,i); // symmetry","R(i,j) = R(i,i); // symmetry"),
(R,'bug',DO,"pdist(i,j) -= m[j];","pdist(i,j) -= m[i];"),
(R,'bug',DO,"pdist(i,j) = (pdist(i,j) > T(0)) ? pdist(i,j) : T(0);","pdist(i,j) = pdist(i,j);"),
(R,'bug',DO,"while (nu > 0) {","while (nu > 1) {"),
(R,'bug',DO,"auto pdist = dist(L, X);\n\n    // get m","auto pdist = dist(X, L);\n\n    // get m"),
(R,'bug',DO,"auto nbrs = neighborhoods(L, X, dist, rmax);","auto nbrs = neighborhoods(X, L, dist, rmax);"),
(R,'bug',DO,"bats::util::intersect_sorted(nbrs[i], nbrs[j], intersection);","bats::util::intersect_sorted(nbrs[i], nbrs[i], intersection);"),
(R,'bug',DO,"size_t k = dmax + 1; // number","size_t k = dmax; // number"),
(R,'bug',DO,"for (size_t j = 0; j < dim+1; j++) {","for (size_t j = 0; j < dim; j++) {"),
(R,'bug',DO,"spx[j] = nbrs[i][j];","spx[j] = nbrs[i][0];"),
(R,'bug',DO,"for (size_t dim = 1; dim < k; dim++) {","for (size_t dim = 2; dim < k; dim++) {"),
(R,'bug',DO,"auto R = witness_edge_param(X, L, dist, 0); // nu=0","auto R = witness_edge_param(L, X, dist, 0); // nu=0"),
(R,'bug',DO,"return neighborhoods(pdist, rmax);","return neighborhoods(pdist, T(0));"),
(R,'bug',DO,"return DowkerFiltration(pdist, rmax, dmax);","return DowkerFiltration(pdist, rmax, dmax+1);"),
(R,'bug',DO,"            if (dij < rmax) {\n                edges.emplace_back(filtered_edge<T>(i, j, dij));","            if (dij <= rmax) {\n                edges.emplace_back(filtered_edge<T>(i, j, dij));"),
(R,'same',DO,"Rij = std::min(Rij, std::max(pdist(i,k), pdist(j,k)));","T t = std::max(pdist(j,k), pdist(i,k)); if (t < Rij) { Rij = t; }"),
(R,'same',DO,"while (nu > 0) {\n        // update m with next largest entry\n        increment_m(pdist, m);\n        nu--;\n    }","for (size_t s = 0; s < nu; ++s) { increment_m(pdist, m); }"),
(R,'bug',DC,"if (dij < rmax) {","if (dij <= rmax) {"),
(R,'bug',DC,"            auto jit = iit;\n            jit++;","            auto jit = nbhd.cbegin();"),
(R,'bug',DC,"FlagFiltration<SimplicialComplex>(edges, pdist.nrow(), dmax, T(0))","FlagFiltration<SimplicialComplex>(edges, cover.size(), dmax, T(0))"),
# nerve
(R,'bug',NE,"for (size_t k = 0; k < kmax; k++) {","for (size_t k = 1; k < kmax; k++) {"),
(R,'bug',NE,"for (size_t k = 0; k < kmax; k++) {","for (size_t k = 0; k + 1 < kmax; k++) {"),
(R,'bug',NE,"*std::min_element(spx.begin(), spx.end());","*std::max_element(spx.begin(), spx.end());"),
(R,'bug',NE,"if (dim >= dmax) { return; }","if (dim + 1 >= dmax) { return; }"),
(R,'bug',NE,"if (dmax > dim+1) {","if (dmax > dim+2) {"),
(R,'bug',NE,"add_dimension_recursive_nerve(N, spxk, cover, intersectionk, dmax);","add_dimension_recursive_nerve(N, spxk, cover, intersection, dmax);"),
(R,'bug',NE,"			spx.pop_back(); // remove k\n","			\n"),
(R,'bug',NE,"bats::util::intersect_sorted(cover[k], intersection, intersectionk);","bats::util::intersect_sorted(cover[k], cover[spx[0]], intersectionk);"),
(R,'bug',NE,"if (intersectionk.size() > 0) {","if (intersectionk.size() > 1) {"),
(R,'bug',NE,"if (intersection.size() > 0) {","if (intersection.size() > 1) {"),
(R,'bug',NE,"for (size_t j = 0; j < i; j++) {","for (size_t j = 1; j < i; j++) {"),
(R,'bug',NE,"				if (dmax > 1) {","				if (dmax > 2) {"),
(R,'bug',NE,"spx = {j, i};","spx = {j, j};"),
(R,'bug',NE,"		N.add({i});\n","		if (!cover[i].empty()) N.add({i});\n"),
(R,'bug',NE,"add_dimension_recursive_nerve(N, spx, cover, intersection, dmax);","add_dimension_recursive_nerve(N, spx, cover, intersection, dmax-1);"),
(R,'same',NE,"if (dmax > dim+1) {","{"),
(R,'same',NE,"				if (dmax > 1) {","				{"),
(R,'same',NE,"if (intersectionk.size() > 0) {","if (!intersectionk.empty()) {"),
(R,'same',NE,"size_t kmax = *std::min_element(spx.begin(), spx.end());","size_t kmax = spx[0];"),
(R,'same',NE,"		if (intersectionk.size() > 0) {\n","		if (intersectionk.size() == 0) { continue; }\n		{\n"),
# neighborhoods
(R,'bug',NB,"if (dist(x, X[i]) < r) {","if (dist(x, X[i]) <= r) {"),
(R,'bug',NB,"for (size_t i = 0; i < X.size(); i++) {\n		if","for (size_t i = 1; i < X.size(); i++) {\n		if"),
(R,'bug',NB,"firstk(dxX.cbegin(), dxX.cend(), k)","firstk(dxX.cbegin(), dxX.cend(), k+1)"),
(R,'bug',NB,"firstk(dxX.cbegin(), dxX.cend(), k)","firstk(dxX.cbegin() + 1, dxX.cend(), k)"),
(R,'bug',NB,"nbrs[i] = neighborhood(X[i], Y, dist, r);","nbrs[i] = neighborhood(X[i], X, dist, r);"),
(R,'bug',NB,"nbrs[i] = neighborhood(X[i], Y, dist, k);","nbrs[i] = neighborhood(X[0], Y, dist, k);"),
(R,'bug',NB,"if (pdist(i,j) <= eps) {","if (pdist(i,j) < eps) {"),
(R,'bug',NB,"nbrs[i].emplace_hint(nbrs[i].end(), j);","nbrs[i].emplace_hint(nbrs[i].end(), i);"),
(R,'bug',PE,"return *(begin+a) < *(begin+b);\n        }\n    );\n    perm.resize(k)","return *(begin+a) > *(begin+b);\n        }\n    );\n    perm.resize(k)"),
(R,'bug',PE,"perm.resize(k); // resize to first k","perm.resize(k+1); // resize to first k",0),
(R,'same',NB,"		if (dist(x, X[i]) < r) {\n			ind.emplace_back(i);\n		}","		if (!(dist(X[i], x) < r)) { continue; }\n		ind.push_back(i);"),
(R,'same',NB,"	for (size_t j = 0; j < pdist.ncol(); j++) {\n		for (size_t i = 0; i < pdist.nrow(); i++) {","	for (size_t i = 0; i < pdist.nrow(); i++) {\n		for (size_t j = 0; j < pdist.ncol(); j++) {"),
# covers
(R,'bug',CO,"size_t bin = (size_t) floor(offset) * 2;","size_t bin = (size_t) floor(offset);"),
(R,'bug',CO,"size_t bin = 1 + (size_t) floor(offset) * 2;","size_t bin = (size_t) floor(offset) * 2;"),
(R,'bug',CO,"double offset = (v - min_val) / bin_width - 0.5;","double offset = (v - min_val) / bin_width;"),
(R,'bug',CO,"double bin_width = (double) length * 2.0 / (nsets);","double bin_width = (double) length / (nsets);"),
(R,'bug',CO,"T min_val = *min;","T min_val = *max;"),
(R,'bug',CO,"		if (bu != -1) {\n			cover[bu].emplace(i);\n		}\n","		if (bu != -1 && bl == -1) {\n			cover[bu].emplace(i);\n		}\n"),
(R,'bug',CO,"			cover[bu].emplace(i);","			cover[bl].emplace(i);"),
(R,'bug',CO,"for (size_t i = 0; i < x.size(); i++) {","for (size_t i = 0; i + 1 < x.size(); i++) {"),
(R,'bug',CO,"p.emplace_back(X(j, i));","p.emplace_back(X(i, j));"),
(R,'bug',CO,"XS(i, j) = X(*it, j);","XS(i, j) = X(i, j);"),
(R,'bug',CO,"        for (size_t j = 0; j < d; j++) {\n            XS","        for (size_t j = 1; j < d; j++) {\n            XS"),
(R,'bug',CO,"		i++;\n    }\n    return DataSet<T>(XS);","		i = *it;\n    }\n    return DataSet<T>(XS);"),
(R,'bug',CO,"cover[j].emplace(i);\n		}\n	}\n	return cover;","cover[i].emplace(j);\n		}\n	}\n	return cover;",0),
(R,'bug',CO,"auto ns = neighborhoods(X, L, dist, k);","auto ns = neighborhoods(L, X, dist, k);"),
(R,'bug',CO,"if (di[j] < *it + eps) {","if (di[j] < eps) {"),
(R,'bug',CO,"if (di[j] < *it + eps) {","if (di[j] <= *it + eps) {"),
(R,'bug',CO,"std::min_element(di.cbegin(), di.cend());","std::max_element(di.cbegin(), di.cend());"),
(R,'bug',CO,"f1.emplace_back(i);","f1.emplace_back(j);"),
(R,'bug',CO,"return std::make_tuple(cover12, f1, f2);","return std::make_tuple(cover12, f2, f1);"),
(R,'bug',CO,"			if (intersection.size() > 0) {\n				// cover1[i] and","			if (intersection.size() > 1) {\n				// cover1[i] and"),
(R,'bug',CO,"for (size_t j = 0; j < cover2.size(); j++) {","for (size_t j = 0; j < cover1.size(); j++) {"),
(R,'same',CO,"if (di[j] < *it + eps) {","T best = *it; if (di[j] - best < eps) {"),
(R,'same',CO,"			if (intersection.size() > 0) {\n				// cover1[i] and","			if (!intersection.empty()) {\n				// cover1[i] and"),
(R,'same',CO,"		if (bl != -1) {","		if (bl >= 0) {"),
(R,'same',CO,"XS(i, j) = X(*it, j);","size_t r = *it; XS(i, j) = X(r, j);"),
(R,'same',CO,"for (auto it = ind.cbegin(); it != ind.cend(); it++) {","for (auto it = ind.begin(); it != ind.end(); ++it) {"),
# data
(R,'bug',DA,"data2.r(j) = data.r(*it);","data2.r(j) = data.r(j);"),
(R,'bug',DA,"			j++;\n		}\n		return DataSet(data2);","		}\n		return DataSet(data2);"),
(R,'bug',DG,"Z(k, dk++) = Y(j, dj);","Z(k, dk++) = Y(i, dj);"),
(R,'bug',DG,"Z(k, dk++) = Y(j, dj);","Z(k, dj) = Y(j, dj);"),
(R,'bug',DG,"for (size_t di = 0; di < dx; di++) {\n                Z","for (size_t di = 0; di + 1 < dx; di++) {\n                Z"),
(R,'bug',DG,"            ++k;\n        }\n    }\n    return DataSet<T>(Z);","        }\n        ++k;\n    }\n    return DataSet<T>(Z);"),
# landmarks
(R,'bug',LA,UPD,"d[k] = di[k];",0),
(R,'bug',LA,UPD,"d[k] = (d[k] > di[k]) ? d[k] : di[k];",0),
(R,'bug',LA,UPD,"d[k] = (d[k] > di[k]) ? d[k] : di[k];",2),
(R,'bug',LA,"auto it = std::max_element(d.cbegin(), d.cend());","auto it = std::min_element(d.cbegin(), d.cend());",0),
(R,'bug',LA,"std::vector<T> d = dist(D[i0], D);","std::vector<T> d = dist(D[0], D);",1),
(R,'bug',LA,"std::vector<T> di = dist(D[i], D);","std::vector<T> di = dist(D[i0], D);",1),
(R,'bug',LA,"inds.insert(i0);","inds.insert(0);",1),
(R,'bug',LA,"inds.emplace_back(i0);","inds.emplace_back(0);",0),
(R,'bug',LA,"for (size_t k = 0; k < d.size(); k++) {","for (size_t k = 1; k < d.size(); k++) {",2),
(R,'bug',LA,"auto di = pdist[i]; // distance","auto di = pdist[i0]; // distance"),
(R,'bug',LA,"*dit++ = pdist(i0,i);","*dit++ = pdist(0,i);"),
(R,'bug',LA,"mind[jj] = (mind[jj] > di[jj]) ? mind[jj] : di[jj];","mind[jj] = (mind[jj] < di[jj]) ? mind[jj] : di[jj];"),
(R,'bug',LA,"maxd[jj] = (maxd[jj] < di[jj]) ? maxd[jj] : di[jj];","maxd[jj] = (maxd[jj] > di[jj]) ? maxd[jj] : di[jj];"),
(R,'bug',LA,"std::min_element(mind.cbegin(), mind.cend())","std::max_element(mind.cbegin(), mind.cend())"),
(R,'bug',LA,"std::min_element(mind.cbegin(), mind.cend())","std::min_element(maxd.cbegin(), maxd.cend())"),
(R,'bug',LA,"		it = std::max_element(d.cbegin(), d.cend());\n","		dDL = *std::max_element(d.cbegin(), d.cend());\n"),
(R,'same',LA,UPD,"d[k] = std::min(d[k], di[k]);",0),
(R,'same',LA,UPD,"if (di[k] < d[k]) { d[k] = di[k]; }",2),
(R,'same',LA,"std::vector<T> di = dist(D[i], D);","auto di = dist(D[i], D);",1),
(R,'bug',LA,'if (!inds.insert(i).second) { break; }','inds.insert(i);'),
(R,'same',LA,'if (!inds.insert(i).second) { break; }','if (inds.count(i)) { break; } inds.insert(i);'),
(R,'bug',DE,"nth_element","partial_sort") if False else
(R,'same',DO,"auto nX = pdist.ncol();","const auto nX = pdist.ncol();"),
]
