Z='include/zigzag/zigzag_filtration.hpp'; R='include/zigzag/reduction.hpp'
M=[
('R19','bug',R,'if (I[k] < j) {\n			col[k] = VecT(k);','if (I[k] <= j) {\n			col[k] = VecT(k);'),
('R19','bug',R,'col[k] = VecT(k+1);','col[k] = VecT(k);'),
('R19','bug',R,'size_t n = m - 1;','size_t n = m + 1;'),
('R19','bug',R,'	seen_i = true;\n			}\n			col[k+1] = VecT(k);','	seen_i = true;\n			}\n			col[k+1] = VecT(k+1);'),
('R19','bug',R,'				seen_i = true;\n			}','			}'),
('R19','bug',R,'if (!seen_i) {\n		// if last','if (seen_i) {\n		// if last'),
('R19','bug',R,'bool seen_i = false;','bool seen_i = true;'),
('R19','bug',R,'A = L * P * A;','A = P * L * A;'),
('R19','bug',R,'A = A * P * L;','A = A * L * P;'),
('R19','bug',R,'A = A * P.T() * l_inv(L);','A = A * P * l_inv(L);'),
('R19','bug',R,'A = l_inv(L) * P.T() * A;','A = P.T() * l_inv(L) * A;'),
('R19','bug',R,'if (!prev_dir && !dir) {','if (prev_dir && !dir) {'),
('R19','bug',R,'		E = E.T();\n',''),
('R19','bug',R,'fval.cind, // birth','fval.ind, // birth'),
('R19','bug',R,'fval.cind, // birth','fval.ind, // birth',1),
('R19','bug',R,'piv_to_ind2[j] = bars.size();','piv_to_ind2[j] = bars.size() - 1;',1),
('R19','bug',R,'piv_to_ind2[j] = pi;','piv_to_ind2[piv->ind] = pi;'),
('R19','bug',R,'				piv_to_ind.erase(piv->ind);\n			}\n		}\n\n	} else','			}\n		}\n\n	} else'),
('R19','bug',R,'pair.death = fval.val;','pair.death = pair.birth;'),
('R19','bug',R,'pair.death_ind = fval.cind;','pair.death_ind = fval.ind;'),
('R19','bug',R,'	std::swap(piv_to_ind, piv_to_ind2);',''),
('R19','bug',R,'	piv_to_ind2.clear(); // updated pivots',''),
('R19','bug',R,'maxdim = C.maxdim() - 1;','maxdim = C.maxdim();'),
('R19','bug',R,'if ((k < maxdim + 2) && F.R[k][j].nnz() > 0)','if ((k < maxdim + 1) && F.R[k][j].nnz() > 0)'),
('R19','bug',R,'if ((k < maxdim + 2) && F.R[k][j].nnz() > 0)','if ((k < maxdim + 2) && F.R[k][fval.ind].nnz() > 0)'),
('R19','bug',R,'auto piv = F.R[k][j].lastnz();','auto piv = F.R[k][fval.ind].lastnz();'),
('R19','bug',R,'F.I[k-1].erase(it);','F.I[k-1].pop_back();'),
('R19','bug',R,'F.find_preferred_representative(v, k-1); // find preferred rep 1-dimension down','F.find_preferred_representative(v, k);'),
('R19','bug',R,'F.find_preferred_representative(v, k-1); // find preferred rep 1-dimension down','',1),
('R19','bug',R,'prev_dir[k-1], true);','prev_dir[k-1], false);'),
('R19','bug',R,'auto fact = PLEU(induced_map);','auto fact = UELP(induced_map);'),
('R19','bug',R,'prev_L[k-1] = fact.L;','prev_L[k] = fact.L;'),
('R19','bug',R,'prev_P[k] = fact.P;','prev_P[k-1] = fact.P;'),
('R19','bug',R,'prev_dir[k-1] = false;','prev_dir[k] = false;'),
('R19','bug',R,'prev_dir[k] = true;','prev_dir[k] = false;'),
('R19','bug',R,'prev_dir[k] = false; // <-- arrow',''),
('R19','bug',R,'fval, k-1, fact.E, piv_to_ind[k-1]','fval, k, fact.E, piv_to_ind[k-1]'),
('R19','bug',R,'fval, k-1, fact.E, piv_to_ind[k-1], piv_to_ind2[k-1]','fval, k-1, fact.E, piv_to_ind[k], piv_to_ind2[k-1]'),
('R19','bug',R,'} else if (k < maxdim + 1) {','} else if (k < maxdim) {'),
('R19','bug',R,'} else if (k < maxdim + 1) {','} else if (k < maxdim) {',1),
('R19','bug',R,'it = F.I[k].insert(it, j);','it = F.I[k].insert(it, fval.ind);'),
('R19','bug',R,'std::upper_bound(F.I[k].begin(), F.I[k].end(), j);','std::upper_bound(F.I[k].begin(), F.I[k].end(), fval.ind);'),
('R19','bug',R,'it = F.I[k-1].insert(it, i);',''),
('R19','bug',R,'F.I[k].pop_back();','F.I[k].erase(F.I[k].begin());'),
('R19','bug',R,'cycle_insertion_map<VecT>(F.I[k], fval.ind);\n				// delete from HRB\n				F.I[k].pop_back();','cycle_insertion_map<VecT>(F.I[k], fval.ind);'),
('R19','bug',R,'			F.U[fval.dim][fval.ind].clear_dealloc();\n',''),
('R19','bug',R,'			F.R[fval.dim][fval.ind].clear_dealloc();\n',''),
('R19','bug',R,'				F.p2c[k][F.R[k][fval.ind].lastnz().ind] = bats::NO_IND;\n',''),
('R19','bug',R,'if (F.R[k][fval.ind].nnz() > 0) {\n				F.p2c','if (k < maxdim + 2 && F.R[k][fval.ind].nnz() > 0) {\n				F.p2c'),
('R19','bug',R,'U[j].axpy(-a, U[k], tmp); // apply same','U[k].axpy(-a, U[j], tmp); // apply same'),
('R19','bug',R,'piv = M[j].lastnz(); // update pivot after swap',''),
('R19','bug',R,'p2c[piv.ind] = j;\n				std::swap(k, j); // swap values','std::swap(k, j); // swap values'),
('R19','bug',R,'if (k > j) {','if (k < j) {'),
('R19','bug',R,'auto a = piv.val / M[k].lastnz().val;','auto a = M[k].lastnz().val / piv.val;'),
('R19','bug',R,'			p2c[piv.ind] = j;\n			break;\n		}\n	}\n\n    return j;','			break;\n		}\n	}\n\n    return j;'),
('R19','bug',R,'if (k != bats::NO_IND && k > j) {\n			// continue','if (k != bats::NO_IND && k < j) {\n			// continue'),
('R19','bug',R,'p2c[piv.ind] = j;\n			std::swap(k, j);\n		} else','std::swap(k, j);\n		} else'),
('R19','bug',R,'if (k != bats::NO_IND && k < j) {\n			// eliminate pivot\n			auto a = piv->val / M[k].lastnz().val;\n			M[j].axpy(-a, M[k], tmp);\n			U','if (k != bats::NO_IND) {\n			// eliminate pivot\n			auto a = piv->val / M[k].lastnz().val;\n			M[j].axpy(-a, M[k], tmp);\n			U'),
('R19','bug',R,'			U[j].axpy(-a, U[k], tmp);\n			piv = M','			piv = M'),
('R19','bug',R,'while(piv - M[j].nzbegin() >= 0) {','while(piv - M[j].nzbegin() > 0) {'),
('R19','bug',R,'return birth == other.birth && death == other.death && dim == other.dim;','return birth == other.birth && death == other.death;'),
('R19','bug',R,'death != other.death || dim','death != other.death && dim'),
('R19','bug',R,'get_death_ind() const {return death_ind;}','get_death_ind() const {return birth_ind;}'),
('R19','bug',R,'birth(birth), death(death),','birth(death), death(birth),'),
('R19','bug',R,': dim(dim), ind(ind), cind(cind), val(val)',': dim(dim), ind(ind), cind(ind), val(val)'),
# filtration
('R19','bug',Z,'return val[k-1][f].first <= val[k][j].first &&','return val[k-1][f].first < val[k][j].first &&'),
('R19','bug',Z,'val[k][j].second <= val[k-1][f].second;','val[k][j].first <= val[k-1][f].second;'),
('R19','bug',Z,'i2 < extra_cells[k-1][i+1]; ++i2','i2 + 1 < extra_cells[k-1][i+1]; ++i2'),
('R19','bug',Z,'size_t i2 = extra_cells[k-1][i];','size_t i2 = extra_cells[k-1][i] + 1;'),
('R19','bug',Z,'if (!within(i)) {','if (within(i)) {'),
('R19','bug',Z,'it->ind = i2; // set','it->ind = i; // set'),
('R19','bug',Z,"C[k][j].sort(); // sort now that we've modified indices",''),
('R19','bug',Z,'cind[k].emplace_back(i);','cind[k].emplace_back(cind[k].size());'),
('R19','bug',Z,'if(k < X.maxdim()) {C[k+1].append_row();}',''),
('R19','bug',Z,'C[k+1].append_row();','C[k].append_row();'),
('R19','bug',Z,'C[k].append_column(C[k][i]);','C[k].append_column(C[k][0]);'),
('R19','bug',Z,'				++it;\n				// now we append','				// now we append'),
('R19','bug',Z,'extra_cells[k][i] = val[k].size();','extra_cells[k][i] = val[k].size() - 1;'),
('R19','bug',Z,'extra_cells[k][X.ncells(k)] = val[k].size();','extra_cells[k][X.ncells(k)] = X.ncells(k);'),
('R19','bug',Z,'for (size_t j = 0; j < C[k].ncol(); ++j) {','for (size_t j = X.ncells(k); j < C[k].ncol(); ++j) {'),
('R19','bug',Z,'if (k > 0) {','if (k > 1) {'),
('R19','bug',Z,'return a.second > b.second;','return a.second < b.second;'),
('R19','bug',Z,'return a.second > b.second;','return a.first > b.first;'),
('R19','bug',Z,'permk[i], // index','perm[k][i], // index'),
('R19','bug',Z,'permk[i], // index','i, // index',1),
('R19','bug',Z,'pair.second, // removal time','pair.first, // removal time'),
('R19','bug',Z,'false // removal','true // removal',1),
('R19','bug',Z,'ZC.C.ipermute_basis(perm);','ZC.C.permute_basis(perm);'),
('R19','bug',Z,'a.entry : // process entry first','b.entry : // process entry first'),
('R19','bug',Z,'a.entry : // process entry first','b.entry : // process entry first',1),
('R19','bug',Z,'a.ind > b.ind : // process later','a.ind < b.ind : // process later'),
('R19','bug',Z,'a.ind > b.ind : // process later','a.cind > b.cind : // process later',1),
('R19','bug',Z,'a.dim > b.dim; // otherwise','a.dim < b.dim; // otherwise'),
('R19','bug',Z,'a.dim < b.dim : // add smaller','a.dim > b.dim : // add smaller'),
('R19','bug',Z,'detail::lex_cmp(X, a.dim, ZC.cind[a.dim][a.cind], b.dim, ZC.cind[b.dim][b.cind]) : // use','detail::lex_cmp(X, a.dim, a.cind, b.dim, b.cind) : // use'),
('R19','bug',Z,'detail::lex_cmp(X, a.dim, ZC.cind[a.dim][a.cind], b.dim, ZC.cind[b.dim][b.cind]) : // use','detail::rlex_cmp(X, a.dim, ZC.cind[a.dim][a.cind], b.dim, ZC.cind[b.dim][b.cind]) : // use'),
('R19','bug',Z,'detail::rlex_cmp(X, a.dim, ZC.cind[a.dim][a.cind], b.dim, ZC.cind[b.dim][b.cind]);','detail::lex_cmp(X, a.dim, ZC.cind[a.dim][a.cind], b.dim, ZC.cind[b.dim][b.cind]);'),
('R19','bug',Z,'detail::rlex_cmp(X, a.dim, ZC.cind[a.dim][a.cind], b.dim, ZC.cind[b.dim][b.cind]);','detail::rlex_cmp(X, a.dim, ZC.cind[a.dim][a.ind], b.dim, ZC.cind[b.dim][b.ind]);'),
('R19','bug',Z,'detail::rlex_cmp(X, k, ZC.cind[k][j], k, ZC.cind[k][i])','detail::rlex_cmp(X, k, ZC.cind[k][i], k, ZC.cind[k][j])'),
('R19','bug',Z,'valsk[i].second > valsk[j].second;','valsk[i].second < valsk[j].second;'),
('R19','bug',Z,'auto itj = X.simplex_end(dimj, j); --itj;','auto itj = X.simplex_end(dimj, i); --itj;'),
('R19','bug',Z,'if (*iti != *itj) {return *iti < *itj;}','if (*iti != *itj) {return *iti > *itj;}'),
('R19','bug',Z,'if (*iti != *itj) { return *iti < *itj; }','if (*iti != *itj) { return *iti > *itj; }'),
('R19','bug',Z,'if (*iti != *itj) { return *iti > *itj; }','if (*iti != *itj) { return *iti < *itj; }'),
('R19','bug',Z,'return dimj > dimi;','return dimj < dimi;'),
('R19','bug',Z,'return dimi > dimj;','return dimi >= dimj;'),
# rewrites
('R19','same',R,'A = L * P * A;','MT LP = L * P; A = LP * A;'),
('R19','same',R,'if (I[k] < j) {\n			col[k] = VecT(k);\n		} else {\n			col[k] = VecT(k+1);\n		}','col[k] = VecT(I[k] < j ? k : k + 1);'),
('R19','same',R,'F.I[k].pop_back();','F.I[k].erase(std::lower_bound(F.I[k].begin(), F.I[k].end(), fval.ind));'),
('R19','same',R,'size_t pi = piv_to_ind[piv->ind];\n				piv_to_ind2[j] = pi;','piv_to_ind2[j] = piv_to_ind[piv->ind];'),
('R19','same',R,'for (auto it = piv_to_ind.begin(); it!= piv_to_ind.end(); ++it) {\n		ZigzagPair<T>& pair = bars[it->second];','for (auto& kv : piv_to_ind) {\n		ZigzagPair<T>& pair = bars[kv.second];'),
('R19','same',R,'prev_L[k] = fact.L;\n				prev_P[k] = fact.P;','prev_P[k] = fact.P;\n				prev_L[k] = fact.L;'),
('R19','same',R,'MT induced_map = detail::cycle_insertion_map<VecT>(F.I[k], fval.ind);','auto induced_map = detail::cycle_insertion_map<VecT>(F.I[k], fval.ind);'),
('R19','same',R,'for (auto& fval : filt_order) {','for (size_t ii = 0; ii < filt_order.size(); ++ii) {\n		auto& fval = filt_order[ii];'),
('R19','same',R,'(k < maxdim + 2) && F.R[k][j].nnz() > 0','k - 1 <= maxdim && F.R[k][j].nnz() != 0'),
('R19','same',R,'auto a = piv.val / M[k].lastnz().val;\n			M[j].axpy(-a, M[k], tmp);\n			U[j].axpy(-a, U[k], tmp);','auto c = -(piv.val / M[k].lastnz().val);\n			U[j].axpy(c, U[k], tmp);\n			M[j].axpy(c, M[k], tmp);'),
('R19','same',R,'if (p2c[piv.ind] != bats::NO_IND) {\n			size_t k = p2c[piv.ind];','size_t k = p2c[piv.ind];\n		if (k != bats::NO_IND) {'),
('R19','same',Z,'if (!within(i)) {\n','if (!(val[k-1][i].first <= val[k][j].first && val[k-1][i].second >= val[k][j].second)) {\n'),
('R19','same',Z,'return (a.val != b.val) ?\n				a.val < b.val :','return (a.val < b.val || b.val < a.val) ?\n				a.val < b.val :'),
('R19','same',Z,'return a.second > b.second;','return b.second < a.second;'),
('R19','same',Z,'return dimj > dimi;','return dimi < dimj;'),
('R19','same',Z,'auto pair = ZC.vals(k)[i];','const auto& pair = ZC.vals(k)[i];'),
('R19','same',Z,'C[k].append_column(C[k][i]); // duplicate column\n					cind[k].emplace_back(i); // map to original index','cind[k].emplace_back(i);\n					C[k].append_column(C[k][i]);'),
('R19','same',Z,'a.entry : // process entry first','!b.entry : // process entry first'),
('R19','same',R,'auto it = std::lower_bound(F.I[k-1].begin(), F.I[k-1].end(), i);','auto& Ik = F.I[k-1]; auto it = std::lower_bound(Ik.begin(), Ik.end(), i);'),
]
