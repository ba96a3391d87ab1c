R='R13'
C='include/linalg/col_matrix.hpp'
B=lambda o,n,*k:(R,'bug',C,o,n)+k
S=lambda o,n,*k:(R,'same',C,o,n)+k
M=[
B("col.resize(n, TC::dense(a, m));","col.resize(n, TC::dense(a, n));"),
B(": m(other.nrow()), n(other.ncol()) {\n        col.resize(n);",": m(other.ncol()), n(other.ncol()) {\n        col.resize(n);"),
B("colptr[j+1] - colptr[j]\n","colptr[n] - colptr[j]\n"),
B("vptr + colptr[j],","vptr + j,"),
B("            col[i].permute(rowperm);","            if (i + 1 < col.size()) col[i].permute(rowperm);"),
B("            col[i].ipermute(rowperm);","            col[i].permute(rowperm);"),
B("for (size_t i = 0; i < col.size(); i++) {\n            col[i].permute(rowperm);","for (size_t i = 1; i < col.size(); i++) {\n            col[i].permute(rowperm);"),
S("for (size_t i = 0; i < col.size(); i++) {\n            col[i].permute(rowperm);\n        }","for (auto& c : col) c.permute(rowperm);"),
S("for (size_t i = 0; i < col.size(); i++) {\n            col[i].permute(rowperm);\n        }","for (size_t i = n; i-- > 0;) {\n            col[i].permute(rowperm);\n        }"),
B("if (i > index) j = i-1;\n\t\t\tcolperm.emplace_back(j);\n\t\t}\n\t\tipermute_cols","if (i >= index) j = i-1;\n\t\t\tcolperm.emplace_back(j);\n\t\t}\n\t\tipermute_cols",0),
B("if (i > index) j = i-1;\n\t\t\tcolperm.emplace_back(j);\n\t\t}\n\t\tipermute_cols","if (i > index) j = i-1;\n\t\t\tcolperm.emplace_back(j);\n\t\t}\n\t\tpermute_cols",1),
B("n = n + c_inds.size();",""),
B("if (i == c_inds[newi]) {\n\t\t\t\t// insert","if (i >= c_inds[newi] + 1) {\n\t\t\t\t// insert"),
B("while (oldi < col.size() && newi < insert_col.size()) {\n\t\t\tif (i == c_inds[newi])","while (oldi < col.size() && newi < insert_col.size()) {\n\t\t\tif (i == c_inds[newi] && oldi > 0)"),
B("		while (newi < insert_col.size()) {\n			std::swap(newcol[i], insert_col[newi]);\n			++i;\n			++newi;\n		}\n","		if (newi < insert_col.size()) {\n			std::swap(newcol[i], insert_col[newi]);\n			++i;\n			++newi;\n		}\n"),
B("				std::swap(newcol[i], col[oldi]);\n				++i;\n				++oldi;","				std::swap(newcol[i], col[oldi]);\n				++i;\n				++oldi; ++newi;"),
B("if (row[j]!= val_type(0)) {\n\t\t\t\tcol[j].emplace_back(m-1, row[j]);","if (row[j]!= val_type(0)) {\n\t\t\t\tcol[j].emplace_back(m, row[j]);"),
B("if (row[j]!= val_type(0)) {\n","if (j == 0 || row[j]!= val_type(0)) {\n"),
S("if (row[j]!= val_type(0)) {\n\t\t\t\tcol[j].emplace_back(m-1, row[j]);\n\t\t\t}","if (row[j] == val_type(0)) continue;\n\t\t\tcol[j].emplace_back(m-1, row[j]);"),
B("col[it->ind].emplace_back(m-1, it->val);","col[it->ind].emplace_back(it->ind, it->val);"),
B("++m;\n\t\tfor (auto it = new_row.nzbegin()","for (auto it = new_row.nzbegin()"),
B("if (i >= ind) j = i+1; // rows above ind will add up one\n\t\t\tif (i == m-1) j = ind; // the last one will be permuted the desired ind\n\t\t\trowperm.emplace_back(j);\n\t\t}\n\t\tpermute_rows","if (i > ind) j = i+1; // rows above ind will add up one\n\t\t\tif (i == m-1) j = ind; // the last one will be permuted the desired ind\n\t\t\trowperm.emplace_back(j);\n\t\t}\n\t\tpermute_rows",0),
B("if (i >= ind) j = i+1; // rows above ind will add up one\n\t\t\tif (i == m-1) j = ind; // the last one will be permuted the desired ind\n\t\t\trowperm.emplace_back(j);\n\t\t}\n\t\tpermute_rows","if (i >= ind) j = i+1; // rows above ind will add up one\n\t\t\tif (i == m-1) j = ind; // the last one will be permuted the desired ind\n\t\t\trowperm.emplace_back(j);\n\t\t}\n\t\tipermute_rows",1),
B("*it_r_inds <= j) {","*it_r_inds < j) {"),
B("rowperm.insert(std::end(rowperm), std::begin(r_inds), std::end(r_inds));","rowperm.insert(std::begin(rowperm), std::begin(r_inds), std::end(r_inds));"),
B("				++it_r_inds;\n				j++;","				++it_r_inds;"),
B("for (size_t i = 0; i < m-length_new_rows; i++){","for (size_t i = 1; i < m-length_new_rows; i++){"),
B("r_inds[ninserted] == ninserted) { ++ninserted; }","r_inds[ninserted] >= ninserted) { ++ninserted; }"),
B("		for (size_t j = 0; j < n; ++j) {\n			col[j].insert_rows(r_inds, ninserted);","		for (size_t j = 0; j + 1 < n; ++j) {\n			col[j].insert_rows(r_inds, ninserted);"),
B("		m = m + r_inds.size();\n	}","		m = m + ninserted;\n	}",0),
B("col[it->ind].emplace_back(i1+m0, it->val);","col[it->ind].emplace_back(i1+m, it->val);"),
B("auto irperm = bats::util::sortperm(rperm);\n","auto& irperm = rperm;\n"),
B("col.erase(col.begin()+index);","col.erase(col.begin()+index+1);"),
B("col.erase(--col.end());\n\t\t--n;","col.erase(--col.end());"),
S("col.erase(--col.end());\n\t\t--n;","col.pop_back();\n\t\tn -= 1;"),
B("n -= ndelete;\n\t\tcol.resize(n); // shrinks","n -= 1;\n\t\tcol.resize(n); // shrinks"),
B("std::rotate(col.begin(), col.begin() + ndelete, col.end());","std::rotate(col.begin(), col.begin() + ndelete - 1, col.end());"),
S("std::rotate(col.begin(), col.begin() + ndelete, col.end());\n\t\tn -= ndelete;\n\t\tcol.resize(n);","col.erase(col.begin(), col.begin() + ndelete);\n\t\tn -= ndelete;"),
B("col[j].erase_for_matrix(index);\n\t\t}\n\t\t--m;","col[j].erase_for_matrix(index);\n\t\t}"),
B("erase_last_row_of_matrix(m-1)","erase_last_row_of_matrix(m)"),
B("col[j].erase_rows_after(m - n_delete_rows - 1);","col[j].erase_rows_after(m - n_delete_rows);"),
B("if (n_delete_rows < nrow()){","if (n_delete_rows <= nrow()){"),
B("			cj.erase_initial_rows(ndelete);\n		}\n		m -= ndelete;","			cj.erase_initial_rows(ndelete);\n		}\n		--m;"),
B("if (m != other.m || n != other.n) {return false;}","if (n != other.n) {return false;}"),
B("if (col[j] != other.col[j]) {return false;}","if (j > 0 && col[j] != other.col[j]) {return false;}"),
B("A[i].emplace_back(getval(i,j));","A[i].emplace_back(getval(i,i));"),
B("arr[i + j*m] = col[j][i];","arr[i + j*n] = col[j][i];"),
B("auto prow = bats::util::partial_perm(rind, nrow());","auto prow = bats::util::partial_perm(rind, ncol());"),
B("return ColumnMatrix(rind.size(), cind.size(), newcol);","return ColumnMatrix(nrow(), cind.size(), newcol);"),
B("newcol.emplace_back(col[j].block(i0, i1));","newcol.emplace_back(col[j].block(i0, i1 - i0));"),
B("for (size_t j = j0; j < j1; j++) {\n\t\t\tnewcol","for (size_t j = j0; j <= j1 - 1 + (j0 == 0 ? 0 : 0); j++) {\n\t\t\tnewcol") if 0 else B("return ColumnMatrix(i1 - i0, j1 - j0, newcol);","return ColumnMatrix(i1, j1 - j0, newcol);"),
B("col[j].set_block(i0, i1, B[k]);","col[j].set_block(i0, i1, B[j]);"),
B("col[j].clear_inds(c);","if (j > 0) col[j].clear_inds(c);"),
B("if (c[j]) {\n\t\t\t\tcol[j].clear_dealloc();","if (c[j] && j + 1 < ncol()) {\n\t\t\t\tcol[j].clear_dealloc();"),
B("if (c[j]) {\n\t\t\t\tcol[j].clear_dealloc();","if (!c[j]) {\n\t\t\t\tcol[j].clear_dealloc();"),
B("col[j].mix_rows(i, i2, a, b, c, d);","col[j].mix_rows(i, i2, a, c, b, d);"),
B("col[j].mix_rows(i, i2, val_type(1), c, val_type(0), val_type(1));","col[j].mix_rows(i, i2, val_type(1), val_type(0), c, val_type(1));"),
B("y.axpy((*xit).val, col[(*xit).ind], tmp);","y.axpy((*xit).val, col[xit - x.nzbegin()], tmp);"),
B("newcol.emplace_back(col[j] * a);\n\t\t}\n\t\treturn ColumnMatrix(m, n, newcol);","newcol.emplace_back(col[j] * a);\n\t\t}\n\t\treturn ColumnMatrix(n, n, newcol);"),
B("return ColumnMatrix(m, B.n, colC);","return ColumnMatrix(B.m, B.n, colC);"),
B("for (size_t j = 0; j < B.n; j++) {\n            colC","for (size_t j = 0; j < n; j++) {\n            colC"),
B("if (a != 0) {\n\t\t\t\tind.emplace_back(j);","if (a != 0) {\n\t\t\t\tind.emplace_back(ind.size());"),
B("for (size_t j = 0; j < n; j++) {\n            C.col[j].axpy(1, col[j]);","for (size_t j = 1; j < n; j++) {\n            C.col[j].axpy(1, col[j]);"),
B("col[j].axpy(1, B.col[j]);","col[j].axpy(-1, B.col[j]);"),
B("ColumnMatrix C(*this); // copy constructor","ColumnMatrix C(B); // copy constructor"),
B("tcol[it->ind].emplace_back(j, it->val);","tcol[it->ind].emplace_back(it->ind, it->val);"),
B("return ColumnMatrix(n, m, tcol);","return ColumnMatrix(m, n, tcol);"),
B("bats::util::apply_iperm_swap(col, colperm);","bats::util::apply_perm_swap(col, colperm);"),
B("col[k].axpy(b, cj);","col[k].axpy(b, col[j]);"),
B("col[k].axpy(b, cj);","col[k].axpy(c, cj);"),
S("		col[j].scale_inplace(a);\n		col[j].axpy(c, ck);\n		col[k].scale_inplace(d);\n		col[k].axpy(b, cj);","		col[k].scale_inplace(d);\n		col[k].axpy(b, cj);\n		col[j].scale_inplace(a);\n		col[j].axpy(c, ck);"),
B("permute_cols(colperm);\n        permute_rows(rowperm);","permute_cols(colperm);\n        permute_rows(colperm);"),
S("permute_cols(colperm);\n        permute_rows(rowperm);","permute_rows(rowperm);\n        permute_cols(colperm);"),
B("for (size_t j =0; j < n/2; j++) {","for (size_t j =1; j < n/2; j++) {"),
B("std::swap(col[j], col[n-1-j]);","std::swap(col[j], col[n/2+j]);"),
B("col[j].J(m);","col[j].J(n);"),
B("		J_left_inplace();\n		J_right_inplace();\n","		J_left_inplace();\n		if (m == n) J_right_inplace();\n"),
S("		J_left_inplace();\n		J_right_inplace();\n","		J_right_inplace();\n		J_left_inplace();\n"),
B("other.J_left_inplace();\n\t\treturn other;","other.J_right_inplace();\n\t\treturn other;"),
B("col[j1].axpy(-c / a11, col[j], i+1, m, tmp);","col[j1].axpy(-c / a11, col[j], i+1, n, tmp);"),
B("for (size_t j1 = j+1; j1 < n; j1++) {\n\t\t\tauto c","for (size_t j1 = i+1; j1 < n; j1++) {\n\t\t\tauto c"),
B("if (c != 0) {\n\t\t\t\tcol[j1].axpy","if (c != 0 && c != a11) {\n\t\t\t\tcol[j1].axpy"),
B("col[j].scale_inplace(coeff[j].inv());","col[j].scale_inplace(coeff[j]);"),
B("col[j].scale_inplace(coeff[j].inv());","if (j) col[j].scale_inplace(coeff[j].inv());"),
B("ct += col[j].nnz();","ct = ct + 1;"),
B("if( col[j].nnz() > 0) {","if( col[j].nnz() > 1) {"),
B("if (iv->ind > j) {","if (iv->ind > j + 1) {"),
B("if (iv->ind > j) {","if (iv->ind >= j) {"),
B("				return false; // zero column","				continue; // zero column"),
B("if (iv->ind < j) {\n","if (iv->ind + 1 < j) {\n"),
S("if( col[j].nnz() > 0) {","if( col[j].nnz() != 0) {"),
S("			auto iv = col[j].nzend();\n			if (iv != col[j].nzbegin()) {\n				--iv;\n				if (iv->ind > j) {\n					return false;\n				}\n			}","			if (col[j].nnz() == 0) continue;\n			auto iv = col[j].nzend() - 1;\n			if (!(iv->ind <= j)) return false;"),
B("p2c[end->ind] = j;","p2c[j] = j;"),
B("if (p2c.count(end->ind) > 0) {","if (p2c.count(st->ind) > 0) {"),
B("if (row[i].nnz() > 1) {","if (row[i].nnz() > 2) {"),
B("for (size_t i = 0; i < m; i++) {\n\t\t\tif (row[i]","for (size_t i = 0; i < std::min(m,n); i++) {\n\t\t\tif (row[i]"),
B("if (std::distance(st, end) > 1 || ssize_t(st->ind) <= i) { return false; }","if (std::distance(st, end) > 1 || ssize_t(st->ind) < i) { return false; }"),
B("if (std::distance(st, end) > 1 || ssize_t(st->ind) <= i) { return false; }","if (ssize_t(st->ind) <= i) { return false; }"),
B("i = st->ind;\n\t\t\tj++;","i = j;\n\t\t\tj++;"),
B("			if (col[j].nnz() == 0) {\n				j++;\n			} else {\n				return false;\n			}","			j++;"),
B("transpose().is_EL(); }","J_conjugation().is_EL(); }"),
B("J_conjugation().is_EU(); }","J_conjugation().is_EL(); }"),
B("col[j] = TC(j);","col[j] = TC(j+1);"),
B("A[i].tensor(B[j], Bm)","A[i].tensor(B[j], Am)"),
B("return ColumnMatrix(Am * Bm, An * Bn, newcol);","return ColumnMatrix(Am * Bn, An * Bm, newcol);"),
B("B[j].shift_inds(Am)","B[j].shift_inds(An)"),
B("return ColumnMatrix(Am + Bm, An + Bn, newcol);","return ColumnMatrix(Am + Bm, Am + Bn, newcol);"),
B("auto a = (xit->val) / (Uj_it->val);","auto a = xit->val;"),
B("x.axpy(-a, U[j], 0, j, tmp);","x.axpy(-a, U[j], 1, j, tmp);"),
B("xit = x.upper_bound(j-1);","xit = x.upper_bound(j-1); if (xit != x.nzbegin()) --xit;"),
B("auto xit = x.upper_bound(j);","auto xit = x.upper_bound(U.nrow() > 1 ? j - 2 : j);"),
B("x.axpy(-a, L[j], j+1, m, tmp);","x.axpy(-a, L[j], j+1, L.ncol(), tmp);") if 0 else B("x.axpy(-a, L[j], j+1, m, tmp);","x.axpy(a, L[j], j+1, m, tmp);"),
B("xit = x.lower_bound(j+1);","xit = x.lower_bound(j+2);"),
B("auto Lj_it = L[j].lower_bound(j);","auto Lj_it = L[j].nzend() - 1;"),
B("u_solve(U, A[j])","u_solve(A, A[j])"),
B("    size_t m = A.nrow();\n    size_t n = A.ncol();\n    std::vector<TC> col;","    size_t m = A.ncol();\n    size_t n = A.ncol();\n    std::vector<TC> col;",1),
B("return l_solve(L, ColumnMatrix<TC>::identity(m));","return u_solve(L, ColumnMatrix<TC>::identity(m));"),
S("return l_solve(L, ColumnMatrix<TC>::identity(m));","auto I = ColumnMatrix<TC>::identity(L.ncol());\n\treturn l_solve(L, I);"),
S("        TC y;  // zero initializer\n		tmp_type tmp; // for use with axpy\n","        tmp_type tmp; TC y;\n"),
S("			newcol.emplace_back(A[j]);\n","			newcol.push_back(A[j]);\n"),
S("std::swap(col[j1], col[j2]);","auto& a = col[j1]; auto& b = col[j2]; std::swap(b, a);"),
S("		for (size_t j = 0; j < ncol(); j++) {\n			col[j].swap_rows(i,i2);\n		}","		if (i == i2) return;\n		for (auto& c : col) {\n			c.swap_rows(i,i2);\n		}"),
S("for (size_t j = j0, k=0; j < j1; j++, k++) {\n\t\t\tcol[j].set_block(i0, i1, B[k]);","for (size_t k=0; k < j1 - j0; k++) {\n\t\t\tcol[j0 + k].set_block(i0, i1, B[k]);"),
S("			auto c = col[j1][i];\n			if (c != 0) {\n				col[j1].axpy(-c / a11, col[j], i+1, m, tmp);\n			}","			auto c = col[j1][i];\n			if (c == 0) continue;\n			auto q = -c / a11;\n			col[j1].axpy(q, col[j], i+1, m, tmp);"),
S("			auto cj","") if 0 else S("			for (auto it = col[j].nzbegin(); it != col[j].nzend(); ++it) {\n				tcol[it->ind].emplace_back(j, it->val);\n			}","			const auto& c = col[j];\n			for (auto it = c.nzbegin(); it != c.nzend(); it++) {\n				auto i = it->ind;\n				tcol[i].emplace_back(j, it->val);\n			}"),
S("if (m != other.m || n != other.n) {return false;}\n\t\tfor (size_t j = 0; j < n; j++) {\n\t\t\tif (col[j] != other.col[j]) {return false;}\n\t\t}\n\t\treturn true;","bool same = (m == other.m) && (n == other.n);\n\t\tif (!same) return false;\n\t\tfor (size_t j = 0; j < n; j++) {\n\t\t\tif (!(col[j] == other.col[j])) return false;\n\t\t}\n\t\treturn true;") if 0 else S("ct += col[j].nnz();","const auto& c = col[j]; ct = ct + c.nnz();"),
S("if (i >= ind) j = i+1; // rows above ind will add up one\n\t\t\tif (i == m-1) j = ind; // the last one will be permuted the desired ind\n\t\t\trowperm.emplace_back(j);","if (i + 1 == m) j = ind; else if (!(i < ind)) j = i+1;\n\t\t\trowperm.push_back(j);",0),
S("			size_t j = i ;\n			if (i == index) j = n-1;\n			if (i > index) j = i-1;\n			colperm.emplace_back(j);","			colperm.emplace_back(i == index ? n-1 : (i > index ? i-1 : i));",0),
S("		for (size_t j = 0; j < n; j++) {\n			if( col[j].nnz() > 0) {\n				return false;\n			}\n		}\n		return true;","		for (const auto& c : col) {\n			if( c.nnz() > 0) return false;\n		}\n		return true;"),
S("		for (size_t j = 0; j < n; j++) {\n			if( col[j].nnz() > 0) {\n				return false;\n			}\n		}\n		return true;","		return nnz() == 0;"),
S("		for (size_t j = 0; j < n; j++) {\n			if( col[j].nnz() > 0) {\n				return false;\n			}\n		}\n		return true;","		return std::all_of(col.begin(), col.end(), [](const TC& c) {return c.nnz() == 0;});"),
S("if (m != other.m || n != other.n) {return false;}\n\t\tfor (size_t j = 0; j < n; j++) {\n\t\t\tif (col[j] != other.col[j]) {return false;}\n\t\t}\n\t\treturn true;","return m == other.m && n == other.n && col == other.col;"),
S("for (size_t j =0; j < n/2; j++) {\n\t\t\tstd::swap(col[j], col[n-1-j]);\n\t\t}","for (size_t a = 0, b = n; a + 1 < b; ++a) {\n\t\t\t--b; std::swap(col[a], col[b]);\n\t\t}"),
S("for (size_t j =0; j < n/2; j++) {\n\t\t\tstd::swap(col[j], col[n-1-j]);\n\t\t}","std::reverse(col.begin(), col.end());"),
S("if (i == c_inds[newi]) {\n\t\t\t\t// insert","if (!(i < c_inds[newi])) {\n\t\t\t\t// insert"),
S("			if (a != 0) {\n				ind.emplace_back(j);\n				val.emplace_back(a);\n			}","			if (a == 0) continue;\n			val.push_back(a);\n			ind.push_back(j);"),
S("        TC y;  // zero initializer\n		tmp_type tmp; // for use with axpy\n        // loop over nonzero indices of x\n        for (auto xit = x.nzbegin(); xit != x.nzend(); ++xit) {\n            y.axpy((*xit).val, col[(*xit).ind], tmp); // y <- x[j]*A[j]\n        }\n        return y;","        tmp_type tmp;\n        return gemv(x, tmp);"),
S("        auto xit = x","        auto xit = x") if 0 else S("    auto xit = x.upper_bound(j);","    auto xit = x.nzend();"),
S("        auto a = (*xit).val / (*Lj_it).val;\n        x.replace(xit, a);","        auto xj = (*xit).val;\n        auto a = xj / Lj_it->val;\n        x.replace(xit, a);"),
S("		TC cj(col[j]);\n		TC ck(col[k]);\n		col[j].scale_inplace(a);\n		col[j].axpy(c, ck);\n		col[k].scale_inplace(d);","		TC cj(col[j]);\n		col[j].scale_inplace(a);\n		col[j].axpy(c, col[k]);\n		col[k].scale_inplace(d);"),
]
