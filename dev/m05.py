P='include/util/permutation.hpp'; CC='include/chain/chain_complex.hpp'; CO='include/chain/cochain_complex.hpp'; FC='include/chain/filtered_chain_complex.hpp'
DG='include/dgvs/dgvs.hpp'; FD='include/dgvs/filtered_dgvs.hpp'; HB='include/homology/basis.hpp'; DB='include/homology/dgbasis.hpp'; PB='include/persistence/filtered_basis.hpp'; PD='include/persistence/filtered_dgbasis.hpp'
UI='include/filtration/update_information.hpp'; FF='include/filtration/filtration.hpp'; CM='include/linalg/col_matrix.hpp'
M=[('R05','bug',P,"invp[p[j]] = j;","invp[j] = p[j];"),
('R05','bug',P,"for (size_t j = 0; j < p.size(); j++) {\n        invp","for (size_t j = 1; j < p.size(); j++) {\n        invp"),
('R05','bug',P,"perm[idx[i]] = i;","perm[i] = idx[i];"),
('R05','bug',P,"std::swap(tmp[perm[i]], data[i]);","std::swap(tmp[i], data[perm[i]]);"),
('R05','bug',P,"return perm[ind[a]] < perm[ind[b]];","return ind[a] < ind[b];"),
('R05','bug',P,"return perm[a] < perm[b];","return perm[a] > perm[b];"),
('R05','bug',P,"apply_perm(ind2.data(), tmp, indperm);",""),
('R05','bug',P,"fill_partial_sortperm(ind1, perm, indperm);","fill_partial_sortperm(ind2, perm, indperm);"),
('R05','bug',P,"if(i!=index)v.emplace_back(i);","if(i<index)v.emplace_back(i);"),
('R05','bug',P,"        }else{ // it is possible that i == index_list.end() but here we still want to add i\n            v.emplace_back(i);","        }else if (i < length - 1) {\n            v.emplace_back(i);"),
('R05','bug',P,"tmp[i] = *(begin + perm[i]);","tmp[perm[i]] = *(begin + i);"),
('R05','bug',P,"ct += (p[i] > p[j]);","ct += (p[i] >= p[j]);"),
('R05','bug',P,"for (size_t j = i+1; j < n; j++) {","for (size_t j = i; j < n - 1; j++) {"),
('R05','bug',FF,"ret[k] = bats::util::inv_perm(","ret[k] = bats::util::sortperm(bats::util::inv_perm("),
('R05','bug',CC,"boundary[k+1].permute_rows(bats::util::inv_perm(perm));","boundary[k+1].permute_rows(perm);"),
('R05','bug',CC,"} else if (k == maxdim()) {\n			boundary[k].permute_cols(perm);","} else if (k + 1 == maxdim()) {\n			boundary[k].permute_cols(perm);"),
('R05','bug',CC,"boundary[k].ipermute_cols(perm);\n			// only","boundary[k].permute_cols(perm);\n			// only"),
('R05','bug',CC,"for (size_t k = 0; k < perm.size(); k++) {\n			permute_basis","for (size_t k = 1; k < perm.size(); k++) {\n			permute_basis"),
('R05','bug',CC,"boundary[k+1].permute_rows(perm);\n			//","boundary[k].permute_rows(perm);\n			//"),
('R05','bug',CO,"coboundary[k+1].permute_cols(perm);","coboundary[k].permute_cols(perm);"),
('R05','bug',CO,"coboundary[k+1].ipermute_cols(perm);","coboundary[k+1].permute_cols(perm);"),
('R05','bug',FC,"C.ipermute_basis(perms);","C.permute_basis(perms);"),
('R05','bug',FC,"C.ipermute_basis(iperm);","C.ipermute_basis(perms);"),
('R05','bug',FC,"		perm = perms;\n\n		// store","		perm = iperm;\n\n		// store"),
('R05','bug',FC,"bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);","bats::util::apply_perm(perms[k].data(), tmp, iperm[k]);"),
('R05','bug',FC,"perm = updating_information.F_Y_perms;","perm = updating_information.F_X_perms;"),
('R05','bug',FC,"		val = newval;\n",""),
('R05','bug',DG,"differential[k+1].permute_cols(perm);\n				differential[k].permute_rows(perm);","differential[k].permute_cols(perm);\n				differential[k+1].permute_rows(perm);"),
('R05','bug',DG,"differential[k].permute_rows(bats::util::inv_perm(perm));\n				// std::cout << \"d_k = \" << k << \": rows \" << differential[k].nrow() << \", \" << perm.size() << std::endl;","differential[k].permute_rows(perm);\n				// std"),
('R05','bug',FD,"if (C.degree == +1) {\n			// for cohomology reverse rows and columns\n			for (auto& pi : perms) {","if (C.degree != +1) {\n			// for cohomology reverse rows and columns\n			for (auto& pi : perms) {"),
('R05','bug',FD,"std::reverse(pi.begin(), pi.end());","std::reverse(pi.begin(), pi.begin() + pi.size()/2);"),
('R05','bug',FD,"auto iperm = filtration_iperm(perm);","auto iperm = filtration_iperm(perms);"),
('R05','bug',HB,"U[k].permute_rows(iperm); // inverse perm here\n			R[k+1]","U[k].permute_rows(perm); // inverse perm here\n			R[k+1]"),
('R05','bug',HB,"R[k+1].permute_rows(iperm); // regular","R[k+1].permute_rows(perm); // regular"),
('R05','bug',DB,"				U[k+1].permute_rows(iperm);","				U[k].permute_rows(iperm);"),
('R05','bug',DB,"				U[1].permute_rows(iperm);","				R[1].permute_rows(iperm);"),
('R05','bug',PB,"RC.permute_basis(iperm);","RC.permute_basis(perms);"),
('R05','bug',PB,"perm = updating_information.F_Y_perms;","perm = updating_information.F_X_perms;"),
('R05','bug',PD,"perms) {\n				std::reverse(pi.begin(), pi.end());","perms) {\n				std::sort(pi.begin(), pi.end());"),
('R05','bug',PD,"perm = UI.newperm();",""),
('R05','bug',PD,"		auto new_perm = updating_information.F_Y_perms;","		auto new_perm = updating_information.F_X_perms;"),
('R05','bug',HB,"perm_to_the_end(UI.deletion_indices[k]","perm_to_the_end(UI.addition_indices[k]"),
# same
('R05','same',P,"""    for (size_t j = 0; j < p.size(); j++) {
        invp[p[j]] = j;
    }""","""    size_t j = 0;
    for (auto it = p.begin(); it != p.end(); ++it, ++j) {
        invp[*it] = j;
    }"""),
('R05','same',P,"""    for (size_t j = 0; j < p.size(); j++) {
        invp[p[j]] = j;
    }""","""    size_t j = 0;
    for (auto q : p) {
        invp[q] = j++;
    }"""),
('R05','same',P,"if(i!=index)v.emplace_back(i);","if (i == index) { continue; }\n        v.push_back(i);"),
('R05','same',P,"""        if(it != index_list.end()){
            if(i != *it){
                v.emplace_back(i);
            }else{
                it++;
            }
        }else{ // it is possible that i == index_list.end() but here we still want to add i
            v.emplace_back(i);
        }""","""        if (it != index_list.end() && i == *it) {
            ++it;
        } else {
            v.emplace_back(i);
        }"""),
('R05','same',P,"return perm[a] < perm[b];","return perm[b] > perm[a];"),
('R05','same',P,"ct += (p[i] > p[j]);","if (p[j] < p[i]) { ct++; }"),
('R05','same',P,"tmp[i] = *(begin + perm[i]);","size_t src = perm[i];\n        tmp[i] = begin[src];"),
('R05','same',P,"""    fill_partial_sortperm(ind1, perm, indperm);
    apply_perm(ind1.data(), tmp, indperm);
    apply_perm(ind2.data(), tmp, indperm);""","""    fill_partial_sortperm(ind1, perm, indperm);
    apply_perm(ind2.data(), tmp, indperm);
    apply_perm(ind1.data(), tmp, indperm);"""),
('R05','same',CC,"boundary[k].ipermute_cols(perm);\n			boundary[k+1].permute_rows(bats::util::inv_perm(perm));","auto ip = bats::util::inv_perm(perm);\n			boundary[k+1].permute_rows(ip);\n			boundary[k].permute_cols(ip);"),
('R05','same',CC,"""		if (k == 0) {
			// only worry about boundary[1]
			if (maxdim() > 0) { boundary[1].permute_rows(perm); }
		} else if (k == maxdim()) {
			boundary[k].permute_cols(perm);
			// only worry about boundary[maxdim()]
		} else {
			// need to handle boundary[k] and boundary[k+1]
			boundary[k].permute_cols(perm);
			boundary[k+1].permute_rows(perm);""","""		if (k > 0) { boundary[k].permute_cols(perm); }
		if (k < maxdim()) {
			boundary[k+1].permute_rows(perm);"""),
('R05','same',CC,"for (size_t k = 0; k < perm.size(); k++) {\n			permute_basis(k, perm[k]);","size_t k = 0;\n		for (const auto& p : perm) {\n			permute_basis(k++, p);"),
('R05','same',CC,"for (size_t k = 0; k < perm.size(); k++) {\n			permute_basis(k, perm[k]);","for (size_t k = perm.size(); k-- > 0; ) {\n			permute_basis(k, perm[k]);"),
('R05','same',FC,"""		std::vector<size_t> tmp; // temporary vector
		for (size_t k = 0; k < iperm.size(); k++) {
			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
		}""","""		for (size_t k = 0; k < iperm.size(); k++) {
			bats::util::apply_perm(iperm[k], perms[k]);
		}"""),
('R05','same',FC,"""		std::vector<size_t> tmp; // temporary vector
		for (size_t k = 0; k < iperm.size(); k++) {
			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
		}""","""		for (size_t k = 0; k < iperm.size(); k++) {
			std::vector<size_t> up(perms[k].size());
			for (size_t i = 0; i < up.size(); i++) { up[i] = iperm[k][perms[k][i]]; }
			iperm[k] = up;
		}"""),
('R05','same',FC,"""		std::vector<size_t> tmp; // temporary vector
		for (size_t k = 0; k < iperm.size(); k++) {
			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
		}""","""		compose_perms(iperm, perms);"""),
('R05','same',FC,"		perm = perms;\n\n		// store values as well\n		val = newval;","		val = newval;\n		perm = std::move(perms);"),
('R05','same',FD,"""			for (auto& pi : perms) {
				std::reverse(pi.begin(), pi.end());
			}
		}

		// get""","""			for (size_t k = 0; k < perms.size(); k++) {
				std::reverse(perms[k].begin(), perms[k].end());
			}
		}

		// get"""),
('R05','same',HB,"""		if (k == 0) {
			// only worry about boundary[1]
			if (maxdim() > 0) { R[1].permute_rows(iperm); }
		} else if (k == maxdim()) {
			// only need to worry about rows of U[k]
			U[k].permute_rows(iperm); // inverse perm here
		} else {
			// need to handle boundary[k] and boundary[k+1]
			U[k].permute_rows(iperm); // inverse perm here
			R[k+1].permute_rows(iperm); // regular perm here
		}""","""		if (k != 0) {
			U[k].permute_rows(iperm);
		}
		if (k != maxdim()) {
			R[k+1].permute_rows(iperm);
		}"""),
('R05','same',PD,"""		auto new_perm = updating_information.F_Y_perms;
		// if degree is +1, reverse
		if (RC.degree == +1) {
			// for cohomology reverse rows and columns
			for (auto& pi : new_perm) {
				std::reverse(pi.begin(), pi.end());
			}
		}
		perm = new_perm;""","""		perm = updating_information.F_Y_perms;
		if (RC.degree == +1) {
			for (auto& pi : perm) {
				std::reverse(pi.begin(), pi.end());
			}
		}"""),
]
