U='include/filtration/update_information.hpp'; D='include/homology/dgbasis.hpp'; P='include/persistence/filtered_dgbasis.hpp'
M=[
('R18','bug',U,'auto fj1 = iperms1[dim][j1]; // index of i1','auto fj1 = perms1[dim][j1]; // index of i1'),
('R18','bug',U,'auto fj1 = iperms1[dim][j1]; // index of i1','auto fj1 = j1; // index of i1'),
('R18','bug',U,'auto j1 = X1.find_idx(X2dim[j2]);','auto j1 = X1.find_idx(X2dim[fj2]);'),
('R18','bug',U,'emplace_back(fj2); // this is','emplace_back(j2); // this is'),
('R18','bug',U,'iperms2[dim-1][ind[ii]], //','iperms1[dim-1][ind[ii]], //'),
('R18','bug',U,'iperms2[dim-1][ind[ii]], //','iperms2[dim][ind[ii]], //'),
('R18','bug',U,'iperms2[dim-1][ind[ii]], //','ind[ii], //'),
('R18','bug',U,'X2.boundary(dim, j2);','X2.boundary(dim, fj2);'),
('R18','bug',U,'bdry.clear();',''),
('R18','bug',U,'std::sort(bdry.begin(), bdry.end());',''),
('R18','bug',U,'ndeletions[dim] = n1 - intersection_ct;','ndeletions[dim] = n2 - intersection_ct;'),
('R18','bug',U,'if (!in_intersection[j1]) {','if (in_intersection[j1]) {'),
('R18','bug',U,'perm[dim][intersection_ct] = iperms1[dim][j1]; // fj1','perm[dim][intersection_ct] = j1; // fj1'),
('R18','bug',U,'std::sort(perm[dim].begin() + n_intersect, perm[dim].end());','std::sort(perm[dim].begin(), perm[dim].end());'),
('R18','bug',U,'newval = F2.vals();','newval = F1.vals();'),
('R18','bug',U,'perms2 = filtration_sortperm(F2.vals());','perms2 = filtration_sortperm(F1.vals());'),
('R18','bug',U,'for (size_t j1 = 0; j1 < n1; ++j1) {','for (size_t j1 = 1; j1 < n1; ++j1) {'),
('R18','bug',U,'for (size_t fj2 = 0; fj2 < n2; ++fj2) {','for (size_t fj2 = 0; fj2 < n1; ++fj2) {'),
('R18','bug',U,'in_intersection[j1] = true;','in_intersection[fj1] = true;'),
('R18','bug',U,'size_t maxdim = F1.maxdim() + 1;','size_t maxdim = F1.maxdim();'),
('R18','bug',U,'val[ii]\n','val[0]\n'),
('R18','bug',U,'if (dim > 0) { // dimension zero has','if (dim > 1) { // dimension zero has'),
('R18','bug',U,'if (reversed) {\n\t\t\treturn;\n\t\t}',''),
('R18','bug',U,'reversed = true; // set',' // set'),
('R18','bug',U,'perm[k][i] = n1 - perm[k][i];','perm[k][i] = perm[k][i];'),
('R18','bug',U,'size_t n1 = perm[k].size() - 1;','size_t n1 = perm[k].size();'),
('R18','bug',U,'perm[k].size() - ndeletions[k] + insertion_indices[k].size();','perm[k].size() + insertion_indices[k].size();'),
('R18','bug',U,'perm[k].size() - ndeletions[k] + insertion_indices[k].size();','perm[k].size() - ndeletions[k];'),
('R18','bug',U,'perm[k-1].size() - ndeletions[k-1] + insertion_indices[k-1].size();','perm[k].size() - ndeletions[k] + insertion_indices[k].size();'),
('R18','bug',U,'perm[k-1].size() - ndeletions[k-1] + insertion_indices[k-1].size();','perm[k-1].size();'),
('R18','bug',U,'std::reverse(insertion_cols[k].begin(), insertion_cols[k].end());',''),
('R18','bug',U,'std::reverse(insertion_indices[k].begin(), insertion_indices[k].end());',''),
('R18','bug',U,'std::reverse(perm[k].begin(), perm[k].end());',''),
('R18','bug',U,'std::reverse(pi.begin(), pi.end());\n\t\t}\n\n\t\t// original','}\n\n\t\t// original'),
('R18','bug',U,'if (k > 0) {\n','if (k > 1) {\n'),
('R18','bug',U,'intersection_in_i_X.emplace_back(index);','intersection_in_i_X.emplace_back(j);'),
('R18','bug',U,'intersection_in_i_Y.emplace_back(j);','intersection_in_i_Y.emplace_back(index);'),
('R18','bug',U,'addition_in_i.emplace_back(j);','addition_in_i.emplace_back(index);'),
('R18','bug',U,'smcplex_Y.boundary(i, j);','smcplex_X.boundary(i, j);'),
('R18','bug',U,'boundary_indices_in_i.emplace_back(inds);','if (inds.size() > 2) boundary_indices_in_i.emplace_back(inds);'),
('R18','bug',U,'if(!bool_results_i[k]){','if(bool_results_i[k]){'),
('R18','bug',U,'bool_results_i[index] = true;','bool_results_i[j] = true;'),
('R18','bug',U,'for (size_t i = 0; i <= max_dim; i++){\n            // addition','for (size_t i = 0; i < max_dim; i++){\n            // addition'),
('R18','bug',U,'deletion_indices.emplace_back(deletion_in_i);','deletion_indices.emplace_back(addition_in_i);'),
('R18','bug',U,'F_Y_vals = F_Y.vals();','F_Y_vals = F_X.vals();'),
('R18','bug',U,'F_Y_perms = bats::filtration_sortperm(F_Y.vals());','F_Y_perms = bats::filtration_sortperm(F_X.vals());'),
('R18','bug',D,'U[k].erase_final_rows_unsafe(UI.ndeletions[k]);',''),
('R18','bug',D,'R[k+1].erase_final_rows_unsafe(UI.ndeletions[k]);','R[k+1].erase_final_rows_unsafe(UI.ndeletions[k+1]);'),
('R18','bug',D,'R[k].erase_initial_rows(UI.ndeletions[k]);','R[k].erase_initial_cols(UI.ndeletions[k]);'),
('R18','bug',D,'U[k+1].erase_initial_rows(UI.ndeletions[k]);','U[k].erase_initial_rows(UI.ndeletions[k]);'),
('R18','bug',D,'R[k+1].erase_initial_cols(UI.ndeletions[k]);','R[k+1].erase_final_columns(UI.ndeletions[k]);'),
('R18','bug',D,'if ( k + 1 < R.size() ) {\n\t\t\t\t// insert','if ( k + 2 < R.size() ) {\n\t\t\t\t// insert'),
('R18','bug',D,'U[k].insert_rows(UI.insertion_indices[k]); //zero rows','//zero rows'),
('R18','bug',D,'U[k].insert_columns(UI.insertion_indices[k], Ucols);\n\n\t\t} else','U[k].insert_columns(UI.insertion_indices[k], Rcols);\n\n\t\t} else'),
('R18','bug',D,'Rcols.emplace_back(Vt.gemv(Di, tmp));','Rcols.emplace_back(Di);'),
('R18','bug',D,'auto Vt = U[k].transpose();','auto Vt = U[k+1].transpose();'),
('R18','bug',D,'auto Vt = U[k].transpose();','auto Vt = U[k];'),
('R18','bug',D,'Ucols.emplace_back(VectT(size_t(UI.insertion_indices[k][i])));','Ucols.emplace_back(VectT(size_t(i)));'),
('R18','bug',D,'\t\t\t_delete_cells(k, UI);\n\t\t\t// step 4: process insertions\n\t\t\t_insert_cells(k, UI);','\t\t\t_insert_cells(k, UI);\n\t\t\t_delete_cells(k, UI);'),
('R18','bug',D,'for (size_t k = 0; k < UI.perm.size(); ++k) {\n\t\t\tsize_t k_ind','for (size_t k = 0; k + 1 < UI.perm.size(); ++k) {\n\t\t\tsize_t k_ind'),
('R18','bug',D,'\t\t\tpermute_matrices(k, UI.perm[k]);\n\t\t}\n\n\t\tfor (size_t k = 0; k < UI.perm.size(); ++k) {\n','\t\t\tpermute_matrices(k, UI.perm[k]);\n'),
('R18','bug',D,'size_t k_ind = degree == -1 ? k : k + 1;\n\t\t\t// step 2','size_t k_ind = k;\n\t\t\t// step 2'),
('R18','bug',P,'UI.reverse_for_cohomology();',''),
('R18','bug',P,'perm = UI.newperm();','perm = UI.perm;'),
('R18','bug',P,'\t\tif (RC.degree == +1) {\n\t\t\tUI.reverse_for_cohomology();\n\t\t}\n\n\t\tRC.update_basis(UI);','\t\tRC.update_basis(UI);\n\t\tif (RC.degree == +1) {\n\t\t\tUI.reverse_for_cohomology();\n\t\t}\n'),
# behaviour preserving
('R18','same',U,'auto fj1 = iperms1[dim][j1]; // index of i1 in F1','const size_t fj1 = iperms1.at(dim).at(j1);'),
('R18','same',U,'if(j1 != bats::NO_IND) {\n\t\t\t\t\tauto fj1','if(!(j1 == bats::NO_IND)) {\n\t\t\t\t\tauto fj1'),
('R18','same',U,'for (size_t j1 = 0; j1 < n1; ++j1) {\n\t\t\t\tif (!in_intersection[j1]) {\n\t\t\t\t\t// needs to be permuted from filtration order in F1\n\t\t\t\t\tperm[dim][intersection_ct] = iperms1[dim][j1]; // fj1\n\t\t\t\t\t++intersection_ct;\n\t\t\t\t}\n\t\t\t}','for (size_t j1 = 0; j1 < n1; j1++) {\n\t\t\t\tif (in_intersection[j1]) { continue; }\n\t\t\t\tperm[dim][intersection_ct++] = iperms1[dim][j1];\n\t\t\t}'),
('R18','same',U,'bdry.clear();\n\t\t\t\t\tif (dim > 0)','bdry.clear();\n\t\t\t\t\tif (dim != 0)'),
('R18','same',U,'perm[dim][intersection_ct] = fj1; // simplex gets permuted here\n\t\t\t\t\tin_intersection[j1] = true;\n\t\t\t\t\t++intersection_ct;','in_intersection[j1] = true;\n\t\t\t\t\tperm[dim][intersection_ct] = fj1;\n\t\t\t\t\tintersection_ct += 1;'),
('R18','same',U,'ndeletions[dim] = n1 - intersection_ct;','ndeletions[dim] = n1 - n_intersect;'),
('R18','same',U,'bdry.emplace_back(nzpair(\n\t\t\t\t\t\t\t\titerms2','bdry.emplace_back(nzpair(\n\t\t\t\t\t\t\t\titerms2') if 0 else ('R18','same',U,'bdry.emplace_back(nzpair(\n','bdry.push_back(nzpair(\n'),
('R18','same',U,'for (size_t ii = 0; ii < ind.size(); ++ii) {','const size_t nf = ind.size();\n\t\t\t\t\t\tfor (size_t ii = 0; ii != nf; ++ii) {'),
('R18','same',U,'std::vector<nzpair<size_t, int>> bdry;\n','std::vector<nzpair<size_t, int>> bdry; bdry.reserve(8);\n'),
('R18','same',U,'size_t n1 = perm[k].size() - 1;\n\t\t\tfor (size_t i = 0; i < perm[k].size(); ++i) {\n\t\t\t\tperm[k][i] = n1 - perm[k][i];\n\t\t\t}\n\n\t\t\t// reverse for output\n\t\t\tstd::reverse(perm[k].begin(), perm[k].end());','auto& pk = perm[k];\n\t\t\tconst size_t n = pk.size();\n\t\t\tstd::reverse(pk.begin(), pk.end());\n\t\t\tfor (auto& v : pk) { v = n - 1 - v; }'),
('R18','same',U,'for (size_t k = 0; k < perm.size(); ++k) {\n','for (size_t k = 0, nk = perm.size(); k < nk; k++) {\n'),
('R18','same',U,'if (reversed) {\n\t\t\treturn;\n\t\t}','if (reversed) return;\n\t\treversed = true;'),
('R18','same',U,'size_t m2 = perm[k-1].size() - ndeletions[k-1] + insertion_indices[k-1].size();\n\t\t\t\tsize_t m21 = m2 - 1;\n\t\t\t\tfor (auto& v : insertion_cols[k]) {\n\t\t\t\t\tv.reverse_inds(m21);\n\t\t\t\t}','size_t m2 = insertion_indices[k-1].size() + perm[k-1].size() - ndeletions[k-1];\n\t\t\t\tfor (size_t c = 0; c < insertion_cols[k].size(); ++c) {\n\t\t\t\t\tinsertion_cols[k][c].reverse_inds(m2 - 1);\n\t\t\t\t}'),
('R18','same',U,'if(index != bats::NO_IND){\n                    bool_results_i[index] = true;\n                    intersection_in_i_X.emplace_back(index);\n                    intersection_in_i_Y.emplace_back(j);\n                }else{ //','if(index != bats::NO_IND){\n                    intersection_in_i_Y.push_back(j);\n                    intersection_in_i_X.push_back(index);\n                    bool_results_i[index] = true;\n                }else{ //'),
('R18','same',U,'for(size_t k = 0; k < bool_results_i.size(); k++){\n                if(!bool_results_i[k]){ // flase, need to deal with deletion information\n                    deletion_in_i.emplace_back(k);\n                }\n            }','for(size_t k = 0; k < bool_results_i.size(); ++k){\n                if(bool_results_i[k]) continue;\n                deletion_in_i.push_back(k);\n            }'),
('R18','same',U,'deletion_indices.emplace_back(deletion_in_i);','deletion_indices.emplace_back(std::move(deletion_in_i));'),
('R18','same',D,'if (UI.ndeletions[k] == 0) { return; } // quick exit\n','const size_t nd = UI.ndeletions[k];\n\t\tif (nd == 0) { return; }\n'),
('R18','same',D,'U[k].erase_final_columns(UI.ndeletions[k]);\n\t\t\tU[k].erase_final_rows_unsafe(UI.ndeletions[k]);\n\t\t\tR[k].erase_final_columns(UI.ndeletions[k]);','R[k].erase_final_columns(UI.ndeletions[k]);\n\t\t\tU[k].erase_final_columns(UI.ndeletions[k]);\n\t\t\tU[k].erase_final_rows_unsafe(UI.ndeletions[k]);'),
('R18','same',D,'if (k + 1 < R.size()) {\n\t\t\t\tR[k+1].erase','if (k < R.size() - 1) {\n\t\t\t\tR[k+1].erase'),
('R18','same',D,'for (size_t i = 0; i < UI.insertion_indices[k].size(); ++i) {\n\t\t\t\tUcols.emplace_back(VectT(size_t(UI.insertion_indices[k][i])));\n\t\t\t\tRcols.emplace_back','for (size_t i = 0; i < UI.insertion_indices[k].size(); ++i)\n\t\t\t\tUcols.emplace_back(VectT(size_t(UI.insertion_indices[k][i])));\n\t\t\tfor (size_t i = 0; i < UI.insertion_cols[k].size(); ++i) {\n\t\t\t\tRcols.emplace_back'),
('R18','same',D,'Rcols.emplace_back(Vt.gemv(Di, tmp));','Rcols.push_back(Vt.gemv(Di, tmp));'),
('R18','same',D,'std::cout << "\\t\\t_insert_cells " << k << std::endl;',''),
('R18','same',D,'// step 2: correct U matrices\n\t\t\t_make_U_upper_triangular(k_ind);','if (degree == -1) _make_U_upper_triangular(k); else _make_U_upper_triangular(k + 1);'),
('R18','same',D,'for (size_t k = 0; k < UI.perm.size(); ++k) {\n\t\t\tpermute_matrices(k, UI.perm[k]);\n\t\t}','size_t kp = 0;\n\t\tfor (const auto& pk : UI.perm) {\n\t\t\tpermute_matrices(kp++, pk);\n\t\t}'),
('R18','same',D,'for (size_t k = 0; k < UI.perm.size(); ++k) {\n\t\t\tpermute_matrices(k, UI.perm[k]);\n\t\t}','const size_t nd = UI.perm.size();\n\t\tfor (size_t k = 0; k != nd; k++) {\n\t\t\tpermute_matrices(k, UI.perm[k]);\n\t\t}'),
('R18','same',P,'perm = UI.newperm();','perm = UI.perms2;'),
('R18','same',P,'\t\tRC.update_basis(UI);\n\n\t\tperm = UI.newperm();\n\t\tval = UI.newval;','\t\tval = UI.newval;\n\t\tperm = UI.newperm();\n\n\t\tRC.update_basis(UI);'),
]
G='include/homology/basis.hpp'
def bug(old,new,f=None,n=None):
    import re
    t=('R18','bug',f or D,old,new)
    M.append(t+((n,) if n is not None else ()))
def same(old,new,f=None,n=None):
    t=('R18','same',f or D,old,new)
    M.append(t+((n,) if n is not None else ()))
for n in (0,1):
    bug('perm_deletion = identity_perm(m); // cohomology','perm_deletion = identity_perm(n); // cohomology',n=n)
    bug('perm_deletion = identity_perm(n);','perm_deletion = identity_perm(m);',n=n)
    bug('find_reverse_index(UI.deletion_indices[k], m);','find_reverse_index(UI.deletion_indices[k], n);',n=n)
    bug('perm_deletion = perm_to_the_end(UI.deletion_indices[k], n);','perm_deletion = perm_to_the_end(UI.deletion_indices[k], m);',n=n)
    bug('std::sort(deletion_inds.begin(), deletion_inds.end()); // sort it','',n=n)
    bug('std::reverse(perm_rever.begin(), perm_rever.end());','',n=n)
    bug('perm_intersect = extension_perm(perm_rever, m);','perm_intersect = extension_perm(perm_rever, n);',n=n)
    bug('perm_intersect = extension_perm(UI.permutations[k], n);','perm_intersect = extension_perm(UI.permutations[k], m);',n=n)
    bug('bats::util::apply_perm(perm_deletion, perm_intersect);','bats::util::apply_perm(perm_intersect, perm_deletion);',n=n)
    bug('bats::util::apply_perm(perm_deletion, perm_intersect);','',n=n)
    bug('permute_matrices(k, perm_deletion);','permute_matrices(k, perm_intersect);',n=n)
    bug('if(!UI.deletion_indices[k].empty()){','if(UI.deletion_indices[k].empty()){',n=n)
    bug('U[k].erase_final_columns(UI.deletion_indices[k].size());','U[k].erase_final_columns(UI.addition_indices[k].size());',n=n)
    bug('U[k].erase_final_rows_unsafe(UI.deletion_indices[k].size());','',n=n)
    bug('R[k].erase_final_columns(UI.deletion_indices[k].size());','R[k].erase_final_columns(UI.deletion_indices[k-1].size());',n=n)
    bug('R[k].erase_rows(UI.deletion_indices[k].size());','R[k].erase_final_rows_unsafe(UI.deletion_indices[k].size());',n=n)
    bug('if(k!=0 and UI.deletion_indices[k-1].size() > 0){','if(UI.deletion_indices[k-1].size() > 0){',n=n)
    bug('if(k!=0 and UI.deletion_indices[k-1].size() > 0){','if(k!=0 and UI.deletion_indices[k-1].size() > 1){',n=n)
    bug('if(k!=0 and UI.deletion_indices[k-1].size() > 0){','if(k!=0 and UI.deletion_indices[k].size() > 0){',n=n)
    bug('if(k!=0 and  UI.addition_indices[k-1].size() > 0){','if(k>1 and  UI.addition_indices[k-1].size() > 0){',n=n)
    bug('find_reverse_index(add_inds, R[k].ncol() + add_inds.size());','find_reverse_index(add_inds, R[k].ncol());',n=n)
    bug('find_reverse_index(add_inds, R[k].ncol() + add_inds.size());','find_reverse_index(add_inds, R[k].nrow() + add_inds.size());',n=n)
    bug('std::sort(add_inds.begin(), add_inds.end()); // sort indices before insert','',n=n)
    bug('Ucols[i] = VectT(size_t(add_inds[i]));','Ucols[i] = VectT(i);',n=n)
    bug('U[k].insert_row(add_inds[i]); //insert','U[k].insert_row(i); //insert',n=n)
    bug('U[k].insert_columns(add_inds, Ucols);','',n=n)
    bug('R[k].insert_columns(add_inds, zero_cols);','R[k-1].insert_columns(add_inds, zero_cols);',n=n)
    bug('size_t final_ind_of_U = U[k].ncol();','size_t final_ind_of_U = R[k].nrow();',n=n)
    bug('final_ind_of_U++;','',n=n)
    bug('if(k==0){\n\t\t\t\t\t// find','if(k<=1){\n\t\t\t\t\t// find',n=n)
    bug('bd_info = UI.boundary_indices[k];','bd_info = UI.boundary_indices[k-1];',n=n)
    bug('U[k].insert_rows(add_inds); //zero rows','',n=n)
    bug('std::vector<ValT> vect_one(simplex_bd_ind.size(), 1);','std::vector<ValT> vect_one(simplex_bd_ind.size());',n=n)
    bug('std::vector<ValT> vect_one(simplex_bd_ind.size(), 1);','std::vector<ValT> vect_one(add_inds.size(), 1);',n=n)
    bug('Ucol[i] = VectT(size_t(ind));','Ucol[i] = VectT(size_t(i));',n=n)
    bug('auto ind = add_inds[i];','auto ind = add_inds[0];',n=n)
    bug('R[k].insert_columns(add_inds, Rcol);','R[k].insert_columns(add_inds, Ucol);',n=n)
    bug('bd_info = find_reverse_index(UI.boundary_indices[k], R[k].ncol());','bd_info = find_reverse_index(UI.boundary_indices[k], R[k].nrow());',n=n)
    bug('find_reverse_index(UI.addition_indices[k], R[k].nrow() + UI.addition_indices[k].size());','find_reverse_index(UI.addition_indices[k], R[k].nrow());',n=n)
    bug('bats::util::apply_perm_swap(bd_info, bats::util::inv_perm(p));','bats::util::apply_perm_swap(bd_info, p);',n=n)
    bug('bats::util::apply_perm_swap(bd_info, bats::util::inv_perm(p));','',n=n)
    bug('bats::util::apply_perm_swap(add_inds, bats::util::inv_perm(p));','',n=n)
    bug('std::vector<size_t> p = bats::util::sortperm(add_inds);\n\t\t\t\t\t\tbats::util::apply_perm_swap(add_inds, bats::util::inv_perm(p));','std::vector<size_t> p = bats::util::sortperm(add_inds);\n\t\t\t\t\t\tbats::util::apply_perm_swap(add_inds, bats::util::inv_perm(p));\n\t\t\t\t\t\tp = bats::util::sortperm(add_inds);',n=n)
    bug('auto U_transpose = U[k].T();','auto U_transpose = U[k];',n=n)
    bug('R[k].insert_sparse_rows(add_inds, new_rows_in_R);','',n=n)
    bug('std::fill(bd_values.begin(),bd_values.end(), ValT(1)); //F2 for now','',n=n)
    bug('std::sort(simplex_bd_ind.begin(), simplex_bd_ind.end());\n\n','\n\n',n=n)
    bug('size_t ndel = UI.deletion_indices[max_dim].size();','size_t ndel = UI.addition_indices[max_dim].size();',n=n)
    bug('U[max_dim+1].append_row();','',n=n)
    bug('R[max_dim+1].insert_rows(UI.addition_indices[max_dim]);','R[max_dim+1].insert_rows(UI.deletion_indices[max_dim]);',n=n)
    bug('R[max_dim+1].erase_final_rows_unsafe(UI.deletion_indices[max_dim].size());','',n=n)
    same('size_t count = UI.addition_indices[k].size();','const auto& news = UI.addition_indices[k];\n\t\t\t\t\tsize_t count = news.size();',n=n)
    same('std::vector<VectT> Rcol(add_inds.size());\n\t\t\t\t\t\tstd::vector<VectT> Ucol(add_inds.size());','const size_t na = add_inds.size();\n\t\t\t\t\t\tstd::vector<VectT> Ucol(na);\n\t\t\t\t\t\tstd::vector<VectT> Rcol(na);',n=n)
    same('U[k].erase_final_columns(UI.deletion_indices[k].size());\n\t\t\t\tU[k].erase_final_rows_unsafe(UI.deletion_indices[k].size());\n\t\t\t\tR[k].erase_final_columns(UI.deletion_indices[k].size());','const size_t nd = UI.deletion_indices[k].size();\n\t\t\t\tif (nd > 0) {\n\t\t\t\tR[k].erase_final_columns(nd);\n\t\t\t\tU[k].erase_final_columns(nd);\n\t\t\t\tU[k].erase_final_rows_unsafe(nd);\n\t\t\t\t}',n=n)
    same('R[k].insert_columns(add_inds, Rcol);\n\t\t\t\t\t\tU[k].insert_columns(add_inds, Ucol);','U[k].insert_columns(add_inds, Ucol);\n\t\t\t\t\t\tR[k].insert_columns(add_inds, Rcol);',n=n)
    same('for(size_t i = 0; i < add_inds.size(); i++){\n\t\t\t\t\t\t// U[k] needs a new one block\n\t\t\t\t\t\tU[k].insert_row(add_inds[i]); //insert zero row of U\n\t\t\t\t\t\tUcols[i] = VectT(size_t(add_inds[i]));\n\t\t\t\t\t}','U[k].insert_rows(add_inds);\n\t\t\t\t\tfor(size_t i = 0; i < add_inds.size(); i++){\n\t\t\t\t\t\tUcols[i] = VectT(size_t(add_inds[i]));\n\t\t\t\t\t}',n=n)
    same('std::sort(add_inds.begin(), add_inds.end()); // sort indices before insert','std::reverse(add_inds.begin(), add_inds.end());',n=n)
    same('new_rows_in_R.emplace_back(new_row_in_R);','new_rows_in_R.push_back(new_row_in_R);',n=n)
    same('U[max_dim+1].append_column(VectT(size_t(U[max_dim+1].ncol())));','size_t last = U[max_dim+1].ncol();\n\t\t\t\tU[max_dim+1].append_column(VectT(last));',n=n)
    same('U[max_dim+1].append_row();\n\t\t\t\tU[max_dim+1].append_column(VectT(size_t(U[max_dim+1].ncol())));','U[max_dim+1].append_column(VectT(size_t(U[max_dim+1].ncol())));\n\t\t\t\tU[max_dim+1].append_row();',n=n)
bug('_make_U_upper_triangular(k_ind);\n\n\t\t\tt0','t0')
bug('p2c[k] = reduce_matrix(R[k], U[k], args...);\n\t\t\tt1','t1')
bug('p2c[k] = reduce_matrix_standard(U[k], R[k]);\n\t\t\tt1','t1')
for o,nw in [('perm_deletion = perm_to_the_end(UI.deletion_indices[k], R[k].ncol());','perm_deletion = perm_to_the_end(UI.deletion_indices[k], R[k].nrow());'),
  ('perm_deletion = identity_perm(R[k].ncol());','perm_deletion = identity_perm(R[k].nrow());'),
  ('extension_perm(UI.permutations[k], R[k].ncol());','extension_perm(UI.permutations[k], R[k].nrow());'),
  ('U[k].erase_row_unsafe(); // after','// after'),
  ('size_t count = UI.deletion_indices[k-1].size();','size_t count = UI.deletion_indices[k].size();'),
  ('R[k].insert_rows(UI.addition_indices[k-1]);\n\t\t\t}','R[k].insert_rows(UI.addition_indices[k]);\n\t\t\t}'),
  ('U[k].append_column(VectT(size_t(final_ind_of_U)));','U[k].append_column(VectT(size_t(final_ind_of_U-1)));'),
  ('final_ind_of_U++;',''),('Ucol[i] = VectT(size_t(ind));','Ucol[i] = VectT(size_t(i));'),
  ('Rcol[i] = VectT(simplex_bd_ind, vect_one);','Rcol[0] = VectT(simplex_bd_ind, vect_one);'),
  ('U[k].insert_rows(add_inds);',''),
  ('p2c[k] = reduce_matrix_standard(U[k], R[k]);\n\n\t\t\t// step 2.2','// step 2.2')]:
    bug(o,nw,G)
same('for (size_t i = 0; i < UI.deletion_indices[k].size(); i++){\n\t\t\t\tU[k].erase_column();\n\t\t\t\tU[k].erase_row_unsafe(); // after column deletion, safe to erase\n\t\t\t\tR[k].erase_column();\n\t\t\t}','size_t nd = UI.deletion_indices[k].size();\n\t\t\tU[k].erase_final_columns(nd); U[k].erase_final_rows_unsafe(nd); R[k].erase_final_columns(nd);',G)
