R='R12'
SF='include/linalg/sparse_fact.hpp'
Q='include/quiver/sparse.hpp'
SC='include/linalg/schur.hpp'
B=lambda f,o,n,*k:(R,'bug',f,o,n)+k
S=lambda f,o,n,*k:(R,'same',f,o,n)+k
M=[
B(SF,"F.U[j].axpy(F.E[j], coeff, pivs, tmp);\n\n\n            // perform","// perform"),
B(SF,"F.P.swap_cols(j, j2);","if (j2 > j+1) F.P.swap_cols(j, j2);"),
B(SF,"delete_pivot(F.E, p2c, j, i);","",),
B(SF,"update_pivot(F.E, p2c, j2, i); // update pivot","update_pivot(F.E, p2c, j2, i+1); // update pivot"),
B(SF,"coeff.emplace_back(a11.inv());","coeff.emplace_back(a11);"),
B(SF,"F.E[*jj].axpy(-c, F.E[j], i+1, m, tmp);","F.E[*jj].axpy(-c, F.E[j], i, m, tmp);"),
B(SF,"update_pivot(F.E, p2c, *jj, i+1);","update_pivot(F.E, p2c, *jj, i);"),
B(SF,"F.L[i].axpy(a11.inv(), F.E[j], i+1, m, tmp);","F.L[j].axpy(a11.inv(), F.E[j], i+1, m, tmp);"),
B(SF,"F.L[i].axpy(a11.inv(), F.E[j], i+1, m, tmp);","F.L[i].axpy(a11.inv(), F.E[j], i, m, tmp);"),
B(SF,"F.E[j].emplace_back(i, a11);","F.E[j].emplace_back(i, val_type(1));"),
B(SF,"++(p2c[i].cbegin())","(p2c[i].cbegin())"),
B(SF,"F.P = F.P.transpose();",""),
B(SF,"        F.U[j].axpy(F.E[j], coeff, pivs, tmp);\n        // Clear","        // Clear"),
B(SF,"        // Clear out column of E\n        F.E[j] = TC();","        if (j + 1 < n) F.E[j] = TC();"),
B(SF,"    F.U = MatT::identity(n);\n    F.P","    F.U = MatT::identity(m);\n    F.P"),
B(SF,"    F.E = F.E.T();\n    F.P = F.P.T();\n    std::swap(F.L, F.U); // because terms become transposed\n    F.U = F.U.T();","    F.E = F.E.T();\n    std::swap(F.L, F.U); // because terms become transposed\n    F.U = F.U.T();",1),
B(SF,"    std::swap(F.L, F.U); // because terms become transposed\n","",1),
B(SF,"    F.P.J_conjugation_inplace();\n","",1),
B(SF,"    std::swap(F.L, F.U); // because terms swap triangular shape\n","",0),
B(SF,"F.U = F.U.J_conjugation_inplace().T();","F.U = F.U.J_conjugation_inplace();"),
B(SF,"F.L = F.L.T().J_conjugation();","F.L = F.L.T();"),
B(SF,"auto F = LEUP(A.J_conjugation().T());","auto F = LEUP(A.J_conjugation());"),
B(SF,"coeff[it->ind] = it->val;","coeff[j] = it->val;"),
B(SF,"Ltilde.row_scale(coeff);","Ltilde.row_scale(coeff); //", ) if 0 else B(SF,"Ltilde.col_inv_scale(coeff);",""),
B(SF,"Ltilde[j_ell].emplace_back(idx_map[it->ind], it->val);","Ltilde[j_ell].emplace_back(it->ind, it->val);"),
B(SF,"Ltilde[j_ell].clear();",""),
B(SF,"return EL_L_commute(EL.T().J_conjugation_inplace(), L.T().J_conjugation_inplace()).T().J_conjugation_inplace();","return EL_L_commute(EL.T(), L.T().J_conjugation_inplace()).T().J_conjugation_inplace();"),
B(SF,"return EL_L_commute(EU.T(), U.T()).T();","return EL_L_commute(EU.T(), U.T());"),
B(SF,"return EL_L_commute(EU.J_conjugation(), U.J_conjugation()).J_conjugation();","return EL_L_commute(EU, U.J_conjugation()).J_conjugation();"),
B(SF,"U[j].axpy(-v, U[p2c[i0]]);","U[j].axpy(v, U[p2c[i0]]);"),
B(SF,"U[j].scale_inplace(v.inv());","U[j].scale_inplace(v);"),
B(SF,"p2c[i0] = j;","p2c[j] = j;"),
B(SF,"    F.U = u_inv(F.U);\n\n\n    // now","    // now"),
B(SF,"F.L = F.L.T(); // take","// take"),
B(SF,"return u_inv(F.U) * F.E.T() * l_inv(F.L);","return u_inv(F.U) * F.E * l_inv(F.L);"),
B(SF,"    auto Aj = A.J_conjugation();\n","    auto Aj = A.T();\n"),
B(SC,"return D - R; ","return R - D; "),
B(SC,"auto U12 = A12 * A22inv;","auto U12 = A22inv * A12;"),
B(SC,"AS.set_block(0, i0, j1, n, S13);","AS.set_block(0, i0, j1, n, A13);"),
B(SC,"auto S31 = A31 - A32 * L21;","auto S31 = A31 - L32 * L21;"),
B(Q,"mats[i+1] = facts[i].U * facts[i].P * mats[i+1];","mats[i+1] = facts[i].P * facts[i].U * mats[i+1];"),
B(Q,"mats[i+1] = u_inv(facts[i].U) * facts[i].P.T() * mats[i+1];","mats[i+1] = u_inv(facts[i].U) * facts[i].P * mats[i+1];"),
B(Q,"mats[i+1] = mats[i+1] * facts[i].P.T() * u_inv(facts[i].U);","mats[i+1] = mats[i+1] * u_inv(facts[i].U) * facts[i].P.T();"),
B(Q,"facts[i].P = TM::identity(facts[i].P.nrow());","",0),
B(Q,"facts[i+1].E = facts[i].P.T() * facts[i+1].E;","facts[i+1].E = facts[i].P * facts[i+1].E;"),
B(Q,"EL_L_commute(facts[i-1].E, l_inv(facts[i].L));","EL_L_commute(facts[i-1].E, facts[i].L);"),
B(Q,"facts[i-1].L = L_EL_commute(facts[i].L, facts[i-1].E) * facts[i-1].L;","facts[i-1].L = facts[i-1].L * L_EL_commute(facts[i].L, facts[i-1].E);"),
B(Q,"facts[i].L = TM::identity(facts[i].L.nrow());\n}","}",0),
B(Q,"facts[j] = is_left_arrow(dgm.elist[j]) ? LEUP(mats[j]) : PUEL(mats[j]);","facts[j] = is_left_arrow(dgm.elist[j-1]) ? LEUP(mats[j]) : PUEL(mats[j]);"),
B(Q,"pass_UP_right(dgm, facts, mats, j-1);","if (j > j0 + 1) pass_UP_right(dgm, facts, mats, j-1);"),
B(Q,"for (ssize_t j = j1; j > j0; j--) {\n        pass_L_left","for (ssize_t j = j1; j > j0 + 1; j--) {\n        pass_L_left"),
B(Q,"type_A_leftright_sweep1(dgm, facts, mats, 0, m-1);","type_A_leftright_sweep1(dgm, facts, mats, 0, m-2);"),
B(Q,"mats[i-1] = mats[i-1] * facts[i].P * facts[i].L;","mats[i-1] = mats[i-1] * facts[i].L * facts[i].P;"),
B(Q,"facts[i-1].E = facts[i].P.T() * facts[i-1].E;","facts[i-1].E = facts[i].P * facts[i-1].E;"),
B(Q,"facts[i+1].U * EU_U_commute(facts[i+1].E, u_inv(facts[i].U));","facts[i+1].U * EU_U_commute(facts[i+1].E, facts[i].U);"),
B(Q,"U_EU_commute(u_inv(facts[i].U), facts[i+1].E) * facts[i+1].U;","facts[i+1].U * U_EU_commute(u_inv(facts[i].U), facts[i+1].E);"),
B(Q,"for (ssize_t j = j0; j < j1 ; j++) {\n        pass_U_right","for (ssize_t j = j0; j < j1 - 1; j++) {\n        pass_U_right"),
B(Q,"pass_PL_left(dgm, facts, mats, j+1);\n        // compute factorization\n        facts[j] = is_left_arrow(dgm.elist[j]) ? PLEU(mats[j]) : UELP(mats[j]);","facts[j] = is_left_arrow(dgm.elist[j]) ? PLEU(mats[j]) : UELP(mats[j]);\n        pass_PL_left(dgm, facts, mats, j+1);"),
B(Q,"? LQU(mats[j2]) : UQL(mats[j2]);","? UQL(mats[j2]) : LQU(mats[j2]);"),
B(Q,"    pass_L_left(dgm, facts, j2);\n",""),
B(Q,"(void) type_A_leftright_sweep2(dgm, facts, j0, j0b);","(void) type_A_leftright_sweep2(dgm, facts, j0, j2);"),
B(Q,"    if (j1 - j0 < 4 ) {","    if (j1 - j0 < 1 ) {"),
B(Q,"PLEU(facts[j0].L * facts[j0].E)","PLEU(facts[j0].E * facts[j0].L)"),
B(Q,"PUEL(facts[j1].U * facts[j1].E)","PUEL(facts[j1].E)"),
B(Q,"pass_P_right(dgm, facts, j);",""),
B(Q,"for (ssize_t j = j2; j < j1; j++) {","for (ssize_t j = j2 + 1; j < j1; j++) {"),
B(Q,"if (m < 5 || nlevels","if (m < 2 || nlevels"),
B(Q,"for (size_t i = 0; i < mat[0].nrow(); i++) {","for (size_t i = 0; i < mat[0].ncol(); i++) {"),
B(Q,"bars[pi].end_ind = j;","bars[pi].end_ind = piv->ind;"),
B(Q,"bars.emplace_back(bar(k+1, j, k+1, j));","bars.emplace_back(bar(k, j, k+1, j));"),
B(Q,"piv_to_ind2[j] = bars.size();\n                    bars.emplace_back(bar(k+1, j, k+1, j));","bars.emplace_back(bar(k+1, j, k+1, j));\n                    piv_to_ind2[j] = bars.size();",1),
B(Q,"size_t pi = piv_to_ind[piv->ind];","size_t pi = piv_to_ind[j];",1),
B(Q,"std::swap(piv_to_ind, piv_to_ind2);","",),
B(Q,"bars[i].start_ind, bars[i].end_ind","bars[i].end_ind, bars[i].start_ind"),
B(Q,"TD.set_edge(i, s, t,","TD.set_edge(i, t, s,"),
B(Q,"auto matT = mat[k].T();","auto matT = mat[k];"),
# behaviour kept
S(SF,"    F.E = F.E.T();\n    F.P = F.P.T();\n    std::swap(F.L, F.U); // because terms become transposed\n    F.U = F.U.T();\n    F.L = F.L.T();\n\n    return F;","    std::swap(F.U, F.L);\n    F.L = F.L.T();\n    F.U = F.U.T();\n    F.P = F.P.transpose();\n    F.E = F.E.T();\n    return F;"),
S(SF,"return u_inv(F.U) * F.E.T() * l_inv(F.L);","auto Ui = u_inv(F.U); auto Li = l_inv(F.L);\n    return Ui * (F.E.T() * Li);"),
S(SF,"auto c = F.E(i, *jj) / a11;","size_t col = *jj; auto c = F.E(i, col) * a11.inv();"),
S(SF,"coeff.emplace_back(a11.inv()); // store for later","auto ainv = a11.inv(); coeff.emplace_back(ainv);"),
S(SF,"    F.E = F.E.T();\n    CU_inplace(F.E, F.L);\n    F.L = u_inv(F.L);\n    F.E = F.E.T(); // A is now a pivot matrix\n    F.L = F.L.T();","    auto ET = F.E.T();\n    CU_inplace(ET, F.L);\n    F.E = ET.T();\n    F.L = l_inv(F.L.T());"),
S(Q,"mats[i+1] = facts[i].U * facts[i].P * mats[i+1];","auto UP = facts[i].U * facts[i].P; mats[i+1] = UP * mats[i+1];"),
S(Q,"    if (is_left_arrow(dgm.elist[i+1])) {\n        if (is_left_arrow(dgm.elist[i])) {\n            facts[i+1].E = facts[i].P * facts[i+1].E;\n        } else {\n            // A = U^{-1} * P^{-1} * A\n            facts[i+1].E = facts[i].P.T() * facts[i+1].E;\n        }\n    } else {\n        if (is_left_arrow(dgm.elist[i])) {\n             // A = A * P^{-1} * U^{-1}\n             facts[i+1].E = facts[i+1].E * facts[i].P.T();\n        } else {\n             // A = A * P * U\n             facts[i+1].E = facts[i+1].E * facts[i].P;\n        }\n    }","    TM P = is_left_arrow(dgm.elist[i]) == is_left_arrow(dgm.elist[i+1]) ? facts[i].P : facts[i].P.T();\n    if (is_left_arrow(dgm.elist[i+1])) { facts[i+1].E = P * facts[i+1].E; } else { facts[i+1].E = facts[i+1].E * P; }"),
S(Q,"for (ssize_t j = j0 + 1; j <= j1; j++) {\n        // first apply change of basis from left\n        pass_UP_right(dgm, facts, mats, j-1);\n        // now perform factorization\n        facts[j] = is_left_arrow(dgm.elist[j]) ? LEUP(mats[j]) : PUEL(mats[j]);","for (ssize_t j = j0; j < j1; j++) {\n        pass_UP_right(dgm, facts, mats, j);\n        if (is_left_arrow(dgm.elist[j+1])) { facts[j+1] = LEUP(mats[j+1]); } else { facts[j+1] = PUEL(mats[j+1]); }"),
S(Q,"for (ssize_t j = j1-1; j >= j0; j--) {","ssize_t j = j1;\n    while (j > j0) {\n        j--;"),
S(Q,"    pass_U_right(dgm, facts, j2);\n    pass_L_left(dgm, facts, j2);","    pass_L_left(dgm, facts, j2);\n    pass_U_right(dgm, facts, j2);"),
S(Q,"piv_to_ind2[j] = bars.size();\n                    bars.emplace_back(bar(k+1, j, k+1, j));","bars.emplace_back(bar(k+1, j, k+1, j));\n                    piv_to_ind2[j] = bars.size() - 1;",0),
S(Q,"bars.emplace_back(bar(0, i, 0, i));\n            piv_to_ind[i] = i;","piv_to_ind[i] = i;\n            bar b(0, i, 0, i);\n            bars.push_back(b);"),
]
