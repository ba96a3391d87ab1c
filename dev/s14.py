import os
head=''
DEMO=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'s14_demo.cpp')).read()

U='include/filtration/update_information.hpp'; D='include/homology/dgbasis.hpp'
def s(i,edits,needs,breaks): return dict(id=i,property='R18',head=head,demo=DEMO,edits=edits,needs=needs,breaks=breaks)
S=[
s('update-boundary-old-order',[(U,'iperms2[dim-1][ind[ii]], //','iperms1[dim-1][ind[ii]], //')],'two filtrations that order the faces of a new cell differently','the boundary of a new cell is listed in the order of the old filtration'),
s('update-boundary-accumulates',[(U,'bdry.clear();','')],'at least two new cells of one dimension','the boundary of every new cell also contains the faces of the ones before'),
s('update-deletions-counted-new',[(U,'ndeletions[dim] = n1 - intersection_ct;','ndeletions[dim] = n2 - intersection_ct;')],'filtrations with different numbers of cells in a dimension','the number of deleted cells is the number of inserted ones'),
s('update-coefficient-first',[(U,'val[ii]\n','val[0]\n')],'a new cell of dimension one or more, coefficients other than mod 2','all faces of a new cell get the sign of the first'),
s('update-reversal-size',[(U,'perm[k].size() - ndeletions[k] + insertion_indices[k].size();','perm[k].size() + insertion_indices[k].size();')],'cohomology, an update that deletes cells','positions of new cells are reversed in the size before deletion'),
s('update-listed-deletion-perm',[(D,('perm_deletion = identity_perm(m); // cohomology',0),'perm_deletion = identity_perm(n); // cohomology')],'Update_info, cohomology, different numbers of cells in neighbouring dimensions','the permutation of the rows has the length of the columns'),
s('update-listed-final-columns',[(D,('U[k].erase_final_columns(UI.deletion_indices[k].size());',0),'U[k].erase_final_columns(UI.addition_indices[k].size());')],'Update_info with different numbers of deleted and added cells','as many basis columns are deleted as cells are added'),
s('update-listed-boundary-dim',[(D,('bd_info = UI.boundary_indices[k];',0),'bd_info = UI.boundary_indices[k-1];')],'Update_info, cells inserted in dimension one or more','the boundary of the inserted cells is taken from the dimension below'),
s('update-listed-rows-not-sorted',[(D,('bats::util::apply_perm_swap(bd_info, bats::util::inv_perm(p));',0),'')],'Update_info, cohomology, two inserted cells of one dimension','the boundaries are not moved along with the sorted positions'),
]
