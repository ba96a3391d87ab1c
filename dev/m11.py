FB='include/persistence/filtered_basis.hpp'
FD='include/persistence/filtered_dgbasis.hpp'
BC='include/persistence/barcode.hpp'
EX='include/persistence/extract.hpp'
UF='include/persistence/union_find.hpp'
M=[
('R11','bug',FB,'if (RC.R[k][i].nnz() == 0) {','if (RC.R[k][i].nnz() <= 1) {'),
('R11','bug',FB,'if (k == maxdim() || RC.p2c[k+1][i] == bats::NO_IND)','if (RC.p2c[k+1][i] == bats::NO_IND)'),
('R11','bug',FB,'if (k == maxdim() || RC.p2c[k+1][i] == bats::NO_IND)','if (k == maxdim() && RC.p2c[k+1][i] == bats::NO_IND)',1),
('R11','bug',FB,'size_t j = RC.p2c[k+1][i];','size_t j = RC.p2c[k+1][perm[k][i]];'),
('R11','bug',FB,'val[k][perm[k][i]], val[k+1][perm[k+1][j]]','val[k][perm[k][i]], val[k+1][j]'),
('R11','bug',FB,'val[k][perm[k][i]], val[k+1][perm[k+1][j]]','val[k][i], val[k+1][perm[k+1][j]]',1),
('R11','bug',FB,'PersistencePair<T>(k, perm[k][i], perm[k+1][j],','PersistencePair<T>(k, perm[k][i], j,'),
('R11','bug',FB,'PersistencePair<T>(k, i, j,','PersistencePair<T>(k, perm[k][i], j,'),
('R11','bug',FB,'PersistencePair<T>(k, i, bats::NO_IND,','PersistencePair<T>(k, perm[k][i], bats::NO_IND,'),
('R11','bug',FB,'for (size_t i =0; i < dim(k); i++) {','for (size_t i =1; i < dim(k); i++) {'),
('R11','bug',FB,'for (size_t i =0; i < dim(k); i++) {','for (size_t i =0; i + 1 < dim(k); i++) {',1),
('R11','bug',FB,'pairs = persistence_pairs(k, permuted);','pairs = persistence_pairs(k);'),
('R11','bug',FB,'inds[2*i + 1] = p.death_ind;','inds[2*i + 1] = p.birth_ind;'),
('R11','bug',FB,'bd[2*i] = p.birth;','bd[i] = p.birth;'),
('R11','bug',FB,'return std::make_tuple(bd, inds);','return std::make_tuple(bd, inds);'.replace('bd, inds','std::vector<T>(), inds')),
('R11','bug',FB,'v.permute(perm[p.dim]); // undo permutation',';'),
('R11','bug',FB,'v.permute(perm[p.dim]); // undo permutation','v.permute(bats::util::inv_perm(perm[p.dim]));'),
('R11','bug',FB,'v = RC.U[p.dim][it - perm[p.dim].begin()];',''),
('R11','bug',FB,'auto it = std::find(perm[p.dim].begin(), perm[p.dim].end(), p.birth_ind);','auto it = std::find(perm[p.dim].begin(), perm[p.dim].end(), p.death_ind);'),
('R11','bug',FB,'v = RC.U[p.dim][it - perm[p.dim].begin()];','v = RC.R[p.dim][it - perm[p.dim].begin()];'),
('R11','bug',FB,'val[k][perm[k][i]], std::numeric_limits<T>::infinity()','val[k][perm[k][i]], std::numeric_limits<T>::max()'),
('R11','same',FB,'size_t j = RC.p2c[k+1][i];\n						// finite bar','const auto& pc = RC.p2c[k+1]; const size_t j = pc[i];\n						// finite bar',1),
('R11','same',FB,'if (RC.R[k][i].nnz() == 0) {','if (!(RC.R[k][i].nnz() > 0)) {'),
('R11','same',FB,'for (size_t i =0; i < dim(k); i++) {','const size_t nk = dim(k); for (size_t i =0; i != nk; ++i) {',1),
('R11','same',FB,'if (RC.R[k][i].nnz() == 0) {','if (RC.R[k][i].nnz() != 0) { continue; } else {'),
('R11','same',FB,'auto& p = pairs[i];\n			inds[2*i] = p.birth_ind;\n			inds[2*i + 1] = p.death_ind;','const auto& p = pairs[i];\n			inds[2*i + 1] = p.death_ind;\n			inds[2*i] = p.birth_ind;'),
('R11','same',FB,'auto v = RC.U[p.dim][p.birth_ind];\n		if (!permuted) {','if (permuted) return RC.U[p.dim][p.birth_ind];\n		auto v = RC.U[p.dim][0];\n		{'),
('R11','same',FB,'''		std::vector<PersistencePair<T>> pairs;
		pairs.reserve(RC.R[k].ncol());
		if (permuted) {''','''		std::vector<PersistencePair<T>> pairs;
		pairs.reserve(RC.R[k].ncol());
		if (RC.R.size() > 0) {
			for (size_t i =0; i < dim(k); i++) {
				if (RC.R[k][i].nnz() != 0) continue;
				const size_t bi = permuted ? i : perm[k][i];
				const T birth = val[k][perm[k][i]];
				const bool last = (k == maxdim());
				if (last || RC.p2c[k+1][i] == bats::NO_IND) {
					pairs.emplace_back(PersistencePair<T>(k, bi, bats::NO_IND, birth, std::numeric_limits<T>::infinity()));
				} else {
					const size_t j = RC.p2c[k+1][i];
					const size_t jo = perm[k+1][j];
					pairs.push_back(PersistencePair<T>(k, bi, permuted ? j : jo, birth, val[k+1][jo]));
				}
			}
			return pairs;
		}
		if (permuted) {'''),
# DG
('R11','bug',FD,'size_t j = RC.R[k+1][i].lastnz().ind;','size_t j = RC.R[k+1][i].nzbegin()->ind;'),
('R11','bug',FD,'size_t j = RC.p2c[k][i];','size_t j = RC.p2c[k+1][i];'),
('R11','bug',FD,'val[k+1][perm[k+1][j]] // death in filtration is cohomology birth','val[k+1][j] // death'),
('R11','bug',FD,'for (size_t i = 0; i < dim(k); ++i) {','for (size_t i = 0; i + 1 < dim(k); ++i) {'),
('R11','bug',FD,'if (RC.R[k+1][i].nnz() > 0) {','if (RC.R[k+1][i].nnz() > 1) {'),
('R11','bug',FD,'if (j == bats::NO_IND) {','if (j != bats::NO_IND) {'),
('R11','bug',FD,'if (k == maxdim() || RC.p2c[k+1][i] == bats::NO_IND)','if (k + 1 == maxdim() || RC.p2c[k+1][i] == bats::NO_IND)'),
('R11','bug',FD,'bd[2*i + 1] = p.death;','bd[2*i + 1] = p.birth;'),
('R11','bug',FD,'return permuted ? i : perm[d][i];','return permuted ? perm[d][i] : i;'),
('R11','bug',FD,'auto crit_ind = [&](size_t d, size_t i) { return permuted ? i : perm[d][i]; };','auto crit_ind = [&](size_t d, size_t i) { return permuted ? i : perm[k][i]; };'),
('R11','same',FD,'size_t j = RC.R[k+1][i].lastnz().ind;','const auto& colk = RC.R[k+1][i]; size_t j = colk.lastnz().ind;'),
# barcode
('R11','bug',BC,'return birth == other.birth && death == other.death && dim == other.dim;','return birth == other.birth && death == other.death;'),
('R11','bug',BC,'return birth != other.birth || death != other.death || dim != other.dim;','return birth != other.birth || death != other.death;'),
('R11','bug',BC,'return birth != other.birth || death != other.death || dim != other.dim;','return birth != other.birth && death != other.death;'),
('R11','bug',BC,'return birth == other.birth && death == other.death && dim == other.dim;','return birth == other.birth && death == other.death && dim == other.dim && birth_ind == other.birth_ind;'),
('R11','bug',BC,'return death - birth;','return birth - death;'),
('R11','bug',BC,'(death + birth) / T(2)','(death - birth) / T(2)'),
('R11','bug',BC,'inline size_t get_death_ind() const {return death_ind;}','inline size_t get_death_ind() const {return birth_ind;}'),
('R11','bug',BC,'if (ps1[i] == ps2[j] && !matched[j]){','if (ps1[i] == ps2[j]){'),
('R11','bug',BC,'matched[j] = true;\n				break;','matched[j] = true;'),
('R11','bug',BC,'matched[j] = true;','matched[i] = true;'),
('R11','bug',BC,'''	if (ps1.size() != ps2.size()) {
		return false;
	}''',''),
('R11','bug',BC,'death_ind(death_ind), birth(birth), death(death)','death_ind(death_ind), birth(death), death(birth)'),
('R11','same',BC,'return birth != other.birth || death != other.death || dim != other.dim;','return !(*this == other);'),
('R11','same',BC,'if (ps1[i] == ps2[j] && !matched[j]){','if (!matched[j] && ps1[i] == ps2[j]){'),
('R11','same',BC,'return birth == other.birth && death == other.death && dim == other.dim;','return dim == other.dim && birth == other.birth && death == other.death;'),
('R11','same',BC,'''		if (!found_match) {
			return false; // no match for ps1[i]
		}''','''		if (found_match) continue;
		return false;'''),
# extract
('R11','bug',EX,'valsk[i], valsk1[j]','valsk[i], valsk1[i]'),
('R11','bug',EX,'k, i, bats::NO_IND,','k, i, i,'),
('R11','bug',EX,'if (R[i].nnz() == 0) {','if (R[i].nnz() == 0 || p2c[i] != bats::NO_IND) {'),
('R11','same',EX,'size_t j = p2c[i];','const size_t j = p2c[i];'),
# union find
('R11','bug',UF,'parent[i] = root;\n        i = p;','parent[p] = i;\n        i = p;'),
('R11','bug',UF,'while (parent[root] != root) {','if (parent[root] != root) {'),
('R11','bug',UF,'if (bi < bj) {','if (bi > bj) {'),
('R11','bug',UF,'if (bi < bj) {','if (i < j) {'),
('R11','bug',UF,'if (pi == pj) { continue; }','if (i == j) { continue; }'),
('R11','bug',UF,'parent[pj] = pi;\n','\n'),
('R11','bug',UF,'parent[pi] = pj;\n','parent[pi] = j;\n'),
('R11','bug',UF,'if (nfinite == N - 1) { break; }','if (nfinite == N - 2) { break; }'),
('R11','bug',UF,'nfinite++;\n','nfinite += 2;\n'),
('R11','bug',UF,'if (pi == pj) { continue; }','if (pi == pj) { break; }'),
('R11','bug',UF,'pairs[pj].death_ind = k;\n			pairs[pj].death = vals[ei];','pairs[pj].death_ind = k;\n			pairs[pj].death = vals[k];'),
('R11','bug',UF,'pairs[pi].death_ind = k;\n			pairs[pi].death = vals[ei];','pairs[pj].death_ind = k;\n			pairs[pj].death = vals[ei];'),
('R11','bug',UF,'pairs[pi].death_ind = perm[1][k];','pairs[pi].death_ind = k;'),
('R11','bug',UF,'vals[0][perm[0][k]]','vals[0][k]'),
('R11','bug',UF,'pairs[pj].death = vals[1][perm[1][k]];','pairs[pj].death = vals[1][k];'),
('R11','bug',UF,'size_t j = nzit->ind;','size_t j = B[k].nzbegin()->ind;'),
('R11','bug',UF,'auto ei = inds[k];','auto ei = k;'),
('R11','bug',UF,'parent[pj] = pi;\n			parent[j] = pi;','parent[j] = pi;',1),
('R11','same',UF,'T bi = pairs[pi].birth;\n		T bj = pairs[pj].birth;\n		if (bi < bj) {','if (pairs[pi].birth < pairs[pj].birth) {'),
('R11','same',UF,'parent[pj] = pi;\n			parent[j] = pi;','parent[pj] = pi;'),
('R11','same',UF,'if (bi < bj) {','if (bi <= bj) {'),
('R11','same',UF,'if (nfinite == N - 1) { break; }','if (nfinite + 1 == N) { break; }'),
('R11','same',UF,'if (nfinite == N - 1) { break; }',''),
('R11','same',UF,'if (rank[pj] < rank[pi]) {','if (!(rank[pj] >= rank[pi])) {'),
('R11','same',UF,'''		if (bi < bj) {
			// component with j merges into component with i
			// kill bar at pj
			pairs[pj].death_ind = perm[1][k];
			pairs[pj].death = vals[1][perm[1][k]];

			// merge components
			parent[pj] = pi;
			parent[j] = pi;
		} else {''','''		if (bi < bj) { std::swap(pi, pj); }
		{'''),
]
M+=[
('R11','bug',UF,'T bi = pairs[pi].birth;','float bi = pairs[pi].birth;'),
('R11','bug',UF,'T bi = pairs[pi].birth;','auto bi = (float) pairs[pi].birth;'),
('R11','bug','include/topology/metric.hpp','T diff = x(i) - y(i);','float diff = x(i) - y(i);'),
]
