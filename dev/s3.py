S=[
dict(id='dq-task-lost-columns', property='R06', edits=[('include/homology/parallel.hpp','shared(p2c, nzcol1) firstprivate','shared(p2c) firstprivate')],
 needs='a divide and conquer reduction deep enough to recurse twice (more than 512 columns): the list of nonzero columns is then filled in a private copy of the task',
 breaks='columns of the left quarter of the right half are never reduced against the left half: two columns keep the same pivot',
 demo='''
using F = ModP<int, 2>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
int main() {
	for (size_t n : {size_t(100), size_t(300), size_t(600), size_t(1100)}) {
		std::vector<V> cols;
		unsigned s = 7;
		for (size_t j = 0; j < n; ++j) {
			std::vector<size_t> ind; std::vector<F> val;
			for (size_t i = 0; i < n; ++i) { s = s * 1103515245u + 12345u; if ((s >> 16) % (n / 3) == 0) { ind.emplace_back(i); val.emplace_back(F(1)); } }
			cols.emplace_back(V(ind, val));
		}
		M A(n, n, cols);
		bats::reduce_matrix(A, bats::divide_conquer_flag());
		std::vector<int> used(n, 0);
		for (size_t j = 0; j < n; ++j) {
			if (A[j].nnz() == 0) continue;
			size_t p = A[j].lastnz().ind;
			REQUIRE(!used[p]);
			used[p] = 1;
		}
	}
	std::cout << "ok" << std::endl;
}
'''),
]
