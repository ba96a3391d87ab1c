head='#include <bats.hpp>\n#include <iostream>\n#include <set>\n#define REQUIRE(c) do { if (!(c)) { std::cout << "failed: " #c << std::endl; std::exit(1); } } while (0)\n'
C='include/linalg/col_matrix.hpp'
pre='''using namespace bats;
using F = ModP<int, 5>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
M mk(size_t m, std::vector<std::vector<int>> cols) {
	std::vector<V> c;
	for (auto &x : cols) {
		std::vector<size_t> ind; std::vector<F> val;
		for (size_t i = 0; i < m; ++i) if (x[i] % 5) { ind.emplace_back(i); val.emplace_back(x[i]); }
		c.emplace_back(ind, val);
	}
	return M(m, c.size(), c);
}
'''
S=[
dict(id='erase-every-row',property='R13',head=head,demo=pre+'''
int main() {
	for (size_t k = 0; k <= 3; ++k) {
		auto A = mk(3, {{1, 2, 3}, {0, 1, 0}, {0, 0, 4}});
		A.erase_rows(k);
		REQUIRE(A.nrow() == 3 - k);
		size_t left = 0;
		for (size_t j = 0; j < 3; ++j)
			for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) { REQUIRE(it->ind < 3 - k); ++left; }
		REQUIRE(left == A.nnz());
	}
	std::cout << "ok" << std::endl;
}
''',edits=[(C,"if (n_delete_rows < nrow()){","if (n_delete_rows <= nrow()){")],
 needs='erase_rows asked to erase every row of the matrix',breaks='nothing is erased: the matrix has no rows and keeps its entries'),
dict(id='schur-wide-matrix',property='R13',head=head,demo=pre+'''
int main() {
	std::srand(3);
	for (int rep = 0; rep < 200; ++rep) {
		size_t m = 1 + std::rand() % 6, n = 1 + std::rand() % 6;
		std::vector<std::vector<int>> c(n, std::vector<int>(m));
		for (auto &x : c) for (auto &y : x) y = std::rand() % 5;
		auto A = mk(m, c), B = A;
		size_t i = std::rand() % m, j = std::rand() % n;
		if (c[j][i] == 0) continue;
		A.schur_complement(i, j);
		for (size_t k = j + 1; k < n; ++k)
			for (size_t r = i + 1; r < m; ++r)
				REQUIRE(A(r, k) == B(r, k) - B(i, k) / B(i, j) * B(r, j));
	}
	std::cout << "ok" << std::endl;
}
''',edits=[(C,"col[j1].axpy(-c / a11, col[j], i+1, m, tmp);","col[j1].axpy(-c / a11, col[j], i+1, n, tmp);")],
 needs='a Schur complement in a matrix with more rows than columns and an entry below row n',breaks='rows from n on are not eliminated'),
dict(id='repeated-pivot-row',property='R13',head=head,demo=pre+'''
int main() {
	REQUIRE(mk(3, {{1, 0, 0}, {0, 0, 1}, {0, 0, 0}}).is_EL());
	REQUIRE(!mk(3, {{1, 0, 0}, {2, 0, 0}}).is_EL());
	REQUIRE(!mk(3, {{1, 1, 0}, {0, 0, 1}}).is_EL());
	REQUIRE(!mk(3, {{0, 0, 0}, {0, 0, 1}}).is_EL());
	std::cout << "ok" << std::endl;
}
''',edits=[(C,"ssize_t(st->ind) <= i) { return false; }","ssize_t(st->ind) < i) { return false; }")],
 needs='two columns whose only entry is in the same row',breaks='a matrix with a repeated pivot row passes as an echelon pivot matrix'),
]
