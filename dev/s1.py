S=[
dict(id='permute-sort-skips-zero-columns', property='R01', edits=[('include/homology/basis.hpp','''				R[k].swap_cols(p, j);
				p2c[k][j] = j;''','''				if (R[k][p].nnz() > 0) { R[k].swap_cols(p, j); } // a zero column needs no move
				p2c[k][j] = j;''')],
 needs='permute_basis with a permutation for which the update has to exchange a cycle column with a boundary column while sorting the columns of U',
 breaks='U is sorted but R is not, so B U = R fails after the permutation update',
 demo='''
using F = ModP<int, 3>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
int main() {
	srand(7);
	for (int trial = 0; trial < 40; ++trial) {
		bats::SimplicialComplex X;
		const size_t n = 5;
		for (size_t i = 0; i < n; ++i) { X.add_recursive({i}); }
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) for (size_t k = 0; k < j; ++k) { if (rand() % 2) { X.add_recursive({k, j, i}); } }
		bats::ChainComplex<M> C(X);
		bats::ReducedChainComplex<M> R(C);
		std::vector<std::vector<size_t>> perm(C.maxdim() + 1);
		for (size_t k = 0; k <= C.maxdim(); ++k) {
			for (size_t i = 0; i < C.dim(k); ++i) { perm[k].emplace_back(i); }
			for (size_t i = perm[k].size(); i > 1; --i) { std::swap(perm[k][i-1], perm[k][rand() % i]); }
		}
		C.ipermute_basis(perm); // both read perm as new position -> old position
		R.permute_basis(perm);
		for (size_t k = 1; k <= C.maxdim(); ++k) {
			REQUIRE(C.boundary[k] * R.U[k] == R.R[k]);
		}
	}
	return 0;
}
'''),
dict(id='dq-merge-forgets-columns', property='R02', edits=[('include/homology/parallel.hpp',('if (M[j].nnz() > 0) { nzcol1.emplace_back(j); }',0),'if (M[j].nnz() > 1) { nzcol1.emplace_back(j); }')], multi=1,
 needs='three levels of division (more than 2048 columns) and a column in the rightmost block with a single nonzero whose pivot is also a pivot far to the left',
 breaks='two columns of the reduced matrix keep the same pivot',
 demo='''
using F = ModP<int, 2>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
int main() {
	const size_t n = 4096;
	std::vector<V> cols(n);
	cols[0] = V({1}, {1});
	cols[3500] = V({1}, {1});
	M R(2, n, cols), U = M::identity(n);
	M B(R), R2(R);
	bats::reduce_matrix(R, U, bats::divide_conquer_flag());
	REQUIRE(B * U == R);
	size_t pivots = 0;
	for (size_t j = 0; j < n; ++j) { if (R[j].nnz() && R[j].lastnz().ind == 1) ++pivots; }
	REQUIRE(pivots == 1);
	return 0;
}
'''),
dict(id='rational-unit-denominator', property='R03', edits=[('include/linalg/field.hpp','''    n *= b.d;
    d *= b.n;
    reduce();''','''    n *= b.d;
    d *= b.n;
    if (d > 1 || d < -1) { reduce(); } // nothing to cancel otherwise''')],
 needs='in-place division of an integer valued rational by -1',
 breaks='the result keeps denominator -1, so it differs from the same number computed any other way',
 demo='''
int main() {
	Rational<int> a(3), b(-1);
	a /= b;
	REQUIRE(a == Rational<int>(-3));
	REQUIRE(Rational<int>(1, 2) < Rational<int>(5));
	REQUIRE(a < Rational<int>(0));
	return 0;
}
'''),
dict(id='swap-rows-unsorted', property='R04', edits=[('include/linalg/sparse_vector.hpp','''				pi->ind = j;
				sort();''','''				pi->ind = j;
				if (j < i) { sort(); }''')],
 needs='a row swap on a vector that holds row i but not row j > i and has an entry between them',
 breaks='the vector is left unsorted, later operations silently drop or duplicate entries',
 demo='''
using V = SparseVector<int, size_t>;
int main() {
	V v({1, 2, 3}, {1, 1, 1});
	v.swap_rows(2, 5);
	REQUIRE(v == V({1, 3, 5}, {1, 1, 1}));
	V w({1, 3}, {4, 5});
	w.swap_rows(1, 5);
	REQUIRE(w == V({3, 5}, {5, 4}));
	REQUIRE(w.getval(3) == 5);
	return 0;
}
'''),
]
