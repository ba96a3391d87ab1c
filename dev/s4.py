S=[
dict(id='cube-sign-degenerate', property='R08', edits=[('include/complex/cubical_complex.hpp','if (s[k] == s[k+1]) { continue; } // degenerate\n\t\t\t\t// else, we have two faces\n\t\t\t\t__face[k]','if (s[k] == s[k+1]) { c = -c; continue; } // degenerate\n\t\t\t\t// else, we have two faces\n\t\t\t\t__face[k]')],
 needs='a cube with a degenerate interval before a non-degenerate one, in a complex of dimension 3 or more',
 breaks='the sign of the faces follows the axis number instead of the number of non-degenerate intervals: the boundary of the boundary is no longer zero',
 demo='''
using namespace bats;
int main() {
	CubicalComplex X(3);
	X.add_recursive(std::vector<size_t>{0,1, 0,1, 0,1});
	std::vector<CSCMatrix<int, size_t>> B;
	using V = SparseVector<ModP<int, 5>, size_t>; using M = ColumnMatrix<V>;
	for (size_t k = 2; k <= 3; ++k) {
		M a(X.boundary_csc(k-1)), b(X.boundary_csc(k));
		M ab = a * b;
		for (size_t j = 0; j < ab.ncol(); ++j) REQUIRE(ab[j].nnz() == 0);
	}
	CubicalComplex Y(3);   // cells added one by one
	std::vector<std::vector<size_t>> q;
	for (size_t d = 0; d <= 3; ++d) for (auto c : X.get_cubes(d)) q.push_back(c);
	for (auto &c : q) REQUIRE(Y.add(c).ind != bats::NO_IND);
	for (size_t k = 2; k <= 3; ++k) {
		M a(Y.boundary_csc(k-1)), b(Y.boundary_csc(k));
		M ab = a * b;
		for (size_t j = 0; j < ab.ncol(); ++j) REQUIRE(ab[j].nnz() == 0);
	}
	std::cout << "ok" << std::endl;
}
'''),
dict(id='refused-simplex-keeps-count', property='R08', edits=[('include/complex/simplicial_complex.hpp',"					_ncells[dim]--; // we don't add the cell\n","					if (k == 0) { _ncells[dim]--; } // we don't add the cell\n")],
 needs='a refused simplex whose first face is present and a later one is missing, followed by more simplices of that dimension',
 breaks='the refused simplex stays in the cell count: the next simplex gets the wrong index and the boundary matrix is out of step',
 demo='''
using namespace bats;
int main() {
	SimplicialComplex X;
	for (size_t i = 0; i < 4; ++i) X.add({i});
	X.add({0,1}); X.add({0,2}); X.add({1,3}); X.add({0,3});
	REQUIRE(X.add({0,1,2}).ind == bats::NO_IND);    // {1,2} is missing
	REQUIRE(X.ncells(2) == 0);
	auto ci = X.add({0,1,3});
	REQUIRE(ci.ind == 0);
	REQUIRE(X.ncells(2) == 1);
	REQUIRE(X.find_idx({0,1,3}) == 0);
	std::cout << "ok" << std::endl;
}
'''),
]
