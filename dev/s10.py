head='#include <bats.hpp>\n#include <iostream>\n#include <cstdlib>\n#define REQUIRE(c) do { if (!(c)) { std::cout << "failed: " #c << std::endl; std::exit(1); } } while (0)\nusing namespace bats;\n'
B='include/homology/basis.hpp'
I='include/homology/induced_map.hpp'
D='include/homology/dgbasis.hpp'
S=[
dict(id='representative-skips-entries',property='R16',head=head,demo='''
using F = ModP<int, 5>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
int main() {
	SimplicialComplex X;
	for (size_t i = 0; i < 5; ++i) X.add({i});
	for (size_t i = 1; i < 5; ++i) X.add({0, i});
	ChainComplex<M> C(X);
	ReducedChainComplex<M> R(C);
	// every vertex is homologous to the first one: 1*v1 + 2*v2 + 3*v3 + 3*v4 = 9 * v0 = 4 * v0
	V y(std::vector<size_t>{1, 2, 3, 4}, std::vector<F>{F(1), F(2), F(3), F(3)});
	auto r = R.chain_preferred_representative(y, 0);
	REQUIRE(r.nnz() == 1);
	REQUIRE(r.nzbegin()->ind == R.get_preferred_representative(0, 0).nzbegin()->ind);
	REQUIRE(r.nzbegin()->val == F(4) * R.get_preferred_representative(0, 0).nzbegin()->val);
	std::cout << "ok" << std::endl;
}
''',edits=[(B,"				yit = y.upper_bound(j-1);","				yit = y.upper_bound(bdri.nzbegin()->ind);")],
 needs='a chain with an entry between the removed pivot and the lowest entry of the boundary that removes it',breaks='entries between are never visited, the chain returned is not the preferred representative'),
dict(id='dg-clearing-bottom-helper',property='R16',head=head,demo='''
using F = ModP<int, 3>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
int main() {
	SimplicialComplex X;
	X.add_recursive({0, 1, 2, 3}); X.add_recursive({0, 1, 4}); X.add_recursive({2, 4}); X.add_recursive({5, 6});
	for (int deg : {-1, 1}) {
		DGVectorSpace<M> C(X, deg);
		ReducedDGVectorSpace<M> R(C), Q(C, standard_reduction_flag(), compression_flag());
		for (size_t k = 0; k <= R.maxdim(); ++k) REQUIRE(R.hdim(k) == Q.hdim(k));
	}
	std::cout << "ok" << std::endl;
}
''',edits=[(D,("				p2c[k] = reduce_matrix_compression(R[k], comp_inds, algflag());\n				comp_inds = get_compression_inds(R[k]);\n			}\n		} else { // degree == +1\n			// do top",0),"				p2c[k] = reduce_matrix_compression(R[k], comp_inds, algflag());\n			}\n		} else { // degree == +1\n			// do top")],
 needs='compression of a DG complex of degree -1 with cells in dimension 2 or more',breaks='dimension 2 and up are compressed with the list of dimension 0'),
dict(id='induced-map-last-dimension',property='R16',head=head,demo='''
using F = ModP<int, 3>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
int main() {
	// two edges, collapsed onto one path of three vertices
	SimplicialComplex X, Y;
	X.add_recursive({0, 1}); X.add_recursive({2, 3});
	Y.add_recursive({0, 1}); Y.add_recursive({1, 2}); Y.add_recursive({2, 3});
	auto f = SimplicialMap(X, Y, std::vector<size_t>{0, 1, 2, 3});
	DGVectorSpace<M> C(X, -1), E(Y, -1);
	ReducedDGVectorSpace<M> RC(C), RE(E);
	DGLinearMap<M> G(f, -1);
	auto h = induced_map(G, RC, RE, 0);
	REQUIRE(h.nrow() == 1 && h.ncol() == 2);
	REQUIRE(h[0].nnz() == 1);
	REQUIRE(h[1].nnz() == 1);
	std::cout << "ok" << std::endl;
}
''',edits=[(I,"		D.find_preferred_representative(y, k);\n		// extract indices\n		col.emplace_back(y[D.I[k+dg_offset]]);","		if (k > 0) { D.find_preferred_representative(y, k); }\n		// extract indices\n		col.emplace_back(y[D.I[k+dg_offset]]);")],
 needs='an induced map in dimension 0 of DG complexes of degree -1 whose image needs boundaries to be removed',breaks='the class of the image in dimension 0 is read off without removing boundaries'),
]
