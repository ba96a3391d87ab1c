head='#include <bats.hpp>\n#include <iostream>\n#include <cstdlib>\n#define REQUIRE(c) do { if (!(c)) { std::cout << "failed: " #c << std::endl; std::exit(1); } } while (0)\nusing namespace bats;\n'
C='include/chain/chain_complex.hpp'
CM='include/chain/chain_map.hpp'
Z='include/topology/eilenberg_zilber.hpp'
S=[
dict(id='tensor-second-factor-range',property='R17',head=head,demo='''
using F = ModP<int, 3>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
int main() {
	SimplicialComplex X, Y;
	X.add_recursive({0, 1}); X.add_recursive({0, 2}); X.add_recursive({1, 2});      // a circle
	Y.add_recursive({0, 1, 2}); Y.add_recursive({0, 1, 3}); Y.add_recursive({0, 2, 3}); Y.add_recursive({1, 2, 3});   // a sphere
	ChainComplex<M> A(X), B(Y);
	for (int swap : {0, 1}) {
		auto T = swap ? tensor_product(B, A, 3) : tensor_product(A, B, 3);
		for (size_t n = 0; n <= 3; ++n) {
			size_t d = 0;
			for (size_t p = 0; p <= n; ++p) if (p <= 1 && n - p <= 2) d += A.dim(p) * B.dim(n - p);
			REQUIRE(T.dim(n) == d);
		}
		ReducedChainComplex<M> R(T);
		REQUIRE(R.hdim(0) == 1); REQUIRE(R.hdim(1) == 1); REQUIRE(R.hdim(2) == 1); REQUIRE(R.hdim(3) == 1);
	}
	std::cout << "ok" << std::endl;
}
''',edits=[(C,"				if (Adim > A.maxdim() || Bdim > B.maxdim()) {continue;}","				if (std::max(Adim, Bdim) > A.maxdim()) {continue;}")],
 needs='two factors of different dimension, the first one lower',breaks='cells of the second factor above the dimension of the first are left out of the tensor product'),
dict(id='kron-index-block-size',property='R17',head=head,demo='''
int main() {
	SimplicialComplex X, Y, A, B;
	X.add_recursive({0, 1}); X.add_recursive({1, 2}); X.add_recursive({2, 3});   // 4 vertices, 3 edges
	Y.add_recursive({0, 1}); Y.add_recursive({1, 2});                            // 3 vertices, 2 edges
	A.add_recursive({0, 1});
	B.add_recursive({1});
	auto ai = X.get_indices(A); auto bi = Y.get_indices(B);
	auto I = kron_index(X, ai, Y, bi, 2);
	// degree 1: vertex x edge block (4*2), then edge x vertex block (3*3)
	std::vector<std::vector<size_t>> want(3);
	auto in = [](const std::vector<size_t> &v, size_t i) { return std::find(v.begin(), v.end(), i) != v.end(); };
	for (size_t n = 0; n <= 2; ++n) {
		size_t shift = 0;
		for (size_t p = 0; p <= n; ++p) {
			size_t q = n - p;
			if (p > 1 || q > 1) continue;
			for (size_t a = 0; a < X.ncells(p); ++a) for (size_t b = 0; b < Y.ncells(q); ++b)
				if (in(ai[p], a) || in(bi[q], b)) want[n].push_back(shift + a * Y.ncells(q) + b);
			shift += X.ncells(p) * Y.ncells(q);
		}
	}
	for (size_t n = 0; n <= 2; ++n) REQUIRE(I[n] == want[n]);
	std::cout << "ok" << std::endl;
}
''',edits=[(Z,"			for (auto iA : bats::util::sorted_complement(Ainds[dX], X.ncells(dX))) {\n				for (auto iB : Binds[dY]) {\n					ABinds[dim].emplace_back(iA * Y.ncells(dY) + iB + shift);","			for (auto iA : bats::util::sorted_complement(Ainds[dX], X.ncells(dX))) {\n				for (auto iB : Binds[dY]) {\n					ABinds[dim].emplace_back(iA * X.ncells(dY) + iB + shift);")],
 needs='a relative product of two complexes with different cell counts and a nonempty B',breaks='cells outside A paired with cells of B are listed at the wrong index'),
dict(id='relative-map-target-size',property='R17',head=head,demo='''
using F = ModP<int, 3>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
int main() {
	SimplicialComplex X, Y, A, B;
	X.add_recursive({0, 1});
	Y.add_recursive({0, 1}); Y.add_recursive({1, 2}); Y.add_recursive({2, 3});
	A.add({0}); B.add({0});
	auto f = SimplicialMap(X, Y, std::vector<size_t>{0, 1});
	for (size_t swap : {0, 1}) {
		(void) swap;
		ChainMap<M> G(f, X, A, Y, B);
		ChainComplex<M> CX(X, A), CY(Y, B);
		REQUIRE(G[0].nrow() == CY.dim(0)); REQUIRE(G[0].ncol() == CX.dim(0));
		REQUIRE(G[1].nrow() == CY.dim(1)); REQUIRE(G[1].ncol() == CX.dim(1));
	}
	std::cout << "ok" << std::endl;
}
''',edits=[(CM,"                bats::util::sorted_complement(Yinds, Y.ncells(k)),","                bats::util::sorted_complement(Yinds, X.ncells(k)),")],
 needs='a relative map between complexes with different numbers of cells',breaks='rows of the target beyond the cell count of the source are lost'),
]
