S=[
dict(id='lower-star-first-pixels', property='R09', edits=[('include/filtration/extension.hpp', '                val = (tmp > val) ? tmp : val;', '                val = (tmp > val && c[i] + 1 < f0.size()) ? tmp : val;')], needs='a three-dimensional image whose maximum over a cube lies in the last slice', breaks='cubes at the far side of the image enter the lower star filtration too early', demo='''
using namespace bats;
int main() {
	std::vector<std::vector<std::vector<double>>> f(3, std::vector<std::vector<double>>(2, std::vector<double>(2, 0.0)));
	f[2][1][1] = 5.0; f[1][0][0] = 1.0;
	REQUIRE(max_cube_val(std::vector<size_t>{0, 1, 0, 1, 0, 1}, f) == 1.0);
	REQUIRE(max_cube_val(std::vector<size_t>{1, 2, 0, 1, 0, 1}, f) == 5.0);
	std::cout << "ok" << std::endl;
}
'''),
dict(id='representative-order', property='R11', edits=[('include/persistence/filtered_basis.hpp', '\t\t\tv = RC.U[p.dim][it - perm[p.dim].begin()];\n\t\t\tv.permute(perm[p.dim]); // undo permutation', '\t\t\tv = RC.U[p.dim][it - perm[p.dim].begin()];\n\t\t\tv.permute(bats::util::inv_perm(perm[p.dim])); // undo permutation')], needs='a filtration whose sorting permutation is not an involution, and a representative asked for in original order', breaks='representative() names the wrong cells', demo='''
using namespace bats;
int main() {
	SimplicialComplex X;
	for (size_t i = 0; i < 4; i++) X.add({i});
	X.add({0, 1}); X.add({1, 2}); X.add({2, 3}); X.add({0, 3}); X.add({0, 2});
	std::vector<std::vector<double>> val{{0, 0, 0, 0}, {3, 4, 1, 5, 2}};
	Filtration<double, SimplicialComplex> F(X, val);
	using MT = ColumnMatrix<SparseVector<ModP<int, 2>, size_t>>;
	FilteredChainComplex<double, MT> C(F);
	auto R = Reduce(C);
	ChainComplex<MT> D(X);
	size_t n = 0;
	for (auto &p : R.persistence_pairs(1)) {
		auto v = R.representative(p);
		REQUIRE((D[1] * v).nnz() == 0); // a cycle of the complex in original order
		bool has = false; // that contains its birth edge
		for (auto it = v.nzbegin(); it != v.nzend(); ++it) has = has || it->ind == p.birth_ind;
		REQUIRE(has);
		n++;
	}
	REQUIRE(n == 2);
	std::cout << "ok" << std::endl;
}
'''),
dict(id='rips-zero-death', property='R11', edits=[('include/persistence/union_find.hpp', '\t\t\t// kill bar at pj\n\t\t\tpairs[pj].death_ind = k;\n\t\t\tpairs[pj].death = vals[ei];', '\t\t\t// kill bar at pj\n\t\t\tpairs[pj].death_ind = k;\n\t\t\tpairs[pj].death = vals[k];')], needs='distances that are not already sorted, and a merge in which the second component has the smaller rank', breaks='some bars of the union-find Rips barcode end at the wrong distance', demo='''
#include <algorithm>
using namespace bats;
int main() {
	// 4 points: distances of pairs (0,1),(0,2),(0,3),(1,2),(1,3),(2,3)
	std::vector<double> vals{6, 1, 5, 4, 2, 3};
	std::vector<std::vector<size_t>> orders{bats::util::sortperm(vals)};
	std::vector<double> v2{1, 2, 6, 5, 4, 3};
	auto a = rips_union_find_pairs(bats::util::sortperm(vals), vals);
	auto b = rips_union_find_pairs(bats::util::sortperm(v2), v2);
	std::vector<double> da, db;
	for (auto &p : a) da.push_back(p.death);
	for (auto &p : b) db.push_back(p.death);
	std::sort(da.begin(), da.end()); std::sort(db.begin(), db.end());
	REQUIRE(da[0] == 1 && da[1] == 2 && da[2] == 3);
	REQUIRE(db[0] == 1 && db[1] == 2 && db[2] == 3);
	std::cout << "ok" << std::endl;
}
'''),
dict(id='union-add-original-index', property='R09', edits=[('include/filtration/filtration.hpp', 'val[dim][ci.ind] = F2.val[dim][i];', 'val[dim][i] = F2.val[dim][i];')], needs='two filtrations whose cells come in a different order, merged with union_add', breaks='cells of the union carry the value of another cell', demo='''
using namespace bats;
int main() {
	Filtration<double, SimplicialComplex> F(4, 2), G(4, 2);
	std::vector<size_t> a{0}, b{1}, c{2}, ab{0, 1}, bc{1, 2};
	F.add(1.0, a); F.add(2.0, b); F.add(3.0, c); F.add(4.0, ab);
	G.add(1.0, a); G.add(2.0, b); G.add(3.0, c); G.add(5.0, bc);
	F.union_add(G);
	auto v = F.vals(1);
	REQUIRE(F.complex().find_idx(ab) == 0 && F.complex().find_idx(bc) == 1);
	REQUIRE(v.size() == 2 && v[0] == 4.0 && v[1] == 5.0);
	std::cout << "ok" << std::endl;
}
'''),
dict(id='nerve-deep-intersection', property='R10', edits=[('include/topology/nerve.hpp', 'add_dimension_recursive_nerve(N, spxk, cover, intersectionk, dmax);', 'add_dimension_recursive_nerve(N, spxk, cover, intersection, dmax);')], needs='four cover sets with pairwise and triple intersections that do not all meet, and a nerve of dimension three', breaks='the nerve contains tetrahedra of sets with empty intersection', demo='''
using namespace bats;
int main() {
	// every three of the four sets meet, all four do not
	bats::Cover cover{{0, 1, 2}, {0, 1, 3}, {0, 2, 3}, {1, 2, 3}};
	auto N = Nerve(cover, 3);
	REQUIRE(N.ncells(0) == 4 && N.ncells(1) == 6 && N.ncells(2) == 4 && N.ncells(3) == 0);
	std::cout << "ok" << std::endl;
}
'''),
dict(id='inv-perm-twice', property='R14', edits=[('include/util/permutation.hpp', 'inline std::vector<size_t> inv_perm(const std::vector<size_t> &p) {', 'std::vector<size_t> inv_perm(const std::vector<size_t> &p) {')], needs='a program with two source files that both include bats.hpp', breaks='such a program does not link', flags='"$here/other.cc"', extra={'other.cc': '#include <bats.hpp>\nint other() { return 0; }\n'}, demo='''
int other();
int main() { return other(); }
'''),
]
