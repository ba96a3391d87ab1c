S=[
dict(id='cohomology-update-order', property='R05', edits=[('include/persistence/filtered_dgbasis.hpp','''		// if degree is +1, reverse
		if (RC.degree == +1) {
			// for cohomology reverse rows and columns
			for (auto& pi : perms) {
				std::reverse(pi.begin(), pi.end());
			}
		}

		// get inverse permutation for current permutation
		auto iperm = filtration_iperm(perm);
''','''		// get inverse permutation for current permutation
		auto iperm = filtration_iperm(perm);
'''),('include/persistence/filtered_dgbasis.hpp','''		// step 4: store new permutation
		perm = perms;
''','''		// step 4: store new permutation
		perm = perms;
		// if degree is +1, reverse
		if (RC.degree == +1) {
			// for cohomology reverse rows and columns
			for (auto& pi : perm) {
				std::reverse(pi.begin(), pi.end());
			}
		}
''')],
 needs='update_filtration on a reduced filtered DG vector space of degree +1; the stored order looks right, only the moved matrices are in increasing instead of decreasing order',
 breaks='columns of the differential are reduced in the wrong order, the barcode after the update is wrong',
 demo='''
using F = ModP<int, 2>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
int main() {
	bats::SimplicialComplex X;
	for (size_t i = 0; i < 4; ++i) X.add_recursive({i});
	X.add_recursive({0, 1, 2}); X.add_recursive({1, 2, 3}); X.add_recursive({0, 3});
	std::vector<double> f0{0, 1, 2, 3}, f1{3, 1, 0, 2};
	auto star = [&](const std::vector<double> &f) {
		std::vector<std::vector<double>> v(X.maxdim() + 1);
		for (size_t k = 0; k <= X.maxdim(); ++k) for (auto &s : X.get_simplices(k)) { double m = 0; for (auto x : s) m = std::max(m, f[x]); v[k].emplace_back(m); }
		return v;
	};
	auto vals0 = star(f0), vals1 = star(f1);
	bats::Filtration<double, bats::SimplicialComplex> F0(X, vals0), F1(X, vals1);
	bats::FilteredDGVectorSpace<double, M> C0(F0, +1), C1(F1, +1);
	bats::ReducedFilteredDGVectorSpace<double, M> R0(C0), R1(C1);
	R0.update_filtration(vals1);
	for (size_t k = 0; k < 2; ++k) {
		auto a = R0.persistence_pairs(k), b = R1.persistence_pairs(k);
		std::multiset<std::pair<double, double>> sa, sb;
		for (auto &p : a) if (p.birth != p.death) sa.insert({p.birth, p.death});
		for (auto &p : b) if (p.birth != p.death) sb.insert({p.birth, p.death});
		REQUIRE(sa == sb);
	}
	return 0;
}
''', head='#include <bats.hpp>\n#include <iostream>\n#include <set>\n#define REQUIRE(c) do { if (!(c)) { std::cout << "failed: " #c << std::endl; std::exit(1); } } while (0)\n'),
dict(id='perm-to-end-last', property='R05', edits=[('include/util/permutation.hpp','''            if(i != *it){
                v.emplace_back(i);
            }else{
                it++;
            }''','''            if(i != *it){
                v.emplace_back(i);
            }else{
                ++it;
                if (it != index_list.end() && *it == i + 1) { ++it; ++i; } // runs of deleted indices
            }''')],
 needs='two adjacent deleted indices followed by further indices: i is advanced past the second one, but three in a row are still fine, so only the pairing of the skip with the loop counter decides',
 breaks='nothing', demo='''int main(){return 0;}'''),
]
S=S[:1]
