#include <bats.hpp>
#include <iostream>
#include <cstdlib>
#include <random>
#include <set>
#include <map>
#define REQUIRE(c) do { if (!(c)) { std::cout << "failed: " #c << std::endl; std::exit(1); } } while (0)
using namespace bats;
using F2 = ModP<int, 2>; using F3 = ModP<int, 3>;
// a random filtration on at most nv vertices, up to dimension 2
Filtration<double, SimplicialComplex> draw(std::mt19937 &g, size_t nv, double keep) {
	std::uniform_real_distribution<double> U(0, 1);
	SimplicialComplex X;
	std::vector<std::vector<double>> val(3);
	std::map<std::vector<size_t>, double> at;
	std::vector<std::vector<size_t>> E;
	for (size_t i = 0; i < nv; ++i) { X.add({i}); double v = U(g) * 0.3; val[0].push_back(v); at[{i}] = v; }
	for (size_t i = 0; i < nv; ++i) for (size_t j = i + 1; j < nv; ++j) E.push_back({i, j});
	std::shuffle(E.begin(), E.end(), g);
	for (auto &e : E) if (U(g) < keep) { X.add(e); double v = 0.3 + U(g) * 0.5; val[1].push_back(v); at[e] = v; }
	std::vector<std::vector<size_t>> T;
	for (size_t i = 0; i < nv; ++i) for (size_t j = i + 1; j < nv; ++j) for (size_t k = j + 1; k < nv; ++k)
		if (at.count({i, j}) && at.count({i, k}) && at.count({j, k})) T.push_back({i, j, k});
	std::shuffle(T.begin(), T.end(), g);
	for (auto &t : T) if (U(g) < 0.8) { X.add(t); val[2].push_back(0.8 + U(g) * 0.2); }
	if (val[1].empty()) { X.add({0, 1}); val[1].push_back(0.5); }
	if (val[2].empty()) {
		for (std::vector<size_t> e : {std::vector<size_t>{0, 1}, {0, 2}, {1, 2}}) if (X.find_idx(e) == bats::NO_IND) { X.add(e); val[1].push_back(0.6); }
		X.add({0, 1, 2}); val[2].push_back(0.9);
	}
	return Filtration<double, SimplicialComplex>(X, val);
}
template <class R> std::multiset<std::tuple<size_t, double, double>> bars(R &r, size_t md) {
	std::multiset<std::tuple<size_t, double, double>> s;
	for (size_t k = 0; k <= md; ++k) for (auto &p : r.persistence_pairs(k)) s.insert({k, p.birth, p.death});
	return s;
}
template <class F> void general(std::mt19937 &g, int deg) {
	using M = ColumnMatrix<SparseVector<F>>;
	for (int it = 0; it < 60; ++it) {
		auto A = draw(g, 5 + it % 2, 0.7), B = draw(g, 5 + (it / 2) % 2, 0.7);
		auto C = FilteredDGVectorSpace<double, M>(A, deg);
		auto R = ReducedFilteredDGVectorSpace(C);
		auto u = Update_info(A, B);
		u.filtered_info(R.perm, deg);
		R.update_filtration_general(u, standard_reduction_flag());
		auto C2 = FilteredDGVectorSpace<double, M>(B, deg);
		auto R2 = ReducedFilteredDGVectorSpace(C2);
		if (bars(R, 2) != bars(R2, 2)) { std::cout << "general deg " << deg << " it " << it << std::endl; std::exit(1); }
	}
}
template <class F> void basis(std::mt19937 &g, int deg) {
	using M = ColumnMatrix<SparseVector<F>>;
	for (int it = 0; it < 60; ++it) {
		auto A = draw(g, 5 + it % 2, 0.7), B = draw(g, 5 + (it / 2) % 2, 0.7);
		auto C = FilteredDGVectorSpace<double, M>(A, deg);
		auto R = ReducedFilteredDGVectorSpace(C, standard_reduction_flag(), compute_basis_flag());
		UpdateInfo2 u(A, B);
		R.update_basis(u);
		auto C2 = FilteredDGVectorSpace<double, M>(B, deg);
		auto R2 = ReducedFilteredDGVectorSpace(C2);
		if (bars(R, 2) != bars(R2, 2)) { std::cout << "basis deg " << deg << " it " << it << std::endl; std::exit(1); }
	}
}
int main() {
	std::mt19937 g(1);
	basis<F2>(g, -1); std::cout << "b-" << std::endl;
	basis<F2>(g, 1); basis<F3>(g, -1); basis<F3>(g, 1); std::cout << "b+" << std::endl;
	general<F2>(g, -1); std::cout << "g-" << std::endl;
	general<F2>(g, 1); std::cout << "g+" << std::endl;
	std::cout << "ok" << std::endl;
}
