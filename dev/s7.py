demo='''
#include <random>
using namespace bats;
using F = ModP<int, 5>; using V = SparseVector<F, size_t>; using M = ColumnMatrix<V>;
using Dg = Diagram<size_t, M>;
static std::mt19937 gen(7);
M rnd(size_t m, size_t n) {
	std::vector<V> c;
	for (size_t j = 0; j < n; ++j) {
		std::vector<size_t> ind; std::vector<F> val;
		for (size_t i = 0; i < m; ++i) { int x = gen() % 10; if (x > 0 && x < 5) { ind.emplace_back(i); val.emplace_back(x); } }
		c.emplace_back(ind, val);
	}
	return M(m, n, c);
}
int main() {
	omp_set_num_threads(8);
	for (int rep = 0; rep < 60; ++rep) {
		const size_t m = 24; // long enough for the halves to be divided again
		std::vector<size_t> d(m + 1);
		for (auto &x : d) x = 3 + gen() % 3;
		Dg D(m + 1, m);
		for (size_t k = 0; k <= m; ++k) D.set_node(k, d[k]);
		for (size_t k = 0; k < m; ++k) {
			if (gen() % 2) D.set_edge(k, k, k + 1, rnd(d[k + 1], d[k]));
			else D.set_edge(k, k + 1, k, rnd(d[k], d[k + 1]));
		}
		auto count = [](const std::vector<PersistencePair<size_t>> &ps) {
			std::multiset<std::pair<size_t, size_t>> s;
			for (auto &p : ps) s.insert({p.birth, p.death});
			return s;
		};
		auto a = count(barcode(D, 0, flags::divide_conquer())), b = count(barcode(D, 0, flags::rightward()));
		REQUIRE(a == b);
	}
	std::cout << "ok" << std::endl;
}
'''
head='#include <bats.hpp>\n#include <iostream>\n#include <set>\n#define REQUIRE(c) do { if (!(c)) { std::cout << "failed: " #c << std::endl; std::exit(1); } } while (0)\n'
Q='include/quiver/sparse.hpp'
S=[
dict(id='dq-pass-permutation',property='R12',head=head,demo=demo,edits=[(Q,"            // A = A * P^{-1} * L^{-1}\n            facts[i-1].E = facts[i-1].E * facts[i].P.T();","            // A = A * P * L\n            facts[i-1].E = facts[i-1].E * facts[i].P;")],
 needs='the divide-and-conquer barcode of a zigzag long enough that its halves are divided again, arrows of both directions, and a permutation that is not an involution',breaks='the permutation of a factorization reaches the neighbouring edge inverted; the barcode differs from the sequential one'),
dict(id='dq-dangling-factor',property='R12',head=head,demo=demo,edits=[(Q,"facts[j0] = is_left_arrow(dgm.elist[j0]) ? PLEU(facts[j0].L * facts[j0].E) : UELP(facts[j0].E * facts[j0].L);","facts[j0] = is_left_arrow(dgm.elist[j0]) ? PLEU(facts[j0].L * facts[j0].E) : UELP(facts[j0].E);")],
 needs='divide and conquer on a zigzag long enough that its right half is divided again, starting with a right arrow',breaks='the lower triangular factor left over at the start of the right half is lost'),
dict(id='commute-scaled-column',property='R12',head=head,demo=demo,edits=[('include/linalg/sparse_fact.hpp',"X","X")],needs='',breaks=''),
]
import sys
S=S[:2]
