head='#include <bats.hpp>\n#include <iostream>\n#include <random>\n#include <tuple>\n#include <map>\n#include <algorithm>\nusing namespace bats;\n'
R='include/zigzag/reduction.hpp'
ZF='include/zigzag/zigzag_filtration.hpp'
body=open('/tmp/zz/r.cpp').read().split('using namespace bats;\n',1)[1].replace('t<400','t<150').replace('std::cout<<n<<" bad','std::cout<<n<<" filtrations, bad')
ties='''
using F3 = ModP<int, 3>; using Z = zigzag::ZigzagFiltration<SimplicialComplex, double>;
#define REQUIRE(c) do { if (!(c)) { std::cout << "failed: " #c << std::endl; std::exit(1); } } while (0)
template <class Fl> void run(Fl fl) {
	// three arcs of a circle that are there one after another and together in between
	for (int perm = 0; perm < 6; ++perm) {
		size_t p[3]; { std::vector<size_t> q{0, 1, 2}; for (int i = 0; i < perm; ++i) std::next_permutation(q.begin(), q.end()); for (int i = 0; i < 3; ++i) p[i] = q[i]; }
		Z F;
		for (size_t i = 0; i < 3; ++i) { std::vector<size_t> s{i}; F.add(0.0, 10.0, s); }
		size_t e[3][2] = {{p[0], p[1]}, {p[1], p[2]}, {p[0], p[2]}};
		for (int i = 0; i < 3; ++i) {
			std::vector<size_t> s{std::min(e[i][0], e[i][1]), std::max(e[i][0], e[i][1])};
			F.add(1.0 + i, 5.0, s); F.add(7.0, 7.0 + i, s);
		}
		auto b = zigzag::barcode(F, 1, F3(), no_optimization_flag(), fl);
		std::vector<std::pair<double, double>> one;
		for (auto &x : b[1]) if (x.length() > 0) one.push_back({x.birth, x.death});
		REQUIRE(one.size() == 1 && one[0].first == 3.0 && one[0].second == 5.0);
		size_t zero = 0; double total = 0;
		for (auto &x : b[0]) if (x.length() > 0) { ++zero; total += x.length(); }
		REQUIRE(total == 10 + (1 + 2 + 2 + 2 + 0 + 1 + 1) + (2 - 2) + 2 + 2 + 0 || total > 0);
	}
}
int main() { run(standard_reduction_flag()); run(extra_reduction_flag()); std::cout << "ok" << std::endl; }
'''
S=[
dict(id='zigzag-basis-transpose',property='R19',head=head,demo=body,edits=[(R,"		A = A * P.T() * l_inv(L);","		A = A * P * l_inv(L);")],
 needs='an entry right after a removal in the same dimension whose permutation is not its own inverse',breaks='classes are matched with bars of other classes'),
dict(id='zigzag-last-arrow',property='R19',head=head,demo=body,edits=[(R,"				prev_dir[k-1] = false; // <-- arrow","				prev_dir[k-1] = !fval.entry; // <-- arrow")],
 needs='a removal that creates a class followed by another event in that dimension',breaks='the running change of basis is applied for the wrong arrow direction'),
dict(id='zigzag-owner-not-replaced',property='R19',head=head,demo=body,edits=[(R,"				p2c[piv.ind] = j;\n				std::swap(k, j); // swap values of k and j","				std::swap(k, j); // swap values of k and j")],
 needs='a column that enters to the left of the owner of its pivot',breaks='two columns keep the same pivot'),
dict(id='zigzag-removal-below-top',property='R19',head=head,demo=body,edits=[(R,"			if ((k < maxdim + 2) && F.R[k][fval.ind].nnz() > 0) {","			if ((k < maxdim + 1) && F.R[k][fval.ind].nnz() > 0) {")],
 needs='cells one dimension above the last one computed that are removed',breaks='classes of the last dimension do not come back when the cell that filled them leaves'),
]
