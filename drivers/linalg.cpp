// Instantiates sparse vectors, matrices, permutations and sorted-container
// helpers over a ring whose arithmetic is plain (int), for the linear algebra
// rules.  Never compiled to code, never run.
#include <bats.hpp>
#include <sstream>
using VI = SparseVector<int, size_t>;
using MI = ColumnMatrix<VI>;
using Q = Rational<int>;
using VQ = SparseVector<Q, size_t>;
using MQ = ColumnMatrix<VQ>;
using F3 = ModP<int, 3>;
using VF = SparseVector<F3, size_t>;

template class SparseVector<int, size_t>;
template class SparseVector<Q, size_t>;
template class CSCMatrix<int, size_t>;

void use_vec(VI &x, const VI &y, VI::tmp_type &tmp, std::map<int, size_t> &ct, const std::vector<size_t> &ind, const std::vector<int> &c) {
	x.axpy(2, y);
	x.axpy(2, y, tmp);
	x.axpy(2, y, 0, 5, tmp);
	x.axpy(y, c, ind, tmp);
	x.nnz_intersection(y);
	x.coeff_intersection(y, ct);
	bool b = x == y, d = x != y;
	VI z = x[ind];
	VF w = x.cast_values(F3());
	VF w2(x);
}
void use_sorted(const std::vector<size_t> &a, const std::vector<size_t> &b, std::vector<size_t> &c, std::set<size_t> &s, std::vector<int> &v, std::vector<int> &tv) {
	bats::util::intersect_sorted(a, b, c);
	bats::util::intersect_sorted(a, b, s);
	bats::util::has_intersect_sorted(a, b);
	bats::util::intersect_sorted_lt(a, b, size_t(3), c);
	bats::util::has_intersect_sorted_lt(a, b, size_t(3));
	bats::util::sort_into(a, c);
	bats::util::sort_sum_reduce(c, v, 0, c, c, tv);
	bats::util::find_sorted_lt(a.begin(), a.end(), size_t(2));
	bats::util::sorted_complement(a, 10);
}
void use_perm(std::vector<size_t> &a, std::vector<int> &x, const std::vector<size_t> &p) {
	bats::util::sortperm(a); bats::util::inv_perm(p);
	bats::util::apply_perm(x, p); bats::util::apply_perm_swap(x, p); bats::util::apply_iperm_swap(x, p);
	bats::util::partial_perm(p, 10);
	bats::identity_perm(10);
}
