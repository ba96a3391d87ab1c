// Instantiates polynomials, normal forms, factorizations, dense matrices, Morse
// pairings, zigzag pairs and the remaining members of the matrix classes.
// Never compiled to code, never run.
#include <bats.hpp>
#include <util/io.hpp>
#include <util/barcode.hpp>
#include <morse/pairing.hpp>
#include <linalg/schur.hpp>
#include <sstream>
using namespace bats;
using F3 = ModP<int, 3>;
using QT = Rational<int>;
using VT = SparseVector<F3, size_t>;
using MT = ColumnMatrix<VT>;
using PT = UnivariatePolynomial<F3>;
using PV = SparseVector<PT, size_t>;
using PM = ColumnMatrix<PV>;
using IV = SparseVector<int, size_t>;
using IM = ColumnMatrix<IV>;

template class UnivariatePolynomial<F3>;
template class UnivariatePolynomial<double>;
template class SetVector<F3, size_t>;
template class CSCMatrix<F3, size_t>;
template class CSCMatrix<int, size_t>;
template class MorsePairing<SimplicialComplex>;
template class bats::BarcodePair<double>;
template class bats::PersistencePair<double>;
template class bats::zigzag::ZigzagPair<double>;
template class bats::zigzag::rfilt_val<double>;
template struct SparseFact<VT>;
template struct SmithFact<IV>;
template struct nzpair<size_t, F3>;
template struct A<Dense<F3, ColMaj>>;
template struct A<Dense<F3, RowMaj>>;
template struct A<Dense<double, ColMaj>>;
template struct A<Dense<double, RowMaj>>;
template struct VectorView<double>;
template struct bats::DataSet<double>;
template struct bats::filtered_edge<double>;
template class bats::zigzag::ZigzagChainComplex<MT, double>;

void use_poly(PT &p, MT &M, PM &S, VT &v, IM &I, PM &Q) {
	p.gcd(p); p.companion_matrix(); p(M, v); p(F3(1)); characteristic_matrix(M);
	RCF_basis(S, M, M); generating_basis(S, M);
	smith_normal_form(I); smith_factorization(I); smith_rows(I);
	smith_normal_form(Q); smith_factorization(Q); smith_rows(Q);
	extended_euclidean(1, 2); extended_euclidean(p, p); sgn(3);
	std::ostringstream os; os << p; p.print();
}
template <typename M> void use_dense(M &a) {
	a.print(); a.str(); a.copy();
}
void use_mat(MT &M, VT &v, std::vector<size_t> &e, std::vector<double> &x, std::vector<std::vector<double>> &xx, std::string &fn, int argc, char **argv) {
	tensor_product(M, M); direct_sum(M, M); inv(M);
	(void)(v == v);
	ChainComplex<MT> C; tensor_product(C, C, 2); tensor_product(C, C);
	ReducedCochainComplex<MT> RC; ChainMap<MT> F; induced_map(F, RC, RC, 1);
	ReducedChainComplex<MT> R(C); Reduce(C);
	SimplicialComplex X; TriangulatedProduct(X, X); TriangulatedProduct(X, X, 2);
	extract_pairs(M, e, x, x, 1);
	std::vector<PersistencePair<double>> ps; barcode_equality(ps, ps);
	Matrix<double> DM(3, 4); DataSet<double> D(DM); read_point_cloud<double>(fn, true); D.get_data(); D[0];
	bats::util::io::parse_argv(argc, argv, std::string("-d"), 3);
	bats::util::sortperm(x); bats::util::top_k(x, 3); bats::util::top_p(x, 0.5); bats::sort_indexes(x);
	Kendall_tau(e, e);
	bats::util::to_set(e);
	std::vector<size_t> s{1}; std::ostringstream os; bats::util::write_simplex(os, s);
	A<Dense<F3, ColMaj>> da(2, 2); use_dense(da); A<Dense<F3, RowMaj>> db(2, 2); use_dense(db);
	MultiGraph<int, int> G; int i; auto &n = G.add_node(i); G.add_edge(n, n, i); n.print();
	Chain(C, F3());
}

using CM = CSCMatrix<F3, size_t>;
void use_csc(CM &M, std::vector<size_t> &c, SparseFact<VT> &f, SetVector<F3, size_t> &sv, MT &A, VT &v) {
	CM B, C; block_select(M, c, c, 3, B);
	gemm(M, B, C); sum(M, B, C); sum(F3(2), M, B, C);
	PLEU_inplace(f); UELP_inplace(f); PUEL_inplace(f);
	sv.axpy(F3(1), sv); sv.axpy(F3(1), sv, 0, 3); (void)(sv == sv);
	auto it = sv.nzbegin(); sv.replace(it, 1, F3(1)); sv.replace(it, F3(2));
	auto jt = v.nzbegin(); v.replace(jt, 1, F3(1)); v.replace(jt, F3(2));
	gemv(A, v); gemv(A, v);
}
template <typename D> void use_dense2(D &a, VectorView<F3> y) {
	matmul(a, a); matmul(a, y); matmul(y, a);
	LEUP_fact(a); PLEU_fact(a); UELP_fact(a); PUEL_fact(a); find_pivot(a, 0, 0); 
}
void use_dense3(A<Dense<F3, ColMaj>> &a, A<Dense<F3, RowMaj>> &b, VectorView<F3> y) {
	use_dense2(a, y); use_dense2(b, y);
	L<Dense<F3, ColMaj>> l(2, 2); EL<Dense<F3, ColMaj>> el(2, 2); U<Dense<F3, ColMaj>> u(2, 2); EU<Dense<F3, ColMaj>> eu(2, 2);
	commute(el, l); l_solve(l, y); apply_inverse_on_left(l, a); apply_inverse_on_left(u, a); apply_inverse_on_right(a, l); apply_inverse_on_right(a, u);
	(void)(a == a); 
}
void use_more(SimplicialComplex &X, MorsePairing<SimplicialComplex> &P, std::vector<size_t> &s, std::vector<double> &r, DataSet<double> &D, Update_info<Filtration<double, SimplicialComplex>> &I) {
	P.add(s); P.add_pair(s); P.set_pair_edge(0, 1, 0, r);
	greedy_landmarks_hausdorff(D, Euclidean(), 0, 3);
	I.permutation_deletion_end(0); I.print_summary(); I.print_detail();
	Kendall_tau(s, s);
	std::vector<std::vector<size_t>> e{s}; ChainMap<MT> cm;
	Filtration<double, SimplicialComplex> F; F.add_directed(1.0, s);
	nzpair<size_t, F3> a(1, F3(1)); (void)(a < a); (void)(a < size_t(3));
}

void use_schur(MT &A, MT &B, MT &C, MT &D) {
	schur(A, B, C, D); schur(A, 1, 2, 1, 2);
}
