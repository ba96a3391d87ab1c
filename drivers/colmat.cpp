// Instantiates every operation of the column matrices over the rationals, for
// the rules about ColumnMatrix.  Never compiled to code, never run.
#include <bats.hpp>
#include <sstream>
using Q = Rational<int>;
using VQ = SparseVector<Q, size_t>;
using MQ = ColumnMatrix<VQ>;
using F3 = ModP<int, 3>;
using VF = SparseVector<F3, size_t>;
using MF = ColumnMatrix<VF>;
using MI = ColumnMatrix<SparseVector<int, size_t>>;
using S = std::vector<size_t>;
using B = std::vector<bool>;

void use_build(const VQ &v, const std::vector<VQ> &vs, const MI &o, const CSCMatrix<int, size_t> &c, std::default_random_engine &g) {
	MQ a; MQ b(2, 3); MQ d(2, 3, Q(1)); MQ e(vs); MQ f(2, 3, vs); MQ h(c); MQ h2(o);
	ColumnMatrix<VF> h3(c);
	MQ::identity(3); MQ::random(3, 3, 0.5, 1, g);
}
void use_rows(MQ &A, const S &p, const VQ &v, const std::vector<VQ> &vs, const std::vector<Q> &c, const B &m, size_t i, size_t j, const Q &q) {
	A.permute_rows(p); A.ipermute_rows(p); A.permute_cols(p); A.ipermute_cols(p); A.permute(p, p);
	A.append_row(); A.append_row(c); A.append_sparse_row(v); A.insert_row(i); A.insert_row(i, c); A.insert_sparse_rows(p, vs); A.insert_rows(p); A.insert_rows(p, vs);
	A.erase_row(i); A.erase_row(); A.erase_rows(i); A.erase_row_unsafe(); A.erase_final_rows_unsafe(i); A.erase_initial_rows(i);
	A.clear_rows(m); A.clear_cols(m); A.swap_rows(i, j); A.mix_rows(i, j, q, q, q, q); A.add_rows(i, q, j); A.row_scale(c); A.col_inv_scale(c);
	A.J_left_inplace(); A.J_right_inplace(); A.J_conjugation_inplace(); A.J_left(); A.J_right(); A.J_conjugation();
	A.set_nrow(i);
}
void use_cols(MQ &A, const MQ &B, std::vector<VQ> &vs, VQ &v, const S &p, size_t i, size_t j, const Q &q) {
	A.append_column(); A.append_column(v); A.append_column(VQ(v)); A.insert_column(i); A.insert_column(i, VQ(v)); A.insert_columns(p, vs);
	A.erase_column(i); A.erase_column(); A.erase_final_columns(i); A.erase_initial_cols(i);
	A.mix_cols(i, j, q, q, q, q); A.swap_cols(i, j); A.schur_complement(i, j); A.set_block(i, j, i, j, B);
}
void use_ops(MQ &A, const MQ &B, const VQ &x, VQ::tmp_type &t, const S &p, const Q &q) {
	A.gemv(x); A.gemv(x, t); gemv(A, x); MQ a = A * q; VQ b = A * x; MQ c = A * B; VQ d = x * A; MQ e = A + B; A += B; MQ f = A - B; MQ g = A.transpose(); MQ h = A.T();
	MQ k = A.submatrix(p, p); MQ l = A.block(0, 1, 0, 1); tensor_product(A, B); direct_sum(A, B);
	u_solve(A, x); l_solve(A, x); u_solve(A, B); l_solve(A, B); u_inv(A); l_inv(A);
	MF z(2, 2); MF w = z + z; z += z; MF y = z - z; MF v = z * F3(2);
}
void use_test(MQ &A, const MQ &B, size_t i, size_t j) {
	A == B; A.to_row_array(); A.dump_dense(); A.nnz(); A.is_zero(); A.is_upper(); A.is_upper_invert(); A.is_lower(); A.is_reduced(); A.is_pivot_matrix();
	A.is_EL(); A.is_EU(); A.is_ELhat(); A.is_EUhat(); A.getval(i, j); A(i, j); A.nrow(); A.ncol(); A[i];
}
