// Instantiates the linear algebra, homology and persistence templates with
// representative types so that their resolved bodies can be analysed.
// Never compiled to code, never run.
#include <bats.hpp>
#include <sstream>
using namespace bats;
using F3 = ModP<int, 3>;
using F2 = ModP<int, 2>;
using VT = SparseVector<F3, size_t>;
using VT2 = SparseVector<F2, size_t>;
using MT = ColumnMatrix<VT>;
using MT2 = ColumnMatrix<VT2>;
using QT = Rational<int>;

template class ModP<int, 2>;
template class ModP<int, 3>;
template class ModP<int, 7>;
template class Rational<int>;
template class SparseVector<F3, size_t>;
template class SparseVector<F2, size_t>;
template class SparseVector<int, size_t>;
template class ColumnMatrix<VT>;
template class CSCMatrix<int, size_t>;
template class bats::ChainComplex<MT>;
template class bats::CochainComplex<MT>;
template class bats::ReducedChainComplex<MT>;
template class bats::ReducedCochainComplex<MT>;
template class bats::ReducedDGVectorSpace<MT>;
template class bats::DGVectorSpace<MT>;
template class bats::DGLinearMap<MT>;
template class bats::ChainMap<MT>;
template class bats::FilteredChainComplex<double, MT>;
template class bats::FilteredDGVectorSpace<double, MT>;
template class bats::ReducedFilteredChainComplex<double, MT>;
template class bats::ReducedFilteredDGVectorSpace<double, MT>;

template <typename Flag> void use_reduce(MT &M, MT &U, Flag fl) {
	std::vector<bool> comp;
	bats::reduce_matrix(M, fl);
	bats::reduce_matrix(M, U, fl);
	bats::reduce_matrix_compression(M, comp, fl);
	bats::reduce_matrix_compression(M, U, comp, fl);
	bats::reduce_matrix_clearing(M, bats::get_clearing_inds(bats::reduce_matrix(M, fl)), fl);
	bats::reduce_matrix_clearing(M, U, M, bats::reduce_matrix(M, fl), fl);
}

void use_reduction(MT &M, MT &U) {
	std::vector<bool> comp;
	std::vector<size_t> p2c;
	use_reduce(M, U, bats::standard_reduction_flag());
	use_reduce(M, U, bats::extra_reduction_flag());
	bats::reduce_matrix(M);
	bats::reduce_matrix(M, U);
	bats::reduce_matrix_standard(M);
	bats::reduce_matrix_standard(M, U);
	bats::reduce_matrix_extra(M);
	bats::reduce_matrix_extra(M, U);
	bats::reduce_matrix(M, bats::divide_conquer_flag());
	bats::reduce_matrix(M, U, bats::divide_conquer_flag());
	bats::partial_reduce_parallel(M, 1024);
	bats::partial_reduce_parallel(M, U, 1024);
	bats::sparsify_basis(M, U);
	bats::remove_extra_cycles(M, U);
	bats::extract_basis_indices(M, p2c);
	bats::extract_basis_indices(M);
	std::map<F3, size_t> coeff;
	VT::tmp_type tmp;
	bats::reduce_column_sparsify(M, 0, p2c, coeff, tmp);
	std::unordered_map<size_t, size_t> up2c;
	bats::reduce_column_extra(M, 0, up2c, tmp);
}

template <typename RC, typename C, typename Flag> void use_reduced(const C &c, Flag fl) {
	RC a(c), b(c, fl), d(c, fl, bats::compute_basis_flag()), e(c, fl, bats::clearing_flag()), g(c, fl, bats::compression_flag());
}
template <typename RC, typename C, typename Flag> void use_reduced2(const C &c, Flag fl) {
	RC f(c, fl, bats::clearing_flag(), bats::compute_basis_flag());
}
void use_homology(MT &M, MT &U, const bats::ChainComplex<MT> &C, const bats::CochainComplex<MT> &CC, const bats::DGVectorSpace<MT> &D) {
	std::vector<std::vector<size_t>> perm;
	bats::standard_reduction_flag fl;
	use_reduced<bats::ReducedChainComplex<MT>>(C, fl);
	use_reduced<bats::ReducedCochainComplex<MT>>(CC, fl);
	use_reduced<bats::ReducedDGVectorSpace<MT>>(D, fl);
	use_reduced2<bats::ReducedChainComplex<MT>>(C, fl);
	use_reduced2<bats::ReducedDGVectorSpace<MT>>(D, fl);
	bats::ReducedChainComplex<MT> h(C, fl, bats::compression_flag(), bats::compute_basis_flag());
	bats::ReducedChainComplex<MT> R(C);
	R.update_reduction(0); R.update_reduction2(0); R.permute_basis(perm);
	R.permute_basis(perm, fl);
	R.to_hom_basis(VT(), 0); R.from_hom_basis(VT(), 0);
	bats::ReducedDGVectorSpace<MT> RD(D);
	RD.update_reduction2(0); RD.permute_basis(perm);
	RD.to_hom_basis(VT(), 0); RD.from_hom_basis(VT(), 0);
	bats::ReducedCochainComplex<MT> RC(CC);
	RC.to_hom_basis(VT(), 0); RC.from_hom_basis(VT(), 0);
}
using Fil = bats::Filtration<double, bats::SimplicialComplex>;
void use_update(const Fil &F, const Fil &G) {
	bats::UpdateInfo2 U2(F, G);
	auto U1 = bats::Update_info(F, G);
	auto C = bats::FilteredChainComplex<double, MT>(F);
	auto R = bats::ReducedFilteredChainComplex<double, MT>(C);
	R.update_filtration_general(U1);
	C.update_filtration_general(U1);
	auto D = bats::FilteredDGVectorSpace<double, MT>(F);
	auto RD = bats::ReducedFilteredDGVectorSpace<double, MT>(D);
	RD.update_filtration_general(U1);
	RD.update_filtration_general_clearing(U1);
	RD.update_basis(U2);
	auto RA = bats::Reduce(C);
	bats::Reduce(F, F3());
}
