// Instantiates complexes, filtrations, metrics, topological constructions,
// diagrams, functors, quivers and zigzags so that their resolved bodies can be
// analysed.  Never compiled to code, never run.
#include <bats.hpp>
#include <morse/pairing.hpp>
#include <sstream>
using namespace bats;
using F3 = ModP<int, 3>;
using VT = SparseVector<F3, size_t>;
using MT = ColumnMatrix<VT>;
using SC = SimplicialComplex;
using LC = LightSimplicialComplex<size_t, std::unordered_map<size_t, size_t>>;
using DS = DataSet<double>;
using SetD = Diagram<std::set<size_t>, std::vector<size_t>>;

template class bats::LightSimplicialComplex<size_t, std::unordered_map<size_t, size_t>>;
template class bats::SparseTrie<size_t, size_t>;
template class bats::Filtration<double, SC>;
template class bats::Filtration<double, LC>;
template class bats::zigzag::ZigzagFiltration<SC, double>;
template class bats::Diagram<SC, CellularMap>;

void use_fun(Diagram<SC, CellularMap> &D, Diagram<bats::Cover, std::vector<size_t>> &CD, SetD &S, DS &X, std::string &fn,
		std::vector<double> &rv) {
	Nerve(CD, 2);
	Rips(S, X, Euclidean(), 1.0, 2);
	Rips(S, X, Euclidean(), rv, 2);
	auto CH = ChainFunctor<MT>(D);
	ChainFunctor(D, F3()); __ChainFunctor(D, F3()); Chain(D, F3());
	auto H = Hom(CH, size_t(1));
	auto HA = Hom(CH, false);
	auto RH = RipsHom(S, X, Euclidean(), rv, 1, F3());
	auto DG = DGLinearFunctor<MT>(D, -1);
	auto H2 = Hom(DG, size_t(1));
	auto H2A = Hom(DG, false);
	barcode(H, 1); barcode(H, 1, flags::divide_conquer()); barcode(H, 1, flags::leftward()); barcode(H, 1, flags::rightward());
	barcode(RH, 1);
	barcode(HA); barcode(HA, flags::leftward());
	barcode(H2, 1); barcode(H2A);
	extract_dimension(HA, 1);
	barcode_form_divide_conquer(H); barcode_form_leftright(H); barcode_form_rightleft(H);
	D.save(fn);
}
template <typename CpxT> void use_flag(std::vector<size_t> &e, DS &X, Matrix<double> &P) {
	FlagComplex<CpxT>(e, 5, 3);
	RipsComplex<CpxT>(X, Euclidean(), 1.0, 2);
	RipsComplex<CpxT>(P, 1.0, 2);
	RipsFiltration<CpxT>(X, Euclidean(), 1.0, 2);
	RipsFiltration<CpxT>(P, 1.0, 2);
	Freudenthal<CpxT>(3, 4); Freudenthal<CpxT>(3, 4, 5); Freudenthal<CpxT>(3, 4, 5, 0, 1, 0, 1, 0, 1);
}
void use_rips(std::vector<size_t> &e, DS &X, DS &Y, Matrix<double> &P, bats::Cover &C, std::vector<double> &v, std::mt19937 &gen) {
	use_flag<SC>(e, X, P);
	use_flag<LC>(e, X, P);
	RipsFiltration_extension<SC>(X, Euclidean(), 1.0, 2);
	RipsFiltration_extension<LC>(X, Euclidean(), 1.0, 2);
	RipsFiltration_extension<SC>(P, 1.0, 2);
	CubicalComplex Q(3);
	Freudenthal<SC>(Q, 3, 4, 5);
	Cube(3, 4); Cube(3, 4, 5); Cube(3, 4, 5, 0, 1, 0, 1, 0, 1);
	RipsFiltration(X, C, Euclidean(), 1.0, 2);
	StrictRipsCoverFiltration<double, SC>(X, C, Euclidean(), 1.0, 2);
	neighborhood(X[0], Y, Euclidean(), 1.0); neighborhood(X[0], Y, Euclidean(), size_t(3));
	neighborhoods(X, Y, Euclidean(), 1.0); neighborhoods(X, Y, Euclidean(), size_t(3)); neighborhoods(P, 0.5);
	Euclidean()(X[0], X[1]); L1Dist()(X[0], X[1]); LInfDist()(X[0], X[1]); CosineDist()(X[0], X[1]); RPCosineDist()(X[0], X[1]);
	AngleDist()(X[0], X[1]); RPAngleDist()(X[0], X[1]);
	Euclidean()(X[0], Y); Euclidean()(X, Y); Euclidean()(X); L1Dist()(X, Y); LInfDist()(X, Y); CosineDist()(X, Y); AngleDist()(X, Y); RPAngleDist()(X, Y);
	enclosing_radius(P);
	random_landmarks(X, 5); greedy_landmarks(X, 5, Euclidean()); hausdorff_landmarks(X, 0.5, Euclidean());
	greedy_landmarks_hausdorff(X, Euclidean()); greedy_landmarks_hausdorff(X, Euclidean(), 0); greedy_landmarks_hausdorff(X, Euclidean(), 0, 3); greedy_landmarks_hausdorff(P, 0);
	approx_center(X, Euclidean());
	kdist(X, Euclidean(), 3);
	add_normal_noise(X); add_uniform_noise(X); add_normal_noise(P); add_uniform_noise(P); 
	add_normal_noise(X, 3u); add_normal_noise(P, 3u); add_uniform_noise(P, 3u, 0.0, 1.0);
	product_space(X, Y); sample_sphere<double>(2, 100); sample_sphere<double>(2, 100, 3u); sample_cube<double>(2, 100); sample_cube<double>(2, 100, 3u);
	interval<double>(0, 1, 10); circle<double>(1, 10); 
	normalize_entries(X); force_repel_rp(X, 0.5);
	Nerve(C, 2); linear_subset_union_diagram(C); linear_cover_intersection_diagram(C);
	uniform_interval_cover(v, 3); coordinate_projection(X, 1); get_subset(X, std::set<size_t>()); landmark_cover(X, Y, Euclidean(), 3); landmark_eps_cover(X, Y, Euclidean(), 0.5);
	bivariate_cover(C, C);
	vertex_inclusion_map(std::set<size_t>(), std::set<size_t>());
	dowker_edge_param(P); dowker_edge_param(P, 0, 1); witness_edge_param(X, Y, Euclidean(), 1); get_m(P, 2); 
	WitnessFiltration(X, Y, Euclidean(), 1.0, 2); DowkerFiltration(P, 1.0, 2); DowkerFiltration(X, Y, Euclidean(), 1.0, 2);
	flag_filtration_edges(P, 1.0); StrictWitnessComplex(X, Y, Euclidean(), 2, 1.0, 2); WitnessComplex(X, Y, Euclidean(), 2); WitnessComplex(X, Y, Euclidean(), 2, 1.0, 2); witness_edges(X, Y, Euclidean(), 1.0);
	dowker_filtration_edges(P, C, 1.0); DowkerFiltration(P, C, 1.0, 2); DowkerFiltration(X, Y, Euclidean(), C, 1.0, 2);
	DiscreteMorozovZigzagSets(X, Euclidean(), 10.0); OscillatingRipsZigzagSets(X, Euclidean(), 10.0, 11.0); DiscreteMorozovZigzag(X, Euclidean(), 10.0, 2);
	serpinski_diagram(3);
}
void use_cpx(SC &X, SC &A, LC &L, CubicalComplex &Q, CubicalComplex &QA, CellComplex &CC) {
	X.boundary(1, 0); X.boundary_csc(1);
	auto f = SimplicialMap(X, A), g = SimplicialMap(X, A, std::vector<size_t>()), gl = SimplicialMap(L, L), gm = SimplicialMap(L, L, std::vector<size_t>());
	auto h = CubicalMap(Q, QA);
	CellularMap e(X, A);
	bats::Chain(X, F3()); bats::Chain(Q, F3()); bats::Chain(L, F3()); bats::Chain(CC, F3()); bats::Chain(f, F3()); bats::Chain(e, F3());
	bats::__ChainComplex(X, A, F3());
	bats::ChainComplex<MT> c0(Q), c1(X, A), c2(CC), c3(L);
	bats::DGVectorSpace<MT> d0(Q, 1), d1(X, 1), d2(L, -1);
	bats::DGLinearMap<MT> dm(f, 1);
	EilenbergZilber(X, A, 2, F3());
	auto [CXA, EZ, CZ] = EilenbergZilber(X, A, 2, F3());
	EilenbergZilber(X, A, X, A, 2, F3());
	mayer_vietoris_boundary(X, A, X, 1);
	bats::ReducedChainComplex<MT> R(c0), S(c1);
	kron_homology(1, R, 1, S, R);
	std::vector<std::vector<size_t>> ki; kron_index(X, ki, X, ki, 2);
	bats::Reduce(X, F3());
	auto F = bats::Filtration(X, std::vector<std::vector<double>>());
	bats::Chain(F, F3()); bats::Reduce(F, F3());
	bats::ReducedDGVectorSpace<MT> RD(d0), SD(d1);
	bats::ChainMap<MT> cm(f), cmr(f, X, A, X, A);
	induced_map(cm, R, S, 1); induced_map(dm, RD, SD, 1);
	bats::CochainComplex<MT> cc(X);
	CellularMap::identity(X); CellularMap::identity(Q);
}
void use_ext(SC &X, LC &L, CubicalComplex &Q, std::vector<double> &f, std::vector<std::vector<double>> &img, std::vector<std::vector<std::vector<double>>> &im3,
		std::vector<std::vector<int>> &cinds, std::vector<std::vector<size_t>> &ki) {
	auto [v, c] = lower_star_filtration(X, f);
	auto lq = lower_star_filtration(L, f);
	auto b = lower_star_backwards(v, cinds, ki);
	lower_star_filtration(Q, img);
	lower_star_filtration(Q, im3);
	auto Z = zigzag_toplex(im3);
	auto zl = Z.levelset(0.0, 1.0);
	auto ZD = zigzag_levelsets(Z, 0.1, 0.0, 1.0);
	auto ZF = zigzag::extend_zigzag_filtration(f, X, 0.1);
	auto ZQ = zigzag::extend_zigzag_filtration(f, Q, 0.1, size_t(3));
	zigzag::barcode(ZF, 1, F3(), bats::no_optimization_flag(), bats::standard_reduction_flag());
	zigzag::barcode(ZF, 1, F3(), bats::no_optimization_flag(), bats::extra_reduction_flag());
	zigzag::barcode(ZQ, 1, F3(), bats::no_optimization_flag(), bats::standard_reduction_flag());
	std::vector<size_t> s{0, 1};
	ZF.add(0.0, 1.0, s); ZF.add_recursive(0.0, 1.0, s);
	Filtration<double, SC> F(5, 2);
	F.add(0.0, s); F.add_recursive(0.0, s);
	F.union_add(F); F.sublevelset(0.5); F.add_directed(0.0, s);
	ZF.levelset(0.0, 1.0); zigzag::extend_levelset(f, Q, 0.1, size_t(3));
	CompleteFlagFiltration(std::vector<size_t>(), f, 5, 2, 0.0);
	bats::FilteredChainComplex<double, MT> C(F);
	union_find_pairs(C);
	Matrix<double> P(3, 3);
	rips_union_find_pairs(std::vector<size_t>(), f);
}
void use_fact(const MT &A) {
	SparseFact<VT> a = LEUP(A), b = PLEU(A), c = UELP(A), d = PUEL(A), e = LQU(A), g = UQL(A);
	extract_row_scale(*new MT(A));
	L_EL_commute(A, A); U_EU_commute(A, A); EU_U_commute(A, A);
}
