R='R07'; I='R14'
SV='include/linalg/sparse_vector.hpp'; PM='include/util/permutation.hpp'; L='include/complex/light_simplicial_complex.hpp'; C='include/complex/cubical_complex.hpp'; ST='include/util/set.hpp'
DG='include/topology/data_gen.hpp'; T='include/util/trie.hpp'; U='include/filtration/update_information.hpp'; CS='include/linalg/csc_matrix.hpp'; DB='include/homology/dgbasis.hpp'; Z='include/topology/zigzag_zoo.hpp'; Q='include/quiver/sparse.hpp'
M=[
(R,'bug',PM,"    std::default_random_engine generator;","    static std::default_random_engine generator;"),
(R,'bug',ST,"	std::default_random_engine generator;","	std::random_device rd; std::default_random_engine generator(rd());"),
(R,'bug',PM,"    std::default_random_engine generator;","    std::default_random_engine generator(time(nullptr));"),
(R,'bug',PM,"    std::default_random_engine generator;","    thread_local std::default_random_engine generator;"),
(R,'bug',DG,"    std::default_random_engine generator(seed);","    std::default_random_engine generator(seed + std::chrono::system_clock::now().time_since_epoch().count());",1),
(R,'bug',U,"        max_dim = F_Y.maxdim();","        if (degree == -1) { max_dim = F_Y.maxdim(); }"),
(R,'bug',CS,"m(m), n(n) {\n        sort","m(this->m), n(n) {\n        sort"),
(R,'bug',T,"SparseTrie() : val(T(0)), children(nullptr) {};","SparseTrie() {};"),
(R,'bug',L,"c = (i & 0x1) ? -1 : 1;","if (i & 0x1) c = -1;"),
(R,'bug',DB,"			auto t0 = std::chrono::steady_clock::now();","			auto t0 = std::chrono::steady_clock::now(); if (t0.time_since_epoch().count() % 2) return;"),
(R,'bug',Z,"	T eps1; // prev eps\n	size_t j = 0; // node index\n","	T eps1; // prev eps\n	size_t j; if (n) j = 0; // node index\n",0),
(R,'bug',Q,"    int nthreads = (int) omp_get_max_threads();","    int nthreads = (int) omp_get_thread_num() + 4;"),
(R,'bug','include/complex/simplicial_complex.hpp',"std::vector<index_type> __face","mutable std::vector<index_type> __face"),
(R,'bug','include/filtration/filtration.hpp',"	inline const std::vector<TF>& vals(","	inline const std::vector<TF>& vals_() const { static std::vector<TF> v; v = val[0]; return v; }\n	inline const std::vector<TF>& vals("),
# same
(R,'same',PM,"    std::default_random_engine generator;","    static const int dummy = 3; (void) dummy; std::default_random_engine generator;"),
(R,'same',U,"        max_dim = F_Y.maxdim();","        if (degree == -1) { max_dim = F_Y.maxdim(); } else { max_dim = F_Y.maxdim(); }"),
(R,'same',L,"c = (i & 0x1) ? -1 : 1;","if (i & 0x1) c = -1; else c = 1;"),
(R,'same',DG,"    std::default_random_engine generator(seed);","    auto sd = seed; std::default_random_engine generator(sd);",1),
(R,'same',T,"SparseTrie() : val(T(0)), children(nullptr) {};","SparseTrie() : children(nullptr) { val = T(0); };"),
(R,'same',DB,"			auto t0 = std::chrono::steady_clock::now();","			std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();"),
(I,'bug',PM,"inline std::vector<size_t> rand_perm(","std::vector<size_t> rand_perm("),
(I,'bug','include/topology/flag.hpp',"#pragma once",""),
(I,'bug','include/linalg/polynomial.hpp',"template <typename T>\nvoid clear_zeros","void dummy_fn() {}\ntemplate <typename T>\nvoid clear_zeros"),
(I,'bug','include/util/common.hpp',"inline unsigned get_global_ops","unsigned get_global_ops"),
(I,'bug','include/util/io.hpp',"inline std::string parse_argv","std::string parse_argv"),
(I,'bug','include/topology/metric.hpp',"#pragma once","#pragma once\nusing namespace std;"),
(I,'same',PM,"inline std::vector<size_t> rand_perm(","static std::vector<size_t> rand_perm("),
(I,'same','include/topology/flag.hpp',"#pragma once","#ifndef FLAG_H\n#define FLAG_H\n#include <vector>\n#endif\n#pragma once"),
]
