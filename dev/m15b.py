Q='include/linalg/polynomial.hpp'
F='include/linalg/rcf.hpp'
R='R15'
M=[
(R,'bug','include/linalg/pid.hpp',"        for (size_t j2 = j+1; j2 < rank; j2++) {","        for (size_t j2 = j+1; j2 < rank && j2 < j+2; j2++) {"),
(R,'bug',Q,"		std::vector<T> coeff(d + 1, T(0));\n		coeff[d] = scale;","		std::vector<T> coeff(d + 2, T(0));\n		coeff[d+1] = scale;"),
(R,'bug',Q,"UnivariatePolynomial(const T& c0) : c{c0} {clear_zeros();}","UnivariatePolynomial(const T& c0) : c{c0} {}"),
(R,'bug',Q,"std::vector<T>& c) : c(c) {clear_zeros();}","std::vector<T>& c) : c(c) {}"),
(R,'bug',Q,"		for (size_t k = 1; k < size(); k++) {\n			vk = vk * v; // v^k\n			sum += c[k] * vk;","		for (size_t k = 1; k < size(); k++) {\n			sum += c[k] * vk;\n			vk = vk * v; // v^k"),
(R,'bug',Q,"		T sum = c[0];\n		T vk = T(1);","		T sum = T(0);\n		T vk = T(1);"),
(R,'same',Q,"		T sum = c[0];\n		T vk = T(1);\n		for (size_t k = 1; k < size(); k++) {\n			vk = vk * v; // v^k\n			sum += c[k] * vk;","		T sum = T(0);\n		T vk = T(1);\n		for (size_t k = 0; k < size(); k++) {\n			sum += c[k] * vk;\n			vk = vk * v; // v^k"),
(R,'same',Q,"		T sum = c[0];\n		T vk = T(1);\n		for (size_t k = 1; k < size(); k++) {\n			vk = vk * v; // v^k\n			sum += c[k] * vk;\n		}","		T sum = T(0);\n		for (size_t k = size(); k-- > 0; ) {\n			sum = sum * v + c[k];\n		}"),
(R,'bug',Q,"			Akv = A * Akv; // A^k * v\n			sum.axpy(c[k], Akv);","			sum.axpy(c[k], Akv);\n			Akv = A * Akv; // A^k * v"),
(R,'bug',Q,"			sum.axpy(c[k], Akv);","			sum.axpy(c[k], v);"),
(R,'bug',Q,"		for (size_t k = 1; k < size(); k++) {\n			Akv","		for (size_t k = 1; k < degree(); k++) {\n			Akv"),
(R,'bug',Q,"            newc[i] = -c[i];","            newc[i] = c[i];"),
(R,'bug',Q,"        for (size_t i = 0; i < c.size(); i++) {\n            newc[i]","        for (size_t i = 1; i < c.size(); i++) {\n            newc[i]"),
(R,'same',Q,"        std::vector<T> newc(c.size());\n        for (size_t i = 0; i < c.size(); i++) {\n            newc[i] = -c[i];","        std::vector<T> newc;\n        for (const auto& a : c) {\n            newc.push_back(-a);"),
(R,'bug',Q,"        while (it2 != other.c.end()) {\n            c.emplace_back(-(*it2++));\n        }","        while (it2 != other.c.end()) {\n            c.emplace_back(*it2++);\n        }"),
(R,'bug',Q,"        while (it2 != other.c.end()) {\n            newc.emplace_back(-(*it2++));\n        }","        while (it2 != other.c.end()) {\n            newc.emplace_back(*it2++);\n        }"),
(R,'bug',Q,"			*it1++ -= *it2++;\n        }\n        while (it2 != other.c.end()) {\n            c.emplace_back(-(*it2++));\n        }\n\n		clear_zeros();","			*it1++ -= *it2++;\n        }\n        while (it2 != other.c.end()) {\n            c.emplace_back(-(*it2++));\n        }\n\n		if (c.size() > other.c.size()) clear_zeros();"),
(R,'same',Q,"        while (it1 != c.end() && it2 != other.c.end()) {\n			*it1++ -= *it2++;\n        }\n        while (it2 != other.c.end()) {\n            c.emplace_back(-(*it2++));\n        }","        size_t k = 0;\n        for (; k < c.size() && k < other.c.size(); ++k) { c[k] -= other.c[k]; }\n        for (; k < other.c.size(); ++k) { c.emplace_back(-other.c[k]); }"),
(R,'bug',Q,"                newc[i+j] += c[i] * other[j];","                newc[i+j] = c[i] * other[j];"),
(R,'bug',Q,"            for (size_t j = 0; j < other.size(); j++) {\n                newc","            for (size_t j = i; j < other.size(); j++) {\n                newc"),
(R,'same',Q,"		if (is_zero() || other.is_zero()) { return zero(); }","		if (size() == 0 || other.size() == 0) { return UnivariatePolynomial(); }"),
(R,'bug',Q,"		if (is_zero() || other.is_zero()) { return zero(); }","		if (size() < 2 || other.is_zero()) { return zero(); }"),
(R,'bug',Q,"			cols[j] = SparseVector<T>({j+1}, {T(1)});","			cols[j] = SparseVector<T>({j}, {T(1)});"),
(R,'bug',Q,"			val[i] = -c[i];","			val[i] = c[i];"),
(R,'bug',Q,"			val[i] = -c[i];","			val[i] = -c[i+1];"),
(R,'same',Q,"		for (size_t i = 0; i < n; i++) {\n			ind[i] = i;\n			val[i] = -c[i];\n		}","		for (size_t i = 0; i < n; i++) {\n			ind[i] = i;\n		}\n		for (size_t i = 0; i < n; i++) {\n			val[i] = -c[i];\n		}"),
(R,'bug',F,"            col[j].axpy(T(1), p->val(A, VT(p->ind)));","            col[j].axpy(T(1), p->val(A, VT(j)));"),
(R,'bug',F,"            col[j].axpy(T(1), p->val(A, VT(p->ind)));","            col[j].axpy(T(-1), p->val(A, VT(p->ind)));"),
(R,'bug',F,"            col[j].axpy(T(1), p->val(A, VT(p->ind)));","            col[j] = p->val(A, VT(p->ind));"),
(R,'bug',F,"            for (size_t k = 1; k < S(j,j).degree(); k++) {","            for (size_t k = 0; k < S(j,j).degree(); k++) {"),
(R,'bug',F,"                v = A * v;\n                col.emplace_back(v);","                col.emplace_back(A * v);"),
(R,'bug',F,"            auto v = B[j];","            auto v = B[col.size()];"),
(R,'same',F,"            auto v = B[j];\n            col.emplace_back(v);","            VT v(B[j]);\n            col.push_back(v);"),
(R,'same',F,"            auto v = B[j];\n            col.emplace_back(v);\n            // v, Av, ..., A^(d-1)v\n            for (size_t k = 1; k < S(j,j).degree(); k++) {\n                v = A * v;\n                col.emplace_back(v);","            auto v = B[j];\n            const size_t d = S(j,j).degree();\n            for (size_t k = 0; k < d; k++) {\n                col.emplace_back(v);\n                v = A * v;"),
(R,'bug',Q,"        while (!c.empty() && c.back() == 0) {","        if (!c.empty() && c.back() == 0) {"),
(R,'bug',Q,"        auto [q, r] = divrem(other);\n        return q;","		auto [q, r] = divrem(other);\n        return r;"),
(R,'bug',Q,"        auto [q, r] = divrem(other);\n        return r;","        auto [r, q] = divrem(other);\n        return r;"),
]
