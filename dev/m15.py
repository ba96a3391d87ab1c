P='include/linalg/pid.hpp'
Q='include/linalg/polynomial.hpp'
F='include/linalg/rcf.hpp'
R='R15'
M=[
(R,'bug',P,"    if ((i & 1)) {t = -t;}","    if (!(i & 1)) {t = -t;}"),
(R,'bug',P,"    if (!(i & 1)) {s = -s;}","    if ((i & 1)) {s = -s;}"),
(R,'bug',P,"    if (!(i & 1)) {s = -s;}\n",""),
(R,'same',P,"    if ((i & 1)) {t = -t;}\n    if (!(i & 1)) {s = -s;}","    if (i % 2 == 1) {t = -t;} else {s = -s;}"),
(R,'same',P,"        PID tmp = old_r;\n        old_r = r; // remember remainder\n        r = tmp - quotient * r; // new remainder","        PID nr = old_r - quotient * r;\n        old_r = r;\n        r = nr;"),
(R,'same',P,"        r = tmp - quotient * r; // new remainder","        r = tmp - r * quotient;"),
(R,'bug',P,"        s = tmp - quotient * s;","        s = tmp + quotient * s;"),
(R,'bug',P,"        t = tmp - quotient * t;","        t = tmp - quotient * s;"),
(R,'bug',P,"    PID t(1), old_t(0);","    PID t(0), old_t(1);"),
(R,'bug',P,"    return std::tie(old_s, old_t, old_r, t, s);","    return std::tie(old_t, old_s, old_r, t, s);"),
(R,'bug',P,"    return std::tie(old_s, old_t, old_r, t, s);","    return std::tie(old_s, old_t, old_r, s, t);"),
(R,'bug',P,"return std::tuple(PID(1), PID(0), a, PID(1), q);","return std::tuple(PID(1), PID(0), a, q, PID(1));"),
(R,'bug',P,"    if (a != 0) {\n        PID q = b / a;\n        if (q * a == b) { return std::tuple(PID(1), PID(0), a, PID(1), q); }\n    }\n",""),
(R,'same',P,"    while (r != 0) {\n        i++;","    for (; r != 0; ++i) {"),
(R,'same',P,"    int i = 0;\n    while (r != 0) {\n        i++;","    bool odd = false;\n    int i = 0;\n    while (!(r == 0)) {\n        ++i;"),
# smith
(R,'bug',P,"                    C.mix_rows(j, j2, w, z, -y, x);","                    C.mix_rows(j, j2, w, -z, y, x);"),
(R,'bug',P,"                    C.mix_rows(j, j2, w, z, -y, x);\n",""),
(R,'bug',P,"                    C.swap_rows(j, j2);\n",""),
(R,'bug',P,"            R.swap_cols(j, pind);\n",""),
(R,'bug',P,"            R.swap_cols(j, pind);\n","",1),
(R,'bug',P,"                R.mix_cols(j, j2, T(1) - yz, -T(1), yz, T(1));","                R.mix_cols(j, j2, T(1), -T(1), yz, T(1) - yz);"),
(R,'bug',P,"                R.mix_cols(j, j2, T(1) - yz, -T(1), yz, T(1));\n","",1),
(R,'bug',P,"                auto yz = y*z;\n                A.mix_rows","                auto yz = x*z;\n                A.mix_rows"),
(R,'bug',P,"                if (!continue_reduction && p->val == g) {","                if (!continue_reduction) {"),
(R,'bug',P,"                if (!continue_reduction && p->val == g) {","                if (p->val == g) {"),
(R,'bug',P,"                if (!continue_reduction && p->val == g) {","                if (!continue_reduction) {",1),
(R,'bug',P,"                if (!continue_reduction && p->val == g) {","                if (p->val == g) {",2),
(R,'bug',P,"                    continue_reduction = true;\n                    S.mix_rows","                    S.mix_rows"),
(R,'bug',P,"            for (size_t j2 = j+1; j2 < A.ncol(); j2++) {\n                if (A[j2].nnz() > 0 && A[j2].firstnz().ind == j) {","            for (size_t j2 = j+2; j2 < A.ncol(); j2++) {\n                if (A[j2].nnz() > 0 && A[j2].firstnz().ind == j) {"),
(R,'bug',P,"                if (A[j2].nnz() > 0 && A[j2].firstnz().ind == j) {","                if (A[j2].nnz() > 0) {"),
(R,'bug',P,"        for (size_t j2 = j+1; j2 < rank; j2++) {","        for (size_t j2 = j+1; j2 + 1 < rank; j2++) {"),
(R,'bug',P,"        for (size_t j2 = j+1; j2 < rank; j2++) {","        for (size_t j2 = j+1; j2 < rank && j2 < j+2; j2++) {"),
(R,'bug',P,"            if (S(j,j) != g) {","            if (S(j,j) == g) {"),
(R,'bug',P,"            if (A(j,j) != g) {","            if (g == T(1)) {"),
(R,'bug',P,"                S.mix_rows(j, j2, T(1), T(1), -yz, T(1) - yz);","                S.mix_rows(j, j2, T(1), T(0), -yz, T(1) - yz);"),
(R,'bug',P,"            R[j].scale_inplace(coeff.inv()); // corresponding inverse op","            R[j].scale_inplace(coeff); // corresponding inverse op"),
(R,'bug',P,"            auto coeff = A(j,j).leading_coeff().inv();","            auto coeff = A(j,j).leading_coeff();"),
(R,'bug',P,"    return SmithFact<TC>{R, S, C};","    return SmithFact<TC>{C, S, R};"),
(R,'bug',P,"    MatT C = MatT::identity(n); // column operations","    MatT C = MatT::identity(m); // column operations"),
(R,'bug',P,"        rank++; // increment the rank\n\n        // now we have at least one non-zero in column\n        // pivot non-zero to pivot location\n        auto pind = A[j].nzbegin()->ind;\n        if (pind != j) {","        // now we have at least one non-zero in column\n        // pivot non-zero to pivot location\n        auto pind = A[j].nzbegin()->ind;\n        if (pind != j) {\n            rank++;"),
(R,'same',P,"        auto pind = A[j].nzbegin()->ind;\n        if (pind != j) {","        auto pind = A[j].firstnz().ind;\n        if (j != pind) {"),
(R,'same',P,"                S.mix_cols(j, j2, x, -z, y, w);\n                C.mix_rows(j, j2, w, z, -y, x);\n\n                auto yz = y*z;","                auto yz = y*z;\n                C.mix_rows(j, j2, w, z, -y, x);\n                S.mix_cols(j, j2, x, -z, y, w);\n"),
# polynomials
(R,'bug',Q,"			quotient += m;","			quotient -= m;"),
(R,'bug',Q,"while (remainder.size() >= other.size()) {","while (remainder.size() > other.size()) {"),
(R,'bug',Q,"            T coeff = remainder.leading_coeff() / other.leading_coeff();","            T coeff = other.leading_coeff() / remainder.leading_coeff();"),
(R,'bug',Q,"        return std::tie(quotient, remainder);","        return std::tie(remainder, quotient);"),
(R,'same',Q,"			quotient += m;\n			remainder -= (m * other);","			remainder -= other * m;\n			quotient += m;"),
(R,'same',Q,"			t = b;\n			b = a.remainder(b);\n			a = t;","			t = a.remainder(b);\n			a = b;\n			b = t;"),
(R,'bug',Q,"			t = b;\n			b = a.remainder(b);\n			a = t;","			a = b;\n			b = a.remainder(b);"),
(R,'bug',Q,"		while (!b.is_zero()) {","		while (b.size() > 1) {"),
(R,'bug',Q,"			if (p->ind == j) {\n				ind.emplace_back(p->ind);\n				val.emplace_back(PT({-p->val, T(1)}));\n				found_diagonal=true;","			if (p->ind == j) {\n				ind.emplace_back(p->ind);\n				val.emplace_back(PT({-p->val, T(1)}));"),
(R,'bug',Q,"				found_diagonal=true;\n				p++;\n				break;","				found_diagonal=true;\n				break;"),
(R,'bug',Q,"				val.emplace_back(PT({-p->val, T(1)}));","				val.emplace_back(PT({p->val, T(1)}));"),
(R,'bug',Q,"			val.emplace_back(PT({T(0), T(1)}));","			val.emplace_back(PT({T(1), T(0)}));"),
(R,'bug',Q,"			ind.emplace_back(p->ind);\n			val.emplace_back(PT(-p->val));\n			p++;","			ind.emplace_back(p->ind);\n			val.emplace_back(PT(p->val));\n			p++;"),
(R,'bug',Q,"		ind.clear();\n		val.clear();\n		auto p","		ind.clear();\n		auto p"),
(R,'same',Q,"			} else if (p->ind < j) {\n				ind.emplace_back(p->ind);\n				val.emplace_back(PT(-p->val));\n			} else {\n				break;\n			}\n			p++;","			}\n			if (p->ind > j) { break; }\n			ind.emplace_back(p->ind);\n			val.emplace_back(PT(-p->val));\n			++p;"),
]
