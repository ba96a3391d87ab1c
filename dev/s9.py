head='#include <bats.hpp>\n#include <linalg/pid.hpp>\n#include <linalg/polynomial.hpp>\n#include <linalg/rcf.hpp>\n#include <iostream>\n#include <cstdlib>\n#define REQUIRE(c) do { if (!(c)) { std::cout << "failed: " #c << std::endl; std::exit(1); } } while (0)\nusing namespace bats;\n'
P='include/linalg/pid.hpp'
Q='include/linalg/polynomial.hpp'
S=[
dict(id='smith-forgets-full-mix',property='R15',head=head,demo='''
using V = SparseVector<int, size_t>; using M = ColumnMatrix<V>;
int main() {
	std::srand(5);
	for (int rep = 0; rep < 3000; ++rep) {
		size_t m = 2 + std::rand() % 3, n = 2 + std::rand() % 3;
		std::vector<V> c;
		for (size_t j = 0; j < n; ++j) {
			std::vector<size_t> ind; std::vector<int> val;
			for (size_t i = 0; i < m; ++i) { int x = std::rand() % 9 - 4; if (x) { ind.emplace_back(i); val.emplace_back(x); } }
			c.emplace_back(ind, val);
		}
		M A(m, n, c);
		auto F = smith_factorization(A);
		REQUIRE(F.prod() == A);
		for (size_t j = 0; j < n; ++j)
			for (size_t i = 0; i < m; ++i)
				if (i != j) REQUIRE(F.S(i, j) == 0);
	}
	std::cout << "ok" << std::endl;
}
''',edits=[(P,("if (!continue_reduction && p->val == g) {",1),"if (p->val == g) {")],
 needs='a column in which one entry is not divisible by the pivot and a later one is',breaks='the later row operation is applied to one column only although the pivot row has been refilled, so R*S*C is not A'),
dict(id='polynomial-prefix-equal',property='R15',head=head,demo='''
using PT = UnivariatePolynomial<ModP<int, 5>>; using K = ModP<int, 5>;
int main() {
	PT a(std::vector<K>{K(1), K(2)}), b(std::vector<K>{K(1), K(2), K(3)}), c(std::vector<K>{K(1), K(2), K(0)});
	REQUIRE(!(b == a));
	REQUIRE(!(a == b));
	REQUIRE(a == c);
	std::cout << "ok" << std::endl;
}
''',edits=[(Q,"if (size() != other.size()) return false;","if (size() > other.size()) return false;")],
 needs='comparing a polynomial with one of higher degree that agrees with it up to its own degree',breaks='the two compare equal'),
]
