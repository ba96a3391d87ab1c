S=[
dict(id='rand-perm-remembers', property='R07', edits=[('include/util/permutation.hpp','    std::default_random_engine generator;','    static std::default_random_engine generator;')],
 needs='a second call of rand_perm in one process',
 breaks='the permutation depends on how often the function was called before',
 demo='''
int main() {
	auto a = bats::util::rand_perm(50), b = bats::util::rand_perm(50);
	REQUIRE(a == b);
	std::cout << "ok" << std::endl;
}
'''),
]
