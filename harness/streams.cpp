// The uniform random numbers of the generators of the standard library: streams TYPE SEED N
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>

template <class G> static int show(int seed, int n)
{
    G g;
    g.seed(seed);
    for (int i = 0; i < n; ++i)
    {
        std::printf("%a\n", std::generate_canonical<double, 32>(g));
    }
    return 0;
}

int main(int argc, char ** argv)
{
    if (argc != 4) return 2;
    const int seed = std::atoi(argv[2]), n = std::atoi(argv[3]);
    if (!std::strcmp(argv[1], "MT"))       return show<std::mt19937>(seed, n);
    if (!std::strcmp(argv[1], "MINSTD"))   return show<std::minstd_rand>(seed, n);
    if (!std::strcmp(argv[1], "RANLUX24")) return show<std::ranlux24>(seed, n);
    if (!std::strcmp(argv[1], "RANLUX48")) return show<std::ranlux48>(seed, n);
    return 2;
}
