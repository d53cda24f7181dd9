// C02: element matrices are the exact integrals of the Q1 (velocity) and Q1 on
// the doubled grid (pressure) basis functions, for every mesh step.
#include <fem.h>
using namespace fx;

static void two()
{
    std::array<double, 2> h{{sx_real_pos("h", 0, 0, 0), sx_real_pos("h", 1, 0, 0)}};
    auto L = getMatElemLaplacian(h);
    auto LA = getMatElemLaplacianA(h);
    auto S = getMatElemStrainTensor(h);
    auto SA = getMatElemStrainTensorA(h);
    auto P = getMatElemPressure(h);
    auto PA = getMatElemPressureA(h);
    auto PT = getMatElemPressureAT(h);
    auto Ma = getMatElemMass(h);
    auto MA = getMatElemMassA(h);
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
        {
            int t = 10 * i + j;
            sx_assert_eq(L[i][j], lap<2>(i, j, h), "laplacian-2d", t);
            sx_assert_eq(LA[4 * i + j], lap<2>(i, j, h), "laplacian-assembled-2d", t);
            sx_assert_eq(Ma[i][j], mass<2>(i, j, h), "mass-2d", t);
            sx_assert_eq(MA[4 * i + j], mass<2>(i, j, h), "mass-assembled-2d", t);
            for (int d = 0; d < 2; ++d)
                for (int e = 0; e < 2; ++e)
                {
                    sx_assert_eq(S[i][j][d][e], strain<2>(i, j, d, e, h), "strain-2d", 100 * (2 * d + e) + t);
                    sx_assert_eq(SA[8 * (i + 4 * d) + j + 4 * e], strain<2>(i, j, d, e, h), "strain-assembled-2d", 100 * (2 * d + e) + t);
                }
        }
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 9; ++j)
            for (int d = 0; d < 2; ++d)
            {
                int t = 100 * d + 10 * i + j;
                sx_assert_eq(P[i][j][d], pdiv<2>(i, j, d, h), "divergence-2d", t);
                sx_assert_eq(PA[18 * i + 9 * d + j], pdiv<2>(i, j, d, h), "divergence-assembled-2d", t);
                sx_assert_eq(PT[4 * (9 * d + j) + i], -pdiv<2>(i, j, d, h), "gradient-assembled-2d", t);
            }
    sx_observe("l", 0, L[0][3]);
    sx_observe("s", 0, S[0][3][0][1]);
    sx_observe("p", 0, P[2][7][1]);
    sx_reach("2d");
}
static void three()
{
    std::array<double, 3> h{{sx_real_pos("h", 0, 0, 0), sx_real_pos("h", 1, 0, 0), sx_real_pos("h", 2, 0, 0)}};
    auto L = getMatElemLaplacian(h);
    auto S = getMatElemStrainTensor(h);
    auto P = getMatElemPressure(h);
    auto Ma = getMatElemMass(h);
    for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 8; ++j)
        {
            int t = 10 * i + j;
            sx_assert_eq(L[i][j], lap<3>(i, j, h), "laplacian-3d", t);
            sx_assert_eq(Ma[i][j], mass<3>(i, j, h), "mass-3d", t);
            for (int d = 0; d < 3; ++d)
                for (int e = 0; e < 3; ++e)
                    sx_assert_eq(S[i][j][d][e], strain<3>(i, j, d, e, h), "strain-3d", 100 * (3 * d + e) + t);
        }
    for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 27; ++j)
            for (int d = 0; d < 3; ++d)
                sx_assert_eq(P[i][j][d], pdiv<3>(i, j, d, h), "divergence-3d", 1000 * d + 100 * i + j);
    sx_observe("l", 0, L[0][3]);
    sx_observe("s", 0, S[0][3][0][1]);
    sx_observe("p", 0, P[2][7][1]);
    sx_reach("3d");
}
extern "C" void sx_main()
{
    if (sx_cfg("dim", 2) == 2) two();
    else three();
}
