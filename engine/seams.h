// Grids whose nodes coincide along seams: the first and the last column of a grid
// around an island or a pole, the two halves of a row folded upon a cut.
#pragma once
#include "model.h"

struct SeamGrid { Nodes n; double sc; bool folded; };
static inline SeamGrid genSeams(Src& s)
{
    int n = s.range(1, 6), m = s.range(1, 6), m0 = s.chance(1, 2) ? 0 : s.range(1, 5);
    bool turned = s.chance(1, 3), tr = s.chance(1, 2), ri = s.chance(1, 2), rj = s.chance(1, 2);
    int ox = s.range(-50, 50), oy = s.range(-50, 50), k = s.range(1, 3), start = s.chance(1, 2) ? 0 : (int) s.draw(4 * n);
    double sc = turned ? pow(10, s.real(-4, 5)) : 1, a = turned ? s.real(0, 6.28) : 0;
    int n1 = 4 * n, n2 = m;
    Nodes g(tr ? n2 + 1 : n1 + 1, tr ? n1 + 1 : n2 + 1);
    std::vector<int> step(1, m0);
    for (int j = 0; j < m; ++j) step.push_back(step.back() + s.range(1, 3));
    for (int j = 0; j <= n2; ++j)
        for (int i = 0; i <= n1; ++i) {
            int q = (i + start) % (4 * n), X = n - (q <= 2 * n ? q : 4 * n - q), S = (q <= 2 * n ? 1 : -1) * (n - abs(X));
            double x = ox + k * X * (1 + step[j]), y = oy + k * S * step[j], w = x;
            if (turned) { x = sc * (x * cos(a) - y * sin(a)); y = sc * (w * sin(a) + y * cos(a)); }
            int I = ri ? n1 - i : i, J = rj ? n2 - j : j;
            g.X(tr ? J : I, tr ? I : J) = x;
            g.Y(tr ? J : I, tr ? I : J) = y;
        }
    return {g, k * sc, m0 == 0};
}
