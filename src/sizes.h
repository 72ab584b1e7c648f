/* sizes and shapes of larger grids */
#pragma once
#include "util.h"
using namespace mc;

/* ---- large grids: sizes around and beyond 65536 nodes in total or along one side; all odd, so that they suit every type of node */
static const int LARGE[][2] = { {257, 257}, {301, 231}, {1, 70001}, {70001, 1}, {3, 33001}, {33001, 3}, {65537, 1}, {1, 65537}, {5, 13109}, {40001, 3}, {255, 257}, {1025, 65} };
enum { NLARGE = sizeof LARGE / sizeof LARGE[0], NLARGEPAT = 8 };
/* ---- sizes in between: every length up to 140, some up to 1100, by 1 to 6, both ways */
struct Size { int nx, ny; };
inline const std::vector<Size>& sizes(int mid)
{
    static std::vector<Size> v[2];
    if (v[0].empty()) {
        for (auto& l : LARGE)
            v[0].push_back({l[0], l[1]});
        std::vector<int> w;
        for (int k = 6; k <= 140; ++k)
            w.push_back(k);
        for (int k : { 150, 170, 199, 200, 201, 255, 256, 257, 300, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1100 })
            w.push_back(k);
        for (int k : w) {
            int h = 2 + k % 5, h2 = k % 3 == 0 ? 1 : k <= 40 ? k - 1 : 3;
            v[1].push_back({k, h});
            v[1].push_back({h, k});
            v[1].push_back({k, h2});
            v[1].push_back({h2, k});
        }
    }
    return v[mid];
}
inline Size fit(Size s, int t)  /* double density grids have odd sizes */
{
    if (t == NT_DD)
        s.nx |= 1, s.ny |= 1;
    return s;
}
/* shapes of valid cells of any size: everything, a comb, an L, a staircase, a U, a strip; whether they are in one piece is for the caller to check */
enum { NMIDSHAPE = 6 };
inline Shape midshape(int W, int H, int k)
{
    Shape s((size_t) W * H);
    for (int j = 0; j < H; ++j)
        for (int i = 0; i < W; ++i) {
            bool v = true;
            switch (k) {
            case 1: v = W >= H ? j == 0 || i % 6 < 3 : i == 0 || j % 6 < 3; break;
            case 2: v = i < (W + 1) / 2 || j >= H / 2; break;
            case 3: v = W >= H ? i * H <= (j + 1) * W : j * W <= (i + 1) * H; break;
            case 4: v = W >= H ? (i < W / 3 || i > 2 * W / 3 || j == H - 1) : (j < H / 3 || j > 2 * H / 3 || i == W - 1); break;
            case 5: v = W >= H ? i >= W / 2 : j >= H / 2; break;
            }
            s[(size_t) j * W + i] = v;
        }
    return s;
}
static const char* const SIZENAME[2] = { "large grids", "middle-sized grids" };
