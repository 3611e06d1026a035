#include "h.hpp"
#include "utility/math_helper.hpp"

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    int r = h.i(0, 9), c = h.i(0, 9), sr = h.i(0, 6), sc = h.i(0, 6);
    int ar = h.i(0, r), ac = h.i(0, c);
    std::ostringstream o;
    o << r << "x" << c << " insert " << sr << "x" << sc << " at (" << ar << "," << ac << ")";
    h.ctx = o.str();
    MatrixXd M = h.m(r, c), S = h.m(sr, sc), E(r + sr, c + sc);
    for (int i = 0; i < r + sr; ++i) {
      for (int j = 0; j < c + sc; ++j) {
        bool ir = i >= ar && i < ar + sr, ic = j >= ac && j < ac + sc;
        int oi = i < ar ? i : i - sr, oj = j < ac ? j : j - sc;
        E(i, j) = ir && ic ? S(i - ar, j - ac) : (ir || ic ? 0.0 : M(oi, oj));
      }
    }
    h.mat("insertion keeps every old entry and places the block", InsertInMatrix(S, M, ar, ac), E, 0);
    int n = h.i(0, std::min(r, c));
    int rr = h.i(0, r - n), rc = h.i(0, c - n);
    MatrixXd F(r - n, c - n);
    for (int i = 0; i < r - n; ++i) {for (int j = 0; j < c - n; ++j) {F(i, j) = M(i < rr ? i : i + n, j < rc ? j : j + n);}}
    h.mat("removal deletes exactly the given rows and columns", RemoveFromMatrix(M, rr, rc, n), F, 0);
    MatrixXd sq = h.m(r, r), sb = h.m(sr, sr);
    h.mat("removing what was inserted gives the matrix back", RemoveFromMatrix(InsertInMatrix(sb, sq, ar, ar), ar, ar, sr), sq, 0);
    VectorXd v = h.v(h.i(0, 12)), w = v;
    double b = h.u(-1, 1);
    if (v.size() && h.b()) {v(h.i(0, static_cast<int>(v.size()) - 1)) = b; w = v;}
    MinBoundVector(w, b);
    h.mat("lower bound", w, v.cwiseMax(b), 0);
  }
}
