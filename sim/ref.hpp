// Independent reference model of the factor graph semantics (no library code).
#pragma once
#include "util.hpp"
#include <Eigen/Dense>
namespace ref {
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
typedef Eigen::Matrix3d M3; typedef Eigen::Matrix4d M4; typedef Eigen::Vector3d V3;
typedef Eigen::Matrix<double, 6, 1> V6; typedef Eigen::Matrix<double, 6, 6> M6;
enum NK { P2 = 0, L2, P3, L3, PL };
enum FK { F1P2 = 0, F2P2, FODO, F1P1L2, F1P3, F2P3, F1P1L3, F1P1PL, FPT2PL, FLC2, FLC3 };   // FLC: user-written factors tying three nodes together
enum RK { QUAD = 0, HUBER, CAUCHY, MCCLURE, RANSAC };
inline int ndim(int k) { static const int d[] = {3, 2, 6, 3, 4}; return d[k]; }
inline int fdim(int k) { static const int d[] = {3, 3, 3, 2, 6, 6, 3, 4, 1, 2, 3}; return d[k]; }
inline int fnodes(int k) { return k >= FLC2 ? 3 : k == F1P2 || k == F1P3 || k == FPT2PL ? 1 : 2; }
inline int fobs(int k) { return k == FPT2PL ? 9 : k >= FLC2 ? fdim(k) + 3 : fdim(k); }    // numbers that describe the measurement
inline i64 ftag(const Op &o, int k) { return k < 2 ? o.at(3 + k) : o.at(4 + k); }          // k-th node of a factor operation
M3 hat(const V3 &w);
M3 expR(const V3 &w);
V3 logR(const M3 &R);
M4 expT(const V6 &xi);
V6 logT(const M4 &T);
M4 invT(const M4 &T);
double wrap(double a);

struct Node { i64 tag; int kind; bool anchor; M x; };     // x: state as the library reports it
struct Fac {
    i64 tag; int kind, robust; std::vector<i64> nodes;     // tags, in (origin|pose, target|landmark) order
    V obs; M W;
};
M retract(int kind, const M &x, const V &dx);              // x [+] dx in the library's convention
V residual(const Fac &f, const M &a, const M &b, const M &c);
V position(int dim, const M &x);                           // of a pose or landmark
double robust_w(int kind, double u);

struct Graph {
    std::vector<Node> nodes; std::vector<Fac> facs; std::map<i64, int> idx;
    void add(const Node &n) { idx[n.tag] = (int)nodes.size(); nodes.push_back(n); }
    void add(const Fac &f) { facs.push_back(f); }
    Node &n(i64 tag) { return nodes[idx.at(tag)]; }
    const Node &n(i64 tag) const { return nodes[idx.at(tag)]; }
    V res(const Fac &f) const;
    double chi2(const Fac &f) const;
    double chi2() const;
    double weight(const Fac &f) const { return robust_w(f.robust, std::sqrt(chi2(f))); }
    int state_dim() const; int obs_dim() const;
    M jac(const Fac &f, int which) const;                   // numeric d r / d node
    // full system at current state; columns in node order, anchors skipped
    void system(M &A, M &W, V &r) const;
    void normal(M &L, V &b) const;                          // L = A'WA, b = A'Wr
    double gn_step(V &dx) const;                            // returns |dx|
    bool solve(int iters, double tol);                      // damped IRLS until |dx| < tol
    void apply(const V &dx);
};
}
