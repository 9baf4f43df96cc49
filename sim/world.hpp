// The simulated environment: robots moving through a 2D and/or 3D world, sensors, a faulty network and a
// mapper. Everything is drawn from one Rng; the outcome is an explicit list of operations (the trace).
#pragma once
#include "sut.hpp"
#include <set>
namespace world {
using ref::M; using ref::V;
struct Cfg {
    int mode = 2;            // 0 2D, 1 3D, 2 both in one graph
    int poses = 5, marks = 2, robots = 1;
    double noise = 0;        // measurement noise (std, all components)
    double init = 0.05;      // error of the initial states
    bool robust = false;     // robust kernels on some factors (HUBER, CAUCHY, MCCLURE)
    bool ransac = false;
    bool user = false;       // factors written by the user that tie three nodes together
    double outliers = 0;     // part of the measurements with a robust kernel that are grossly wrong
    bool odo = true;         // Factor2Poses2dOdom edges allowed
    bool planes = true, pt2pl = true;
    double p_anchor = 0.3;   // extra anchors (the first pose of each robot is anchored or has a prior)
    double p_rev = 0.3;      // edges stated from the later to the earlier pose
    double loops = 0.5;      // loop closures per pose
    bool probes = false;     // user-derived factors
    double wspread = 2;      // information matrices span 10^[0,wspread]
};
struct Msg { Op op; int src; double t; std::vector<i64> deps; };
struct World { std::vector<Msg> msgs; std::map<i64, M> truth; std::map<i64, int> kind; };
World make(Rng &r, const Cfg &c);
Cfg random_cfg(Rng &r, int size);      // size 0 small .. 2 large
M rand_info(Rng &r, int n, double spread);
std::vector<double> flat(const M &m);

struct Net { double loss = 0, dup = 0, delay = 20, jitter = 60; int partitions = 0; bool fifo = false; double timeout = 80; };
Net random_net(Rng &r);
// deliver all messages; returns operations in the order the mapper applies them ("dup tag" = redelivery)
std::vector<Op> deliver(Rng &r, const World &w, const Net &n, Stats &st);
// only an order (no duplicates): used by replicas
std::vector<Op> arrival_order(Rng &r, const World &w, Stats &st);
}
