// Adapter between the simulator and the real library (FGraph* classes).
#pragma once
#include "util.hpp"
#include "ref.hpp"
#include "rt.hpp"
#include <memory>
namespace sut {
using ref::M; using ref::V;
enum Flags { F_ALTCTOR = 1, F_INIT = 2, F_PROBE = 4, F_FRESH = 8 };   // FRESH: a retry after a failure builds a new object
enum GKind { SPARSE = 0, DENSE = 1 };

// user code running inside the library: counting and throwing factor callbacks
struct Probe { i64 res, jac, chi; i64 throw_at; i64 seen; };   // throw_at counts callbacks of any kind, 0 = never
extern Probe probe;
struct UserError : std::exception { const char *what() const noexcept override { return "user factor failed"; } };

struct GraphI {
    virtual ~GraphI() {}
    virtual i64 add_node(const Op &) = 0;      // returns the id reported by the graph
    virtual i64 add_fac(const Op &) = 0;
    virtual i64 make_fac_only(const Op &) = 0; // construct without adding (kept as a user handle)
    virtual i64 add_eig(const Op &) = 0;       // an eigen factor: its own list and ids (op: tag, dimension, flags, nodes...)
    virtual i64 readd_eig(i64 tag) = 0;
    virtual i64 eig_id(i64 tag) = 0;
    virtual i64 readd_node(i64 tag) = 0;
    virtual i64 readd_fac(i64 tag) = 0;
    virtual bool has_node(i64 tag) const = 0;
    virtual bool has_fac(i64 tag) const = 0;
    virtual i64 node_id(i64 tag) = 0;
    virtual i64 fac_id(i64 tag) = 0;
    virtual int solve(int method, unsigned iters, double lambda, double tol) = 0;
    virtual double chi2(bool evaluate) = 0;
    virtual std::vector<M> states() = 0;       // in graph order
    virtual M node_state(i64 tag) = 0;         // through the user's node handle
    virtual M get_node_state(i64 id) = 0;      // through get_node(id)
    virtual double get_fac_chi2(i64 id) = 0;   // through get_factor(id)
    virtual i64 node_degree(i64 tag) = 0;      // number of factors attached to the node
    virtual V fac_residual(i64 tag) = 0;       // evaluate + read through the handle
    virtual V fac_stored(i64 tag) = 0;         // the residual kept from the last evaluation
    virtual void set_state(i64 tag, const M &x) = 0;
    virtual void node_update(i64 tag, const V &dx, bool via_aux) = 0;   // Node::update / update_from_auxiliary
    virtual bool dense_system(V &grad, M &hess) = 0;                    // dense solver only
    virtual void drop_node(i64 tag) = 0;       // forget one user handle
    virtual void drop_fac(i64 tag) = 0;
    virtual void drop_handles() = 0;           // forget user handles (the graph remains owner)
    virtual void drop_graph() = 0;             // destroy the graph while user handles may survive
    virtual bool graph_alive() const = 0;
    virtual M A() = 0; virtual M W() = 0; virtual M L() = 0; virtual V b() = 0; virtual V chi2_array() = 0;
    virtual i64 n_nodes() = 0; virtual i64 n_facs() = 0; virtual i64 dim_state() = 0; virtual i64 dim_obs() = 0;
    virtual void print(bool full) = 0;
};
std::unique_ptr<GraphI> make_graph(int kind);
}
