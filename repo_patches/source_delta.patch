From 065f2e0189bbd47cbcc2023a52aaeb3e1c9aa6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 01/31] fix: Factor2Poses3d with origin id > target id kept the
 observation un-inverted

---
 src/FGraph/factors/factor2Poses3d.cpp      | 22 ++++++++++++----------
 src/FGraph/mrob/factors/factor2Poses3d.hpp |  1 +
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses3d.cpp b/src/FGraph/factors/factor2Poses3d.cpp
index 012e3b3..6841375 100644
--- a/src/FGraph/factors/factor2Poses3d.cpp
+++ b/src/FGraph/factors/factor2Poses3d.cpp
@@ -32,7 +32,7 @@ using namespace mrob;
 Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &nodeOrigin,
         std::shared_ptr<Node> &nodeTarget, const Mat6 &obsInf, bool updateNodeTarget,
         Factor::robustFactorType robust_type):
-        Factor(6,12,robust_type), Tobs_(observation), W_(obsInf)
+        Factor(6,12,robust_type), Tobs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -43,9 +43,8 @@ Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &n
     {
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
-
-        // inverse observations to correctly modify this
-        Tobs_.inv();
+        // set reverse mode
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
@@ -59,7 +58,7 @@ Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &n
 Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &nodeOrigin,
         std::shared_ptr<Node> &nodeTarget, const Mat6 &obsInf, bool updateNodeTarget,
         Factor::robustFactorType robust_type):
-        Factor(6,12, robust_type), Tobs_(observation), W_(obsInf)
+        Factor(6,12, robust_type), Tobs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -70,9 +69,8 @@ Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &no
     {
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
-
-        // inverse observations to correctly modify this
-        Tobs_.inv();
+        // set reverse mode
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
@@ -91,8 +89,9 @@ void Factor2Poses3d::evaluate_residuals()
     // NOTE: We could also use the adjoint to refer the manifold coordinates obs w.r.t xo but in this case that
     // does not briung any advantage on the xo to the global frame (identity)
     // (xo reference)T_obs * T_xo  = T_xo * (global)T_obs. (rhs is what we use here)
-    Mat4 TxOrigin = get_neighbour_nodes()->at(0)->get_state();
-    Mat4 TxTarget = get_neighbour_nodes()->at(1)->get_state();
+    uint_t indOrigin = reversedNodeOrder_ ? 1 : 0;
+    Mat4 TxOrigin = get_neighbour_nodes()->at(indOrigin)->get_state();
+    Mat4 TxTarget = get_neighbour_nodes()->at(1 - indOrigin)->get_state();
     Tr_ = SE3(TxOrigin) * Tobs_ * SE3(TxTarget).inv();
     r_ = Tr_.ln_vee();
 
@@ -102,6 +101,9 @@ void Factor2Poses3d::evaluate_jacobians()
     // it assumes you already have evaluated residuals
     J_.topLeftCorner<6,6>() = Mat6::Identity();
     J_.topRightCorner<6,6>() = -Tr_.adj();
+    // blocks follow the order of the nodes
+    if (reversedNodeOrder_)
+        J_.leftCols<6>().swap(J_.rightCols<6>());
 }
 
 void Factor2Poses3d::evaluate_chi2()
diff --git a/src/FGraph/mrob/factors/factor2Poses3d.hpp b/src/FGraph/mrob/factors/factor2Poses3d.hpp
index ec8bbf8..55321c8 100644
--- a/src/FGraph/mrob/factors/factor2Poses3d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses3d.hpp
@@ -106,6 +106,7 @@ class Factor2Poses3d : public Factor
     SE3 Tr_; // Residual Transformation
     Mat6 W_;//inverse of observation covariance (information matrix)
     Mat<6,12> J_;//Joint Jacobian
+    bool reversedNodeOrder_;//true if the origin has the greater id: nodes are [target, origin]
 
   public:
     EIGEN_MAKE_ALIGNED_OPERATOR_NEW // as proposed by Eigen
-- 
2.43.0


From 09754ee0c99dc6c91b024bd4454ca4f54e98ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 02/31] fix: Factor2Poses2d with origin id > target id inverted
 the observation wrongly

---
 src/FGraph/factors/factor2Poses2d.cpp      | 21 ++++++++++++---------
 src/FGraph/mrob/factors/factor2Poses2d.hpp |  1 +
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 6dc0e61..8db8199 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -31,7 +31,7 @@ using namespace mrob;
 Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &nodeOrigin,
                                std::shared_ptr<Node> &nodeTarget, const Mat3 &obsInf, bool updateNodeTarget,
                                Factor::robustFactorType robust_type):
-        Factor(3, 6, robust_type), obs_(observation), W_(obsInf)
+        Factor(3, 6, robust_type), obs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -40,12 +40,10 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     else
     {
-        // we reverse the order and simply invert the observation function (not always true)
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
-
-        // reverse observations to account for this
-        obs_ = -observation;
+        // set reverse mode
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
@@ -57,8 +55,9 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
 
 void Factor2Poses2d::evaluate_residuals() {
     // Evaluation of h(i,j)
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    uint_t indOrigin = reversedNodeOrder_ ? 1 : 0;
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(indOrigin).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(1 - indOrigin).get()->get_state();
 
     // r = h(i,j) - obs = Ri^T * (xj- xi) - obs .  From "i", i.e, at its reference frame, we observe xj
     Mat31 h = nodeTarget - nodeOrigin;
@@ -74,8 +73,9 @@ void Factor2Poses2d::evaluate_residuals() {
 
 void Factor2Poses2d::evaluate_jacobians()
 {
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    uint_t indOrigin = reversedNodeOrder_ ? 1 : 0;
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(indOrigin).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(1 - indOrigin).get()->get_state();
 
     // r =  Ri^T * (xj- xi) - obs
     // J1 = [-R1^T,    J2 = [R1^T 0]
@@ -87,6 +87,9 @@ void Factor2Poses2d::evaluate_jacobians()
     J_ <<   -c1, -s1, -s1*dx + c1*dy,     c1, s1, 0,
              s1, -c1, -c1*dx - s1*dy,    -s1, c1, 0,
               0,   0,    -1,              0,  0, 1;
+    // blocks follow the order of the nodes
+    if (reversedNodeOrder_)
+        J_.leftCols<3>().swap(J_.rightCols<3>());
 }
 
 void Factor2Poses2d::evaluate_chi2()
diff --git a/src/FGraph/mrob/factors/factor2Poses2d.hpp b/src/FGraph/mrob/factors/factor2Poses2d.hpp
index f0b043b..f11d693 100644
--- a/src/FGraph/mrob/factors/factor2Poses2d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses2d.hpp
@@ -74,6 +74,7 @@ namespace mrob{
         Mat31 obs_, r_; //and residuals
         Mat3 W_;//inverse of observation covariance (information matrix)
         Mat<3,6> J_;//Joint Jacobian
+        bool reversedNodeOrder_;//true if the origin has the greater id: nodes are [target, origin]
 
     public:
         EIGEN_MAKE_ALIGNED_OPERATOR_NEW // as proposed by Eigen
-- 
2.43.0


From bcfe51b67189302b5784c8af3f109ffce477dfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 03/31] fix: Factor2Poses2d target initialisation ignored the
 heading of the origin

---
 src/FGraph/factors/factor2Poses2d.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 8db8199..7956bbd 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -47,7 +47,14 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     if (updateNodeTarget)
     {
-        Mat31 dx = nodeOrigin->get_state() +  obs_ - nodeTarget->get_state();
+        // compose the observation, expressed in the origin frame, with the origin pose
+        Mat31 origin = nodeOrigin->get_state();
+        double c1 = std::cos(origin(2)),
+               s1 = std::sin(origin(2));
+        Mat31 target(origin(0) + c1*obs_(0) - s1*obs_(1),
+                     origin(1) + s1*obs_(0) + c1*obs_(1),
+                     origin(2) + obs_(2));
+        Mat31 dx = target - nodeTarget->get_state();
         nodeTarget->update(dx);
     }
 }
-- 
2.43.0


From 132b4f6e28729e7c427458c12904946ad6661da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 04/31] fix: Factor1Pose1Landmark3d ignored initializeLandmark

---
 src/FGraph/factors/factor1Pose1Landmark3d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor1Pose1Landmark3d.cpp b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
index 05a1f6f..507e421 100644
--- a/src/FGraph/factors/factor1Pose1Landmark3d.cpp
+++ b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
@@ -50,7 +50,9 @@ Factor1Pose1Landmark3d::Factor1Pose1Landmark3d(const Mat31 &observation, std::sh
 
     if (initializeLandmark)
     {
-        // TODO Initialize landmark value to whatever observation we see from current pose
+        // Initialize landmark value to whatever observation we see from current pose
+        Mat4 Tx = nodePose->get_state();
+        nodeLandmark->set_state(SE3(Tx).transform(obs_));
     }
 }
 
-- 
2.43.0


From 3996af97040480f6497922a98b10fd1760c5e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 05/31] fix: RANSAC factors never computed their weight and
 were always ignored

---
 src/FGraph/factor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FGraph/factor.cpp b/src/FGraph/factor.cpp
index 06182c2..530bca8 100644
--- a/src/FGraph/factor.cpp
+++ b/src/FGraph/factor.cpp
@@ -63,6 +63,8 @@ matData_t Factor::evaluate_robust_weight(matData_t u, matData_t params)
             robust_weight_ = 1.0/params/params;
             break;
         case RANSAC:
+            // same threshold d = 1 as Huber
+            robust_weight_ = (u < 1.0) ? 1.0 : 0.0;
             break;
         case QUADRATIC:
         default:
-- 
2.43.0


From aac4033af9b1eed0103d684f896eb5e55067fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 06/31] fix: wrap_angle never returned for huge angles

---
 src/FGraph/node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index f318f49..8c9887e 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -22,6 +22,7 @@
  */
 
 #include "mrob/node.hpp"
+#include <cmath>
 
 using namespace mrob;
 
@@ -61,6 +62,9 @@ double mrob::wrap_angle(double angle)
 {
     double pi2 = 2 * M_PI;
 
+    // large angles first: adding 2pi does not change them in floating point
+    if (angle < -2*pi2 || angle > 2*pi2)
+        angle = std::fmod(angle, pi2);
     while (angle < -M_PI) angle += pi2;
     while (angle >= M_PI) angle -= pi2;
 
-- 
2.43.0


From dcd856ecf2f5344aba2b9383c92b332bf597c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 07/31] fix: FGraph::get_node and get_factor with an unknown id
 read out of bounds

---
 src/FGraph/factor_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph.cpp b/src/FGraph/factor_graph.cpp
index 99b882e..1adcccf 100644
--- a/src/FGraph/factor_graph.cpp
+++ b/src/FGraph/factor_graph.cpp
@@ -91,14 +91,14 @@ std::shared_ptr<Node>& FGraph::get_node(factor_id_t key)
 {
     // TODO key on a set or map?
     assert(key < nodes_.size() && "FGraph::get_node: incorrect key");
-    return nodes_[key];// XXX test key  again
+    return nodes_.at(key);
 }
 
 std::shared_ptr<Factor>& FGraph::get_factor(factor_id_t key)
 {
     // TODO key on a set or map?
     assert(key < factors_.size() && "FGraph::get_node: incorrect key");
-    return factors_[key];
+    return factors_.at(key);
 }
 
 
-- 
2.43.0


From 22ddda189578870680737f7a0be56596fee068b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 08/31] fix: FGraph add_node/add_factor left a half-registered
 element when memory ran out

---
 src/FGraph/factor_graph.cpp      | 49 ++++++++++++++++++++++----------
 src/FGraph/mrob/factor_graph.hpp |  5 ++++
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/FGraph/factor_graph.cpp b/src/FGraph/factor_graph.cpp
index 1adcccf..0f571d6 100644
--- a/src/FGraph/factor_graph.cpp
+++ b/src/FGraph/factor_graph.cpp
@@ -43,39 +43,57 @@ FGraph::~FGraph()
 
 factor_id_t FGraph::add_factor(std::shared_ptr<Factor> &factor)
 {
-	factor->set_id(factors_.size());
-	factors_.push_back(factor);
-    auto *list = factor->get_neighbour_nodes();
-    for( auto &&n: *list)
-    {
-        n->add_factor(factor);
-    }
-    obsDim_ += factor->get_dim();
+    insert_factor(factors_, factor);
     return factor->get_id();
 }
 
 factor_id_t FGraph::add_eigen_factor(std::shared_ptr<Factor> &factor)
 {
-    factor->set_id(eigen_factors_.size());
-    eigen_factors_.push_back(factor);
+    insert_factor(eigen_factors_, factor);
+    return factor->get_id();
+}
+
+void FGraph::insert_factor(std::deque<std::shared_ptr<Factor> > &container, std::shared_ptr<Factor> &factor)
+{
+    // all or nothing: any of these insertions may run out of memory
+    container.push_back(factor);
     auto *list = factor->get_neighbour_nodes();
-    for( auto &&n: *list)
+    size_t connected = 0;
+    try
     {
-        n->add_factor(factor);
+        for( auto &&n: *list)
+        {
+            n->add_factor(factor);
+            ++connected;
+        }
     }
+    catch (...)
+    {
+        for (size_t i = 0; i < connected; ++i)
+            (*list)[i]->rm_factor(factor);
+        container.pop_back();
+        throw;
+    }
+    factor->set_id(container.size() - 1);
     obsDim_ += factor->get_dim();
-    return factor->get_id();
 }
 
 
 factor_id_t FGraph::add_node(std::shared_ptr<Node> &node)
 {
-	node->set_id(nodes_.size());
 	nodes_.push_back(node);
 	switch(node->get_node_mode())
 	{
 	    case Node::nodeMode::STANDARD:
-	        active_nodes_.push_back(node);
+	        try
+	        {
+	            active_nodes_.push_back(node);
+	        }
+	        catch (...)
+	        {
+	            nodes_.pop_back();
+	            throw;
+	        }
 	        stateDim_ += node->get_dim();
 	        break;
 	    case Node::nodeMode::ANCHOR:
@@ -84,6 +102,7 @@ factor_id_t FGraph::add_node(std::shared_ptr<Node> &node)
 	        assert(0 && "add_node::SCHUR_MARGI: Functionality not programmed yey");
 	        break;
 	}
+	node->set_id(nodes_.size() - 1);
 	return node->get_id();
 }
 
diff --git a/src/FGraph/mrob/factor_graph.hpp b/src/FGraph/mrob/factor_graph.hpp
index 23fd8e3..9c0d270 100644
--- a/src/FGraph/mrob/factor_graph.hpp
+++ b/src/FGraph/mrob/factor_graph.hpp
@@ -135,6 +135,11 @@ protected:
      * and the observations (factors)
      */
     uint_t stateDim_, obsDim_;
+
+    /**
+     * Inserts the factor and connects it to its nodes. If an exception is raised, nothing changes
+     */
+    void insert_factor(std::deque<std::shared_ptr<Factor> > &container, std::shared_ptr<Factor> &factor);
 };
 
 
-- 
2.43.0


From eaf563f0aac871fe41bed6981cc2f994b7ef918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 09/31] fix: FGraph registered a node or factor again when it
 was already in the graph

---
 src/FGraph/factor_graph.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/FGraph/factor_graph.cpp b/src/FGraph/factor_graph.cpp
index 0f571d6..869b8f4 100644
--- a/src/FGraph/factor_graph.cpp
+++ b/src/FGraph/factor_graph.cpp
@@ -43,12 +43,20 @@ FGraph::~FGraph()
 
 factor_id_t FGraph::add_factor(std::shared_ptr<Factor> &factor)
 {
+    // already in the set
+    factor_id_t id = factor->get_id();
+    if (id < factors_.size() && factors_[id] == factor)
+        return id;
     insert_factor(factors_, factor);
     return factor->get_id();
 }
 
 factor_id_t FGraph::add_eigen_factor(std::shared_ptr<Factor> &factor)
 {
+    // already in the set
+    factor_id_t id = factor->get_id();
+    if (id < eigen_factors_.size() && eigen_factors_[id] == factor)
+        return id;
     insert_factor(eigen_factors_, factor);
     return factor->get_id();
 }
@@ -81,6 +89,10 @@ void FGraph::insert_factor(std::deque<std::shared_ptr<Factor> > &container, std:
 
 factor_id_t FGraph::add_node(std::shared_ptr<Node> &node)
 {
+	// already in the set
+	factor_id_t id = node->get_id();
+	if (id < nodes_.size() && nodes_[id] == node)
+	    return id;
 	nodes_.push_back(node);
 	switch(node->get_node_mode())
 	{
-- 
2.43.0


From d5fe6d38e478659802e4567a41a0c41d52dcc922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 10/31] fix: FGraphSolveDense optimised anchored nodes and
 wrote outside its system

---
 src/FGraph/factor_graph_solve_dense.cpp | 29 ++++++++++++++-----------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 916e8a7..d534038 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -76,24 +76,24 @@ void FGraphSolveDense::calculate_gradient_hessian()
 
     // 3) calculate the indexes for the nodes for block allocation
     std::vector<uint_t> indNodesMatrix, indNodeId;
-    indNodesMatrix.reserve(nodes_.size());
-    indNodeId.reserve(nodes_.size());
+    indNodesMatrix.reserve(active_nodes_.size());
+    indNodeId.reserve(active_nodes_.size());
     uint_t N = 0, M = 0;
-    for (size_t i = 0; i < nodes_.size(); ++i)
+    for (size_t i = 0; i < active_nodes_.size(); ++i)
     {
         // calculate the indices to access
-        uint_t dim = nodes_[i]->get_dim();
+        uint_t dim = active_nodes_[i]->get_dim();
         indNodesMatrix.push_back(N);
-        indNodeId.push_back(nodes_[i]->get_id()); //bookkeeps the nodes ids
+        indNodeId.push_back(active_nodes_[i]->get_id()); //bookkeeps the nodes ids
         N += dim;
     }
     assert(N == stateDim_ && "FGraphSolveDense::HessianAndGradient: State Dimensions are not coincident\n");
 
     // 4) create Hessian and gradient, by traversing all nodes, looking for its factors
     //    and completing the rows in the Hessian and gradient.
-    for (uint_t n = 0; n < nodes_.size(); ++n)
+    for (uint_t n = 0; n < active_nodes_.size(); ++n)
     {
-        auto node = nodes_[n];
+        auto node = active_nodes_[n];
         uint_t node_id =  node->get_id();
         N = node->get_dim();
         auto factors = node->get_neighbour_factors();
@@ -125,6 +125,9 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
+                // anchors are constant, they have no columns
+                if (node2->get_node_mode() == Node::nodeMode::ANCHOR)
+                    continue;
                 // Gradient: Grad(n) = \sum J_n_t*W*r
                 gradient_.segment(indNodesMatrix[n], N) +=
                         J_n_t * f->get_information_matrix() * f->get_residual();
@@ -145,25 +148,25 @@ void FGraphSolveDense::calculate_gradient_hessian()
 void FGraphSolveDense::update_state()
 {
     int acc_start = 0;
-    for (uint_t i = 0; i < nodes_.size(); i++)
+    for (uint_t i = 0; i < active_nodes_.size(); i++)
     {
         // node update is the negative of dx just calculated.
         // x = x - alpha * H^(-1) * Grad = x - dx
         // Depending on the optimization, it is already taking care of the step alpha, so we assume alpha = 1
-        const auto &node_update = dx_.block(acc_start, 0, nodes_[i]->get_dim(), 1);
-        nodes_[i]->update(node_update);
+        const auto &node_update = dx_.block(acc_start, 0, active_nodes_[i]->get_dim(), 1);
+        active_nodes_[i]->update(node_update);
 
-        acc_start += nodes_[i]->get_dim();
+        acc_start += active_nodes_[i]->get_dim();
     }
 }
 void FGraphSolveDense::bookkeep_state()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_auxiliary_state(n->get_state());
 }
 void FGraphSolveDense::update_state_from_bookkeep()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_state(n->get_auxiliary_state());
 }
 
-- 
2.43.0


From 0cc03151cf87534e9f4819d054d1fe4a25ea6d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 11/31] fix: FGraphSolveDense counted the gradient of a factor
 once per connected node

---
 src/FGraph/factor_graph_solve_dense.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index d534038..2c68700 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -117,6 +117,10 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 matrix_index += (*nodes_connected)[m]->get_dim();
             }
 
+            // Gradient: Grad(n) = \sum J_n_t*W*r
+            gradient_.segment(indNodesMatrix[n], N) +=
+                    J_n_t * f->get_information_matrix() * f->get_residual();
+
             // Calculate the second part corresponding on the second factor
             matrix_index = 0;
             for (uint_t m = 0; m < nodes_connected->size() ; ++m)
@@ -128,9 +132,6 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 // anchors are constant, they have no columns
                 if (node2->get_node_mode() == Node::nodeMode::ANCHOR)
                     continue;
-                // Gradient: Grad(n) = \sum J_n_t*W*r
-                gradient_.segment(indNodesMatrix[n], N) +=
-                        J_n_t * f->get_information_matrix() * f->get_residual();
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
-- 
2.43.0


From 9464cbd49291658646a517e75e17098e5bbbce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 12/31] fix: Levenberg-Marquardt kept a step whose error is not
 a number

---
 src/FGraph/factor_graph_solve.cpp | 2 +-
 src/common/optimizer.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index ed667b3..e9e0741 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -169,7 +169,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
                   << iter << " lambda = " << lambda_ << ", error " << currentChi2
                   << ", and delta = " << deltaChi2
                   << std::endl;
-        if (deltaChi2 < 0)
+        if (!(deltaChi2 >= 0)) // worse, or not a number
         {
             // proposed dx did not improve, repeat 1) and reduce area of optimization = increase lambda
             lambda_ *= beta1;
diff --git a/src/common/optimizer.cpp b/src/common/optimizer.cpp
index 8e68128..be49726 100644
--- a/src/common/optimizer.cpp
+++ b/src/common/optimizer.cpp
@@ -122,7 +122,7 @@ uint_t Optimizer::optimize_levenberg_marquardt()
         improvement = true;
 
         // 2) Check for convergence, hillclimb
-        if (diff_error < 0)
+        if (!(diff_error >= 0)) // worse, or not a number
         {
             //std::cout << "no improvement\n";
             lambda_ *= beta1;
-- 
2.43.0


From c97c665c8344126bbd4f3550c6e36de10e6ff01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 13/31] fix: Plane ignored points added after its first
 estimation

---
 src/PCRegistration/plane.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index b61d2fc..016c2f6 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -104,6 +104,13 @@ void Plane::push_back_point(Mat31 &point, uint_t t)
         //allPlanePoints_[t].push_back(homogeneousPoint);
         allPlanePoints_[t].push_back(point);
         ++numberPoints_;
+        // keep S up to date if already calculated
+        if (!matrixS_.empty())
+        {
+            Mat41 pHomog;
+            pHomog << point , 1.0;
+            matrixS_[t] += pHomog * pHomog.transpose();
+        }
     }
 }
 
-- 
2.43.0


From 9f84746bbb3b816babad8059c21b836c0dca4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 14/31] fix: Plane::clear_points left stale counts and
 out-of-bounds accesses

---
 src/PCRegistration/plane.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 016c2f6..9643213 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -123,7 +123,10 @@ std::vector<Mat31>& Plane::get_points(uint_t t)
 
 void Plane::clear_points()
 {
-    allPlanePoints_.clear();
+    for (auto &points : allPlanePoints_)
+        points.clear();
+    numberPoints_ = 0;
+    matrixS_.clear();
 }
 
 
-- 
2.43.0


From 788f7c92805638dabbe6902313232aa0c0b99ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 15/31] fix: PlaneRegistration initialisation paired wrong
 planes when one is unseen at the first pose

---
 src/PCRegistration/plane_registration.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 552285a..ef4ea02 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -250,17 +250,8 @@ uint_t PlaneRegistration::solve_quaternion_plane()
 
 uint_t PlaneRegistration::solve_initialize()
 {
-    // Initialize matrices of , all points in the Y matrix
-    std::vector<Mat31> Y_points_all;
-    Y_points_all.reserve(numberPlanes_);
-
-    // update data structure for init. All point in the fist pose
     for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
-    {
         it->second->calculate_all_matrices_S();
-        if (it->second->get_number_points(0) > 0 )
-            Y_points_all.push_back(it->second->get_mean_point(0));
-    }
 
     uint_t t = 0;
     // create points Y,X, for t = 1, ... T, minimum 3 planes per pose
@@ -274,16 +265,15 @@ uint_t PlaneRegistration::solve_initialize()
         X_points.clear();
         Y_points.clear();
         number_points = 0;
-        uint_t cont =0;
         for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
         {
-            if (it->second->get_number_points(t) > 0 )
+            // only planes observed both from the first and the current pose
+            if (it->second->get_number_points(t) > 0 && it->second->get_number_points(0) > 0)
             {
                 X_points.push_back(it->second->get_mean_point(t));
-                Y_points.push_back(Y_points_all[cont]);
+                Y_points.push_back(it->second->get_mean_point(0));
                 number_points++;
             }
-            cont++;
         }
         // Create the matrices X,Y
         MatX X(number_points,3), Y(number_points,3);
-- 
2.43.0


From e57aa89b301864773246f4d7acb10a537a8ef631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 16/31] fix: PlaneRegistration did not count added planes and
 print_evaluate overflowed

---
 src/PCRegistration/plane_registration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index ef4ea02..88b2636 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -318,6 +318,8 @@ void PlaneRegistration::add_plane(uint_t id, std::shared_ptr<Plane> &plane)
 {
     plane->set_trajectory(trajectory_);
     planes_.emplace(id, plane);
+    if (numberPlanes_ < planes_.size())
+        numberPlanes_ = planes_.size();
 }
 
 void PlaneRegistration::add_new_plane(uint_t id)
@@ -325,6 +327,8 @@ void PlaneRegistration::add_new_plane(uint_t id)
     std::shared_ptr<Plane> plane(new Plane(numberPoses_));
     plane->set_trajectory(trajectory_);
     planes_.emplace(id, plane);
+    if (numberPlanes_ < planes_.size())
+        numberPlanes_ = planes_.size();
 }
 
 void PlaneRegistration::plane_push_back_point(uint_t id, uint_t t, Mat31 &point)
-- 
2.43.0


From ec50740d2b2da799fa1f3357f52e443541b96735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 17/31] fix: PlaneRegistration::print_evaluate read an
 uninitialised Hessian after initialisation

---
 src/PCRegistration/plane_registration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 88b2636..afe3369 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -431,6 +431,7 @@ std::vector<double> PlaneRegistration::print_evaluate()
         case SolveMode::INITIALIZE:
         case SolveMode::GN_CLAMPED_HESSIAN:
             std::cout << "PlaneRegistration::print_evaluate: Not handled" << std::endl;
+            hessian__.setZero();
             break;
     }
 
-- 
2.43.0


From dadd67d37306fc6bb63be9e9b97bc82e6f07515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 18/31] fix: arun returned a not-a-number transformation as a
 success for empty point clouds

---
 src/PCRegistration/arun.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PCRegistration/arun.cpp b/src/PCRegistration/arun.cpp
index 89af244..e6c2772 100644
--- a/src/PCRegistration/arun.cpp
+++ b/src/PCRegistration/arun.cpp
@@ -37,6 +37,8 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
     assert(X.rows() >= 3  && "PCRegistration::Arun: Incorrect sizing, we expect at least 3 correspondences (not aligned)");
     assert(Y.rows() == X.rows()  && "PCRegistration::Arun: Same number of correspondences");
     uint_t N = X.rows();
+    if (N < 3)
+        return 0;//not enough correspondences
     /** Algorithm:
      *  1) calculate centroids cx = sum x_i. cy = sum y_i
      *  2) calculate dispersion from centroids qx = x_i - cx
-- 
2.43.0


From 9f9e3aa894a4cf7a8a1aae3ae56cbd2f634f5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 19/31] fix: arun refused well-conditioned symmetric point
 clouds as co-linear

---
 src/PCRegistration/arun.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/PCRegistration/arun.cpp b/src/PCRegistration/arun.cpp
index e6c2772..2e5e50f 100644
--- a/src/PCRegistration/arun.cpp
+++ b/src/PCRegistration/arun.cpp
@@ -44,7 +44,7 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
      *  2) calculate dispersion from centroids qx = x_i - cx
      *  3) calculate matrix H = sum qx_i * qy_i^T
      *  4) svd decomposition: H = U*D*V'
-     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
+     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are zero
      *  5) Calculate the rotation solution R = V*U'
      *      5.5) check for correct solution (det = +1) or reflection (det = -1)
      *      step 5.5 is actually unnecessary IF applying Umeyama technique
@@ -77,17 +77,10 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
                  ",\n V = " << SVD.matrixV() << std::endl;*/
 
 
-    // 4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
-    double l_prev = SVD.singularValues()(0), l;
-    for(int i =1; i < 3; ++i)
-    {
-        l = SVD.singularValues()(i);
-        if (fabs(l - l_prev) < 1e-6)
-
-            return 0; //they are co-linear, there exist infinite transformations
-        else
-            l_prev = l;//this works because we assume that they singular values are ordered.
-    }
+    // 4.5) look for co-linear solutions, that is 2 of the 3 singular values are zero.
+    // Singular values are sorted in decreasing order
+    if (SVD.singularValues()(1) < 1e-6)
+        return 0; //they are co-linear, there exist infinite transformations
 
 
     // 5) Calculate the rotation solution R = V*U'
-- 
2.43.0


From 0b2dc5e56c1e2e658c6c4678dbacdb93f52916b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 20/31] fix: a solve interrupted by lack of memory left
 dangling vectors in the solvers

---
 src/FGraph/factor_graph_solve.cpp       | 13 +++++++++----
 src/FGraph/factor_graph_solve_dense.cpp |  9 +++++----
 src/common/optimizer.cpp                |  4 +++-
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index e9e0741..c1cd910 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -110,7 +110,8 @@ void FGraphSolve::build_problem(bool useLambda)
     // Structure for LM and dampening GN-based methods
     if (useLambda)
     {
-        diagL_ = L_.diagonal();
+        MatX1 diagonal = L_.diagonal();
+        diagL_.swap(diagonal);
     }
 }
 
@@ -132,7 +133,8 @@ void FGraphSolve::optimize_gauss_newton(bool useLambda)
     cholesky.compute(L_);
     time_profiles_.stop("Gauss Newton create Cholesky");
     time_profiles_.start();
-    dx_ = cholesky.solve(b_);
+    MatX1 dx = cholesky.solve(b_);
+    dx_.swap(dx);
     time_profiles_.stop("Gauss Newton solve Cholesky");
 
 }
@@ -214,7 +216,9 @@ void FGraphSolve::build_adjacency()
 {
     assert(obsDim_ > 0 && "FGraphSolve::build_adjacency: empty observations vector");
     // 1) resize properly matrices (if needed)
-    r_.resize(obsDim_,1);//dense vector TODO is it better to reserve and push_back??
+    // (vectors are replaced by swapping: a dense Eigen resize interrupted by lack of memory leaves a dangling pointer)
+    MatX1 residuals(obsDim_);
+    r_.swap(residuals);//dense vector TODO is it better to reserve and push_back??
     A_.resize(obsDim_, stateDim_);//Sparse matrix clear data
     W_.resize(obsDim_, obsDim_);//TODO should we reinitialize this all the time? an incremental should be fairly easy
 
@@ -339,7 +343,8 @@ void FGraphSolve::build_info_adjacency()
      *
      */
     L_ = (A_.transpose() * W_.selfadjointView<Eigen::Upper>() * A_);
-    b_ = A_.transpose() * W_.selfadjointView<Eigen::Upper>() * r_;
+    MatX1 b = A_.transpose() * W_.selfadjointView<Eigen::Upper>() * r_;
+    b_.swap(b);
 }
 
 matData_t FGraphSolve::chi2(bool evaluateResidualsFlag)
diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 2c68700..034e43b 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -59,10 +59,11 @@ void FGraphSolveDense::calculate_gradient_hessian()
 {
     // 1) calculate dimensionality and resize properly
     uint_t n = this->get_dimension_state();
-    gradient_.resize(n);
-    gradient_.setZero();
-    hessian_.resize(n,n);
-    hessian_.setZero();
+    // (replaced by swapping: a dense Eigen resize interrupted by lack of memory leaves a dangling pointer)
+    MatX1 gradient = MatX1::Zero(n);
+    gradient_.swap(gradient);
+    MatX hessian = MatX::Zero(n,n);
+    hessian_.swap(hessian);
 
     // 2) evaluate residuals and Jacobians
     for (uint_t i = 0; i < factors_.size(); ++i)
diff --git a/src/common/optimizer.cpp b/src/common/optimizer.cpp
index be49726..df6eb5b 100644
--- a/src/common/optimizer.cpp
+++ b/src/common/optimizer.cpp
@@ -75,7 +75,9 @@ uint_t OptimizerDense::optimize_newton_raphson_one_iteration(bool useLambda)
     }
 
     // 2) dx = - h^-1 * grad XXX test for singularities?
-    dx_ = - hessian_.inverse() * gradient_;
+    // (swapped: a dense Eigen resize interrupted by lack of memory leaves a dangling pointer)
+    MatX1 dx = - hessian_.inverse() * gradient_;
+    dx_.swap(dx);
     // 3) update the solution
     this->update_state();
 
-- 
2.43.0


From 234218a8ec9837b2dce1ba4591749e5ba35f08a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:51 +0000
Subject: [PATCH 21/31] fix: Factor2Poses2dOdom Jacobian ignored the first
 rotation of the odometry

---
 src/FGraph/factors/factor2Poses2d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 7956bbd..049eb32 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -144,7 +144,9 @@ void Factor2Poses2dOdom::evaluate_jacobians()
     // Get the position of node we are traversing from
     Mat31 node1 = get_neighbour_nodes()->at(0).get()->get_state();
 
-    auto s = -obs_(1) * std::sin(node1(2)), c = obs_(1) * std::cos(node1(2));
+    // the displacement happens after the first rotation
+    matData_t heading = node1(2) + obs_(0);
+    auto s = -obs_(1) * std::sin(heading), c = obs_(1) * std::cos(heading);
 
     // Jacobians for odometry model which are: G and -I
     J_ <<   1, 0, s,    -1, 0, 0,
-- 
2.43.0


From 0d614efcadaa6897bead0fad7725d6de3ab97844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 22/31] fix: a solve interrupted by lack of memory left
 half-built matrices behind

---
 src/FGraph/factor_graph_solve.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index c1cd910..633f014 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -219,8 +219,9 @@ void FGraphSolve::build_adjacency()
     // (vectors are replaced by swapping: a dense Eigen resize interrupted by lack of memory leaves a dangling pointer)
     MatX1 residuals(obsDim_);
     r_.swap(residuals);//dense vector TODO is it better to reserve and push_back??
-    A_.resize(obsDim_, stateDim_);//Sparse matrix clear data
-    W_.resize(obsDim_, obsDim_);//TODO should we reinitialize this all the time? an incremental should be fairly easy
+    // (the matrices are built aside, so that an interruption does not leave them half-built)
+    SMatRow A(obsDim_, stateDim_);
+    SMatRow W(obsDim_, obsDim_);//TODO should we reinitialize this all the time? an incremental should be fairly easy
 
 
     // 2) vector structure to bookkeep the starting Nodes indices inside A
@@ -269,8 +270,8 @@ void FGraphSolve::build_adjacency()
         M_ += dim;
     }
     assert(M_ == obsDim_ && "FGraphSolve::buildAdjacency: Observation dimensions are not coincident\n");
-    A_.reserve(reservationA); //Exact allocation for elements.
-    W_.reserve(reservationW); //same
+    A.reserve(reservationA); //Exact allocation for elements.
+    W.reserve(reservationW); //same
 
 
     // XXX This could be subject to parallelization, maybe on two steps: eval + build
@@ -306,7 +307,7 @@ void FGraphSolve::build_adjacency()
                     // In release mode, indexes outside will not trigger an exception
                     uint_t iCol = indNodesMatrix[id] + k;
                     // This is an ordered insertion
-                    A_.insert(iRow,iCol) = f->get_jacobian()(l, k + totalK);
+                    A.insert(iRow,iCol) = f->get_jacobian()(l, k + totalK);
                 }
                 totalK += dimNode;
             }
@@ -324,12 +325,13 @@ void FGraphSolve::build_adjacency()
                 uint_t iRow = indFactorsMatrix[i] + l;
                 uint_t iCol = indFactorsMatrix[i] + k;
                 robust_weight = f->evaluate_robust_weight(std::sqrt(f->get_chi2()));
-                W_.insert(iRow,iCol) = robust_weight * f->get_information_matrix()(l,k);
+                W.insert(iRow,iCol) = robust_weight * f->get_information_matrix()(l,k);
             }
         }
     } //end factors loop
 
-
+    A_.swap(A);
+    W_.swap(W);
 }
 
 void FGraphSolve::build_info_adjacency()
-- 
2.43.0


From f6fec72e6e6059833aca441d983725b73a78ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:11 +0000
Subject: [PATCH 23/31] fix: Gauss-Newton used the leftovers of a failed
 factorization as an update

---
 src/FGraph/factor_graph_solve.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index 633f014..bb52cfa 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -133,7 +133,15 @@ void FGraphSolve::optimize_gauss_newton(bool useLambda)
     cholesky.compute(L_);
     time_profiles_.stop("Gauss Newton create Cholesky");
     time_profiles_.start();
-    MatX1 dx = cholesky.solve(b_);
+    MatX1 dx;
+    if (cholesky.info() == Eigen::Success)
+        dx = cholesky.solve(b_);
+    else
+    {
+        // a failed factorization holds no solution (only uninitialised memory)
+        dx = MatX1::Zero(N_);
+        std::cout << "FGraphSolve::optimize_gauss_newton: singular system, no update" << std::endl;
+    }
     dx_.swap(dx);
     time_profiles_.stop("Gauss Newton solve Cholesky");
 
-- 
2.43.0


From 3362c22b409df61c2bc1b5129fba1ea4049378fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:03 +0000
Subject: [PATCH 24/31] fix: Plane::calculate_hessian counted part of the
 second derivative twice

---
 src/PCRegistration/plane.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 9643213..e0f5bff 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -295,7 +295,7 @@ Mat6 Plane::calculate_hessian(uint_t t)
     Mat4 ddQ, &Q = matrixQ_[t];
 
     // H = pi' * dd Q * pi, where dd Q = Bij + Bij' and
-    // Bij = (Gi*Gj + Gj*Gi)Q*0.5 + Gi * dQ (previous gradient)
+    // Bij = (Gi*Gj + Gj*Gi)Q*0.5 + Gi * Q * Gj'
     // Upper triangular matrix
     for (uint_t i =0 ; i< 6 ; ++i)
     {
@@ -305,7 +305,7 @@ Mat6 Plane::calculate_hessian(uint_t t)
             ddQ = lieGenerativeMatrices_[i]*lieGenerativeMatrices_[j] + lieGenerativeMatrices_[j]*lieGenerativeMatrices_[i];
             //compound operator *= as in a*=b (this multiplies on the right: a*=b is equivalent to a = a*b)
             ddQ *= 0.5 * Q;
-            ddQ += lieGenerativeMatrices_[i] * gradQ_[j];
+            ddQ += lieGenerativeMatrices_[i] * Q * lieGenerativeMatrices_[j].transpose();
             ddQ += ddQ.transpose().eval();
             hessian(i,j) = planeEstimation_.dot(ddQ*planeEstimation_);
         }
-- 
2.43.0


From 8b6596bcfcc7e0ce8040b61dc245cd2b9256658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:44 +0000
Subject: [PATCH 25/31] fix: Plane::estimate_plane_incrementally kept the
 replaced observation matrix and error

---
 src/PCRegistration/plane.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index e0f5bff..ac2f688 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -158,11 +158,13 @@ double Plane::estimate_plane()
 double Plane::estimate_plane_incrementally(uint_t t)
 {
     accumulatedQ_ -= matrixQ_[t];
-    accumulatedQ_ +=  trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    matrixQ_[t].noalias() = trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    accumulatedQ_ += matrixQ_[t];
     //std::cout << "new acc Q " << accumulatedQ_ << std::endl;
     Eigen::SelfAdjointEigenSolver<Mat4> eigs(accumulatedQ_);
     planeEstimation_ = eigs.eigenvectors().col(0);
-    return eigs.eigenvalues()(0);
+    lambda_ = eigs.eigenvalues()(0);
+    return lambda_;
 }
 
 double Plane::get_error_incremental(uint_t t) const
-- 
2.43.0


From 6856c4d055e8d5721f729087a1e471933b8d32f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:28 +0000
Subject: [PATCH 26/31] fix: a rejected Levenberg-Marquardt step of
 PlaneRegistration re-interpolated the intermediate poses

---
 src/PCRegistration/mrob/plane_registration.hpp |  2 +-
 src/PCRegistration/plane_registration.cpp      | 12 ++----------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/PCRegistration/mrob/plane_registration.hpp b/src/PCRegistration/mrob/plane_registration.hpp
index 73ded3a..d57c80c 100644
--- a/src/PCRegistration/mrob/plane_registration.hpp
+++ b/src/PCRegistration/mrob/plane_registration.hpp
@@ -183,7 +183,7 @@ class PlaneRegistration: public OptimizerDense{
     uint_t time_{};
     std::unordered_map<uint_t, std::shared_ptr<Plane>> planes_;
     std::shared_ptr<std::vector<SE3>> trajectory_;
-    SE3 bookept_trajectory_;//last pose is stored/bookept
+    std::vector<SE3> bookept_trajectory_;//all poses are stored/bookept
     double tau_ {};//variable for weighting the number of poses in traj
     uint_t solveIters_ {};
 
diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index afe3369..e5df16b 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -512,20 +512,12 @@ void PlaneRegistration::update_state()
 
 void PlaneRegistration::bookkeep_state()
 {
-    bookept_trajectory_ = trajectory_->back();
+    bookept_trajectory_ = *trajectory_;
 }
 
 void PlaneRegistration::update_state_from_bookkeep()
 {
-    trajectory_->back() = bookept_trajectory_;
-    Mat61 xiFinal = bookept_trajectory_.ln_vee();
-    double  tau = 1.0 / (double)(numberPoses_-1);
-    Mat61 dxi;
-    for (uint_t t = 1 ; t < numberPoses_-1; ++t)
-    {
-        dxi = tau * t * xiFinal;
-        trajectory_->at(t) = SE3(dxi);
-    }
+    *trajectory_ = bookept_trajectory_;
     calculate_error();// planes get recalculated, which is a requisite for later
     //(this class construction, in general grad should be self-contained...)
 }
-- 
2.43.0


From 104dcc98c3e1cb36cb40963fc5c149124ac33d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:25 +0000
Subject: [PATCH 27/31] fix: gradient registration divided by the number of
 points of poses that observe nothing

---
 src/PCRegistration/plane_registration.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index e5df16b..834f772 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -161,7 +161,8 @@ uint_t PlaneRegistration::solve_interpolate_gradient(bool singleIteration)
                 numberPoints += it->second->get_number_points(t);
             }
             // XXX this could be changed to time stamps later
-            accumulatedJacobian +=  (tau *  t  / numberPoints / numberPoses_) * jacobian;
+            if (numberPoints > 0.0) // a pose with no observations adds no gradient
+                accumulatedJacobian +=  (tau *  t  / numberPoints / numberPoses_) * jacobian;
 
         }
         // 3) update results Tf = exp(-dxi) * Tf (our convention, we expanded from the left)
@@ -214,14 +215,13 @@ uint_t PlaneRegistration::solve_gradient_all_poses(bool singleIteration)
 
         // 2) calculate Gradient
         MatX1 jacobian = MatX1::Zero(numberPoses_*6);
-        double  numberPoints; //, tau = 1.0 / (double)(numberPoses_-1);
+        std::vector<double> numberPoints(numberPoses_, 0.0); //, tau = 1.0 / (double)(numberPoses_-1);
         for (uint_t t = 1 ; t < numberPoses_; ++t)
         {
-            numberPoints = 0.0;
             for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
             {
                 jacobian.segment<6>(t*6) += it->second->calculate_gradient(t);
-                numberPoints += it->second->get_number_points(t);
+                numberPoints[t] += it->second->get_number_points(t);
             }
 
         }
@@ -230,7 +230,9 @@ uint_t PlaneRegistration::solve_gradient_all_poses(bool singleIteration)
         Mat61 dxi;
         for (uint_t t = 1 ; t < numberPoses_; ++t)
         {
-            Mat61 dxi = -(alpha_ / numberPoints / numberPoses_ )*jacobian.segment<6>(t*6);
+            if (!(numberPoints[t] > 0.0)) // a pose with no observations does not move
+                continue;
+            Mat61 dxi = -(alpha_ / numberPoints[t] / numberPoses_ )*jacobian.segment<6>(t*6);
             trajectory_->at(t).update_lhs(dxi);
         }
         ++solveIters_;
-- 
2.43.0


From 6d798e958f1404228e88231cc5e7c37c20659811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:05 +0000
Subject: [PATCH 28/31] fix: a singular Hessian made the dense optimizer write
 not-a-number states

---
 src/common/optimizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/optimizer.cpp b/src/common/optimizer.cpp
index df6eb5b..f436704 100644
--- a/src/common/optimizer.cpp
+++ b/src/common/optimizer.cpp
@@ -74,9 +74,11 @@ uint_t OptimizerDense::optimize_newton_raphson_one_iteration(bool useLambda)
         }
     }
 
-    // 2) dx = - h^-1 * grad XXX test for singularities?
+    // 2) dx = - h^-1 * grad
     // (swapped: a dense Eigen resize interrupted by lack of memory leaves a dangling pointer)
     MatX1 dx = - hessian_.inverse() * gradient_;
+    if (!dx.allFinite())
+        dx.setZero();// singular Hessian: there is no step to take
     dx_.swap(dx);
     // 3) update the solution
     this->update_state();
-- 
2.43.0


From 2ff0d608989d34e73e1ae3c827f2cc2ed83ff096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:10 +0000
Subject: [PATCH 29/31] fix: gicp and weighted_point returned a not-a-number
 transformation for degenerate point clouds

---
 src/PCRegistration/gicp.cpp         | 8 ++++++++
 src/PCRegistration/weight_point.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/PCRegistration/gicp.cpp b/src/PCRegistration/gicp.cpp
index f52a83a..1e7eb1b 100644
--- a/src/PCRegistration/gicp.cpp
+++ b/src/PCRegistration/gicp.cpp
@@ -37,6 +37,9 @@ int PCRegistration::gicp(const Eigen::Ref<const MatX> X, const Eigen::Ref<const
     assert(X.rows() >= 3  && "PCRegistration::Gicp: Incorrect sizing, we expect at least 3 correspondences (not aligned)");
     assert(Y.rows() == X.rows()  && "PCRegistration::Gicp: Same number of correspondences");
     uint_t N = X.rows();
+    if (N < 3)
+        return 0;//not enough correspondences, the solution is left as it was
+    const SE3 Tinit(T);
     // TODO precalculation of T by reduced Arun
     // TODO different number of iterations and convergence criterion
 
@@ -69,6 +72,11 @@ int PCRegistration::gicp(const Eigen::Ref<const MatX> X, const Eigen::Ref<const
         }
         // 4) Update Solution
         Mat61 dxi = -H.inverse()*J;
+        if (!dxi.allFinite())
+        {
+            T = Tinit;
+            return 0;//degenerate (e.g. aligned) points, H is not invertible
+        }
         T.update_lhs(dxi); //Left side update
         deltaUpdate = dxi.norm();
         iters++;
diff --git a/src/PCRegistration/weight_point.cpp b/src/PCRegistration/weight_point.cpp
index 0b97498..121e3c3 100644
--- a/src/PCRegistration/weight_point.cpp
+++ b/src/PCRegistration/weight_point.cpp
@@ -37,6 +37,9 @@ int PCRegistration::weighted_point(const Eigen::Ref<const MatX> X, const Eigen::
     assert(X.rows() >= 3  && "PCRegistration::Gicp: Incorrect sizing, we expect at least 3 correspondences (not aligned)");
     assert(Y.rows() == X.rows()  && "PCRegistration::Gicp: Same number of correspondences");
     uint_t N = X.rows();
+    if (N < 3)
+        return 0;//not enough correspondences, the solution is left as it was
+    const SE3 Tinit(T);
     // TODO precalculation of T by reduced Arun
 
     // Initialize Jacobian and Hessian
@@ -67,6 +70,11 @@ int PCRegistration::weighted_point(const Eigen::Ref<const MatX> X, const Eigen::
         }
         // 4) Update Solution
         Mat61 dxi = -H.inverse()*J;
+        if (!dxi.allFinite())
+        {
+            T = Tinit;
+            return 0;//degenerate (e.g. aligned) points, H is not invertible
+        }
         T.update_lhs(dxi); //Left side update
         deltaUpdate = dxi.norm();
         iters++;
-- 
2.43.0


From 74bd181452cda263c3515b8a9bb8ec04e4be16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:11 +0000
Subject: [PATCH 30/31] fix: fourth-order covariance compounding used the
 transposed cross covariance of the first pose

---
 src/geometry/SE3cov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3cov.cpp b/src/geometry/SE3cov.cpp
index 71e35d6..cc8ffdb 100644
--- a/src/geometry/SE3cov.cpp
+++ b/src/geometry/SE3cov.cpp
@@ -71,7 +71,7 @@ SE3Cov SE3Cov::compound_4th_order(const SE3 &pose_increment, const Mat6 &increme
                      brackets(sigma_1_rr, sigma_2_tt);
 
     Mat3 B_rho_phi = brackets(sigma_1_tt, sigma_2_tr) +
-                     brackets(sigma_1_rt, sigma_2_tt);// There is a mistake in Barfoots p.265,
+                     brackets(sigma_1_tr, sigma_2_tt);// There is a mistake in Barfoots p.265,
 
     Mat3 B_phi_phi = brackets(sigma_1_tt, sigma_2_tt);
 
-- 
2.43.0


From f183c3879ee5a90f50f4c550038466928e8196bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:06 +0000
Subject: [PATCH 31/31] fix: logarithm of a tiny rotation was zero whenever
 rounding took the trace above three

---
 src/geometry/SO3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 395ad64..1b7da46 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -141,7 +141,7 @@ Mat3 SO3::ln(double *ro) const
         // Special case tr =1  and theta -> 0
         if ( std::isnan(o) )
         {
-            d1 = 0.0;
+            d1 = 0.5; // limit of the Taylor expansion below: the angle is tiny, but not necessarily zero
             o = 0.0;
         }
         // 2) incorrect x/sin when approaching 0. The other problematic point o = pi is handled below
-- 
2.43.0

