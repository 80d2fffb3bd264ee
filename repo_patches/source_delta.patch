From 36f6a50224552513c6cee6e01ae1f23a3ccda563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 01/22] fix: keep step values that are still needed when sizing
 the step dimension

The number of values kept in the step dimension was computed as the
maximum over stages of the range used within each stage, and memory was
reused when a var was read and written without halos in one stage. Both
ignored other uses: a value written in one stage and the older value
needed in the same or a later stage could share memory, and another
equation in the same stage could read a value after it was overwritten.
Also, the step-alloc override (API and -step-alloc) had no effect.
---
 src/compiler/lib/Eqs.cpp      |  22 +++++
 src/compiler/lib/Var.cpp      | 160 ++++++++++++++++------------------
 src/compiler/lib/Var.hpp      |  17 ++++
 src/compiler/lib/VarPoint.cpp |   9 ++
 src/compiler/lib/VarPoint.hpp |   3 +
 5 files changed, 127 insertions(+), 84 deletions(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index f03ef42..c6528bf 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -1648,7 +1648,9 @@ namespace yask {
         */
         
         // Loop thru stages.
+        int stage_posn = 0;
         for (auto& st : get_all()) {
+            stage_posn++;
 
             // Only need to start from non-scratch stages.
             if (st->is_scratch())
@@ -1691,6 +1693,7 @@ namespace yask {
 
                         // Track halos by non-scratch stage name.
                         auto changed = g->update_halo(stname, ap->get_arg_offsets());
+                        g->update_stage_posn(stname, stage_posn);
                         #ifdef DEBUG_HALOS
                         if (changed) {
                             cout << "**** c_h: updated halos:\n";
@@ -1701,6 +1704,25 @@ namespace yask {
                     auto* g = out_pt1->_get_var();
                     g->update_write_points(stname, out_pt1->get_arg_offsets());
                 } // eqs.
+
+                // Track reads of points that might have already been
+                // overwritten, i.e., those that are not overwritten by the
+                // same eq or a following one in the same part.
+                for (auto& p : rst->get_parts()) {
+                    auto& eqs = p->get_eqs();
+                    for (auto ei = eqs.begin(); ei != eqs.end(); ei++) {
+                        for (auto ip : pv.get_input_pts().at(ei->get())) {
+                            auto is_write = [&](const auto& weq) {
+                                return pv.get_output_pts().at(weq.get())->
+                                    is_same_except_step(*ip);
+                            };
+                            if (any_of(eqs.begin(), ei, is_write) ||
+                                none_of(ei, eqs.end(), is_write))
+                                ip->_get_var()->update_late_reads(stname,
+                                                                  ip->get_arg_offsets());
+                        }
+                    }
+                }
             } // reqd stages.
         } // stages.
 
diff --git a/src/compiler/lib/Var.cpp b/src/compiler/lib/Var.cpp
index 1ac3dc2..83732ca 100644
--- a/src/compiler/lib/Var.cpp
+++ b/src/compiler/lib/Var.cpp
@@ -333,6 +333,13 @@ namespace yask {
             _write_points[stage_name] = *sofs;
     }
     
+    // Update step offsets of reads that might follow a write.
+    void Var::update_late_reads(const string& stage_name, const IntTuple& offsets) {
+        auto* sofs = offsets.lookup(get_soln_dims()._step_dim);
+        if (sofs)
+            _late_reads[stage_name].insert(*sofs);
+    }
+
     // Update const indices based on 'indices'.
     void Var::update_const_indices(const IntTuple& indices) {
 
@@ -370,105 +377,91 @@ namespace yask {
         if (_halos.size() == 0)
             return sdi;
 
-        // Need the max across all stages.
-        int max_sz = 1;
+        // First (lowest) and last (highest) step-dim offset across all
+        // stages.
+        const int unset = -9999;
+        int first_ofs = unset, last_ofs = unset;
+
+        // Max halo at each step-dim offset in each stage.
+        map<string, map<int, int>> max_halos;
 
-        // Loop thru each stage w/halos, including halos w/size zero.
         for (auto& hi : _halos) {
             auto& stage_name = hi.first;
-            auto& h2 = hi.second;
-            #ifdef DEBUG_HALOS
-            cout << "* var " << get_name() << " in " << stage_name << endl;
-            #endif
-
-            // Written?
-            bool is_written = false;
-
-            // First (lowest) and last (highest) step-dim offset.
-            const int unset = -9999;
-            int first_ofs = unset, last_ofs = unset;
 
             // left and right.
-            for (auto& i : h2) {
-                //auto left = i.first;
-                auto& h3 = i.second; // map of step-dims to halos.
+            for (auto& i : hi.second) {
 
                 // Step-dim offsets.
-                for (auto& j : h3) {
+                for (auto& j : i.second) {
                     auto ofs = j.first;
                     auto& halo = j.second; // halo tuple at step-val 'ofs'.
 
-                    // Written here?
-                    if (_write_points.count(stage_name) && _write_points.at(stage_name) == ofs)
-                        is_written = true;
-
-                    // Any existing value?
-                    if (halo.size()) {
-
-                        // Update vars.
-                        if (first_ofs == unset)
-                            first_ofs = last_ofs = ofs;
-                        else {
-                            first_ofs = std::min(first_ofs, ofs);
-                            last_ofs = std::max(last_ofs, ofs);
-                        }
+                    // Keep max halo. There won't be any values
+                    // if this var doesn't have any domain dims.
+                    auto& mh = max_halos[stage_name][ofs];
+                    if (halo.size())
+                        mh = std::max(mh, halo.max());
+
+                    // Update range.
+                    if (first_ofs == unset)
+                        first_ofs = last_ofs = ofs;
+                    else {
+                        first_ofs = std::min(first_ofs, ofs);
+                        last_ofs = std::max(last_ofs, ofs);
                     }
                 }
             }
-            #ifdef DEBUG_HALOS
-            print_halos(cout, "** ");
-            cout << "*** halo range: [" << first_ofs <<
-                "..." << last_ofs << "] in stage " << stage_name << endl;
-            #endif
-
-            // Only need to process if >1 offset.
-            if (last_ofs != unset && first_ofs != unset && last_ofs != first_ofs) {
-
-                // Default step-dim size is range of step offsets.
-                // For example, if equation touches 't-1' through 't+2',
-                // 'sz' is 4.
-                int sz = last_ofs - first_ofs + 1;
-                #ifdef DEBUG_HALOS
-                cout << "*** initial sz = " << sz << endl;
-                #endif
-
-                // Check for possible writeback.
-                if (is_written) {
-
-                    // First and last largest halos.
-                    int first_max_halo = 0, last_max_halo = 0;
-                    for (auto& i : h2) {
-                        //auto left = i.first;
-                        auto& h3 = i.second; // map of step-dims to halos.
-                        
-                        if (h3.count(first_ofs) && h3.at(first_ofs).size())
-                            first_max_halo = std::max(first_max_halo, h3.at(first_ofs).max());
-                        if (h3.count(last_ofs) && h3.at(last_ofs).size())
-                            last_max_halo = std::max(last_max_halo, h3.at(last_ofs).max());
-                    }
-
-                    // If first and last halos are zero, we can further optimize
-                    // storage by immediately reusing memory location.
-                    if (sz > 1 && first_max_halo == 0 && last_max_halo == 0) {
-                        int write_ofs = _write_points.at(stage_name);
-                        sz--;
-                        if (last_ofs == write_ofs) // forward step.
-                            sdi.writeback_ofs[stage_name] = first_ofs; // replace lowest read.
-                        else if (first_ofs == write_ofs) // backward step.
-                            sdi.writeback_ofs[stage_name] = last_ofs; // replace lowest read.
-                        else
-                            assert("write ofs is neither first or last");
-                        #ifdef DEBUG_HALOS
-                        cout << "*** optimized sz = " << sz << endl;
-                        #endif
-                    }
-                }
+        }
+        #ifdef DEBUG_HALOS
+        print_halos(cout, "** ");
+        cout << "*** halo range: [" << first_ofs <<
+            "..." << last_ofs << "]" << endl;
+        #endif
 
-                // Keep max so far.
-                max_sz = std::max(max_sz, sz);
+        // Default step-dim size is range of step offsets.
+        // For example, if equations touch 't-1' through 't+2',
+        // 'sz' is 4.
+        int sz = last_ofs - first_ofs + 1;
+
+        // Check for possible writeback, i.e., immediate reuse of the memory
+        // for the step offset that's furthest from the written one.
+        if (sz > 1 && _write_points.size()) {
+            int write_ofs = _write_points.begin()->second;
+            int far_ofs = (write_ofs == last_ofs) ? first_ofs : last_ofs;
+            bool can_reuse = (write_ofs == last_ofs || write_ofs == first_ofs);
+
+            // Position of earliest stage w/a write.
+            int write_posn = _stage_posns.at(_write_points.begin()->first);
+            for (auto& i : _write_points)
+                write_posn = std::min(write_posn, _stage_posns.at(i.first));
+
+            for (auto& i : max_halos) {
+                auto& stage_name = i.first;
+                auto& halos = i.second;
+
+                // Furthest offset not read in this stage, or only
+                // read before any writes?
+                if (!halos.count(far_ofs) || _stage_posns.at(stage_name) < write_posn)
+                    continue;
+
+                // Otherwise, each value must be read only at the point
+                // that overwrites it and not after it is overwritten.
+                if (_write_points.size() > 1 ||
+                    !_write_points.count(stage_name) ||
+                    halos.at(far_ofs) > 0 ||
+                    (halos.count(write_ofs) && halos.at(write_ofs) > 0) ||
+                    (_late_reads.count(stage_name) &&
+                     _late_reads.at(stage_name).count(far_ofs)))
+                    can_reuse = false;
             }
 
-        } // stages.
+            if (can_reuse) {
+                sz--;
+                for (auto& i : _write_points)
+                    sdi.writeback_ofs[i.first] = far_ofs;
+            }
+        }
+        sdi.step_dim_size = sz;
         #ifdef DEBUG_HALOS
         cout << "* final sz = " << sz << endl;
         #endif
@@ -481,7 +474,6 @@ namespace yask {
         if (_soln->get_settings()._step_alloc > 0)
             sdi.step_dim_size = _soln->get_settings()._step_alloc;
 
-        sdi.step_dim_size = max_sz;
         return sdi;
     }
 
diff --git a/src/compiler/lib/Var.hpp b/src/compiler/lib/Var.hpp
index e2d4ebd..b88f33d 100644
--- a/src/compiler/lib/Var.hpp
+++ b/src/compiler/lib/Var.hpp
@@ -83,6 +83,15 @@ namespace yask {
         // Val: step-index for write in stage.
         map<string, int> _write_points;
 
+        // Position of each stage that accesses this var.
+        // Key: stage.
+        map<string, int> _stage_posns;
+
+        // Step offsets of reads that might occur after a write to
+        // the same point in the same stage.
+        // Key: stage.
+        map<string, set<int>> _late_reads;
+
         // Greatest L1 dist of any halo point that accesses this var.
         int _l1_dist = 0;
 
@@ -285,6 +294,14 @@ namespace yask {
         }
         virtual void update_write_points(const string& stage_name, const IntTuple& offsets);
 
+        // Track the positions of stages.
+        virtual void update_stage_posn(const string& stage_name, int posn) {
+            _stage_posns[stage_name] = posn;
+        }
+
+        // Update step offsets of reads that might follow a write.
+        virtual void update_late_reads(const string& stage_name, const IntTuple& offsets);
+
         // Update L1 dist.
         virtual void update_l1_dist(int l1_dist) {
             _l1_dist = std::max(_l1_dist, l1_dist);
diff --git a/src/compiler/lib/VarPoint.cpp b/src/compiler/lib/VarPoint.cpp
index 573d109..385bdbe 100644
--- a/src/compiler/lib/VarPoint.cpp
+++ b/src/compiler/lib/VarPoint.cpp
@@ -147,6 +147,15 @@ namespace yask {
         return make_logical_var_str() == rhs.make_logical_var_str();
     }
 
+    bool VarPoint::is_same_except_step(const VarPoint& rhs) const {
+        if (_var != rhs._var)
+            return false;
+        auto step_dim = _var->get_step_dim();
+        auto sdname = step_dim ? step_dim->_get_name() : "";
+        return _offsets.remove_dim(sdname) == rhs._offsets.remove_dim(sdname) &&
+            _consts.remove_dim(sdname) == rhs._consts.remove_dim(sdname);
+    }
+
     const index_expr_ptr_vec& VarPoint::get_dims() const {
         return _var->get_dims();
     }
diff --git a/src/compiler/lib/VarPoint.hpp b/src/compiler/lib/VarPoint.hpp
index 0244090..6d18f11 100644
--- a/src/compiler/lib/VarPoint.hpp
+++ b/src/compiler/lib/VarPoint.hpp
@@ -162,6 +162,9 @@ namespace yask {
         // - A(t, x, y, 1) is NOT same logical var as B(t, x, y, 1).
         virtual bool is_same_logical_var(const VarPoint& rhs) const;
 
+        // Check for same var and indices, ignoring the step index, if any.
+        virtual bool is_same_except_step(const VarPoint& rhs) const;
+
         // String w/name and parens around args, e.g., 'u(x, y+2)'.
         // Apply substitutions to indices using 'var_map' if provided.
         virtual string make_str(const VarMap* var_map = 0) const {
-- 
2.43.0


From 10c23b802eb4a2c1ef6f5cff1c69b656c4e55f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 02/22] fix: reject dependence on a not-yet-computed step when
 stepping backward

---
 src/compiler/lib/Eqs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index c6528bf..c09874f 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -511,7 +511,7 @@ namespace yask {
                             }
                             // backward: 'u(t-1, ...) EQUALS ... u(t, ...) ...'.
                             // bad backward: 'u(t-1, ...) EQUALS ... u(t-2, ...) ...'.
-                            if (dims._step_dir == -11 && rofs < lofs) {
+                            if (dims._step_dir == -1 && rofs < lofs) {
                                 THROW_YASK_EXCEPTION("equation " + eq1->make_quoted_str() +
                                                      " contains an offset of " + to_string(rofs) +
                                                      " from step-dimension '" + step_dim +
-- 
2.43.0


From a49b43393d342a0d82c03304fe9d5486a84c7680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 03/22] fix: generate valid code for the negation of a negative
 value

---
 src/compiler/lib/Print.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Print.cpp b/src/compiler/lib/Print.cpp
index 24ee2d5..bcab8d1 100644
--- a/src/compiler/lib/Print.cpp
+++ b/src/compiler/lib/Print.cpp
@@ -86,7 +86,12 @@ namespace yask {
     // Generic unary operators.
     string PrintVisitorTopDown::visit(UnaryNumExpr* ue) {
         _num_common += _ph.get_num_common(ue);
-        return ue->get_op_str() + ue->_get_rhs()->accept(this);
+        string rhs = ue->_get_rhs()->accept(this);
+
+        // Don't create a different operator, e.g., '--a'.
+        if (rhs.find(ue->get_op_str()) == 0)
+            rhs = "(" + rhs + ")";
+        return ue->get_op_str() + rhs;
     }
     string PrintVisitorTopDown::visit(UnaryBoolExpr* ue) {
         _num_common += _ph.get_num_common(ue);
@@ -278,6 +283,8 @@ namespace yask {
         // temp2 = -temp1;
         // with 'temp2' returned.
         string rhs = ue->_get_rhs()->accept(this);
+        if (rhs.find(ue->get_op_str()) == 0)
+            rhs = "(" + rhs + ")"; // avoid, e.g., '--a'.
         make_next_temp_var(res, ue, "expr", "") << ue->get_op_str() << rhs << _ph.get_line_suffix();
         return res;
     }
-- 
2.43.0


From 7b3ba8b33f412bb8fb0c4a18e4f0582ebcd8660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 04/22] fix: set 1D folding when the inner-loop dim is the one
 next to the inner layout dim

---
 src/compiler/lib/Settings.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lib/Settings.cpp b/src/compiler/lib/Settings.cpp
index 2863819..cb76205 100644
--- a/src/compiler/lib/Settings.cpp
+++ b/src/compiler/lib/Settings.cpp
@@ -213,8 +213,11 @@ namespace yask {
                 
                 // If we only want 1D folding, just set one to
                 // needed value.
-                if (!is_folding_efficient)
-                    inner_folds.add_dim_back(_near_inner_dim, upper_sz);
+                if (!is_folding_efficient) {
+                    auto& fdim = (_near_inner_dim == settings._inner_loop_dim) ?
+                        _inner_layout_dim : _near_inner_dim;
+                    inner_folds.add_dim_back(fdim, upper_sz);
+                }
 
                 // Else, make a tuple of hints to use for setting non-inner
                 // sizes.
-- 
2.43.0


From 76a0b39db9d05e61af8e8206f7a2ce9039204ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 05/22] fix: don't treat negation as equal to a subtraction of
 the same operand

---
 src/compiler/lib/Expr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Expr.hpp b/src/compiler/lib/Expr.hpp
index e05828d..1409f67 100644
--- a/src/compiler/lib/Expr.hpp
+++ b/src/compiler/lib/Expr.hpp
@@ -403,7 +403,11 @@ namespace yask {
         // Check for equivalency.
         virtual bool is_same(const Expr* other) const {
             auto p = dynamic_cast<const UnaryExpr*>(other);
-            return p && _op_str == p->_op_str &&
+
+            // Check types because a binary operator is derived from
+            // this class, e.g., '-a' and 'b - a' are not the same.
+            return p && typeid(*p) == typeid(*this) &&
+                _op_str == p->_op_str &&
                 _rhs && _rhs->is_same(p->_rhs.get());
         }
     };
-- 
2.43.0


From b17c29e7e22595718fd6b946cd72b3072e7879a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 06/22] fix: don't truncate the quotient of integer-valued
 constants in generated code

---
 src/compiler/lib/Expr.hpp  | 10 +++-------
 src/compiler/lib/Print.cpp |  8 ++++++++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/compiler/lib/Expr.hpp b/src/compiler/lib/Expr.hpp
index 1409f67..92b71c3 100644
--- a/src/compiler/lib/Expr.hpp
+++ b/src/compiler/lib/Expr.hpp
@@ -766,13 +766,9 @@ namespace yask {
         virtual bool make_pair(Expr* other);
         virtual FuncExpr* get_pair() { return _paired; }
 
-        virtual bool is_const_val() const {
-            for(auto op : _ops) {
-                if (!op->is_const_val())
-                    return false;
-            }
-            return true;
-        }
+        // Not a const even if all args are because get_num_val()
+        // does not evaluate functions.
+        virtual bool is_const_val() const { return false; }
         virtual num_expr_ptr clone() const {
             return make_shared<FuncExpr>(*this);
         }
diff --git a/src/compiler/lib/Print.cpp b/src/compiler/lib/Print.cpp
index bcab8d1..86f60e9 100644
--- a/src/compiler/lib/Print.cpp
+++ b/src/compiler/lib/Print.cpp
@@ -105,6 +105,11 @@ namespace yask {
     // Generic binary operators.
     string PrintVisitorTopDown::visit(BinaryNumExpr* be) {
         _num_common += _ph.get_num_common(be);
+
+        // Evaluate division of constants here because they might be
+        // printed as ints.
+        if (be->get_op_str() == DivExpr::op_str() && be->is_const_val())
+            return _ph.add_const_expr(_os, be->get_num_val());
         return "(" + be->_get_lhs()->accept(this) +
             " " + be->get_op_str() + " " +
             be->_get_rhs()->accept(this) + ")";
@@ -305,6 +310,9 @@ namespace yask {
         // expr2 = b * c;
         // expr3 = expr1 / expr2;
         // with 'expr3' returned.
+        // As above, evaluate division of constants.
+        if (be->get_op_str() == DivExpr::op_str() && be->is_const_val())
+            return _ph.add_const_expr(_os, be->get_num_val());
         string lhs = be->_get_lhs()->accept(this);
         string rhs = be->_get_rhs()->accept(this);
         make_next_temp_var(res, be, "expr", "") <<
-- 
2.43.0


From 6ef7ad9ac95ae604930789f3f2ce30fc61df9aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 07/22] fix: don't bridge past a last temporal block that is
 too small to shrink on both sides

---
 src/kernel/lib/context.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index fd8d592..2c1d283 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -1418,10 +1418,17 @@ namespace yask {
             if (is_first_blk)
                 blk_start = idxs.begin[i];
 
+            // Is this block too small for both of its sides to shrink by the
+            // total shift? This is possible only for the last block. If so,
+            // there cannot be a bridge at its end because the bridge at
+            // its beginning would depend on it in the same phase.
+            bool is_small_blk = block_base_stop[i] - block_base_start[i] <
+                2 * tb_angle * num_tb_shifts;
+
             // Shift stop to left. If there will be no bridges, clamp
             // last block to end of mega-block.
             blk_stop -= tb_angle * mb_shift_num;
-            if ((nphases == 1 || is_one_blk) && is_last_blk)
+            if ((nphases == 1 || is_one_blk || is_small_blk) && is_last_blk)
                 blk_stop = idxs.end[i];
 
             // Shift start of next block. Last bridge will be
-- 
2.43.0


From 3ac3d0dc493af3e6604706b3494b5adf9d750db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 08/22] fix: take part in the collective shm allocation when a
 rank has no halo data to send

---
 src/kernel/lib/alloc.cpp   | 6 ++++++
 src/kernel/lib/context.hpp | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index 87611df..fce1f49 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -283,6 +283,11 @@ namespace yask {
             auto seq_num = key.second;
             TRACE_MSG("allocation req <" << mem_key << ", " << seq_num << "> for " <<
                       make_byte_str(data.nbytes));
+
+            // Shm allocation is collective, so it is needed even on a rank
+            // that has nothing to send.
+            if (mem_key == _shmem_key)
+                data.nbytes = max(data.nbytes, size_t(CACHELINE_BYTES));
             if (data.nbytes == 0)
                 continue;
 
@@ -295,6 +300,7 @@ namespace yask {
                 msg += "using MPI shm";
                 DEBUG_MSG(msg << "...");
                 p = shared_shm_alloc<char>(data.nbytes, &env->shm_comm, &mpi_info->halo_win);
+                mpi_shm_base = p;
 
                 // Get pointer for each neighbor rank.
                 #ifdef USE_MPI
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index cb12985..27d48a3 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -350,6 +350,10 @@ namespace yask {
         // Map key: var name.
         std::map<std::string, MPIData> mpi_data;
 
+        // Shm for MPI buffers. Kept here because a rank that only receives
+        // has no buffer that shares its ownership.
+        std::shared_ptr<char> mpi_shm_base;
+
         // Constructor.
         StencilContext(KernelEnvPtr& kenv,
                        KernelSettingsPtr& actl_settings,
@@ -399,6 +403,7 @@ namespace yask {
         virtual void alloc_mpi_data();
         virtual void free_mpi_data() {
             mpi_data.clear();
+            mpi_shm_base.reset();
         }
 
         // Alloc scratch-var memory.
-- 
2.43.0


From 1b7be42b283b5d073ad069bbd45a335f7ea576f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 09/22] fix: exchange halos written by other ranks when
 exchange_halos() is called

---
 src/kernel/lib/halo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/lib/halo.cpp b/src/kernel/lib/halo.cpp
index cb6fd6d..aee43ab 100644
--- a/src/kernel/lib/halo.cpp
+++ b/src/kernel/lib/halo.cpp
@@ -68,6 +68,10 @@ namespace yask {
     // Exchange dirty halo data for all vars and all steps.
     void StencilContext::exchange_halos() {
         
+        // Since any APIs may have been called in other ranks, mark all
+        // neighbor vars as possibly dirty.
+        set_all_neighbor_vars_dirty();
+
         // Do all parts.
         MpiSection mpisec(this);
         mpisec.init();
-- 
2.43.0


From db01fd49a255a26b487cb746d771edba91bd1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 10/22] fix: reject scratch-var equations that depend on a step
 not yet computed

---
 src/compiler/lib/Eqs.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index c09874f..a7bc5d0 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -600,6 +600,23 @@ namespace yask {
         } // for all eqs.
         os << endl;
 
+        // The RHS of a scratch-var equation is evaluated in the same step as
+        // the non-scratch equations that use it, so it cannot depend on a
+        // step that hasn't been computed, either. This check is done here
+        // because the step direction is only known now.
+        for (auto eq1 : get_all()) {
+            if (!eq1->is_scratch())
+                continue;
+            for (auto i1 : in_pts.at(eq1.get())) {
+                auto* rsi1p = i1->get_arg_offsets().lookup(step_dim);
+                if (rsi1p && dims._step_dir && *rsi1p * dims._step_dir > 1)
+                    THROW_YASK_EXCEPTION("scratch-var equation " + eq1->make_quoted_str() +
+                                         " contains an offset of " + to_string(*rsi1p) +
+                                         " from step-dimension '" + step_dim +
+                                         "' on the RHS, which has not been computed");
+            }
+        }
+
         // Finish processing and dump logical vars.
         log_vars.topo_sort();
         log_vars.print_info();
-- 
2.43.0


From 4d9d34c4624a105ea19fc8f8bf13c15bead225b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 11/22] fix: return the sum of squares, not the sum, from a
 sum-of-squares reduction

---
 src/kernel/lib/yk_var.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 156a92f..8cbb452 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -598,7 +598,7 @@ namespace yask {
             }
             double get_sum_squares() const {
                 if (_mask & yk_var::yk_sum_squares_reduction)
-                    return _sum;
+                    return _sum_sq;
                 THROW_YASK_EXCEPTION("Sum-of-squares reduction result was not requested in reduction_mask");
             }
             double get_product() const {
@@ -1437,7 +1437,7 @@ namespace yask {
                 auto* p = resp.get();
                 auto* resp = &rrv.at(i);
                 p->_sum += resp->_sum;
-                p->_sum_sq += resp->_sum;
+                p->_sum_sq += resp->_sum_sq;
                 p->_prod *= resp->_prod;
                 p->_max = std::max(p->_max, resp->_max);
                 p->_min = std::min(p->_min, resp->_min);
-- 
2.43.0


From 569cfa1e3f50810c9a84ff834e23ffe7f099fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 12/22] fix: start max reductions from the lowest value, not
 the smallest positive one

---
 src/kernel/lib/yk_var.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 8cbb452..75503c9 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -575,7 +575,7 @@ namespace yask {
             double _sum = 0.0;
             double _sum_sq = 0.0;
             double _prod = 1.0;
-            double _max = std::numeric_limits<double>::min();
+            double _max = std::numeric_limits<double>::lowest();
             double _min = std::numeric_limits<double>::max();
 
             virtual ~red_res() { }
-- 
2.43.0


From 69a27305d0092fc8086fbcc164be6fd898c19e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 13/22] fix: make a min reduction available when min was
 requested

---
 src/kernel/lib/yk_var.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 75503c9..ef395ba 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -612,7 +612,7 @@ namespace yask {
                 THROW_YASK_EXCEPTION("Max reduction result was not requested in reduction_mask");
             }
             double get_min() const {
-                if (_mask & yk_var::yk_sum_reduction)
+                if (_mask & yk_var::yk_min_reduction)
                     return _min;
                 THROW_YASK_EXCEPTION("Min reduction result was not requested in reduction_mask");
             }
-- 
2.43.0


From 59812104f98ad6a538d17dafbc407b9ce8e6dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 14/22] fix: ignore elements outside of the var in non-strict
 slice APIs

---
 src/kernel/lib/yk_var.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index ef395ba..c9aeb63 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -1113,6 +1113,15 @@ namespace yask {
                       make_index_string(first_indices) << " ... " <<
                       make_index_string(last_indices) << "]");
 
+            // If clipping raised the last index or lowered the first index in
+            // any dim, the slice is completely outside of this var.
+            if (!strict_indices) {
+                for (int i = 0; i < get_num_dims(); i++)
+                    if (first_indices[i] < in_first_indices[i] ||
+                        last_indices[i] > in_last_indices[i])
+                        return 0;
+            }
+
             // Find range.
             auto range = get_slice_range(first_indices, last_indices);
             auto ne = range.product();
@@ -1350,12 +1359,21 @@ namespace yask {
                                                            first_indices, last_indices,
                                                            on_device);
             
-            // Set appropriate dirty flags.
+            // Nothing written?
+            if (n <= 0)
+                return n;
+
+            // Set appropriate dirty flags for the steps that were written.
             if (on_device)
                 _coh.mod_dev();
             else
                 _coh.mod_host();
-            set_dirty_in_slice(first_indices, last_indices);
+            Indices first_written, last_written;
+            check_indices(first_indices, SetElem::fname(), strict_indices,
+                          true, false, &first_written);
+            check_indices(last_indices, SetElem::fname(), strict_indices,
+                          true, false, &last_written);
+            set_dirty_in_slice(first_written, last_written);
 
             // Return number of writes.
             return n;
-- 
2.43.0


From 0c953e2ff7a851c9f7680684861f8945a957fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 15/22] fix: update the valid steps when set_element() writes
 to another step

---
 src/kernel/lib/yk_var_apis.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index ec8f2ba..575173c 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -406,6 +406,8 @@ namespace yask {
             // Don't check step index because this is a write-only API
             // that updates the step index.
             gb().check_indices(indices, "set_element", strict_indices, false, false)) {
+            if (!actl_opts->_step_wrap)
+                gb().update_valid_step(indices);
             idx_t asi = gb().get_alloc_step_index(indices);
 
             gb().copy_data_from_device(); // TODO: make more efficient.
-- 
2.43.0


From 58421801d38aec641351f07be81d1150ec327c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 16/22] fix: detect repeated dims when creating a var at run
 time

---
 src/kernel/lib/new_var.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel/lib/new_var.cpp b/src/kernel/lib/new_var.cpp
index deb1529..6ae740e 100644
--- a/src/kernel/lib/new_var.cpp
+++ b/src/kernel/lib/new_var.cpp
@@ -72,6 +72,7 @@ namespace yask {
                                          "' because dimension '" + gdim +
                                          "' is used more than once");
                 }
+                seen_dims.insert(gdim);
 
                 // Step dim?
                 if (gdim == step_dim) {
-- 
2.43.0


From 5758380a639c58ccd26a96569a6c03ae2c3b07af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 17/22] fix: keep a var's settings when changing them is
 rejected

---
 src/kernel/lib/yk_var.hpp      | 11 +++++++++++
 src/kernel/lib/yk_var_apis.cpp |  9 ++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index c9aeb63..9e3afe8 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -2272,6 +2272,17 @@ namespace yask {
             gb().sync_core();
         }
 
+        // Call resize() after changing setting(s) in the core.
+        // If it fails, restore the core to 'orig' before passing on the exception.
+        void try_resize(const YkVarBaseCore& orig) {
+            try {
+                resize();
+            } catch (...) {
+                *corep() = orig;
+                throw;
+            }
+        }
+
         // APIs.
         // See yask_kernel_api.hpp.
         virtual const std::string& get_name() const {
diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index 575173c..f679f7d 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -84,8 +84,9 @@ namespace yask {
             dims->check_dim_type(dim, #api_name, step_ok, domain_ok, misc_ok); \
             int posn = gb().get_dim_posn(dim, true, #api_name);         \
             auto cp = corep();                                          \
+            auto orig_core = *cp;                                       \
             expr;                                                       \
-            if (need_resize) resize();                                  \
+            if (need_resize) try_resize(orig_core);                     \
             else sync_core();                                           \
         }                                                               \
         void YkVarImpl::api_name(int posn, idx_t n) {                   \
@@ -93,8 +94,9 @@ namespace yask {
             TRACE_MSG("var '" << get_name() << "'."                     \
                       #api_name "('" << posn << "', " << n << ")");     \
             auto cp = corep();                                          \
+            auto orig_core = *cp;                                       \
             expr;                                                       \
-            if (need_resize) resize();                                  \
+            if (need_resize) try_resize(orig_core);                     \
             else sync_core();                                           \
         }
 
@@ -106,6 +108,7 @@ namespace yask {
             TRACE_MSG("var '" << get_name() << "'."                     \
                       #api_name "_vec(...)");                           \
             auto cp = corep();                                          \
+            auto orig_core = *cp;                                       \
             auto nvdims = get_num_dims();                               \
             auto nadims = 0;                                            \
             if (step_ok) nadims += gb()._num_step_dims;                  \
@@ -125,7 +128,7 @@ namespace yask {
                     expr;                                               \
                 }                                                       \
             }                                                           \
-            if (need_resize) resize();                                  \
+            if (need_resize) try_resize(orig_core);                     \
             else sync_core();                                           \
         }                                                               \
         void YkVarImpl::api_name ## _vec(idx_t_init_list vals) {        \
-- 
2.43.0


From 17e13c7e9046ffdf7f81ad7cfa7b9483cbefb3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 18/22] fix: reject a number of ranks that cannot be used
 instead of ignoring it

---
 src/kernel/lib/setup.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 6b22fa6..5dbc170 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -226,10 +226,19 @@ namespace yask {
 
         #else
         // Set number of ranks in each dim if any is unset (zero).
-        TRACE_MSG("rank layout " << actl_opts->_num_ranks.make_dim_val_str(" * ") << " requested");
-        actl_opts->_num_ranks = actl_opts->_num_ranks.get_compact_factors(nr);
+        TRACE_MSG("rank layout " << req_opts->_num_ranks.make_dim_val_str(" * ") << " requested");
+        auto& specified_ranks = req_opts->_num_ranks;
+        actl_opts->_num_ranks = specified_ranks.get_compact_factors(nr);
         TRACE_MSG("rank layout " << actl_opts->_num_ranks.make_dim_val_str(" * ") << " selected");
 
+        // Numbers of ranks that were specified must not be changed.
+        DOMAIN_VAR_LOOP(i, j) {
+            if (specified_ranks[j] && specified_ranks[j] != actl_opts->_num_ranks[j])
+                FORMAT_AND_THROW_YASK_EXCEPTION("no layout of " << nr << " rank(s) is possible with the "
+                                                "specified number of ranks (" <<
+                                                specified_ranks.make_dim_val_str(" * ") << ")");
+        }
+
         // Check ranks.
         idx_t req_ranks = actl_opts->_num_ranks.product();
         if (req_ranks != nr)
-- 
2.43.0


From 269413ef62236da89ebe6b1c65140dd0cbc10eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 19/22] fix: use the rank indices that were set instead of
 always assigning them

---
 src/kernel/lib/settings.hpp |  1 -
 src/kernel/lib/setup.cpp    | 12 ++++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/kernel/lib/settings.hpp b/src/kernel/lib/settings.hpp
index 1ef5d76..734f030 100644
--- a/src/kernel/lib/settings.hpp
+++ b/src/kernel/lib/settings.hpp
@@ -240,7 +240,6 @@ namespace yask {
         // These tuples contain only domain dims.
         IdxTuple _num_ranks;       // number of ranks in each domain dim.
         IdxTuple _rank_indices;    // my rank index in each domain dim.
-        bool find_loc = true;      // whether my rank index needs to be calculated.
         bool overlap_comms = true; // overlap comms with computation.
         idx_t _min_exterior = 32;   // minimum size of MPI exterior to calculate.
         #ifdef USE_OFFLOAD
diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 5dbc170..beacfab 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -175,7 +175,6 @@ namespace yask {
         // All ranks should have the same settings for certain options.
         env->assert_equality_over_ranks(nr, "total number of MPI ranks");
         env->assert_equality_over_ranks(idx_t(actl_opts->use_shm), "use_shm setting");
-        env->assert_equality_over_ranks(idx_t(actl_opts->find_loc), "defined rank indices");
         DOMAIN_VAR_LOOP(i, j) {
             auto& dname = domain_dims.get_dim_name(j);
             env->assert_equality_over_ranks(actl_opts->_global_sizes[i],
@@ -246,9 +245,18 @@ namespace yask {
                                             actl_opts->_num_ranks.make_dim_val_str(" * ") + "), but " <<
                                             nr << " rank(s) are active");
 
+        // Were rank indices provided on any rank?
+        idx_t idxs_given = 0, any_idxs_given = 0;
+        DOMAIN_VAR_LOOP(i, j)
+            if (req_opts->_rank_indices[j])
+                idxs_given = 1;
+        MPI_Allreduce(&idxs_given, &any_idxs_given, 1, MPI_INTEGER8, MPI_MAX, env->comm);
+
         // Determine my coordinates if not provided already.
         // TODO: do this more intelligently based on proximity.
-        if (actl_opts->find_loc)
+        if (any_idxs_given)
+            actl_opts->_rank_indices = req_opts->_rank_indices;
+        else
             actl_opts->_rank_indices = actl_opts->_num_ranks.unlayout(me);
 
         // Check rank indices.
-- 
2.43.0


From d749b5efa138517a129907531048991b703b30b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 20/22] fix: find factors of one when pre-set factors cannot be
 kept

---
 src/common/tuple.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/tuple.cpp b/src/common/tuple.cpp
index d7e8540..77ed360 100644
--- a/src/common/tuple.cpp
+++ b/src/common/tuple.cpp
@@ -433,7 +433,8 @@ namespace yask {
                      return true; // keep looking.
                  });
 
-            if (best.product() == N)
+            // (The product of an empty tuple is one.)
+            if (best.get_num_dims() && best.product() == N)
                 break;          // done.
 
         } // keep or not.
-- 
2.43.0


From 01046ca7c2c2c1a6c52ee946737db22f78ec395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 21/22] fix: lay out finite-difference work array as order x
 points x points

fd_coeff() read past the end of its work array when the derivative order
was at least the number of points, where all coefficients should be zero.
---
 src/contrib/coefficients/fd_coeff.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/contrib/coefficients/fd_coeff.cpp b/src/contrib/coefficients/fd_coeff.cpp
index ca2a1b8..668e61f 100644
--- a/src/contrib/coefficients/fd_coeff.cpp
+++ b/src/contrib/coefficients/fd_coeff.cpp
@@ -55,9 +55,10 @@ namespace yask {
         double c1, c2, c3;
         double x_0 = eval_point;
 
-        int m_idx = (order+1)*num_points;
+        // Strides in the 3-D array d[order+1][num_points][num_points].
+        int m_idx = num_points * num_points;
         int n_idx = num_points;
-        int dsz = m_idx * n_idx;
+        int dsz = (order+1) * m_idx;
         vector<double> d(dsz);
     
         for (int i = 1; i < dsz; i++)
-- 
2.43.0


From 8bbfbed87c303fe488c9f0a32135e003fc50bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 22/22] fix: reject out-of-range values of int options

Values that do not fit in an int were silently truncated.
---
 src/common/common_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/common_utils.cpp b/src/common/common_utils.cpp
index ab3b8aa..e11bd88 100644
--- a/src/common/common_utils.cpp
+++ b/src/common/common_utils.cpp
@@ -426,7 +426,10 @@ namespace yask {
     bool command_line_parser::int_option::check_arg(const string_vec& args,
                                                  int& argi) {
         if (_is_opt(args, argi, get_name())) {
-            _val = (int)_idx_val(args, argi); // TODO: check for over/underflow.
+            idx_t val = _idx_val(args, argi);
+            if (val < INT_MIN || val > INT_MAX)
+                THROW_YASK_EXCEPTION("argument for option '" + args[argi - 2] + "' is out of range");
+            _val = (int)val;
             return true;
         }
         return false;
-- 
2.43.0

