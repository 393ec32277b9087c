From ad87ce661f2cbcfd7e6e84d67a91315b531373af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:06 +0000
Subject: [PATCH 01/36] fix: expression evaluation no longer raises SIGFPE on
 division by zero

---
 src/eval.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 5a783a1..cf3f8c3 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -390,10 +390,18 @@ ExpressionType Expr::eval() const {
             return left->eval() - right->eval();
         case Operator::Multiply:
             return left->eval() * right->eval();
-        case Operator::Divide:
-            return left->eval() / right->eval();
-        case Operator::Mod:
-            return left->eval() % right->eval();
+        case Operator::Divide: {
+            auto const l = left->eval(), r = right->eval();
+            // division by zero (and INT64_MIN / -1) would raise SIGFPE in the simulator
+            if (r == 0) return 0;
+            if (r == -1) return static_cast<ExpressionType>(-static_cast<uint64_t>(l));
+            return l / r;
+        }
+        case Operator::Mod: {
+            auto const l = left->eval(), r = right->eval();
+            if (r == 0 || r == -1) return 0;
+            return l % r;
+        }
         case Operator::Eq:
             return left->eval() == right->eval();
         case Operator::Neq:
-- 
2.43.0


From f398c4f08bab47043f2e8e8c126be3b9cdcbc10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:09 +0000
Subject: [PATCH 02/36] fix: breakpoint scheduling keeps its position in the
 execution order

Forward runs skipped breakpoints of other design copies and started over when
the mode changed; reverse runs could dereference an empty index or spin at the
first statement of a cycle.
---
 src/debug.cc     |   1 +
 src/scheduler.cc | 209 +++++++++++++++++++++++++----------------------
 src/scheduler.hh |  11 +++
 3 files changed, 125 insertions(+), 96 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 9aaa5c4..1a85efe 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -137,6 +137,7 @@ void Debugger::eval() {
         }
 
         if (!result.empty()) {
+            scheduler_->set_current_hits(result);
             // send the breakpoint hit information
             send_breakpoint_hit(result);
             // also send any breakpoint values
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 5a612b3..bf1b7f9 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -30,6 +30,12 @@ Scheduler::Scheduler(DebuggerNamespaceManager &namespaces, SymbolTableProvider *
     }
 }
 
+void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints) {
+    for (auto &bp : breakpoints) {
+        bp->evaluated = false;
+    }
+}
+
 std::vector<DebugBreakPoint *> Scheduler::next_breakpoints() {
     switch (evaluation_mode_) {
         case EvaluationMode::BreakPointOnly: {
@@ -69,6 +75,8 @@ std::vector<DebugBreakPoint *> Scheduler::next_step_over_breakpoints() {
     }
     if (!next_breakpoint_id) return {};
     current_breakpoint_id_ = next_breakpoint_id;
+    current_ns_id_ = 0;
+    mark_visited(*current_breakpoint_id_);
     // need to get a new breakpoint
     auto bp_info = db_->get_breakpoint(*current_breakpoint_id_);
     return create_next_breakpoints(bp_info);
@@ -83,23 +91,13 @@ std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
     // we need to skip then and evaluate them at the next evaluation cycle
     // maybe revisit this logic later? doesn't seem to be correct to me where there are
     // breakpoint inserted during breakpoint hit
-    uint64_t index = 0;
-    // find index
-    std::optional<uint64_t> pos;
-    for (uint64_t i = 0; i < breakpoints_.size(); i++) {
-        if (breakpoints_[i]->evaluated) {
-            pos = i;
-        }
-    }
-    if (pos) {
-        // we have a last hit
-        if (*pos + 1 < breakpoints_.size()) {
-            index = *pos + 1;
-        } else {
-            // the end
-            return {};
-        }
-    }
+    // find the next one that is not before the current position and not evaluated yet
+    auto const pos = std::find_if(breakpoints_.begin(), breakpoints_.end(), [this](auto const &bp) {
+        return !bp->evaluated &&
+               (!current_breakpoint_id_ || get_order(bp->id) >= get_order(*current_breakpoint_id_));
+    });
+    if (pos == breakpoints_.end()) return {};
+    auto const index = static_cast<uint64_t>(std::distance(breakpoints_.begin(), pos));
 
     std::vector<DebugBreakPoint *> result{breakpoints_[index].get()};
 
@@ -112,9 +110,9 @@ std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
         scan_breakpoints(index, true, result);
     }
 
-    // the first will be current breakpoint id since we might skip some of them
-    // in the middle
+    // the first will be current breakpoint id since there can be other statements in the middle
     current_breakpoint_id_ = result.front()->id;
+    current_ns_id_ = result.front()->ns_id;
     for (auto *bp : result) {
         bp->evaluated = true;
     }
@@ -141,81 +139,107 @@ std::vector<DebugBreakPoint *> Scheduler::next_step_back_breakpoints() {
             auto const &handles = clock_handles_;
             if (namespaces_.default_rtl()->reverse_last_posedge(handles)) {
                 // we successfully reverse the time
+                clear_breakpoints(breakpoints_);
                 next_breakpoint_id = bp_ordering_.back();
             } else {
-                // fail to reverse time, use the first one
-                next_breakpoint_id = bp_ordering_[0];
+                // fail to reverse time, stop at the first one that's enabled
+                return restart_step_over();
             }
         }
     }
     if (!next_breakpoint_id) return {};
 
     current_breakpoint_id_ = next_breakpoint_id;
+    current_ns_id_ = 0;
+    // everything after it will be executed again
+    clear_visited_after(*current_breakpoint_id_);
+    mark_visited(*current_breakpoint_id_);
     // need to get a new breakpoint
     auto bp_info = db_->get_breakpoint(*current_breakpoint_id_);
     return create_next_breakpoints(bp_info);
 }
 
 std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
-    // if no breakpoint inserted. return early
-    std::lock_guard guard(breakpoint_lock_);
-    if (breakpoints_.empty()) return {};
-    // we basically reverse the search of the normal breakpoint
-
     std::vector<DebugBreakPoint *> result;
-
-    // if the current breakpoint is the first one already, we need to reverse the time to previous
-    // cycle
-    std::optional<uint64_t> target_index;
-    if (current_breakpoint_id_) {
-        if (breakpoints_.front()->id == *current_breakpoint_id_) {
-            // we have reached the first one of the current
-            // call reverse
-            auto handles = clock_handles_;
-            auto res = namespaces_.default_rtl()->reverse_last_posedge(handles);
-            if (!res) {
-                // can't revert the time. use the current timestamp
-                // just return the first one
-                target_index = 0;
-            } else {
-                // time reversed
-                current_breakpoint_id_ = std::nullopt;
-                target_index = breakpoints_.size() - 1;
+    {
+        std::lock_guard guard(breakpoint_lock_);
+        // we basically reverse the search of the normal breakpoint
+        auto target_index = last_breakpoint_before_current();
+        while (!target_index) {
+            // we have reached the first one of the current cycle. need to reverse the time to the
+            // previous cycle, if the simulator supports it
+            auto *rtl = namespaces_.default_rtl();
+            auto const time = rtl->get_simulation_time();
+            if (!rtl->reverse_last_posedge(clock_handles_)) break;
+            // time reversed
+            current_breakpoint_id_ = std::nullopt;
+            clear_breakpoints(breakpoints_);
+            target_index = last_breakpoint_before_current();
+            // no breakpoint to look for. just go back as far as we can
+            if (rtl->get_simulation_time() >= time) break;
+        }
+        if (target_index) {
+            result.emplace_back(breakpoints_[*target_index].get());
+            // if it's not single thread mode
+            if (!single_thread_mode_) {
+                scan_breakpoints(*target_index, false, result);
             }
-        } else {
-            // find the next inserted breakpoint
-            // notice that breakpoints are already ordered,
-            // so we search from the beginning
-            for (auto i = breakpoints_.size() - 1; i >= 1; i--) {
-                auto id = breakpoints_[i]->id;
-                if (id == *current_breakpoint_id_) {
-                    // find it
-                    target_index = i - 1;
-                    break;
-                }
+            // use the last one as the breakpoint id
+            current_breakpoint_id_ = result.back()->id;
+            current_ns_id_ = result.back()->ns_id;
+            clear_visited_after(*current_breakpoint_id_);
+            for (auto *bp : result) {
+                bp->evaluated = true;
             }
         }
-    } else {
-        // just return the last one
-        target_index = breakpoints_.size() - 1;
     }
+    // can't go back any more. stop at the beginning of the current cycle
+    if (result.empty()) return restart_step_over();
+    return result;
+}
 
-    if (!target_index && target_index >= breakpoints_.size()) {
-        current_breakpoint_id_ = std::nullopt;
-        return {};
+std::optional<uint64_t> Scheduler::last_breakpoint_before_current() const {
+    for (auto i = breakpoints_.size(); i > 0; i--) {
+        auto const &bp = breakpoints_[i - 1];
+        if (!current_breakpoint_id_ || get_order(bp->id) < get_order(*current_breakpoint_id_) ||
+            (bp->id == *current_breakpoint_id_ && bp->ns_id < current_ns_id_)) {
+            return i - 1;
+        }
     }
-    result.emplace_back(breakpoints_[*target_index].get());
-    // if it's not single thread mode
-    if (!single_thread_mode_) {
-        scan_breakpoints(*target_index, false, result);
+    return std::nullopt;
+}
+
+std::vector<DebugBreakPoint *> Scheduler::restart_step_over() {
+    evaluation_mode_ = EvaluationMode::StepOver;
+    current_breakpoint_id_ = std::nullopt;
+    clear_breakpoints(breakpoints_);
+    return next_step_over_breakpoints();
+}
+
+uint64_t Scheduler::get_order(uint32_t id) const {
+    auto it = bp_ordering_table_.find(id);
+    return it == bp_ordering_table_.end() ? bp_ordering_.size() : it->second;
+}
+
+void Scheduler::mark_visited(uint32_t id) {
+    for (auto &bp : breakpoints_) {
+        if (bp->id == id) bp->evaluated = true;
     }
-    // use the last one as the breakpoint id
-    current_breakpoint_id_ = result.back()->id;
+}
 
-    for (auto *bp : result) {
-        bp->evaluated = true;
+void Scheduler::clear_visited_after(uint32_t id) {
+    for (auto &bp : breakpoints_) {
+        if (get_order(bp->id) > get_order(id)) bp->evaluated = false;
     }
-    return result;
+}
+
+void Scheduler::set_current_hits(const std::vector<const DebugBreakPoint *> &bps) {
+    if (bps.empty()) return;
+    auto const *first = *std::min_element(bps.begin(), bps.end(), [this](auto *l, auto *r) {
+        return std::pair(get_order(l->id), l->ns_id) < std::pair(get_order(r->id), r->ns_id);
+    });
+    current_breakpoint_id_ = first->id;
+    current_ns_id_ = first->ns_id;
 }
 
 DebugBreakPoint *Scheduler::get_breakpoint(uint32_t id) const {
@@ -291,12 +315,6 @@ void Scheduler::remove_assert_breakpoints() {
     }
 }
 
-void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints) {
-    for (auto &bp : breakpoints) {
-        bp->evaluated = false;
-    }
-}
-
 void Scheduler::start_breakpoint_evaluation() {
     // remove assertions first
     remove_assert_breakpoints();
@@ -305,12 +323,7 @@ void Scheduler::start_breakpoint_evaluation() {
     current_breakpoint_id_ = std::nullopt;
 }
 
-void Scheduler::set_evaluation_mode(EvaluationMode mode) {
-    if (evaluation_mode_ != mode) {
-        clear_breakpoints(breakpoints_);
-        evaluation_mode_ = mode;
-    }
-}
+void Scheduler::set_evaluation_mode(EvaluationMode mode) { evaluation_mode_ = mode; }
 
 void Scheduler::clear() {
     inserted_breakpoints_.clear();
@@ -509,10 +522,12 @@ void Scheduler::reorder_breakpoints() {
     // the easiest way is to sort them by their lookup table. assuming the number of
     // breakpoints is relatively small, i.e. < 100, sorting can be efficient and less
     // bug-prone
-    std::sort(breakpoints_.begin(), breakpoints_.end(),
-              [this](const auto &left, const auto &right) -> bool {
-                  return bp_ordering_table_.at(left->id) < bp_ordering_table_.at(right->id);
-              });
+    // the copies of the same breakpoint are ordered by their namespaces
+    std::stable_sort(breakpoints_.begin(), breakpoints_.end(),
+                     [this](const auto &left, const auto &right) -> bool {
+                         return std::pair(get_order(left->id), left->ns_id) <
+                                std::pair(get_order(right->id), right->ns_id);
+                     });
 }
 
 void Scheduler::remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type type) {
@@ -560,13 +575,14 @@ void Scheduler::scan_breakpoints(uint64_t ref_index, bool forward,
 
     // notice that if the reference is a data breakpoint, we're done here, since we only allow
     // one data breakpoint triggerred at a time
-    if (ref_bp->has_type_flag(DebugBreakPoint::Type::data)) return;
+    if (ref_bp->type != DebugBreakPoint::Type::normal) return;
 
     // once we have a hit index, scanning down the list to see if we have more
     // hits if it shares the same fn/ln/cn tuple
     // matching criteria:
     // - same enable condition
-    // - different instance id
+    // - different instance id, or another copy of the same instance
+    // everything in the result is consecutive so that nothing is skipped
 
     auto match = [&](uint64_t i) -> bool {
         auto const &next_bp = breakpoints_[i];
@@ -576,20 +592,21 @@ void Scheduler::scan_breakpoints(uint64_t ref_index, bool forward,
             next_bp->column_num != ref_bp->column_num) {
             return false;
         }
-        // if we see a data breakpoint, don't stop, just skip it
-        if (next_bp->type == DebugBreakPoint::Type::data) {
-            return true;
+        if (next_bp->type != DebugBreakPoint::Type::normal || (forward && next_bp->evaluated) ||
+            next_bp->enable_expr->expression() != target_expr) {
+            return false;
         }
-        // same enable expression but different instance id
-        if (next_bp->instance_id != ref_bp->instance_id &&
-            next_bp->enable_expr->expression() == target_expr) {
-            result.emplace_back(next_bp.get());
+        if (std::any_of(result.begin(), result.end(), [&next_bp](auto const *bp) {
+                return bp->ns_id == next_bp->ns_id && bp->instance_id == next_bp->instance_id;
+            })) {
+            return false;
         }
+        result.emplace_back(next_bp.get());
         return true;
     };
 
     if (forward) {
-        for (auto i = ref_index; i < static_cast<uint64_t>(breakpoints_.size()); i++) {
+        for (auto i = ref_index + 1; i < static_cast<uint64_t>(breakpoints_.size()); i++) {
             if (!match(i)) break;
         }
     } else {
diff --git a/src/scheduler.hh b/src/scheduler.hh
index eee36d3..1754776 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -57,6 +57,8 @@ public:
     std::vector<DebugBreakPoint *> next_reverse_breakpoints();
     DebugBreakPoint *get_breakpoint(uint32_t id) const;
     void start_breakpoint_evaluation();
+    // set the current position to the breakpoints that are actually hit
+    void set_current_hits(const std::vector<const DebugBreakPoint *> &bps);
 
     // change scheduling semantics
     void set_evaluation_mode(EvaluationMode mode);
@@ -86,6 +88,8 @@ public:
 private:
     DebuggerNamespaceManager &namespaces_;
     std::optional<uint32_t> current_breakpoint_id_;
+    // which copy of the current breakpoint
+    uint32_t current_ns_id_ = 0;
 
     EvaluationMode evaluation_mode_ = EvaluationMode::BreakPointOnly;
 
@@ -114,6 +118,13 @@ private:
     std::unique_ptr<DebugBreakPoint> remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
     void remove_assert_breakpoints();
 
+    // position in the execution order
+    [[nodiscard]] uint64_t get_order(uint32_t id) const;
+    [[nodiscard]] std::optional<uint64_t> last_breakpoint_before_current() const;
+    void mark_visited(uint32_t id);
+    void clear_visited_after(uint32_t id);
+    std::vector<DebugBreakPoint *> restart_step_over();
+
     // log
     static void log_error(const std::string &msg);
     void log_info(const std::string &msg) const;
-- 
2.43.0


From 527d8b6052492cb868b1869706f43b6c947fb044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:19 +0000
Subject: [PATCH 03/36] fix: normal, data and assertion breakpoints do not
 overwrite or remove each other

---
 src/debug.cc     |  82 +++++++++--------
 src/debug.hh     |   2 +-
 src/scheduler.cc | 231 ++++++++++++++++++-----------------------------
 src/scheduler.hh |  15 +--
 4 files changed, 141 insertions(+), 189 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 1a85efe..1b330b5 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -540,7 +540,7 @@ void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
@@ -581,7 +581,7 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
     if (req.bp_action() == BreakPointRequest::action::add) {
@@ -605,7 +605,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
 
 void Debugger::handle_bp_location(const BreakPointLocationRequest &req, uint64_t conn_id) {
     // if db is not connected correctly, abort
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     auto const &filename = req.filename();
     auto const &line_num = req.line_num();
@@ -971,16 +971,18 @@ void Debugger::handle_symbol(const SymbolRequest &, uint64_t) {
 
 // NOLINTNEXTLINE
 void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t conn_id) {
-    auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(), namespaces_,
-                             db_.get());
-    if (!ns) {
-        send_error(req, "Unable to determine design namespace", conn_id);
-        return;
-    }
+    if (!check_send_db_error(req, conn_id)) return;
+
+    auto remove_watches = [this](const std::vector<std::pair<uint32_t, uint64_t>> &watches) {
+        for (auto const &[ns_id, watch_id] : watches) {
+            namespaces_[ns_id]->monitor->remove_monitor_variable(watch_id);
+            log_info(fmt::format("Remove watch variable with ID {0}", watch_id));
+        }
+    };
 
     switch (req.action()) {
         case DataBreakpointRequest::Action::clear: {
-            scheduler_->clear_data_breakpoints();
+            remove_watches(scheduler_->clear_data_breakpoints());
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
             log_info("data breakpoint cleared");
@@ -988,6 +990,12 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
         }
         case DataBreakpointRequest::Action::info:
         case DataBreakpointRequest::Action::add: {
+            auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(),
+                                     namespaces_, db_.get());
+            if (!ns) {
+                send_error(req, "Unable to determine design namespace", conn_id);
+                return;
+            }
             bool dry_run = req.action() == DataBreakpointRequest::Action::info;
             auto db_bp = db_->get_breakpoint(req.breakpoint_id());
             if (!db_bp) {
@@ -1008,27 +1016,34 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 var_names.emplace(ns->rtl->get_full_name(full_name));
             }
 
-            for (auto const &[id, var_name, data_condition] : bp_ids) {
+            auto add_data_breakpoint = [&](auto const &entry, bool dry_run) -> DebugBreakPoint * {
+                auto const &[id, var_name, data_condition] = entry;
                 auto bp_opt = db_->get_breakpoint(id);
-                if (!bp_opt) {
-                    send_error(req, "Invalid breakpoint id", conn_id);
-                    return;
-                }
+                if (!bp_opt) return nullptr;
                 // merge data_condition
                 std::string bp_condition;
                 if (req.condition().empty())
                     bp_condition = data_condition;
-                else if (bp_condition.empty())
+                else if (data_condition.empty())
                     bp_condition = req.condition();
                 else
                     // merge these two
-                    bp_condition = fmt::format("{0} && {1}", req.condition(), data_condition);
-                auto *bp =
-                    scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run);
-                if (!bp) {
+                    bp_condition = fmt::format("({0}) && ({1})", req.condition(), data_condition);
+                return scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run,
+                                                       ns);
+            };
+
+            // don't insert anything unless all of them are valid
+            for (auto const &entry : bp_ids) {
+                if (!add_data_breakpoint(entry, true)) {
                     send_error(req, "Invalid data breakpoint expression/data_condition", conn_id);
                     return;
                 }
+            }
+
+            for (auto const &entry : bp_ids) {
+                if (dry_run) break;
+                auto *bp = add_data_breakpoint(entry, false);
 
                 // they share the same variable
                 // notice that in case some breakpoints got deleted, we need to get it from the
@@ -1040,16 +1055,10 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                     value_ptr = std::make_shared<std::optional<int64_t>>();
                 }
 
-                // add it to the monitor
-                if (!dry_run) {
-                    auto watched = monitor->is_monitored(bp->full_rtl_handle,
-                                                         MonitorRequest::MonitorType::data);
-                    if (!watched) {
-                        bp->watch_id = monitor->add_monitor_variable(
-                            bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
-                        log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
-                    }
-                }
+                // add it to the monitor. this reuses the ID if it's already watched
+                bp->watch_id = monitor->add_monitor_variable(
+                    bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
+                log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
             }
 
             // sort the breakpoints
@@ -1061,13 +1070,8 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
             break;
         }
         case DataBreakpointRequest::Action::remove: {
-            auto watch_id = scheduler_->remove_data_breakpoint(req.breakpoint_id());
             // remove from monitor as well
-            if (watch_id) {
-                auto &monitor = ns->monitor;
-                monitor->remove_monitor_variable(*watch_id);
-                log_info(fmt::format("Remove watch variable with ID {0}", *watch_id));
-            }
+            remove_watches(scheduler_->remove_data_breakpoint(req.breakpoint_id()));
             // tell client we're good
             auto success_resp = GenericResponse(status_code::success, req);
             send_message(success_resp.str(log_enabled_), conn_id);
@@ -1199,12 +1203,10 @@ void Debugger::set_vendor_initial_options() {
     }
 }
 
-bool Debugger::check_send_db_error(RequestType type, uint64_t conn_id) {
+bool Debugger::check_send_db_error(const Request &req, uint64_t conn_id) {
     if (!db_) {
         // need to send error response
-        auto resp = GenericResponse(status_code::error, type,
-                                    "Database is not initialized or is initialized incorrectly");
-        send_message(resp.str(log_enabled_), conn_id);
+        send_error(req, "Database is not initialized or is initialized incorrectly", conn_id);
         return false;
     }
     return true;
diff --git a/src/debug.hh b/src/debug.hh
index fdf35dd..07fe09a 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -150,7 +150,7 @@ private:
     void set_vendor_initial_options();
 
     // common checker
-    bool check_send_db_error(RequestType type, uint64_t conn_id);
+    bool check_send_db_error(const Request &req, uint64_t conn_id);
 
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
diff --git a/src/scheduler.cc b/src/scheduler.cc
index bf1b7f9..935ad72 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -280,42 +280,29 @@ std::vector<DebugBreakPoint *> Scheduler::create_next_breakpoints(
     return res;
 }
 
-std::unique_ptr<DebugBreakPoint> Scheduler::remove_breakpoint(uint64_t bp_id,
-                                                              DebugBreakPoint::Type type) {
+std::vector<std::unique_ptr<DebugBreakPoint>> Scheduler::remove_breakpoint(
+    const std::function<bool(const DebugBreakPoint &)> &pred) {
     // notice that removal doesn't need reordering
-    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end(); pos++) {
-        if ((*pos)->id == bp_id) {
-            // erase the type first. if the remaining type is 0, then we completely erase the
-            // breakpoint
-            auto t = static_cast<uint32_t>((*pos)->type);
-            t &= ~(static_cast<uint32_t>(type));
-            if (t == 0) {
-                // remove it before after transfer the ownership
-                std::unique_ptr<DebugBreakPoint> res = std::move(*pos);
-                breakpoints_.erase(pos);
-                inserted_breakpoints_.erase(bp_id);
-                return res;
-            } else {
-                (*pos)->type = static_cast<DebugBreakPoint::Type>(t);
-            }
-            break;
+    std::vector<std::unique_ptr<DebugBreakPoint>> result;
+    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end();) {
+        if (pred(**pos)) {
+            // transfer the ownership before removal
+            result.emplace_back(std::move(*pos));
+            pos = breakpoints_.erase(pos);
+        } else {
+            pos++;
         }
     }
-    return nullptr;
+    return result;
 }
 
 void Scheduler::remove_assert_breakpoints() {
-    auto ids =
-        std::unordered_set<uint32_t>(inserted_breakpoints_.begin(), inserted_breakpoints_.end());
-    for (auto bp_id : ids) {
-        auto *bp = get_breakpoint(bp_id);
-        if (bp && bp->has_type_flag(DebugBreakPoint::Type::assert) && bp->evaluated) {
-            remove_breakpoint(bp_id, DebugBreakPoint::Type::assert);
-        }
-    }
+    remove_breakpoint(
+        [](auto const &bp) { return bp.type == DebugBreakPoint::Type::assert &&bp.evaluated; });
 }
 
 void Scheduler::start_breakpoint_evaluation() {
+    std::lock_guard guard(breakpoint_lock_);
     // remove assertions first
     remove_assert_breakpoints();
     // unset all the breakpoints
@@ -326,7 +313,7 @@ void Scheduler::start_breakpoint_evaluation() {
 void Scheduler::set_evaluation_mode(EvaluationMode mode) { evaluation_mode_ = mode; }
 
 void Scheduler::clear() {
-    inserted_breakpoints_.clear();
+    std::lock_guard guard(breakpoint_lock_);
     breakpoints_.clear();
 }
 
@@ -365,8 +352,9 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
         cond.append(" && " + bp_info.condition);
     }
 
-    auto insert_bp = [bp_type, this, &db_bp, cond,
-                      dry_run](DebuggerNamespace *ns) -> DebugBreakPoint * {
+    // nothing is inserted unless it's valid
+    auto create_bp = [bp_type, this, &db_bp, &target_var,
+                      &cond](DebuggerNamespace *ns) -> std::unique_ptr<DebugBreakPoint> {
         auto *rtl = ns->rtl.get();
         auto bp = std::make_unique<DebugBreakPoint>();
         bp->id = db_bp.id;
@@ -380,109 +368,74 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
         bp->column_num = db_bp.column_num;
         bp->trigger_symbols = compute_trigger_symbol(db_bp, rtl, db_);
         bp->type = bp_type;
-        util::validate_expr(rtl, db_, bp->expr.get(), db_bp.id, *db_bp.instance_id);
-        if (!bp->expr->correct()) [[unlikely]] {
-            log_error("Unable to validate breakpoint expression: " + cond);
-            return nullptr;
+        for (auto *expr : {bp->expr.get(), bp->enable_expr.get()}) {
+            util::validate_expr(rtl, db_, expr, db_bp.id, *db_bp.instance_id);
+            if (!expr->correct()) [[unlikely]] {
+                log_error("Unable to validate breakpoint expression: " + cond);
+                return nullptr;
+            }
         }
-        util::validate_expr(rtl, db_, bp->enable_expr.get(), db_bp.id, *db_bp.instance_id);
-        if (!bp->enable_expr->correct()) [[unlikely]] {
-            log_error("Unable to validate breakpoint expression: " + cond);
-            return nullptr;
+        if (bp_type == DebugBreakPoint::Type::data) {
+            auto expr = DebugExpression(target_var);
+            util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
+            auto const &handles = expr.get_resolved_symbol_handles();
+            if (!expr.correct() || handles.size() != 1) {
+                log_error("Unable to validate variable in data breakpoint: " + target_var);
+                return nullptr;
+            }
+            bp->full_rtl_handle = handles.begin()->second;
+            bp->full_rtl_name = rtl->get_full_name(bp->full_rtl_handle);
+            bp->target_rtl_var_name = target_var;
         }
+        return bp;
+    };
 
+    std::lock_guard guard(breakpoint_lock_);
+    auto instance_name = db_->get_instance_name_from_bp(db_bp.id);
+    auto namespaces = namespaces_.get_namespaces(instance_name);
+    if (target_ns) namespaces = {target_ns};
+    if (bp_type == DebugBreakPoint::Type::assert && !target_ns) return nullptr;
+
+    // Only need to return one
+    DebugBreakPoint *result = nullptr;
+    for (auto *ns : namespaces) {
+        auto bp = create_bp(ns);
+        if (!bp) continue;
+        // breakpoints of different types are separate entries
+        auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(), [&bp](auto const &b) {
+            return b->id == bp->id && b->ns_id == bp->ns_id && b->type == bp->type &&
+                   (bp->type != DebugBreakPoint::Type::data ||
+                    (b->target_rtl_var_name == bp->target_rtl_var_name &&
+                     b->expr->expression() == bp->expr->expression()));
+        });
         if (dry_run) {
             // just need a memory holder
             static std::unique_ptr<DebugBreakPoint> holder;
             holder = std::move(bp);
-            return holder.get();
+            result = holder.get();
+        } else if (pos != breakpoints_.end()) {
+            // update breakpoint entry
+            (*pos)->expr = std::move(bp->expr);
+            result = pos->get();
         } else {
-            auto &ptr = breakpoints_.emplace_back(std::move(bp));
-            inserted_breakpoints_.emplace(db_bp.id);
+            result = breakpoints_.emplace_back(std::move(bp)).get();
             log_info(
                 fmt::format("Breakpoint inserted into {0}:{1}", db_bp.filename, db_bp.line_num));
-            return ptr.get();
-        }
-    };
-
-    std::lock_guard guard(breakpoint_lock_);
-    auto instance_name = db_->get_instance_name_from_bp(db_bp.id);
-    auto const &namespaces = namespaces_.get_namespaces(instance_name);
-
-    switch (bp_type) {
-        case DebugBreakPoint::Type::normal: {
-            if (inserted_breakpoints_.find(db_bp.id) == inserted_breakpoints_.end()) {
-                DebugBreakPoint *p = nullptr;
-                for (auto *ns : namespaces) {
-                    p = insert_bp(ns);
-                }
-                // Only need to return one
-                return p;
-            } else {
-                // update breakpoint entry
-                for (auto &b : breakpoints_) {
-                    if (db_bp.id == b->id) {
-                        b->expr = std::make_unique<DebugExpression>(cond);
-                        auto *ns = namespaces_[b->ns_id];
-                        auto *rtl = ns->rtl.get();
-                        util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
-                        if (!b->expr->correct()) [[unlikely]] {
-                            log_error("Unable to validate breakpoint expression: " + cond);
-                        }
-                        // need to update the bp type flag
-                        b->type = static_cast<DebugBreakPoint::Type>(static_cast<int>(b->type) |
-                                                                     static_cast<int>(bp_type));
-                        return b.get();
-                    }
-                }
-                return nullptr;
-            }
-        }
-        case DebugBreakPoint::Type::data: {
-            // we skip insertion if everything matches
-            for (auto const &b : breakpoints_) {
-                if (b->id == db_bp.id && b->has_type_flag(DebugBreakPoint::Type::data)) {
-                    // check if it's data breakpoint as well
-                    if (b->target_rtl_var_name == target_var && b->expr->expression() == cond) {
-                        // no need to insert
-                        return b.get();
-                    }
-                }
-            }
-            DebugBreakPoint *data_bp = nullptr;
-            for (auto *ns : namespaces) {
-                data_bp = insert_bp(ns);
-                auto *rtl = ns->rtl.get();
-                auto expr = DebugExpression(target_var);
-                util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
-                auto const &handles = expr.get_resolved_symbol_handles();
-                if (!expr.correct() || handles.size() != 1) {
-                    log_error("Unable to validate variable in data breakpoint: " + target_var);
-                    return nullptr;
-                }
-                data_bp->full_rtl_handle = handles.begin()->second;
-                data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
-                data_bp->target_rtl_var_name = target_var;
-            }
-            return data_bp;
-        }
-        case DebugBreakPoint::Type::assert: {
-            if (!target_ns) return nullptr;
-            auto *res = insert_bp(target_ns);
-            return res;
         }
     }
-    return nullptr;
+    return result;
 }
 
 DebugBreakPoint *Scheduler::add_data_breakpoint(const std::string &full_name,
                                                 const std::string &expression,
-                                                const BreakPoint &db_bp, bool dry_run) {
+                                                const BreakPoint &db_bp, bool dry_run,
+                                                DebuggerNamespace *target_ns) {
     // we use the same add breakpoint function with different flags on
     BreakPoint bp;
     bp.condition = expression;
     // we allow duplicated breakpoints to be inserted here
-    auto *data_bp = add_breakpoint(bp, db_bp, DebugBreakPoint::Type::data, full_name, dry_run);
+    auto *data_bp =
+        add_breakpoint(bp, db_bp, DebugBreakPoint::Type::data, full_name, dry_run, target_ns);
     return data_bp;
 }
 
@@ -491,29 +444,11 @@ DebugBreakPoint *Scheduler::add_assert_breakpoint(hgdb::DebuggerNamespace *ns,
     return add_breakpoint(db_bp, db_bp, DebugBreakPoint::Type::assert, "", false, ns);
 }
 
-void Scheduler::clear_data_breakpoints() {
+std::vector<std::pair<uint32_t, uint64_t>> Scheduler::clear_data_breakpoints() {
     std::lock_guard guard(breakpoint_lock_);
-    // if it has both data breakpoints and normal breakpoints, clear the flag
-    // else remove this breakpoint
-    std::unordered_set<uint32_t> bps;
-    for (auto &bp : breakpoints_) {
-        if (bp->has_type_flag(DebugBreakPoint::Type::data)) {
-            if (bp->has_type_flag(DebugBreakPoint::Type::normal)) {
-                bp->type = DebugBreakPoint::Type::normal;
-            } else {
-                // remove this breakpoint
-                bps.emplace(bp->id);
-            }
-        }
-    }
-    for (auto id : bps) {
-        auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(),
-                                [id](auto const &bp) { return bp->id == id; });
-        if (pos != breakpoints_.end()) {
-            breakpoints_.erase(pos);
-            inserted_breakpoints_.erase(id);
-        }
-    }
+    auto bps =
+        remove_breakpoint([](auto const &bp) { return bp.type == DebugBreakPoint::Type::data; });
+    return unused_watches(bps);
 }
 
 void Scheduler::reorder_breakpoints() {
@@ -532,17 +467,29 @@ void Scheduler::reorder_breakpoints() {
 
 void Scheduler::remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type type) {
     std::lock_guard guard(breakpoint_lock_);
-    remove_breakpoint(bp.id, type);
+    remove_breakpoint([&bp, type](auto const &b) { return b.id == bp.id && b.type == type; });
 }
 
-std::optional<uint64_t> Scheduler::remove_data_breakpoint(uint64_t bp_id) {
+std::vector<std::pair<uint32_t, uint64_t>> Scheduler::remove_data_breakpoint(uint64_t bp_id) {
     std::lock_guard guard(breakpoint_lock_);
-    auto ptr = remove_breakpoint(bp_id, DebugBreakPoint::Type::data);
-    if (ptr) {
-        return ptr->watch_id;
-    } else {
-        return std::nullopt;
+    auto bps = remove_breakpoint(
+        [bp_id](auto const &b) { return b.id == bp_id && b.type == DebugBreakPoint::Type::data; });
+    return unused_watches(bps);
+}
+
+std::vector<std::pair<uint32_t, uint64_t>> Scheduler::unused_watches(
+    const std::vector<std::unique_ptr<DebugBreakPoint>> &removed) const {
+    std::vector<std::pair<uint32_t, uint64_t>> result;
+    for (auto const &bp : removed) {
+        // the variable may still be watched by other data breakpoints
+        if (std::none_of(breakpoints_.begin(), breakpoints_.end(), [&bp](auto const &b) {
+                return b->type == DebugBreakPoint::Type::data && b->watch_id == bp->watch_id &&
+                       b->ns_id == bp->ns_id;
+            })) {
+            result.emplace_back(bp->ns_id, bp->watch_id);
+        }
     }
+    return result;
 }
 
 std::vector<const DebugBreakPoint *> Scheduler::get_current_breakpoints() {
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 1754776..fe105f8 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -1,6 +1,7 @@
 #ifndef HGDB_SCHEDULER_HH
 #define HGDB_SCHEDULER_HH
 
+#include <functional>
 #include <mutex>
 
 #include "eval.hh"
@@ -74,11 +75,11 @@ public:
     std::vector<const DebugBreakPoint *> get_current_breakpoints();
     DebugBreakPoint *add_data_breakpoint(const std::string &full_name,
                                          const std::string &expression, const BreakPoint &db_bp,
-                                         bool dry_run);
+                                         bool dry_run, DebuggerNamespace *target_ns = nullptr);
     DebugBreakPoint *add_assert_breakpoint(DebuggerNamespace *ns, const BreakPoint &db_bp);
-    void clear_data_breakpoints();
-    // also return associated monitor id, if any
-    std::optional<uint64_t> remove_data_breakpoint(uint64_t bp_id);
+    // also return associated namespace and monitor id that are no longer used, if any
+    std::vector<std::pair<uint32_t, uint64_t>> clear_data_breakpoints();
+    std::vector<std::pair<uint32_t, uint64_t>> remove_data_breakpoint(uint64_t bp_id);
 
     // breakpoint mode
     bool breakpoint_only() const;
@@ -94,7 +95,6 @@ private:
     EvaluationMode evaluation_mode_ = EvaluationMode::BreakPointOnly;
 
     std::vector<std::unique_ptr<DebugBreakPoint>> breakpoints_;
-    std::unordered_set<uint32_t> inserted_breakpoints_;
     // look up table for ordering of breakpoints
     std::unordered_map<uint32_t, uint64_t> bp_ordering_table_;
     std::vector<uint32_t> bp_ordering_;
@@ -115,8 +115,11 @@ private:
 
     std::vector<DebugBreakPoint *> create_next_breakpoints(
         const std::optional<BreakPoint> &bp_info);
-    std::unique_ptr<DebugBreakPoint> remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
+    std::vector<std::unique_ptr<DebugBreakPoint>> remove_breakpoint(
+        const std::function<bool(const DebugBreakPoint &)> &pred);
     void remove_assert_breakpoints();
+    [[nodiscard]] std::vector<std::pair<uint32_t, uint64_t>> unused_watches(
+        const std::vector<std::unique_ptr<DebugBreakPoint>> &removed) const;
 
     // position in the execution order
     [[nodiscard]] uint64_t get_order(uint32_t id) const;
-- 
2.43.0


From dda4f0e043bb736bfaadeda9b61c822565aa4d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:01 +0000
Subject: [PATCH 04/36] fix: conditions are combined as a whole, whatever
 operators they contain

---
 src/db.cc        | 4 ++--
 src/scheduler.cc | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index b44e6c7..ac1007d 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -441,7 +441,7 @@ struct ScopeEntry {
                 if (cond.empty()) {
                     cond = p->condition;
                 } else {
-                    cond.append(" && ").append(p->condition);
+                    cond = fmt::format("({0}) && ({1})", cond, p->condition);
                 }
             }
 
@@ -1759,7 +1759,7 @@ std::string merge_condition(const std::string &cond1, const std::string &cond2)
     } else if (cond1.empty() && !cond2.empty()) {
         return cond2;
     } else {
-        return fmt::format("{0} && {1}", cond1, cond2);
+        return fmt::format("({0}) && ({1})", cond1, cond2);
     }
 }
 
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 935ad72..3be879c 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -349,7 +349,12 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
     std::string cond = "1";
     if (!db_bp.condition.empty()) cond = db_bp.condition;
     if (!bp_info.condition.empty()) {
-        cond.append(" && " + bp_info.condition);
+        // it has to be valid on its own
+        if (!DebugExpression(bp_info.condition).correct()) {
+            log_error("Unable to validate breakpoint expression: " + bp_info.condition);
+            return nullptr;
+        }
+        cond = fmt::format("({0}) && ({1})", cond, bp_info.condition);
     }
 
     // nothing is inserted unless it's valid
-- 
2.43.0


From 38d634fc7a2b9c0c42e591d9dfd149aa7668863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:10 +0000
Subject: [PATCH 05/36] fix: every request is answered in every state, without
 a symbol table included

---
 src/debug.cc | 85 ++++++++++++++++++++++++++++++++++++++--------------
 src/debug.hh |  2 +-
 2 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 1b330b5..39e5b55 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -116,6 +116,8 @@ void Debugger::eval() {
     // when we trigger the breakpoint, the runtime (simulation side) will be paused via a lock.
     // however, the server side can still take breakpoint requests, hence modifying the
     // breakpoints_.
+    // nothing to evaluate without a symbol table
+    if (!scheduler_) return;
     log_info("Start breakpoint evaluation...");
     start_breakpoint_evaluation();  // clean the state and fetch values
 
@@ -167,6 +169,10 @@ std::vector<RTLSimulatorClient *> Debugger::rtl_clients() const {
 }
 
 void Debugger::handle_assert() {
+    if (!db_ || !scheduler_) {
+        log_error("Debug database is not loaded for hgdb assertion");
+        return;
+    }
     auto assert_info = namespaces_.default_rtl()->get_assert_info();
     if (!assert_info) {
         log_error("Incorrect usage of hgdb assertion");
@@ -475,6 +481,8 @@ std::optional<std::string> Debugger::resolve_var_name(
     uint32_t ns_id, const std::string &var_name, const std::optional<uint64_t> &instance_id,
     const std::optional<uint64_t> &breakpoint_id) {
     std::optional<std::string> full_name;
+    // need the symbol table to understand these ids
+    if (!db_ && (breakpoint_id || instance_id)) return std::nullopt;
     if (breakpoint_id) {
         auto bp = *breakpoint_id;
         full_name = db_->resolve_scoped_name_breakpoint(var_name, bp);
@@ -561,8 +569,16 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
             return;
         }
 
+        bool added = false;
         for (auto const &bp : bps) {
-            add_breakpoint(bp_info, bp);
+            added = add_breakpoint(bp_info, bp) || added;
+        }
+        if (!added) {
+            send_error(req,
+                       fmt::format("Unable to insert breakpoint {0}:{1}", bp_info.filename,
+                                   bp_info.line_num),
+                       conn_id);
+            return;
         }
 
         scheduler_->reorder_breakpoints();
@@ -594,7 +610,11 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
             send_message(error_response.str(log_enabled_), conn_id);
             return;
         }
-        add_breakpoint(bp_info, *bp);
+        if (!add_breakpoint(bp_info, *bp)) {
+            send_error(req, fmt::format("Unable to insert breakpoint ({0})", bp_info.id), conn_id);
+            return;
+        }
+        scheduler_->reorder_breakpoints();
     } else {
         scheduler_->remove_breakpoint(bp_info, DebugBreakPoint::Type::normal);
     }
@@ -632,17 +652,22 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
     status_code status = status_code::success;
     std::string error;
 
+    // the simulation can be resumed even if there is no symbol table
+    auto set_evaluation_mode = [this](Scheduler::EvaluationMode mode) {
+        if (scheduler_) scheduler_->set_evaluation_mode(mode);
+    };
+
     switch (req.command_type()) {
         case CommandRequest::CommandType::continue_: {
             log_info("handle_command: continue_");
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::BreakPointOnly);
+            set_evaluation_mode(Scheduler::EvaluationMode::BreakPointOnly);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::stop: {
             log_info("handle_command: stop");
-            scheduler_->clear();
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::None);
+            if (scheduler_) scheduler_->clear();
+            set_evaluation_mode(Scheduler::EvaluationMode::None);
             // we will unlock the lock during the stop step to ensure proper shutdown
             // of the runtime
             namespaces_.default_rtl()->finish_sim();
@@ -652,26 +677,27 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
         case CommandRequest::CommandType::step_over: {
             log_info("handle_command: step_over");
             // change the mode into step through
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::StepOver);
+            set_evaluation_mode(Scheduler::EvaluationMode::StepOver);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::reverse_continue: {
             log_info("handle_command: reverse_continue");
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::ReverseBreakpointOnly);
+            set_evaluation_mode(Scheduler::EvaluationMode::ReverseBreakpointOnly);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::step_back: {
             log_info("handle_command: step_back");
             // change the mode into step back
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::StepBack);
+            set_evaluation_mode(Scheduler::EvaluationMode::StepBack);
             lock_.ready();
             break;
         }
         case CommandRequest::CommandType::jump: {
             log_info(fmt::format("handle_command: jump ({0})", req.time()));
-            auto res = namespaces_.default_rtl()->rewind(req.time(), scheduler_->clock_handles());
+            auto res = namespaces_.default_rtl()->rewind(
+                req.time(), scheduler_ ? scheduler_->clock_handles() : std::vector<vpiHandle>{});
             if (!res) {
                 status = status_code::error;
                 error = "Underlying RTL simulator does not support rewind";
@@ -694,6 +720,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
 void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t conn_id) {
     switch (req.command_type()) {
         case DebuggerInformationRequest::CommandType::breakpoints: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto bps = scheduler_->get_current_breakpoints();
             std::vector<const DebugBreakPoint *> bps_;
             bps_.reserve(bps.size());
@@ -738,6 +765,7 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
             return;
         }
         case DebuggerInformationRequest::CommandType::filename: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto filenames = db_->get_filenames();
             auto resp = DebuggerInformationResponse(filenames);
             req.set_token(resp);
@@ -748,7 +776,8 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
 }
 
 void Debugger::handle_path_mapping(const PathMappingRequest &req, uint64_t conn_id) {
-    if (db_ && req.status() == status_code::success) [[likely]] {
+    if (!check_send_db_error(req, conn_id)) return;
+    if (req.status() == status_code::success) [[likely]] {
         db_->set_src_mapping(req.path_mapping());
         auto resp = GenericResponse(status_code::success, req);
         send_message(resp.str(log_enabled_), conn_id);
@@ -784,11 +813,10 @@ DebuggerNamespace *get_namespace(std::optional<uint32_t> instance_id,
                                  DebuggerNamespaceManager &namespaces_, SymbolTableProvider *db) {
     DebuggerNamespace *ns = namespaces_.default_namespace();
     if (namespace_id) {
-        if (namespaces_.size() > *namespace_id) {
-            return namespaces_[*namespace_id];
-        }
+        return namespaces_.size() > *namespace_id ? namespaces_[*namespace_id] : nullptr;
     }
     std::optional<std::string> instance_name;
+    if (!db) return ns;
     if (instance_id) {
         instance_name = db->get_instance_name(*instance_id);
     }
@@ -812,7 +840,8 @@ DebuggerNamespace *get_namespace(std::optional<uint32_t> instance_id,
 void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id) {
     std::string error_reason = req.error_reason();
 
-    if (db_ && req.status() == status_code::success) [[likely]] {
+    if (!check_send_db_error(req, conn_id)) return;
+    if (req.status() == status_code::success) [[likely]] {
         DebugExpression expr(req.expression());
         if (!expr.correct()) {
             error_reason = "Invalid expression";
@@ -822,11 +851,15 @@ void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id)
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
                                  namespaces_, db_.get());
 
-        if (!ns) ns = namespaces_.default_namespace();
+        if (!ns && !req.namespace_id()) ns = namespaces_.default_namespace();
+        if (!ns) {
+            send_error(req, "Unable to determine design namespace", conn_id);
+            return;
+        }
 
         // if we don't have any breakpoint id and instance id provided
-        // it's free for all
-        if (req.instance_id() || req.breakpoint_id()) {
+        // it's free for all, unless a namespace is requested
+        if (req.instance_id() || req.breakpoint_id() || req.namespace_id()) {
             util::validate_expr(ns->rtl.get(), db_.get(), &expr, req.breakpoint_id(),
                                 req.instance_id());
         } else {
@@ -887,6 +920,10 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
                                  namespaces_, db_.get());
 
+        if (!ns) {
+            send_error(req, "Unable to determine design namespace", conn_id);
+            return;
+        }
         auto &monitor = *ns->monitor;
         if (req.action_type() == MonitorRequest::ActionType::add) {
             std::optional<std::string> full_name =
@@ -954,7 +991,7 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
             send_message(resp.str(log_enabled_), conn_id);
             return;
         } else {
-            send_error(req, req.error_reason(), conn_id);
+            send_error(req, "Unable to set value for " + req.var_name(), conn_id);
             return;
         }
 
@@ -963,10 +1000,13 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
     }
 }
 
-void Debugger::handle_error(const ErrorRequest &req, uint64_t) {}
+void Debugger::handle_error(const ErrorRequest &req, uint64_t conn_id) {
+    send_error(req, req.error_reason(), conn_id);
+}
 
-void Debugger::handle_symbol(const SymbolRequest &, uint64_t) {
+void Debugger::handle_symbol(const SymbolRequest &req, uint64_t conn_id) {
     // we don't deal with symbol stuff in the debugger
+    send_error(req, "Symbol request is not supported by the debugger", conn_id);
 }
 
 // NOLINTNEXTLINE
@@ -1367,9 +1407,10 @@ void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::v
     }
 }
 
-void Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp) {
-    scheduler_->add_breakpoint(bp_info, db_bp);
+bool Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp) {
+    if (!scheduler_->add_breakpoint(bp_info, db_bp)) return false;
     process_delayed_breakpoint(db_bp.id);
+    return true;
 }
 
 void Debugger::start_breakpoint_evaluation() {
diff --git a/src/debug.hh b/src/debug.hh
index 07fe09a..e384664 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -158,7 +158,7 @@ private:
     void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
                          uint64_t start, uint64_t end);
     std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
-    void add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
+    bool add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
 
     // cached wrapper
-- 
2.43.0


From 170955be438ff4bdedbe58c67d37cc67d08d8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:27 +0000
Subject: [PATCH 06/36] fix: a new connection replaces everything of the
 previous one, a failed one nothing

---
 src/debug.cc     | 36 ++++++++++++++++++++++++------------
 src/debug.hh     |  1 +
 src/namespace.cc |  7 +++++++
 src/rtl.cc       |  6 +++---
 4 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 39e5b55..7a2065b 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -40,14 +40,20 @@ Debugger::Debugger(std::shared_ptr<AVPIProvider> vpi) {
 
 bool Debugger::initialize_db(const std::string &filename) {
     log_info(fmt::format("Debug database set to {0}", filename));
-    initialize_db(create_symbol_table(filename));
+    auto db = create_symbol_table(filename);
+    // keep the current one if the new one cannot be used
+    if (!db || db->bad()) return false;
+    initialize_db(std::move(db));
     return db_ != nullptr;
 }
 
 void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
-    // reset db_ for every new connection
-    db_ = nullptr;
     if (!db) return;
+    // reset db_ for every new connection, and everything that's computed from the old one
+    scheduler_ = nullptr;
+    delayed_variables_.clear();
+    cached_instance_name_.clear();
+    cached_signal_values_.clear();
     db_ = std::move(db);
 
     // set up the name mapping
@@ -219,14 +225,7 @@ void Debugger::detach() {
         rtl->remove_call_back("eval_hgdb");
         log_info("Remove callback eval_hgdb");
     } else {
-        std::set<std::string> callbacks;
-        auto const callback_names = rtl->callback_names();
-        for (auto const &callback_name : callback_names) {
-            if (callback_name.find("Monitor") != std::string::npos) {
-                log_info("Remove callback " + callback_name);
-                rtl->remove_call_back(callback_name);
-            }
-        }
+        remove_cb_clocks();
     }
 
     // set evaluation mode to normal
@@ -531,7 +530,7 @@ void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id)
     }
 
     // need to set the remap
-    if (db_) db_->set_src_mapping(req.path_mapping());
+    if (success && db_) db_->set_src_mapping(req.path_mapping());
 
     if (success) {
         auto resp = GenericResponse(status_code::success, req);
@@ -1428,11 +1427,24 @@ void Debugger::add_cb_clocks() {
         // only trigger eval at the posedge clk
         auto *rtl = namespaces_.default_rtl();
         auto clock_signals = util::get_clock_signals(rtl, db_.get());
+        // the clocks of the previous symbol table, if any, are not used anymore
+        remove_cb_clocks();
         bool r = rtl->monitor_signals(clock_signals, eval_hgdb_on_clk, this);
         if (!r || clock_signals.empty()) log_error("Failed to register evaluation callback");
     }
 }
 
+void Debugger::remove_cb_clocks() {
+    auto *rtl = namespaces_.default_rtl();
+    auto const callback_names = rtl->callback_names();
+    for (auto const &callback_name : callback_names) {
+        if (callback_name.find("Monitor") != std::string::npos) {
+            log_info("Remove callback " + callback_name);
+            rtl->remove_call_back(callback_name);
+        }
+    }
+}
+
 void Debugger::setup_init_breakpoint_from_env() {
     uint64_t i = 0;
     while (true) {
diff --git a/src/debug.hh b/src/debug.hh
index e384664..ec52213 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -169,6 +169,7 @@ private:
     // callbacks
     std::optional<std::function<void(hgdb::SymbolTableProvider &)>> on_client_connected_;
     void add_cb_clocks();
+    void remove_cb_clocks();
 
     // performance benchmark functions
     // only used to initialize the debugger to certain state, not for normal usage
diff --git a/src/namespace.cc b/src/namespace.cc
index 5a8ce9a..3605ade 100644
--- a/src/namespace.cc
+++ b/src/namespace.cc
@@ -33,6 +33,13 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
     auto mapping =
         default_rtl()->compute_instance_mapping(instances, default_rtl()->vpi()->has_defname());
 
+    // start over if it's computed before, e.g. a client connects with a different symbol table
+    if (namespaces_.size() > 1) namespaces_.resize(1);
+    namespaces_[0]->rtl->set_mapping("", "");
+    namespaces_[0]->def_name.clear();
+    namespaces_[0]->monitor = std::make_unique<Monitor>(default_rtl());
+    mapped_namespaces_.clear();
+
     for (auto i = 1u; i < mapping.size(); i++) {
         add_namespace(default_rtl()->vpi());
     }
diff --git a/src/rtl.cc b/src/rtl.cc
index e36525b..2338244 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -540,9 +540,9 @@ vpiHandle RTLSimulatorClient::register_tf(const std::string &name, int (*tf_func
 void RTLSimulatorClient::remove_call_back(vpiHandle cb_handle) {
     // notice that this is not locked!
     // remove it from the cb_handles if any
-    for (auto const &iter : cb_handles_) {
-        if (iter.second == cb_handle) {
-            cb_handles_.erase(iter.first);
+    for (auto it = cb_handles_.begin(); it != cb_handles_.end(); it++) {
+        if (it->second == cb_handle) {
+            cb_handles_.erase(it);
             break;
         }
     }
-- 
2.43.0


From 9780fe0883111c29df4f3929192710c5f8364047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:55 +0000
Subject: [PATCH 07/36] fix: requests and breakpoint evaluation do not race
 with each other

---
 src/debug.cc  | 36 ++++++++++++++++++++++++++----------
 src/debug.hh  | 14 ++++++++++++--
 src/server.cc | 37 +++++++++++++++++++++++++++----------
 src/thread.cc |  5 +++++
 src/thread.hh |  2 ++
 5 files changed, 72 insertions(+), 22 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 7a2065b..ed5d765 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -31,6 +31,7 @@ Debugger::Debugger(std::shared_ptr<AVPIProvider> vpi) {
 
     // set up some call backs
     server_->set_on_call_client_disconnect([this]() {
+        std::lock_guard guard(state_lock_);
         if (detach_after_disconnect_) detach();
     });
 
@@ -49,6 +50,7 @@ bool Debugger::initialize_db(const std::string &filename) {
 
 void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
     if (!db) return;
+    std::lock_guard guard(state_lock_);
     // reset db_ for every new connection, and everything that's computed from the old one
     scheduler_ = nullptr;
     delayed_variables_.clear();
@@ -112,16 +114,16 @@ void Debugger::stop() {
 }
 
 void Debugger::eval() {
+    std::unique_lock guard(state_lock_);
     perf::PerfCount perf("eval loop", perf_count_);
     // if we set to pause at posedge, need to do that at the very beginning!
-    if (pause_at_posedge) [[unlikely]] {
-        lock_.wait();
+    if (pause_at_posedge && is_running_.load()) [[unlikely]] {
+        pause(guard);
     }
     // the function that actually triggers breakpoints!
-    // notice that there is a hidden race condition
     // when we trigger the breakpoint, the runtime (simulation side) will be paused via a lock.
     // however, the server side can still take breakpoint requests, hence modifying the
-    // breakpoints_.
+    // breakpoints_. as a result none of the breakpoints can be used after the pause
     // nothing to evaluate without a symbol table
     if (!scheduler_) return;
     log_info("Start breakpoint evaluation...");
@@ -146,12 +148,15 @@ void Debugger::eval() {
 
         if (!result.empty()) {
             scheduler_->set_current_hits(result);
+            // commands received before this point are not meant for this pause
+            lock_.reset();
             // send the breakpoint hit information
             send_breakpoint_hit(result);
             // also send any breakpoint values
             send_monitor_values(MonitorRequest::MonitorType::breakpoint);
             // then pause the execution
-            lock_.wait();
+            pause(guard);
+            if (!scheduler_) return;
         }
     }
 
@@ -174,7 +179,14 @@ std::vector<RTLSimulatorClient *> Debugger::rtl_clients() const {
     return result;
 }
 
+void Debugger::pause(std::unique_lock<std::recursive_mutex> &guard) {
+    guard.unlock();
+    lock_.wait();
+    guard.lock();
+}
+
 void Debugger::handle_assert() {
+    std::lock_guard guard(state_lock_);
     if (!db_ || !scheduler_) {
         log_error("Debug database is not loaded for hgdb assertion");
         return;
@@ -203,6 +215,7 @@ void Debugger::handle_assert() {
 }
 
 void Debugger::set_option(const std::string &name, bool value) {
+    std::lock_guard guard(state_lock_);
     auto options = get_options();
     options.set_option(name, value);
 }
@@ -217,6 +230,7 @@ Debugger::~Debugger() {
 }
 
 void Debugger::detach() {
+    std::lock_guard guard(state_lock_);
     // remove all the clock related callback
     // depends on whether it's verilator or not
     // always use the first one
@@ -252,6 +266,7 @@ void Debugger::detach() {
 void Debugger::on_message(const std::string &message, uint64_t conn_id) {
     // server can only receive request
     auto req = Request::parse_request(message);
+    std::lock_guard guard(state_lock_);
     if (req->status() != status_code::success) {
         // send back error message
         auto resp = GenericResponse(status_code::error, *req, req->error_reason());
@@ -1352,6 +1367,7 @@ bool Debugger::eval_breakpoint(DebugBreakPoint *bp) {
         bool data_bp = true;
         bool enabled = eval_result && trigger_result;
         if (bp->type == DebugBreakPoint::Type::data && enabled) {
+            std::lock_guard guard(data_breakpoint_lock_);
             auto [changed, _] = ns->monitor->var_changed(bp->watch_id);
             data_bp = changed;
         }
@@ -1363,15 +1379,15 @@ bool Debugger::eval_breakpoint(DebugBreakPoint *bp) {
     return false;
 }
 
-std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
-    std::vector<bool> hits(bps.size());
+std::vector<uint8_t> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
+    std::vector<uint8_t> hits(bps.size());
     std::fill(hits.begin(), hits.end(), false);
     // most of the time is on getting simulation values, so using many threads
     // doesn't make any sense
     const static auto processor_count = 2;
     auto constexpr minimum_batch_size = 16;
     auto const batch_min_size = processor_count * minimum_batch_size;
-    const static auto commercial =
+    const auto commercial =
         namespaces_.default_rtl()->is_vcs() || namespaces_.default_rtl()->is_xcelium();
     if (bps.size() > batch_min_size && !commercial) {
         // multi-threading for two threads
@@ -1398,8 +1414,8 @@ std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *
     return hits;
 }
 
-void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
-                               uint64_t start, uint64_t end) {
+void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps,
+                               std::vector<uint8_t> &result, uint64_t start, uint64_t end) {
     for (auto index = start; index < end; index++) {
         bool r = eval_breakpoint(bps[index]);
         result[index] = r;
diff --git a/src/debug.hh b/src/debug.hh
index ec52213..3e70e72 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -65,6 +65,10 @@ private:
     std::thread server_thread_;
     // runtime lock
     RuntimeLock lock_;
+    // requests are served in the server thread whereas breakpoints are evaluated in the simulation
+    // thread. everything below is only accessed with this lock, except when the simulation is
+    // paused
+    std::recursive_mutex state_lock_;
     std::atomic<bool> is_running_ = false;
 
     // used for scheduler
@@ -84,6 +88,8 @@ private:
         uint64_t watch_id;
     };
     std::unordered_map<vpiHandle, DelayedVariable> delayed_variables_;
+    // watched values are shared among data breakpoints
+    std::mutex data_breakpoint_lock_;
 
     // options
     // if in single thread mode, instances with the same fn/ln won't be evaluated as a batch
@@ -155,9 +161,10 @@ private:
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
     bool eval_breakpoint(DebugBreakPoint *bp);
-    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
+    // bits of std::vector<bool> cannot be written from different threads
+    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<uint8_t> &result,
                          uint64_t start, uint64_t end);
-    std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
+    std::vector<uint8_t> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
     bool add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
 
@@ -166,6 +173,9 @@ private:
                                             bool use_delayed = false);
     std::string get_full_name(uint32_t ns_id, uint64_t instance_id, const std::string &var_name);
 
+    // pause the simulation until it's told to continue. guard is released in the meantime
+    void pause(std::unique_lock<std::recursive_mutex> &guard);
+
     // callbacks
     std::optional<std::function<void(hgdb::SymbolTableProvider &)>> on_client_connected_;
     void add_cb_clocks();
diff --git a/src/server.cc b/src/server.cc
index 1f5865f..2aa91ea 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -26,17 +26,22 @@ DebugServer::DebugServer(bool enable_logging) {
     };
     // on disconnection
     auto on_disconnect = [this](websocketpp::connection_hdl hdl) {
-        std::lock_guard<std::mutex> guard{connections_lock_};
-        auto conn = server_.get_con_from_hdl(std::move(hdl));
-        // not efficient, but we assume client won't disconnect often
-        for (auto const &[id, c] : connections_) {
-            if (conn == c) {
-                connections_.erase(id);
-                connection_id_map_.erase(conn.get());
-                break;
+        bool all_disconnected;
+        {
+            std::lock_guard<std::mutex> guard{connections_lock_};
+            auto conn = server_.get_con_from_hdl(std::move(hdl));
+            // not efficient, but we assume client won't disconnect often
+            for (auto it = connections_.begin(); it != connections_.end(); it++) {
+                if (conn == it->second) {
+                    connections_.erase(it);
+                    connection_id_map_.erase(conn.get());
+                    break;
+                }
             }
+            all_disconnected = connections_.empty();
         }
-        if (connections_.empty() && on_all_client_disconnect_) {
+        // the callback may need to send messages, so it cannot be called with the lock
+        if (all_disconnected && on_all_client_disconnect_) {
             (*on_all_client_disconnect_)();
         }
     };
@@ -75,12 +80,14 @@ void DebugServer::stop() {
 }
 
 void DebugServer::send(const std::string &payload) {
+    std::lock_guard guard(connections_lock_);
     for (const auto &[id, conn] : connections_) {
         conn->send(payload);
     }
 }
 
 void DebugServer::send(const std::string &payload, const std::string &topic) {
+    std::lock_guard guard(connections_lock_);
     if (topics_.find(topic) != topics_.end()) [[likely]] {
         auto const &ids = topics_.at(topic);
         // to ensure high performance during runtime, we don't do clean up
@@ -94,6 +101,7 @@ void DebugServer::send(const std::string &payload, const std::string &topic) {
 }
 
 void DebugServer::send(const std::string &payload, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     if (connections_.find(conn_id) != connections_.end()) [[likely]] {
         connections_.at(conn_id)->send(payload);
     }
@@ -105,7 +113,14 @@ void DebugServer::set_on_message(
                                        const raw_message &msg) {
         auto str = msg->get_payload();
         auto conn = server_.get_con_from_hdl(hdl);
-        auto id = connection_id_map_.at(conn.get());
+        uint64_t id;
+        {
+            std::lock_guard guard(connections_lock_);
+            auto it = connection_id_map_.find(conn.get());
+            // connection is being closed
+            if (it == connection_id_map_.end()) return;
+            id = it->second;
+        }
         callback(str, id);
     };
     server_.set_message_handler(on_message);
@@ -116,10 +131,12 @@ void DebugServer::set_on_call_client_disconnect(const std::function<void()> &fun
 }
 
 void DebugServer::add_to_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     topics_[topic].emplace(conn_id);
 }
 
 void DebugServer::remove_from_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     if (topics_[topic].find(conn_id) != topics_[topic].end()) {
         topics_[topic].erase(conn_id);
     }
diff --git a/src/thread.cc b/src/thread.cc
index deb24b8..4c4389c 100644
--- a/src/thread.cc
+++ b/src/thread.cc
@@ -18,4 +18,9 @@ void RuntimeLock::ready() {
     }
 }
 
+void RuntimeLock::reset() {
+    std::unique_lock<std::mutex> lock_(m_);
+    ready_ = false;
+}
+
 }  // namespace hgdb
\ No newline at end of file
diff --git a/src/thread.hh b/src/thread.hh
index 0d4968c..07fbf0f 100644
--- a/src/thread.hh
+++ b/src/thread.hh
@@ -12,6 +12,8 @@ public:
     RuntimeLock() = default;
     void wait();
     void ready();
+    // discard the notification that nobody waits for
+    void reset();
 
 private:
     std::mutex m_;
-- 
2.43.0


From e5a35e7a4c1f1b83d7350e79fee7c60efcb8d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:00 +0000
Subject: [PATCH 08/36] fix: an assertion pauses in the instance that calls it

---
 src/debug.cc     |  9 +++++++--
 src/namespace.cc | 13 +++++++++----
 src/rtl.cc       |  2 +-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index ed5d765..2a4055e 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -207,11 +207,16 @@ void Debugger::handle_assert() {
         log_error("Unable to find corresponding breakpoint for assertion");
         return;
     }
-    // should be only one
-    auto &bp = breakpoints[0];
+    // should be only one in the instance where the assertion is called
+    auto pos = std::find_if(breakpoints.begin(), breakpoints.end(), [&](auto const &bp) {
+        auto name = db_->get_instance_name_from_bp(bp.id);
+        return name && ns->rtl->get_full_name(*name) == assert_info->full_name;
+    });
+    auto &bp = pos == breakpoints.end() ? breakpoints[0] : *pos;
     bp.condition.clear();
     // need to insert it into the scheduler
     scheduler_->add_assert_breakpoint(ns, bp);
+    scheduler_->reorder_breakpoints();
 }
 
 void Debugger::set_option(const std::string &name, bool value) {
diff --git a/src/namespace.cc b/src/namespace.cc
index 3605ade..d68e07f 100644
--- a/src/namespace.cc
+++ b/src/namespace.cc
@@ -84,13 +84,18 @@ std::map<std::string, std::map<std::string, uint32_t>> DebuggerNamespaceManager:
 
 DebuggerNamespace *DebuggerNamespaceManager::look_up(const std::string &full_name) const {
     // linearly look through each namespace to see which one match
+    // rtl_name ends with ".". any instance inside the design counts
+    DebuggerNamespace *result = nullptr;
+    uint64_t size = 0;
     for (auto const &ns : namespaces_) {
-        auto [front, rtl_name] = ns->rtl->get_mapping();
-        if (full_name == rtl_name.substr(0, rtl_name.size() - 1)) {
-            return ns.get();
+        auto const &rtl_name = ns->rtl->get_mapping().second;
+        if (!rtl_name.empty() && (full_name + ".").starts_with(rtl_name) &&
+            rtl_name.size() > size) {
+            result = ns.get();
+            size = rtl_name.size();
         }
     }
-    return nullptr;
+    return result;
 }
 
 }  // namespace hgdb
\ No newline at end of file
diff --git a/src/rtl.cc b/src/rtl.cc
index 2338244..144a885 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -1024,7 +1024,7 @@ std::optional<RTLSimulatorClient::AssertInfo> RTLSimulatorClient::get_assert_inf
         auto type = vpi_->vpi_get(vpiType, it);
         if (type == vpiModule) {
             // this is the module
-            res.full_name = vpi_get_str(vpiFullName, it);
+            res.full_name = vpi_->vpi_get_str(vpiFullName, it);
         } else if (type == vpiConstant) {
             auto const_type = vpi_->vpi_get(vpiConstType, it);
             if (const_type == vpiStringConst) {
-- 
2.43.0


From 1ef1719d72fcbba9966292020982406c2e27169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:11 +0000
Subject: [PATCH 09/36] fix: monitors of changed values are delivered

---
 src/debug.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debug.cc b/src/debug.cc
index 2a4055e..d848017 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -161,6 +161,7 @@ void Debugger::eval() {
     }
 
     send_monitor_values(MonitorRequest::MonitorType::clock_edge);
+    send_monitor_values(MonitorRequest::MonitorType::changed);
 }
 
 [[maybe_unused]] bool Debugger::is_verilator() {
-- 
2.43.0


From 3014abc366cf80110205f44fa46cb7735f801565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:24 +0000
Subject: [PATCH 10/36] fix: cached signal values belong to the current
 evaluation only

---
 src/debug.cc | 34 +++++++++++++++++++++++++---------
 src/debug.hh |  3 +++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index d848017..bdfbb91 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -136,6 +136,8 @@ void Debugger::eval() {
             perf::PerfCount perf_get_bp("next breakpoints", perf_count_);
             bps = scheduler_->next_breakpoints();
         }
+        // the simulation may have been rewound
+        reset_signal_cache();
 
         if (bps.empty()) break;
         auto hits = eval_breakpoints(bps);
@@ -160,6 +162,8 @@ void Debugger::eval() {
         }
     }
 
+    // values are going to change once we return
+    cached_signal_time_ = std::nullopt;
     send_monitor_values(MonitorRequest::MonitorType::clock_edge);
     send_monitor_values(MonitorRequest::MonitorType::changed);
 }
@@ -999,13 +1003,11 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
         // need to set the value
         auto res = rtl->set_value(*full_name, req.value());
         if (res) {
-            // we need to remove cached value
-            if (use_signal_cache_) {
-                auto *handle = rtl->get_handle(*full_name);
+            // we need to remove cached values, since other signals may depend on it, e.g. its
+            // slices
+            {
                 std::lock_guard guard(cached_signal_values_lock_);
-                if (cached_signal_values_.find(handle) != cached_signal_values_.end()) {
-                    cached_signal_values_.erase(handle);
-                }
+                cached_signal_values_.clear();
             }
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
@@ -1320,7 +1322,8 @@ std::string Debugger::get_full_name(uint32_t ns_id, uint64_t instance_id,
 std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle,
                                                   bool use_delayed) {
     // assume the name is already elaborated/mapped
-    if (use_signal_cache_) [[unlikely]] {
+    bool const use_cache = use_signal_cache_ && cached_signal_time_;
+    if (use_cache) [[unlikely]] {
         std::lock_guard guard(cached_signal_values_lock_);
         if (cached_signal_values_.find(handle) != cached_signal_values_.end()) {
             return cached_signal_values_.at(handle);
@@ -1339,7 +1342,7 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
                              static_cast<void *>(handle)));
 
     if (value) {
-        if (use_signal_cache_) {
+        if (use_cache) {
             std::lock_guard guard(cached_signal_values_lock_);
             cached_signal_values_.emplace(handle, *value);
         }
@@ -1436,10 +1439,23 @@ bool Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp
 
 void Debugger::start_breakpoint_evaluation() {
     scheduler_->start_breakpoint_evaluation();
-    cached_signal_values_.clear();
+    cached_signal_time_ = std::nullopt;
+    reset_signal_cache();
     update_delayed_values();
 }
 
+void Debugger::reset_signal_cache() {
+    if (!use_signal_cache_) [[likely]] {
+        cached_signal_time_ = std::nullopt;
+        return;
+    }
+    auto time = namespaces_.default_rtl()->get_simulation_time();
+    if (cached_signal_time_ != time) {
+        cached_signal_values_.clear();
+        cached_signal_time_ = time;
+    }
+}
+
 void Debugger::add_cb_clocks() {
     // TODO:
     //     for now we assume all the designs share the same clock
diff --git a/src/debug.hh b/src/debug.hh
index 3e70e72..6f1c72a 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -77,6 +77,8 @@ private:
     // reduce VPI traffic
     std::unordered_map<vpiHandle, int64_t> cached_signal_values_;
     std::mutex cached_signal_values_lock_;
+    // values are only cached during the evaluation, for this simulation time
+    std::optional<uint64_t> cached_signal_time_;
     // reduce DB traffic and remapping computation
     std::unordered_map<uint64_t, std::string> cached_instance_name_;
     std::mutex cached_instance_name_lock_;
@@ -167,6 +169,7 @@ private:
     std::vector<uint8_t> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
     bool add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
+    void reset_signal_cache();
 
     // cached wrapper
     std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle,
-- 
2.43.0


From 5d7d89e8aa4192e3ed72c080e9fccbe02e2e631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:40 +0000
Subject: [PATCH 11/36] fix: delayed variables are tracked per copy of the
 design and per delay

---
 src/debug.cc   | 32 +++++++++++++++++---------------
 src/debug.hh   |  9 +++++----
 src/monitor.cc |  4 ++--
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index bdfbb91..c8b9178 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -472,7 +472,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
 
 // NOLINTNEXTLINE
 std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                                    bool use_delay) {
+                                    std::optional<uint32_t> delay) {
     std::string value_str;
     if (is_rtl) {
         auto &rtl = namespaces_[ns_id]->rtl;
@@ -484,12 +484,13 @@ std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name,
             width = width_opt ? *width_opt : 0u;
         }
 
-        if (use_delay) {
-            if (delayed_variables_.find(handle) == delayed_variables_.end()) [[unlikely]] {
+        if (delay) {
+            auto pos = delayed_variables_.find({handle, *delay});
+            if (pos == delayed_variables_.end()) [[unlikely]] {
                 log_error("Internal error on handling delayed variables");
                 value_str = error_value_str;
             } else {
-                value_str = value_to_str(delayed_variables_.at(handle).value, use_hex_str_, width);
+                value_str = value_to_str(pos->second.value, use_hex_str_, width);
             }
         } else {
             auto value = rtl->get_value(handle);
@@ -1212,9 +1213,10 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
             auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
-                std::string value_str =
-                    get_value_str(bp->ns_id, rtl_name, var.is_rtl,
-                                  static_cast<VariableType>(ctx_var.type) == VariableType::delay);
+                std::optional<uint32_t> delay;
+                if (static_cast<VariableType>(ctx_var.type) == VariableType::delay)
+                    delay = ctx_var.depth;
+                std::string value_str = get_value_str(bp->ns_id, rtl_name, var.is_rtl, delay);
                 scope.add_local_value(front_name, value_str);
             }
         }
@@ -1319,8 +1321,7 @@ std::string Debugger::get_full_name(uint32_t ns_id, uint64_t instance_id,
     return full_name;
 }
 
-std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                                  bool use_delayed) {
+std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle) {
     // assume the name is already elaborated/mapped
     bool const use_cache = use_signal_cache_ && cached_signal_time_;
     if (use_cache) [[unlikely]] {
@@ -1331,10 +1332,6 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
     }
     // need to actually get the value
     std::optional<int64_t> value;
-    if (use_delayed && delayed_variables_.find(handle) != delayed_variables_.end()) [[unlikely]] {
-        return delayed_variables_.at(handle).value;
-    }
-
     value = namespaces_[ns_id]->rtl->get_value(handle);
 
     if (!value)
@@ -1570,6 +1567,7 @@ void Debugger::update_delayed_values() {
             ns->monitor->get_watched_values(MonitorRequest::MonitorType::delay_clock_edge);
         for (auto &iter : delayed_variables_) {
             auto &var_info = iter.second;
+            if (var_info.ns_id != ns->id) continue;
             auto pos = std::find_if(values.begin(), values.end(), [&var_info](auto const &iter) {
                 return iter.first == var_info.watch_id;
             });
@@ -1599,15 +1597,19 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
                 // we really don't care about front end name
                 // get current value as initialization. this allows the breakpoint next cycle
                 // has the proper value before monitor logic kicks in
+                auto *handle = rtl->get_handle(rtl_name);
+                // already tracked
+                if (delayed_variables_.find({handle, ctx.depth}) != delayed_variables_.end())
+                    continue;
                 auto value = rtl->get_value(rtl_name);
                 auto watch_id = monitor->add_monitor_variable(rtl_name, ctx.depth, value);
                 monitor->set_monitor_variable_condition(watch_id, func);
                 DelayedVariable delayed_var;
                 delayed_var.rtl_name = rtl_name;
                 delayed_var.watch_id = watch_id;
-                auto *handle = rtl->get_handle(rtl_name);
+                delayed_var.ns_id = ns->id;
                 if (handle) {
-                    delayed_variables_.emplace(handle, delayed_var);
+                    delayed_variables_.emplace(std::make_pair(handle, ctx.depth), delayed_var);
                 }
             }
         }
diff --git a/src/debug.hh b/src/debug.hh
index 6f1c72a..47098d4 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -88,8 +88,10 @@ private:
         std::string rtl_name;
         std::optional<int64_t> value;
         uint64_t watch_id;
+        uint32_t ns_id;
     };
-    std::unordered_map<vpiHandle, DelayedVariable> delayed_variables_;
+    // the same signal can be delayed by different number of cycles
+    std::map<std::pair<vpiHandle, uint32_t>, DelayedVariable> delayed_variables_;
     // watched values are shared among data breakpoints
     std::mutex data_breakpoint_lock_;
 
@@ -127,7 +129,7 @@ private:
     bool has_cli_flag(const std::string &flag);
     [[nodiscard]] static std::string get_monitor_topic(uint64_t watch_id);
     std::string get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                              bool use_delay = false);
+                              std::optional<uint32_t> delay = std::nullopt);
     std::optional<std::string> resolve_var_name(uint32_t ns_id, const std::string &var_name,
                                                 const std::optional<uint64_t> &instance_id,
                                                 const std::optional<uint64_t> &breakpoint_id);
@@ -172,8 +174,7 @@ private:
     void reset_signal_cache();
 
     // cached wrapper
-    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                            bool use_delayed = false);
+    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle);
     std::string get_full_name(uint32_t ns_id, uint64_t instance_id, const std::string &var_name);
 
     // pause the simulation until it's told to continue. guard is released in the meantime
diff --git a/src/monitor.cc b/src/monitor.cc
index 3a188a7..30d2243 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -109,7 +109,7 @@ std::vector<std::pair<uint64_t, std::optional<int64_t>>> Monitor::get_watched_va
                 // we assume this will be called every clock cycle
                 auto new_value = rtl_->get_value(watch_var->handle);
                 // we use the old value
-                auto old_value = *watch_var->get_value();
+                auto old_value = watch_var->get_value();
                 watch_var->set_value(new_value);
                 result.emplace_back(std::make_pair(watch_id, old_value));
             }
@@ -176,7 +176,7 @@ Monitor::WatchVariableBuffer::WatchVariableBuffer(std::string full_name, vpiHand
     : WatchVariable(WatchType::delay_clock_edge, std::move(full_name), handle), depth_(depth) {}
 
 std::optional<int64_t> Monitor::WatchVariableBuffer::get_value() const {
-    if (values_.size() == depth_) [[likely]] {
+    if (!values_.empty() && values_.size() == depth_) [[likely]] {
         return values_.front();
     } else {
         return std::nullopt;
-- 
2.43.0


From b80c5eb17fe5bb9a3574050f211a8021d34c03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:52 +0000
Subject: [PATCH 12/36] fix: $instance of a breakpoint scope is the instance of
 the breakpoint

---
 src/debug.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index c8b9178..ee61876 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -898,8 +898,14 @@ void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id)
             return;
         }
 
-        auto res =
-            set_expr_values(ns ? ns->id : 0, &expr, req.instance_id() ? *req.instance_id() : 0);
+        uint32_t instance_id = 0;
+        if (req.instance_id()) {
+            instance_id = *req.instance_id();
+        } else if (req.breakpoint_id()) {
+            auto bp = db_->get_breakpoint(*req.breakpoint_id());
+            if (bp && bp->instance_id) instance_id = *bp->instance_id;
+        }
+        auto res = set_expr_values(ns->id, &expr, instance_id);
 
         if (!res) {
             error_reason = "Unable to get symbol values";
-- 
2.43.0


From 555dcce897c50b87180f4b89ca3a5a1117e9e462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:03 +0000
Subject: [PATCH 13/36] fix: malformed requests are rejected and symbol
 messages survive the round trip

Non-object documents, negative or out of range numbers, a missing line number, deep nesting and
wrongly typed optional members are answered with an error instead of an assertion failure or
undefined behaviour, with the token of the request. SymbolResponse::str() writes what parse()
reads; variable names are ordered totally.
---
 src/proto.cc | 223 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 150 insertions(+), 73 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 1ca4c3e..ba0ffdd 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -2,6 +2,8 @@
 
 #include <fmt/format.h>
 
+#include <charconv>
+#include <limits>
 #include <utility>
 
 #include "rapidjson/document.h"
@@ -179,7 +181,8 @@ namespace hgdb {
 template <typename T>
 static bool check_member(T &document, const char *member_name, std::string &error,
                          bool set_error = true) {
-    if (!document.HasMember(member_name)) {
+    // null is the same as not having it
+    if (!document.HasMember(member_name) || document[member_name].IsNull()) {
         if (set_error) error = fmt::format("Unable to find member {0}", member_name);
         return false;
     }
@@ -192,13 +195,21 @@ static std::optional<T> get_member(K &document, const char *member_name, std::st
     if (!check_member(document, member_name, error, set_error)) return std::nullopt;
     if constexpr (std::is_same<T, std::string>::value) {
         if (document[member_name].IsString()) {
-            return std::string(document[member_name].GetString());
+            return std::string(document[member_name].GetString(),
+                               document[member_name].GetStringLength());
         } else if (check_type) {
             error = fmt::format("Invalid type for {0}", member_name);
         }
     } else if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value) {
-        if (document[member_name].IsNumber()) {
-            return document[member_name].template Get<T>();
+        // the value has to be representable
+        auto const &value = document[member_name];
+        if (std::is_unsigned<T>::value && value.IsUint64() &&
+            value.GetUint64() <= static_cast<uint64_t>(std::numeric_limits<T>::max())) {
+            return static_cast<T>(value.GetUint64());
+        } else if (std::is_signed<T>::value && value.IsInt64() &&
+                   value.GetInt64() >= static_cast<int64_t>(std::numeric_limits<T>::min()) &&
+                   value.GetInt64() <= static_cast<int64_t>(std::numeric_limits<T>::max())) {
+            return static_cast<T>(value.GetInt64());
         } else if (check_type) {
             error = fmt::format("Invalid type for {0}", member_name);
         }
@@ -274,7 +285,7 @@ void set_member(K &json_value, A &allocator, const char *name, const T &value) {
     using LocalVarCompareMap =
         std::map<std::string, std::string, BreakPointResponse::LocalVarNameCompare>;
     if constexpr (std::is_same<T, std::string>::value) {
-        rapidjson::Value v(value.c_str(), allocator);
+        rapidjson::Value v(value.c_str(), value.size(), allocator);
         json_value.AddMember(key, v, allocator);
     } else if constexpr (std::is_integral<T>::value) {
         json_value.AddMember(key.Move(), value, allocator);
@@ -305,7 +316,7 @@ template <typename T, typename K, typename A>
 void set_member(K &v, A &allocator, const T &value) {
     if constexpr (std::is_same<T, BreakPoint>::value) {
         set_member(v, allocator, "id", value.id);
-        set_member(v, allocator, "instance_id", *value.instance_id);
+        if (value.instance_id) set_member(v, allocator, "instance_id", *value.instance_id);
         set_member(v, allocator, "filename", value.filename);
         set_member(v, allocator, "line_num", value.line_num);
         set_member(v, allocator, "column_num", value.column_num);
@@ -315,27 +326,39 @@ void set_member(K &v, A &allocator, const T &value) {
         set_member(v, allocator, "id", value.id);
         set_member(v, allocator, "value", value.value);
         set_member(v, allocator, "is_rtl", value.is_rtl);
-    } else if constexpr (std::is_same<T, std::pair<ContextVariable, Variable>>::value) {
-        auto const &[context, var] = value;
-        set_member(v, allocator, "name", context.name);
-        set_member(v, allocator, "breakpoint_id", *context.breakpoint_id);
-        set_member(v, allocator, "variable_id", *context.variable_id);
-        set_member(v, allocator, var);
-    } else if constexpr (std::is_same<T, std::pair<GeneratorVariable, Variable>>::value) {
-        auto const &[gen, var] = value;
-        set_member(v, allocator, "name", gen.name);
-        set_member(v, allocator, "instance_id", *gen.instance_id);
-        set_member(v, allocator, "variable_id", *gen.variable_id);
-        set_member(v, allocator, var);
+    } else if constexpr (std::is_same<T, ContextVariable>::value) {
+        set_member(v, allocator, "name", value.name);
+        if (value.breakpoint_id) set_member(v, allocator, "breakpoint_id", *value.breakpoint_id);
+        if (value.variable_id) set_member(v, allocator, "variable_id", *value.variable_id);
+        set_member(v, allocator, "type", value.type);
+        set_member(v, allocator, "depth", value.depth);
+    } else if constexpr (std::is_same<T, GeneratorVariable>::value) {
+        set_member(v, allocator, "name", value.name);
+        if (value.instance_id) set_member(v, allocator, "instance_id", *value.instance_id);
+        if (value.variable_id) set_member(v, allocator, "variable_id", *value.variable_id);
+        set_member(v, allocator, "annotation", value.annotation);
     } else if constexpr (std::is_same<T, std::tuple<uint32_t, std::string, std::string>>::value) {
         set_member(v, allocator, "id", std::get<0>(value));
         set_member(v, allocator, "var", std::get<1>(value));
         set_member(v, allocator, "cond", std::get<2>(value));
-    } else if constexpr (
-        std::is_same<T, std::vector<BreakPoint>>::value ||
-        std::is_same<T, std::vector<std::pair<ContextVariable, Variable>>>::value ||
-        std::is_same<T, std::vector<std::pair<GeneratorVariable, Variable>>>::value ||
-        std::is_same<T, std::vector<std::tuple<uint32_t, std::string, std::string>>>::value) {
+    } else if constexpr (std::is_same<T,
+                                      std::vector<std::pair<ContextVariable, Variable>>>::value ||
+                         std::is_same<T,
+                                      std::vector<std::pair<GeneratorVariable, Variable>>>::value) {
+        // each entry is a pair of context/generator variable and the actual variable
+        for (auto const &[info, var] : value) {
+            rapidjson::Value entry(rapidjson::kArrayType);
+            rapidjson::Value info_v(rapidjson::kObjectType), var_v(rapidjson::kObjectType);
+            set_member(info_v, allocator, info);
+            set_member(var_v, allocator, var);
+            entry.PushBack(info_v.Move(), allocator);
+            entry.PushBack(var_v.Move(), allocator);
+            v.PushBack(entry.Move(), allocator);
+        }
+    } else if constexpr (std::is_same<T, std::vector<BreakPoint>>::value ||
+                         std::is_same<
+                             T,
+                             std::vector<std::tuple<uint32_t, std::string, std::string>>>::value) {
         for (auto const &bp : value) {
             rapidjson::Value entry(rapidjson::kObjectType);
             set_member(entry, allocator, bp);
@@ -347,7 +370,7 @@ void set_member(K &v, A &allocator, const T &value) {
             entry_v.SetString(entry.c_str(), entry.size(), allocator);
             v.PushBack(entry_v.Move(), allocator);
         }
-    } else if constexpr (std::is_same<T, std::vector<uint64_t>>::value) {
+    } else if constexpr (std::is_same<T, std::vector<uint32_t>>::value) {
         for (auto const entry : value) {
             rapidjson::Value entry_v(rapidjson::kNumberType);
             entry_v.SetUint64(entry);
@@ -499,13 +522,18 @@ bool BreakPointResponse::LocalVarNameCompare::operator()(const std::string &var1
             auto const &t1 = var1_tokens[i];
             auto const &t2 = var2_tokens[i];
 
-            if (std::all_of(t1.begin(), t1.end(), ::isdigit) &&
-                std::all_of(t2.begin(), t2.end(), ::isdigit)) {
-                auto v1 = std::stoul(t1);
-                auto v2 = std::stoul(t2);
+            bool const is_index1 = std::all_of(t1.begin(), t1.end(), ::isdigit);
+            bool const is_index2 = std::all_of(t2.begin(), t2.end(), ::isdigit);
+            if (is_index1 && is_index2) {
+                // compare them as numbers, which can have any number of digits
+                auto const v1 = t1.substr(std::min(t1.find_first_not_of('0'), t1.size()));
+                auto const v2 = t2.substr(std::min(t2.find_first_not_of('0'), t2.size()));
+                if (v1.size() != v2.size()) return v1.size() < v2.size();
                 if (v1 != v2) {
                     return v1 < v2;
                 }
+            } else if (is_index1 != is_index2) {
+                return is_index1;
             } else if (t1 != t2) {
                 // for some reason clang-tidy wants us to use nullptr here
                 // https://github.com/Kuree/hgdb/runs/6166140093
@@ -513,8 +541,8 @@ bool BreakPointResponse::LocalVarNameCompare::operator()(const std::string &var1
             }
         }
     }
-    // at this point they are identical
-    return false;
+    // at this point they only differ in how the members are accessed
+    return var1 < var2;
 }
 
 BreakPointResponse::Scope::Scope(uint64_t instance_id, std::string instance_name,
@@ -591,8 +619,10 @@ std::string DebuggerInformationResponse::str(bool pretty_print) const {
             for (auto const &[key, value] : options_) {
                 if (value == "true" || value == "false") {
                     set_member(v, allocator, key.c_str(), value == "true");
-                } else if (std::all_of(value.begin(), value.end(), isdigit)) {
-                    int64_t i = std::stoll(value);
+                } else if (int64_t i;
+                           std::from_chars(value.data(), value.data() + value.size(), i).ptr ==
+                               value.data() + value.size() &&
+                           std::to_string(i) == value) {
                     set_member(v, allocator, key.c_str(), i);
                 } else {
                     set_member(v, allocator, key.c_str(), value);
@@ -685,24 +715,54 @@ std::string MonitorResponse::str(bool pretty_print) const {
     return to_string(document, pretty_print);
 }
 
+// whether the nesting is shallow enough to be processed recursively
+bool check_nesting(const std::string &str) {
+    constexpr auto max_level = 256;
+    bool in_string = false;
+    int level = 0;
+    for (auto i = 0u; i < str.size(); i++) {
+        auto const c = str[i];
+        if (in_string) {
+            if (c == '\\') i++;
+            if (c == '"') in_string = false;
+        } else if (c == '"') {
+            in_string = true;
+        } else if (c == '{' || c == '[') {
+            if (++level > max_level) return false;
+        } else if (c == '}' || c == ']') {
+            level--;
+        }
+    }
+    return true;
+}
+
 std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     using namespace rapidjson;
+    if (!check_nesting(str)) return std::make_unique<ErrorRequest>("Invalid json object");
     Document document;
-    document.Parse(str.c_str());
+    document.Parse(str.c_str(), str.size());
 
-    if (document.HasParseError()) return std::make_unique<ErrorRequest>("Invalid json object");
+    if (document.HasParseError() || !document.IsObject())
+        return std::make_unique<ErrorRequest>("Invalid json object");
 
     std::string error;
+    // get token
+    auto token = get_member<std::string>(document, "token", error, false, true);
+    auto make_error = [&token](const std::string &reason) {
+        auto res = std::make_unique<ErrorRequest>(reason);
+        if (token) res->token_ = *token;
+        return res;
+    };
+
     auto request = get_member<bool>(document, "request", error);
-    if (!request || !(*request)) return std::make_unique<ErrorRequest>(error);
+    if (!request) return make_error(error);
+    if (!(*request)) return make_error("Only request is allowed");
 
     auto type = get_member<std::string>(document, "type", error);
-    if (!type) return std::make_unique<ErrorRequest>(error);
+    if (!type) return make_error(error);
     // get payload
     auto payload = check_member(document, "payload", error);
-    if (!payload) return std::make_unique<ErrorRequest>(error);
-    // get token
-    auto token = get_member<std::string>(document, "token", error, false, true);
+    if (!payload) return make_error(error);
 
     auto const &type_str = *type;
     std::unique_ptr<Request> result;
@@ -743,6 +803,8 @@ std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     payload_member.Accept(writer);
     std::string payload_str = buffer.GetString();
     result->parse_payload(payload_str);
+    // optional members have to be valid as well if they exist
+    if (!result->error_reason_.empty()) result->status_code_ = status_code::error;
     // set token if not empty
     if (token) result->token_ = *token;
 
@@ -750,7 +812,7 @@ std::unique_ptr<Request> Request::parse_request(const std::string &str) {
 }
 
 bool check_json(rapidjson::Document &document, status_code &status, std::string &error_reason) {
-    if (document.HasParseError()) {
+    if (document.HasParseError() || !document.IsObject()) {
         status = status_code::error;
         error_reason = "Invalid JSON file";
         return false;
@@ -781,17 +843,22 @@ void BreakPointRequest::parse_payload(const std::string &payload) {
         bp_action_ = action::remove;
     } else {
         status_code_ = status_code::error;
+        error_reason_ = "Unknown action " + action_str;
         return;
     }
 
     bool line_num_required = bp_action_ == action::add;
-    auto line_num = get_member<uint64_t>(document, "line_num", error_reason_, line_num_required);
-    if (line_num_required || line_num)
+    auto line_num = get_member<uint32_t>(document, "line_num", error_reason_, line_num_required);
+    if (line_num) {
         bp_.line_num = *line_num;
-    else
+    } else if (line_num_required) {
+        status_code_ = status_code::error;
+        return;
+    } else {
         bp_.line_num = 0;
+    }
 
-    auto column_num = get_member<uint64_t>(document, "column_num", error_reason_, false);
+    auto column_num = get_member<uint32_t>(document, "column_num", error_reason_, false);
     auto condition = get_member<std::string>(document, "condition", error_reason_, false);
     if (column_num)
         bp_.column_num = *column_num;
@@ -806,7 +873,7 @@ void BreakPointIDRequest::parse_payload(const std::string &payload) {
     document.Parse(payload.c_str());
     if (!check_json(document, status_code_, error_reason_)) return;
 
-    auto id = get_member<uint64_t>(document, "id", error_reason_);
+    auto id = get_member<uint32_t>(document, "id", error_reason_);
     auto bp_act = get_member<std::string>(document, "action", error_reason_);
     if (!id || !bp_act) {
         status_code_ = status_code::error;
@@ -822,6 +889,7 @@ void BreakPointIDRequest::parse_payload(const std::string &payload) {
         bp_action_ = action::remove;
     } else {
         status_code_ = status_code::error;
+        error_reason_ = "Unknown action " + action_str;
         return;
     }
 
@@ -868,8 +936,8 @@ void BreakPointLocationRequest::parse_payload(const std::string &payload) {
     }
     filename_ = *filename;
 
-    line_num_ = get_member<uint64_t>(document, "line_num", error_reason_);
-    column_num_ = get_member<uint64_t>(document, "column_num", error_reason_);
+    line_num_ = get_member<uint32_t>(document, "line_num", error_reason_, false);
+    column_num_ = get_member<uint32_t>(document, "column_num", error_reason_, false);
 }
 
 void CommandRequest::parse_payload(const std::string &payload) {
@@ -971,7 +1039,7 @@ void EvaluationRequest::parse_payload(const std::string &payload) {
 
     expression_ = *expression;
 
-    namespace_id_ = get_member<uint64_t>(document, "namespace_id", error_reason_);
+    namespace_id_ = get_member<uint64_t>(document, "namespace_id", error_reason_, false);
 }
 
 void OptionChangeRequest::parse_payload(const std::string &payload) {
@@ -1016,10 +1084,11 @@ void MonitorRequest::parse_payload(const std::string &payload) {
         action_type_ = ActionType::remove;
     } else {
         error_reason_ = "Unknown action type " + *action_type;
+        status_code_ = status_code::error;
         return;
     }
 
-    namespace_id_ = get_member<uint64_t>(document, "namespace_id", error_reason_);
+    namespace_id_ = get_member<uint64_t>(document, "namespace_id", error_reason_, false);
 
     if (action_type_ == ActionType::add) {
         auto monitor_type = get_member<std::string>(document, "monitor_type", error_reason_);
@@ -1036,6 +1105,7 @@ void MonitorRequest::parse_payload(const std::string &payload) {
             monitor_type_ = MonitorType::changed;
         } else {
             status_code_ = status_code::error;
+            error_reason_ = "Unknown monitor type " + *monitor_type;
             return;
         }
 
@@ -1046,8 +1116,8 @@ void MonitorRequest::parse_payload(const std::string &payload) {
         }
         var_name_ = *name_;
 
-        instance_id_ = get_member<uint64_t>(document, "instance_id", error_reason_, false);
-        breakpoint_id_ = get_member<uint64_t>(document, "breakpoint_id", error_reason_, false);
+        instance_id_ = get_member<uint32_t>(document, "instance_id", error_reason_, false);
+        breakpoint_id_ = get_member<uint32_t>(document, "breakpoint_id", error_reason_, false);
     } else {
         // only track_id is required
         auto track_id = get_member<uint64_t>(document, "track_id", error_reason_);
@@ -1076,8 +1146,8 @@ void SetValueRequest::parse_payload(const std::string &payload) {
     value_ = *v;
 
     // optional values
-    instance_id_ = get_member<uint64_t>(document, "instance_id", error_reason_, false);
-    breakpoint_id_ = get_member<uint64_t>(document, "breakpoint_id", error_reason_, false);
+    instance_id_ = get_member<uint32_t>(document, "instance_id", error_reason_, false);
+    breakpoint_id_ = get_member<uint32_t>(document, "breakpoint_id", error_reason_, false);
     namespace_id_ = get_member<uint64_t>(document, "namespace_id", error_reason_, false);
 }
 
@@ -1148,6 +1218,7 @@ void SymbolRequest::parse_payload(const std::string &payload) {
         req_type_ = request_type::get_filenames;
     } else {
         error_reason_ = "Unknown request type " + *type_str;
+        status_code_ = status_code::error;
         return;
     }
 
@@ -1275,13 +1346,13 @@ void DataBreakpointRequest::parse_payload(const std::string &payload) {
         return;
     }
 
-    namespace_id_ = get_member<uint64_t>(document, "namespace_id", error_reason_);
+    namespace_id_ = get_member<uint64_t>(document, "namespace_id", error_reason_, false);
 
     if (action == "clear") {
         action_ = Action::clear;
     } else if (action == "remove") {
         action_ = Action::remove;
-        auto bp_id_opt = get_member<uint64_t>(document, "breakpoint-id", error_reason_);
+        auto bp_id_opt = get_member<uint32_t>(document, "breakpoint-id", error_reason_);
         if (!bp_id_opt) {
             status_code_ = status_code::error;
             return;
@@ -1307,7 +1378,7 @@ void DataBreakpointRequest::parse_payload(const std::string &payload) {
             return;
         }
 
-        auto bp_id_opt = get_member<uint64_t>(document, "breakpoint-id", error_reason_);
+        auto bp_id_opt = get_member<uint32_t>(document, "breakpoint-id", error_reason_);
         if (!bp_id_opt) {
             status_code_ = status_code::error;
             return;
@@ -1325,6 +1396,7 @@ void DataBreakpointRequest::parse_payload(const std::string &payload) {
 
 template <typename T>
 bool get_value(const rapidjson::Value &value, const char *name, T &str) {
+    if (!value.IsObject()) return false;
     std::string error;
     auto v = get_member<T>(value, name, error, false, true);
     if (v) str = *v;
@@ -1366,11 +1438,13 @@ std::optional<ContextVariable> parse_context_variable(const rapidjson::Value &va
     ContextVariable v;
 
     if (!get_value(value, "name", v.name)) return std::nullopt;
+    // ids are optional
     uint32_t id;
-    if (!get_value(value, "breakpoint_id", id)) return std::nullopt;
-    v.breakpoint_id = std::make_unique<uint32_t>(id);
-    if (!get_value(value, "variable_id", id)) return std::nullopt;
-    v.variable_id = std::make_unique<uint32_t>(id);
+    if (get_value(value, "breakpoint_id", id)) v.breakpoint_id = std::make_unique<uint32_t>(id);
+    if (get_value(value, "variable_id", id)) v.variable_id = std::make_unique<uint32_t>(id);
+    // type and depth are optional
+    get_value(value, "type", v.type);
+    get_value(value, "depth", v.depth);
 
     return std::move(v);
 }
@@ -1379,11 +1453,10 @@ std::optional<GeneratorVariable> parse_generator_variable(const rapidjson::Value
     GeneratorVariable v;
 
     if (!get_value(value, "name", v.name)) return std::nullopt;
+    // ids are optional
     uint32_t id;
-    if (!get_value(value, "instance_id", id)) return std::nullopt;
-    v.instance_id = std::make_unique<uint32_t>(id);
-    if (!get_value(value, "variable_id", id)) return std::nullopt;
-    v.variable_id = std::make_unique<uint32_t>(id);
+    if (get_value(value, "instance_id", id)) v.instance_id = std::make_unique<uint32_t>(id);
+    if (get_value(value, "variable_id", id)) v.variable_id = std::make_unique<uint32_t>(id);
     // annotation is optional
     get_value(value, "annotation", v.annotation);
 
@@ -1394,8 +1467,9 @@ std::optional<GeneratorVariable> parse_generator_variable(const rapidjson::Value
 void SymbolResponse::parse(const std::string &str) {
     using namespace rapidjson;
     Document document;
-    document.Parse(str.c_str());
-    if (document.HasParseError()) return;
+    if (!check_nesting(str)) return;
+    document.Parse(str.c_str(), str.size());
+    if (document.HasParseError() || !document.IsObject()) return;
 
     if (!document.HasMember("result")) return;
     auto const &result = document["result"];
@@ -1424,7 +1498,7 @@ void SymbolResponse::parse(const std::string &str) {
             break;
         }
         case SymbolRequest::request_type::get_instance_id: {
-            if (!result.IsNumber()) return;
+            if (!result.IsUint64()) return;
             uint64_t_result = result.GetUint64();
             break;
         }
@@ -1472,8 +1546,8 @@ void SymbolResponse::parse(const std::string &str) {
         case SymbolRequest::request_type::get_execution_bp_orders: {
             if (!result.IsArray()) return;
             for (auto const &entry : result.GetArray()) {
-                if (!entry.IsNumber()) return;
-                uint64_t_results.emplace_back(entry.GetUint64());
+                if (!entry.IsUint()) return;
+                uint64_t_results.emplace_back(entry.GetUint());
             }
             break;
         }
@@ -1486,10 +1560,10 @@ void SymbolResponse::parse(const std::string &str) {
                 std::optional<uint32_t> breakpoint_id;
                 std::optional<std::string> var_name, condition;
                 for (auto const &[key, value] : entry.GetObject()) {
-                    if ((key == "id" || key == "breakpoint_id") && value.IsNumber()) {
-                        breakpoint_id = value.GetUint64();
+                    if ((key == "id" || key == "breakpoint_id") && value.IsUint()) {
+                        breakpoint_id = value.GetUint();
                     } else if ((key == "var" || key == "value" || key == "var_name" ||
-                                key == "variable_name") ||
+                                key == "variable_name") &&
                                value.IsString()) {
                         var_name = value.GetString();
                     } else if ((key == "condition" || key == "cond") && value.IsString()) {
@@ -1517,6 +1591,7 @@ std::string SymbolResponse::str(bool pretty_print) const {
 
     switch (type_) {
         case SymbolRequest::request_type::get_breakpoint: {
+            if (!bp_result) break;
             result = Value(kObjectType);
             set_member(result, allocator, *bp_result);
             break;
@@ -1527,8 +1602,9 @@ std::string SymbolResponse::str(bool pretty_print) const {
             break;
         }
         case SymbolRequest::request_type::get_instance_name: {
+            if (!str_result) break;
             result = Value(kStringType);
-            result.SetString(str_result->c_str(), str_result->size());
+            result.SetString(str_result->c_str(), str_result->size(), allocator);
             break;
         }
         case SymbolRequest::request_type::get_generator_variables: {
@@ -1542,6 +1618,7 @@ std::string SymbolResponse::str(bool pretty_print) const {
             break;
         }
         case SymbolRequest::request_type::get_instance_id: {
+            if (!uint64_t_result) break;
             result = Value(kNumberType);
             result.SetUint64(*uint64_t_result);
             break;
-- 
2.43.0


From 9610ce3438a35675dbfba627ffc16b4078cca4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:10 +0000
Subject: [PATCH 14/36] fix: names that denote no signal have no value, slices
 and indices stay in range

Slices are known to the debugger only, so the simulator is not asked about their type, size or
name; out of range slices, indices and missing signals are reported as such instead of reading
something else; $parent works more than once; hexadecimal values show the bits.
---
 src/debug.cc |  5 +++-
 src/rtl.cc   | 68 +++++++++++++++++++++++++++++++++++-----------------
 src/rtl.hh   |  3 ++-
 src/util.cc  |  4 +++-
 4 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index ee61876..f28f27c 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -453,6 +453,9 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
         return Debugger::error_value_str;
     }
     if (use_hex) {
+        // show the bits, even if the value is negative as an integer
+        auto bits = static_cast<uint64_t>(*value);
+        if (width > 0 && width < 64) bits &= (1ull << width) - 1;
         std::string format;
         if (width == 0) {
             format = "0x{0:X}";
@@ -463,7 +466,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
             width = (width % 4 == 0) ? width / 4 : (width / 4 + 1);
             format = fmt::format("0x{{0:0{0}X}}", width);
         }
-        return fmt::format(format.c_str(), *value);
+        return fmt::format(format.c_str(), bits);
 
     } else {
         return fmt::format("{0}", *value);
diff --git a/src/rtl.cc b/src/rtl.cc
index 144a885..33b9b9a 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -147,7 +147,7 @@ void RTLSimulatorClient::initialize_vpi(std::shared_ptr<AVPIProvider> vpi) {
 
     // compute the vpiNet target. this is a special case for Verilator
     vpi_net_target_ = is_verilator() ? vpiReg : vpiNet;
-    const static bool is_commercial = is_vcs() || is_xcelium();
+    bool const is_commercial = is_vcs() || is_xcelium();
     vpi_->set_use_lock_getting_value(is_commercial);
 }
 
@@ -169,7 +169,7 @@ vpiHandle RTLSimulatorClient::get_handle(const std::string &name) {
             // deal with verilator. remove []
             auto tokens = util::get_tokens(full_name, ".[]");
             ptr = get_handle(tokens);
-            if (ptr) handle_map_.emplace(name, ptr);
+            if (ptr) handle_map_.emplace(full_name, ptr);
         }
         return ptr;
     }
@@ -212,6 +212,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
                         ptr = access_arrays(pos, tokens.begin() + array_size_end + 1, ptr);
                         break;
                     }
+                    // the module is not what's been asked for
+                    ptr = nullptr;
                 }
             }
         }
@@ -243,8 +245,9 @@ vpiHandle RTLSimulatorClient::access_arrays(StringIterator begin, StringIterator
         if (!std::all_of(idx.begin(), idx.end(), ::isdigit)) {
             return nullptr;
         }
-        auto index_value = std::stoi(idx);
-        var_handle = vpi_->vpi_handle_by_index(var_handle, index_value);
+        auto index_value = util::stoul(idx);
+        if (!index_value || *index_value > std::numeric_limits<PLI_INT32>::max()) return nullptr;
+        var_handle = vpi_->vpi_handle_by_index(var_handle, static_cast<PLI_INT32>(*index_value));
         if (!var_handle) return nullptr;
         it++;
     }
@@ -255,9 +258,8 @@ int64_t get_slice(int64_t value, const std::tuple<vpiHandle, uint32_t, uint32_t>
     // notice that hi and lo are inclusive
     auto [parent, hi, lo] = info;
     auto v = static_cast<uint64_t>(value);
-    auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
-    v = v & hi_mask;
-    v = v >> lo;
+    if (hi < 63) v = v & ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
+    v = lo < 64 ? v >> lo : 0;
     return static_cast<int64_t>(v);
 }
 
@@ -270,12 +272,15 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
     auto *target_handle = handle;
 
     if (is_signal) {
+        // modules don't have values
+        if (get_vpi_type(handle) == vpiModule) [[unlikely]]
+            return std::nullopt;
         // get value size. Verilator will freak out if the width is larger than 64
         // notice this is mostly cached result
         if (is_verilator()) {
             auto width = get_vpi_size(handle);
             if (width > 64) [[unlikely]] {
-                auto *name = vpi_->vpi_get_str(vpiName, handle);
+                auto name = get_full_name(handle);
                 log::log(log::log_level::info,
                          fmt::format("{0} is too large to display as an integer", name));
                 return {};
@@ -325,12 +330,12 @@ std::string get_slice(const std::string &value,
     auto [parent, hi, lo] = info;
     // notice that it's in reverse order!
     // hi and lo are inclusive as in RTL
-    if (lo > value.size() - 1) {
+    if (lo >= value.size()) {
         return "0";
     }
 
-    auto pos = std::min<uint32_t>(value.size() - hi - 1, 0);
-    auto lo_pos = std::max<uint32_t>(value.size() - lo - 1, 0);
+    auto pos = hi < value.size() ? value.size() - hi - 1 : 0;
+    auto lo_pos = value.size() - lo - 1;
     auto result = value.substr(pos, lo_pos - pos + 1);
     // now we have binary result, need to convert it into hex
     // pad string to multiple of 4
@@ -340,6 +345,11 @@ std::string get_slice(const std::string &value,
     std::string s;
     for (auto i = 0u; i < result.size(); i += 4) {
         auto str = result.substr(i, 4);
+        // x and z
+        if (str.find_first_not_of("01") != std::string::npos) {
+            s.append("X");
+            continue;
+        }
         auto v = std::stoul(str, nullptr, 2);
         s.append(fmt::format("{0:X}", v));
     }
@@ -383,6 +393,8 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
 
 bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
     if (!handle) return false;
+    // can only set the entire signal
+    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return false;
     s_vpi_value vpi_value;
     vpi_value.value.integer = static_cast<int>(value);
     vpi_value.format = vpiIntVal;
@@ -452,6 +464,10 @@ std::string RTLSimulatorClient::get_full_name(const std::string &name) const {
 }
 
 std::string RTLSimulatorClient::get_full_name(vpiHandle handle) {
+    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) {
+        auto const &[parent, hi, lo] = mock_slice_handles_.at(handle);
+        return fmt::format("{0}[{1}:{2}]", get_full_name(parent), hi, lo);
+    }
     auto const *res = vpi_->vpi_get_str(vpiFullName, handle);
     if (res) {
         return {res};
@@ -565,17 +581,16 @@ std::string resolve_rtl_path(const std::string &path) {
     }
 
     auto tokens = util::get_tokens(path, ".");
-    for (auto i = 1u; i < tokens.size(); i++) {
-        if (tokens[i] == "$parent") {
-            tokens[i] = "";
-            tokens[i - 1] = "";
+    std::vector<std::string> path_tokens;
+    path_tokens.reserve(tokens.size());
+    for (auto const &token : tokens) {
+        if (token == "$parent" && !path_tokens.empty()) {
+            path_tokens.pop_back();
+        } else {
+            path_tokens.emplace_back(token);
         }
     }
-    // filter empty ones
-    tokens.erase(
-        std::remove_if(tokens.begin(), tokens.end(), [](auto const &s) { return s.empty(); }),
-        tokens.end());
-    auto res = fmt::format("{0}", fmt::join(tokens.begin(), tokens.end(), "."));
+    auto res = fmt::format("{0}", fmt::join(path_tokens.begin(), path_tokens.end(), "."));
     return res;
 }
 
@@ -743,7 +758,7 @@ std::pair<bool, std::string> match(const std::string &full_name,
     auto full_tokens = util::get_tokens(full_name, ".");
     // the test bench should contain the top, as a result, the full token should be
     // at least + 1
-    if (full_tokens.size() < (tokens.size() - 1)) return false_;
+    if (full_tokens.size() < (tokens.size() + 1)) return false_;
 
     for (auto i = 0u; i < tokens.size(); i++) {
         auto const &t_value = tokens[tokens.size() - 1 - i];
@@ -975,6 +990,8 @@ void RTLSimulatorClient::set_vpi_allocator(const std::function<vpiHandle()> &fun
 
 PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
     if (!handle) return vpiError;
+    // the simulator doesn't know about these handles
+    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return vpiPartSelect;
     std::lock_guard guard(cached_vpi_types_lock_);
     if (cached_vpi_types_.find(handle) != cached_vpi_types_.end()) [[likely]] {
         return cached_vpi_types_.at(handle);
@@ -987,6 +1004,10 @@ PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
 
 uint32_t RTLSimulatorClient::get_vpi_size(vpiHandle handle) {
     if (!handle) return 0;
+    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) {
+        auto const &[parent, hi, lo] = mock_slice_handles_.at(handle);
+        return hi - lo + 1;
+    }
     std::lock_guard guard(cached_vpi_size_lock_);
     if (cached_vpi_size_.find(handle) != cached_vpi_size_.end()) [[likely]] {
         return cached_vpi_size_.at(handle);
@@ -1053,7 +1074,7 @@ std::optional<std::pair<uint32_t, uint32_t>> extract_slice(const std::string &to
     uint32_t hi = 0, lo = std::numeric_limits<uint32_t>::max();
     for (auto const &num : nums) {
         auto n = util::stoul(num);
-        if (!n) return {};
+        if (!n || *n >= std::numeric_limits<uint32_t>::max()) return {};
         if (*n < lo) lo = *n;
         if (*n > hi) hi = *n;
     }
@@ -1064,6 +1085,9 @@ vpiHandle RTLSimulatorClient::add_mock_slice_vpi(vpiHandle parent, const std::st
     auto slice_num = extract_slice(slice);
     if (!slice_num) return nullptr;
     auto [hi, lo] = *slice_num;
+    // out of range
+    auto const width = get_vpi_size(parent);
+    if (width > 0 && hi >= width) return nullptr;
     auto *new_handle = vpi_allocator_ ? (*vpi_allocator_)() : ++mock_slice_handle_counter_;
     mock_slice_handles_.emplace(new_handle, std::make_tuple(parent, hi, lo));
     return new_handle;
diff --git a/src/rtl.hh b/src/rtl.hh
index d829b69..ea07135 100644
--- a/src/rtl.hh
+++ b/src/rtl.hh
@@ -191,7 +191,8 @@ private:
     // simulator vendors that deal with slices. As a result, we need to fake vpiHandles to deal
     // with slices
     std::unordered_map<vpiHandle, std::tuple<vpiHandle, uint32_t, uint32_t>> mock_slice_handles_;
-    vpiHandle mock_slice_handle_counter_ = nullptr;
+    // handles have to be unique among all the clients
+    static inline vpiHandle mock_slice_handle_counter_ = nullptr;
     std::optional<std::function<vpiHandle()>> vpi_allocator_;
 
     // simulator info
diff --git a/src/util.cc b/src/util.cc
index 2a611b5..9eaf567 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -31,8 +31,10 @@ std::vector<std::string> get_tokens(const std::string &line, const std::string &
 }
 
 std::optional<uint64_t> stoul(const std::string &value) {
+    // std::stoul accepts negative numbers and ignores whatever comes after the number
+    if (value.empty() || value.find_first_not_of("0123456789") != std::string::npos) return {};
     try {
-        return std::stol(value);
+        return std::stoul(value);
     } catch (std::exception &) {
         return {};
     }
-- 
2.43.0


From 8a4fb9d8cd9fda894ba911f4e0b305291b50768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:15 +0000
Subject: [PATCH 15/36] fix: path mapping replaces whole path components in
 both directions for every symbol table

Names were compared as plain strings, so that /ab was taken for a child of /a, the
result depended on the files and links present on the debugger's machine, and only
the SQLite symbol table applied the mapping at all. Breakpoints inserted before
the mapping is set are reported with the mapped names as well.
---
 src/db.cc        | 13 +++++---
 src/debug.cc     | 10 ++++--
 src/debug.hh     |  1 +
 src/scheduler.cc |  8 +++++
 src/scheduler.hh |  3 ++
 src/symbol.cc    | 86 ++++++++++++++++++++++++++++++++----------------
 6 files changed, 86 insertions(+), 35 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index ac1007d..830096f 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -226,6 +226,7 @@ std::vector<std::string> DBSymbolTableProvider::get_filenames() {
     using namespace sqlite_orm;
     std::lock_guard guard(db_lock_);
     auto names = db_->select(distinct(&BreakPoint::filename));  // NOLINT
+    for (auto &name : names) name = resolve_filename_to_client(name);
     return names;
 }
 
@@ -1252,10 +1253,11 @@ std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::stri
                                                                  uint32_t col_num) {
     std::vector<BreakPoint> result;
     for (auto const &root : roots_) {
-        BreakPointVisitor v(filename, line_num, col_num);
+        BreakPointVisitor v(resolve_filename_to_db(filename), line_num, col_num);
         v.visit(*root);
         result.reserve(result.size() + v.results.size());
         for (auto &bp : v.results) {
+            bp.filename = resolve_filename_to_client(bp.filename);
             result.emplace_back(std::move(bp));
         }
     }
@@ -1265,10 +1267,11 @@ std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::stri
 std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::string &filename) {
     std::vector<BreakPoint> result;
     for (auto const &root : roots_) {
-        BreakPointVisitor v(filename, 0, 0);
+        BreakPointVisitor v(resolve_filename_to_db(filename), 0, 0);
         v.visit(*root);
         result.reserve(result.size() + v.results.size());
         for (auto &bp : v.results) {
+            bp.filename = resolve_filename_to_client(bp.filename);
             result.emplace_back(std::move(bp));
         }
     }
@@ -1281,7 +1284,9 @@ std::optional<BreakPoint> JSONSymbolTableProvider::get_breakpoint(uint32_t break
         BreakPointVisitor v(breakpoint_id);
         v.visit(*root);
         if (!v.results.empty()) [[likely]] {
-            return std::move(v.results[0]);
+            auto &bp = v.results[0];
+            bp.filename = resolve_filename_to_client(bp.filename);
+            return std::move(bp);
         }
     }
     return std::nullopt;
@@ -1643,7 +1648,7 @@ std::vector<std::string> JSONSymbolTableProvider::get_filenames() {
         FilenameVisitor v;
         v.visit(*root->definition);
         result.reserve(result.size() + v.names.size());
-        result.insert(result.end(), v.names.begin(), v.names.end());
+        for (auto const &name : v.names) result.emplace_back(resolve_filename_to_client(name));
     }
     return result;
 }
diff --git a/src/debug.cc b/src/debug.cc
index f28f27c..ce67ab3 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -559,7 +559,7 @@ void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id)
     }
 
     // need to set the remap
-    if (success && db_) db_->set_src_mapping(req.path_mapping());
+    if (success && db_) set_src_mapping(req.path_mapping());
 
     if (success) {
         auto resp = GenericResponse(status_code::success, req);
@@ -803,10 +803,16 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
     }
 }
 
+void Debugger::set_src_mapping(const std::map<std::string, std::string> &mapping) {
+    db_->set_src_mapping(mapping);
+    // the breakpoints that have been inserted already are reported with the new names as well
+    if (scheduler_) scheduler_->update_filenames();
+}
+
 void Debugger::handle_path_mapping(const PathMappingRequest &req, uint64_t conn_id) {
     if (!check_send_db_error(req, conn_id)) return;
     if (req.status() == status_code::success) [[likely]] {
-        db_->set_src_mapping(req.path_mapping());
+        set_src_mapping(req.path_mapping());
         auto resp = GenericResponse(status_code::success, req);
         send_message(resp.str(log_enabled_), conn_id);
     } else {
diff --git a/src/debug.hh b/src/debug.hh
index 47098d4..4dbf377 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -141,6 +141,7 @@ private:
     void handle_bp_location(const BreakPointLocationRequest &req, uint64_t conn_id);
     void handle_command(const CommandRequest &req, uint64_t conn_id);
     void handle_debug_info(const DebuggerInformationRequest &req, uint64_t conn_id);
+    void set_src_mapping(const std::map<std::string, std::string> &mapping);
     void handle_path_mapping(const PathMappingRequest &req, uint64_t conn_id);
     void handle_evaluation(const EvaluationRequest &req, uint64_t conn_id);
     void handle_option_change(const OptionChangeRequest &req, uint64_t conn_id);
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 3be879c..32f70e5 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -507,6 +507,14 @@ std::vector<const DebugBreakPoint *> Scheduler::get_current_breakpoints() {
     return bps;
 }
 
+void Scheduler::update_filenames() {
+    std::lock_guard guard(breakpoint_lock_);
+    if (!db_) return;
+    for (auto &bp : breakpoints_) {
+        if (auto db_bp = db_->get_breakpoint(bp->id)) bp->filename = db_bp->filename;
+    }
+}
+
 bool Scheduler::breakpoint_only() const {
     return evaluation_mode_ == EvaluationMode::BreakPointOnly ||
            evaluation_mode_ == EvaluationMode::ReverseBreakpointOnly;
diff --git a/src/scheduler.hh b/src/scheduler.hh
index fe105f8..7896233 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -81,6 +81,9 @@ public:
     std::vector<std::pair<uint32_t, uint64_t>> clear_data_breakpoints();
     std::vector<std::pair<uint32_t, uint64_t>> remove_data_breakpoint(uint64_t bp_id);
 
+    // need to be called if the symbol table starts to report different filenames
+    void update_filenames();
+
     // breakpoint mode
     bool breakpoint_only() const;
 
diff --git a/src/symbol.cc b/src/symbol.cc
index 0a6d542..05cd6e9 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -18,20 +18,47 @@ auto constexpr WS_SCHEMA = "ws://";
 
 namespace hgdb {
 
-std::string resolve(const std::string &src_path, const std::string &dst_path,
-                    const std::string &target) {
+// the path in its normal form, without trailing separator
+std::filesystem::path normalize_path(const std::string &path) {
+    auto result = std::filesystem::path(path).lexically_normal();
+    if (!result.has_filename() && result.has_relative_path()) result = result.parent_path();
+    if (result == ".") result.clear();
+    return result;
+}
+
+// replace the leading components of target, if they are src_path. an empty src_path denotes the
+// base of every relative path
+std::optional<std::string> resolve(const std::string &src_path, const std::string &dst_path,
+                                   const std::string &target) {
     namespace fs = std::filesystem;
-    if (src_path.empty() || target.starts_with(src_path)) [[likely]] {
-        std::error_code ec;
-        auto path = fs::relative(target, src_path, ec);
-        if (ec.value()) [[unlikely]]
-            return target;
-        fs::path start = dst_path;
-        auto r = start / path;
-        return r;
-    } else {
-        return target;
+    auto const src = normalize_path(src_path);
+    auto const path = normalize_path(target);
+    if (src.empty() && path.is_absolute()) return std::nullopt;
+    auto it = path.begin();
+    for (auto const &component : src) {
+        if (it == path.end() || *it != component) return std::nullopt;
+        it++;
+    }
+    auto result = normalize_path(dst_path);
+    for (; it != path.end(); it++) result /= *it;
+    return result.string();
+}
+
+// the mapping with the longest matching path is used
+std::string resolve(const std::vector<std::pair<std::string, std::string>> &mapping,
+                    const std::string &target) {
+    std::optional<std::string> result;
+    int64_t max_size = -1;
+    for (auto const &[src_path, dst_path] : mapping) {
+        auto const src = normalize_path(src_path);
+        auto size = static_cast<int64_t>(std::distance(src.begin(), src.end()));
+        if (size <= max_size) continue;
+        if (auto r = resolve(src_path, dst_path, target)) {
+            result = std::move(r);
+            max_size = size;
+        }
     }
+    return result ? *result : target;
 }
 
 std::optional<std::string> SymbolTableProvider::get_instance_name_from_bp(uint32_t breakpoint_id) {
@@ -187,29 +214,20 @@ void SymbolTableProvider::set_src_mapping(const std::map<std::string, std::strin
 }
 
 std::string SymbolTableProvider::resolve_filename_to_db(const std::string &filename) {
-    namespace fs = std::filesystem;
     // optimize for local use case
     if (src_remap_.empty()) [[likely]]
         return filename;
-    for (auto const &[src_path, dst_path] : src_remap_) {
-        if (filename.starts_with(src_path)) {
-            return resolve(src_path, dst_path, filename);
-        }
-    }
-    return filename;
+    return resolve({src_remap_.begin(), src_remap_.end()}, filename);
 }
 
 std::string SymbolTableProvider::resolve_filename_to_client(const std::string &filename) {
-    namespace fs = std::filesystem;
     // optimize for local use case
     if (src_remap_.empty()) [[likely]]
         return filename;
-    for (auto const &[dst_path, src_path] : src_remap_) {
-        if (src_path.empty() || filename.starts_with(src_path)) {
-            return resolve(src_path, dst_path, filename);
-        }
-    }
-    return filename;
+    std::vector<std::pair<std::string, std::string>> mapping;
+    mapping.reserve(src_remap_.size());
+    for (auto const &[dst_path, src_path] : src_remap_) mapping.emplace_back(src_path, dst_path);
+    return resolve(mapping, filename);
 }
 
 // abstract out ws and tcp connections
@@ -340,20 +358,21 @@ public:
     std::vector<BreakPoint> get_breakpoints(const std::string &filename, uint32_t line_num,
                                             uint32_t col_num) override {
         SymbolRequest req(SymbolRequest::request_type::get_breakpoints);
-        req.filename = filename;
+        req.filename = resolve_filename_to_db(filename);
         req.line_num = line_num;
         req.column_num = col_num;
 
         auto resp = get_resp(req);
-
+        map_filenames(resp.bp_results);
         return std::move(resp.bp_results);
     }
 
     std::vector<BreakPoint> get_breakpoints(const std::string &filename) override {
         SymbolRequest req(SymbolRequest::request_type::get_breakpoints);
-        req.filename = filename;
+        req.filename = resolve_filename_to_db(filename);
 
         auto resp = get_resp(req);
+        map_filenames(resp.bp_results);
         return std::move(resp.bp_results);
     }
 
@@ -362,6 +381,9 @@ public:
         req.breakpoint_id = breakpoint_id;
 
         auto resp = get_resp(req);
+        if (resp.bp_result) {
+            resp.bp_result->filename = resolve_filename_to_client(resp.bp_result->filename);
+        }
         return std::move(resp.bp_result);
     }
 
@@ -432,6 +454,7 @@ public:
         SymbolRequest req(SymbolRequest::request_type::get_filenames);
 
         auto resp = get_resp(req);
+        for (auto &name : resp.str_results) name = resolve_filename_to_client(name);
         return resp.str_results;
     }
 
@@ -459,6 +482,11 @@ public:
 private:
     std::unique_ptr<NetworkProvider> network_;
 
+    // the server only knows about the paths of its symbol table
+    void map_filenames(std::vector<BreakPoint> &bps) {
+        for (auto &bp : bps) bp.filename = resolve_filename_to_client(bp.filename);
+    }
+
     hgdb::SymbolResponse get_resp(const hgdb::SymbolRequest &req) {
         SymbolResponse resp(req.req_type());
         if (network_) {
-- 
2.43.0


From ad8e6eabc188527092250a5aaa27d884f59b4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 16/36] fix: scoped names are matched by component, a lost
 symbol table connection is not fatal

Source names take precedence over RTL names and newer declarations hide older
constants; a signal whose name merely starts like the instance is still relative
to it. Broken, refused or closed connections to a remote symbol table yield empty
answers instead of blocking forever, and TCP addresses and replies are parsed.
---
 src/symbol.cc | 174 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 111 insertions(+), 63 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 05cd6e9..24f831c 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -2,6 +2,7 @@
 
 #include <filesystem>
 #include <mutex>
+#include <unordered_set>
 
 #include "asio.hpp"
 #include "db.hh"
@@ -79,31 +80,38 @@ bool rtl_equivalent(const std::string &a, const std::string &b) {
     return true;
 }
 
+// rtl names are relative to the instance, unless they contain its name already
+std::string get_scoped_rtl_name(const std::string &inst_name, const std::string &value) {
+    if (value.starts_with(inst_name + ".")) {
+        return value;
+    } else {
+        return fmt::format("{0}.{1}", inst_name, value);
+    }
+}
+
+// the source name takes precedence over the rtl name
+template <typename Iterator>
+std::optional<std::string> resolve_scoped_name(Iterator begin, Iterator end,
+                                               const std::string &scoped_name,
+                                               const std::string &inst_name) {
+    auto it = std::find_if(
+        begin, end, [&](auto const &info) { return rtl_equivalent(info.first.name, scoped_name); });
+    if (it == end) {
+        it = std::find_if(begin, end,
+                          [&](auto const &info) { return info.second.value == scoped_name; });
+    }
+    if (it == end) return std::nullopt;
+    auto const &var = it->second;
+    return var.is_rtl ? get_scoped_rtl_name(inst_name, var.value) : var.value;
+}
+
 std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
     const std::string &scoped_name, uint64_t breakpoint_id) {
     auto vars = get_context_variables(breakpoint_id);
     auto inst_name = get_instance_name_from_bp(breakpoint_id);
     if (!inst_name) return std::nullopt;
     // we loop them in reverse order since the later one is the newest
-    // Notice this bug in clang:
-    // https://github.com/llvm/llvm-project/issues/44178
-    // as a result, we cannot use std::views::reverse to reverse view the variables
-    // NOLINTNEXTLINE
-    for (auto it = vars.rbegin(); it != vars.rend(); it++) {
-        auto const &[ctx, var] = *it;
-        if (rtl_equivalent(ctx.name, scoped_name) || var.value == scoped_name) {
-            if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
-                    return var.value;
-                } else {
-                    return fmt::format("{0}.{1}", *inst_name, var.value);
-                }
-            } else {
-                return var.value;
-            }
-        }
-    }
-    return std::nullopt;
+    return resolve_scoped_name(vars.rbegin(), vars.rend(), scoped_name, *inst_name);
 }
 
 std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
@@ -111,20 +119,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
     auto vars = get_generator_variable(instance_id);
     auto inst_name = get_instance_name(instance_id);
     if (!inst_name) return std::nullopt;
-    for (auto const &[gen, var] : vars) {
-        if (rtl_equivalent(gen.name, scoped_name) || var.value == scoped_name) {
-            if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
-                    return var.value;
-                } else {
-                    return fmt::format("{0}.{1}", *inst_name, var.value);
-                }
-            } else {
-                return var.value;
-            }
-        }
-    }
-    return std::nullopt;
+    return resolve_scoped_name(vars.begin(), vars.end(), scoped_name, *inst_name);
 }
 
 void SymbolTableProvider::set_get_symbol_value(
@@ -138,7 +133,7 @@ std::optional<uint32_t> parse_depth(const std::string &name) {
         return std::nullopt;
     auto end_pos = name.find_first_of('.');
     if (end_pos != std::string::npos) {
-        auto int_str = name.substr(depth_str.size(), end_pos);
+        auto int_str = name.substr(depth_str.size(), end_pos - depth_str.size());
         auto v = util::stoul(int_str);
         if (v) {
             return static_cast<uint32_t>(*v);
@@ -195,15 +190,15 @@ std::unordered_map<std::string, int64_t> SymbolTableProvider::get_context_static
     uint32_t breakpoint_id) {
     auto vars = get_context_variables(breakpoint_id);
     std::unordered_map<std::string, int64_t> result;
+    std::unordered_set<std::string> visited;
 
     // NOLINTNEXTLINE
     for (auto it = vars.rbegin(); it != vars.rend(); it++) {
         auto const &[ctx, var] = *it;
-        if (!var.is_rtl) {
-            if (std::all_of(var.value.begin(), var.value.end(), ::isdigit)) {
-                auto v = std::stoll(var.value);
-                result.emplace(ctx.name, v);
-            }
+        // the later one hides the earlier ones
+        if (!visited.emplace(ctx.name).second || var.is_rtl) continue;
+        if (auto v = util::stoul(var.value)) {
+            result.emplace(ctx.name, static_cast<int64_t>(*v));
         }
     }
     return result;
@@ -233,7 +228,9 @@ std::string SymbolTableProvider::resolve_filename_to_client(const std::string &f
 // abstract out ws and tcp connections
 class NetworkProvider {
 public:
-    virtual void send(const std::string &msg) = 0;
+    // returns false if the connection is lost
+    virtual bool send(const std::string &msg) = 0;
+    // empty if the connection is lost
     virtual std::string receive() = 0;
 
     virtual ~NetworkProvider() = default;
@@ -248,21 +245,45 @@ public:
         s_ = std::make_unique<asio::ip::tcp::socket>(*io_context_);
         asio::ip::tcp::resolver resolver(*io_context_);
         try {
-            auto endpoint = resolver.resolve(hostname, std::to_string(port))->endpoint();
-            s_->connect(endpoint);
+            asio::connect(*s_, resolver.resolve(hostname, std::to_string(port)));
         } catch (asio::system_error &e) {
             has_error = true;
         }
     }
-    void send(const std::string &msg) override { asio::write(*s_, asio::buffer(msg)); }
+
+    bool send(const std::string &msg) override {
+        asio::error_code ec;
+        asio::write(*s_, asio::buffer(msg), ec);
+        return !ec;
+    }
 
     std::string receive() override {
-        asio::mutable_buffer buff;
-        asio::read(*s_, buff);
-        // assume it's well-formed
-        // and in ascii
-        std::string_view data(reinterpret_cast<char *>(buff.data()), buff.size());
-        return std::string(data);
+        // a message is a json object
+        std::string result;
+        uint64_t level = 0;
+        bool in_string = false, escaped = false;
+        while (true) {
+            std::array<char, 4096> buffer = {};
+            asio::error_code ec;
+            auto size = s_->read_some(asio::buffer(buffer), ec);
+            if (ec) return {};
+            for (auto i = 0u; i < size; i++) {
+                auto const c = buffer[i];
+                if (result.empty() && c != '{') continue;
+                result += c;
+                if (in_string) {
+                    if (!escaped && c == '"') in_string = false;
+                    escaped = !escaped && c == '\\';
+                } else if (c == '"') {
+                    in_string = true;
+                } else if (c == '{') {
+                    level++;
+                } else if (c == '}' && --level == 0) {
+                    // one response per request
+                    return result;
+                }
+            }
+        }
     }
 
     ~TCPNetworkProvider() override = default;
@@ -296,6 +317,21 @@ public:
 
         client_->set_open_handler(on_open);
 
+        auto on_fail = [this, &l](const websocketpp::connection_hdl &) {
+            has_error = true;
+            l.ready();
+        };
+
+        client_->set_fail_handler(on_fail);
+
+        auto on_close = [this](const websocketpp::connection_hdl &) {
+            // nobody will answer anymore
+            is_lost_ = true;
+            has_message_.ready();
+        };
+
+        client_->set_close_handler(on_close);
+
         websocketpp::lib::error_code ec;
         Client::connection_ptr con = client_->get_connection(uri, ec);
         if (ec) {
@@ -312,23 +348,25 @@ public:
         l.wait();
     }
 
-    void send(const std::string &msg) override {
+    bool send(const std::string &msg) override {
         std::lock_guard guard(lock);
+        if (is_lost_) return false;
         websocketpp::lib::error_code ec;
-        if (client_) [[likely]] {
-            client_->send(connection_handle_, msg, websocketpp::frame::opcode::text, ec);
-        }
+        payload_.clear();
+        has_message_.reset();
+        client_->send(connection_handle_, msg, websocketpp::frame::opcode::text, ec);
+        return !ec;
     }
 
     std::string receive() override {
         std::lock_guard guard(lock);
-        has_message_.wait();
+        if (!is_lost_) has_message_.wait();
         return payload_;
     }
 
     ~WSNetworkProvider() override {
         client_->stop();
-        bg_client_thread_.join();
+        if (bg_client_thread_.joinable()) bg_client_thread_.join();
     }
 
 private:
@@ -340,6 +378,7 @@ private:
     std::mutex lock;
     RuntimeLock has_message_;
     std::string payload_;
+    std::atomic<bool> is_lost_ = false;
 
     std::thread bg_client_thread_;
     websocketpp::connection_hdl connection_handle_;
@@ -481,6 +520,7 @@ public:
 
 private:
     std::unique_ptr<NetworkProvider> network_;
+    std::mutex request_lock_;
 
     // the server only knows about the paths of its symbol table
     void map_filenames(std::vector<BreakPoint> &bps) {
@@ -489,8 +529,9 @@ private:
 
     hgdb::SymbolResponse get_resp(const hgdb::SymbolRequest &req) {
         SymbolResponse resp(req.req_type());
-        if (network_) {
-            network_->send(req.str());
+        // a request and its response belong together
+        std::lock_guard guard(request_lock_);
+        if (network_ && network_->send(req.str())) {
             auto str = network_->receive();
             resp.parse(str);
         }
@@ -521,17 +562,17 @@ FileType identify_db_format(const std::string &filename) {
 std::unique_ptr<SymbolTableProvider> create_symbol_table(const std::string &filename) {
     // we use some simple way to tell which schema it is
     if (filename.starts_with(TCP_SCHEMA)) {
-        auto tokens = util::get_tokens(filename, ":");
-        if (tokens.size() != 3) {
+        auto tokens = util::get_tokens(filename.substr(std::string_view(TCP_SCHEMA).size()), ":");
+        if (tokens.size() != 2) {
             log::log(log::log_level::error, "Invalid TCP URI " + filename);
             return nullptr;
         }
         auto port = util::stoul(tokens.back());
-        if (!port) {
+        if (!port || *port > std::numeric_limits<uint16_t>::max()) {
             log::log(log::log_level::error, "Invalid TCP port number " + tokens.back());
             return nullptr;
         }
-        auto hostname = tokens[1];
+        auto hostname = tokens[0];
         auto tcp = std::make_unique<TCPNetworkProvider>(hostname, *port);
         if (tcp->has_error) {
             log::log(log::log_level::error, "Invalid TCP UTI " + filename);
@@ -547,7 +588,8 @@ std::unique_ptr<SymbolTableProvider> create_symbol_table(const std::string &file
         return std::make_unique<NetworkSymbolTableProvider>(std::move(ws));
     } else {
         // make sure the filename exists
-        if (!std::filesystem::exists(filename)) {
+        std::error_code ec;
+        if (!std::filesystem::is_regular_file(filename, ec)) {
             log::log(log::log_level::error, "Unable to find " + filename);
             return nullptr;
         }
@@ -556,7 +598,13 @@ std::unique_ptr<SymbolTableProvider> create_symbol_table(const std::string &file
         auto type = identify_db_format(filename);
         switch (type) {
             case FileType::SQLite: {
-                return std::make_unique<DBSymbolTableProvider>(filename);
+                try {
+                    return std::make_unique<DBSymbolTableProvider>(filename);
+                } catch (std::exception &e) {
+                    log::log(log::log_level::error,
+                             fmt::format("Invalid symbol table file {0}: {1}", filename, e.what()));
+                    return nullptr;
+                }
             }
             case FileType::JSON: {
                 return std::make_unique<JSONSymbolTableProvider>(filename);
-- 
2.43.0


From 052b9dae30d9f48b6eb7f853c202e905f2d1e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:27 +0000
Subject: [PATCH 17/36] fix: malformed symbol tables are rejected as a whole,
 valid ones are kept completely

Dangling variable references, missing tops, duplicate or recursive modules, numbers
out of range and very deep nesting crashed or hung the loader or were ignored when
loading from a file. Attributes, delays of shared variables and the state of a table
that changes its owner got lost, merging of more than two variables dereferenced
null, and a relative file name did not match itself.
---
 src/db.cc    | 258 ++++++++++++++++++++++++++++-----------------------
 src/proto.cc |  27 +-----
 src/util.cc  |  19 ++++
 src/util.hh  |   2 +
 4 files changed, 168 insertions(+), 138 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 830096f..54e3453 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -502,6 +502,8 @@ struct ModuleDef : public ScopeEntry {
     std::map<std::string, const ModuleDef *> instances;
     // unresolved instances
     std::map<std::string, std::string> unresolved_instances;
+    // modules defined in the scope
+    std::vector<const ModuleDef *> nested_modules;
     // fast locate filenames
     std::unordered_set<const BlockEntry *> filename_blocks;
 
@@ -572,6 +574,7 @@ const std::string &ScopeEntry::get_filename() const {
 
 struct JSONParseInfo {
     const ScopeEntry *current_scope = nullptr;
+    ModuleDef *current_module = nullptr;
 
     std::unordered_map<std::string, std::shared_ptr<ModuleDef>> &module_defs;
     std::unordered_map<std::string, std::shared_ptr<VarDef>> &var_defs;
@@ -591,13 +594,20 @@ std::shared_ptr<VarDeclEntry> parse_var_decl(const rapidjson::Value &value, JSON
 std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONParseInfo &info);
 std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JSONParseInfo &info);
 
-void set_scope_entry_value(const rapidjson::Value &value, ScopeEntry &result) {
-    if (value.HasMember("line")) {
-        result.line = value["line"].GetUint();
-    }
-    if (value.HasMember("column")) {
-        result.column = value["column"].GetUint();
+// the schema does not limit the range of the numbers
+void parse_uint(const rapidjson::Value &value, const char *name, uint32_t &result,
+                JSONParseInfo &info) {
+    if (!value.HasMember(name)) return;
+    if (value[name].IsUint()) {
+        result = value[name].GetUint();
+    } else {
+        info.error_reason = fmt::format("Invalid value for {0}", name);
     }
+}
+
+void set_scope_entry_value(const rapidjson::Value &value, ScopeEntry &result, JSONParseInfo &info) {
+    parse_uint(value, "line", result.line, info);
+    parse_uint(value, "column", result.column, info);
     if (value.HasMember("condition")) {
         result.condition = value["condition"].GetString();
     }
@@ -616,7 +626,7 @@ std::shared_ptr<ScopeEntry> parse_scope_entry(const rapidjson::Value &value, JSO
         result = parse_assign(value, info);
     } else if (type == "none") {
         result = std::make_shared<GenericEntry>();
-        set_scope_entry_value(value, *result);
+        set_scope_entry_value(value, *result, info);
     }
     if (result) {
         result->parent = info.current_scope;
@@ -628,10 +638,15 @@ std::shared_ptr<ModuleDef> parse_module_def(const rapidjson::Value &value, JSONP
     auto result = std::make_shared<ModuleDef>();
     auto const *temp_scope = info.current_scope;
     info.current_scope = result.get();
+    auto *temp_module = info.current_module;
+    if (temp_module) temp_module->nested_modules.emplace_back(result.get());
+    info.current_module = result.get();
 
     result->name = value["name"].GetString();
-    info.module_defs.emplace(result->name, result);
-    set_scope_entry_value(value, *result);
+    if (!info.module_defs.emplace(result->name, result).second) {
+        info.error_reason = fmt::format("Module {0} is defined more than once", result->name);
+    }
+    set_scope_entry_value(value, *result, info);
 
     // variables
     auto vars = value["variables"].GetArray();
@@ -663,12 +678,13 @@ std::shared_ptr<ModuleDef> parse_module_def(const rapidjson::Value &value, JSONP
 
     // reset the current module
     info.current_scope = temp_scope;
+    info.current_module = temp_module;
     return result;
 }
 
 std::shared_ptr<BlockEntry> parse_block_entry(const rapidjson::Value &value, JSONParseInfo &info) {
     auto result = std::make_unique<BlockEntry>();
-    set_scope_entry_value(value, *result);
+    set_scope_entry_value(value, *result, info);
     if (value.HasMember("filename")) {
         result->filename = value["filename"].GetString();
     }
@@ -679,7 +695,9 @@ std::shared_ptr<BlockEntry> parse_block_entry(const rapidjson::Value &value, JSO
     result->scope.reserve(scope.Size());
     for (auto const &scope_entry : scope) {
         auto e = parse_scope_entry(scope_entry, info);
-        result->scope.emplace_back(e);
+        if (e) {
+            result->scope.emplace_back(e);
+        }
     }
 
     info.current_scope = temp_scope;
@@ -688,7 +706,7 @@ std::shared_ptr<BlockEntry> parse_block_entry(const rapidjson::Value &value, JSO
 
 std::shared_ptr<VarDeclEntry> parse_var_decl(const rapidjson::Value &value, JSONParseInfo &info) {
     auto result = std::make_shared<VarDeclEntry>();
-    set_scope_entry_value(value, *result);
+    set_scope_entry_value(value, *result, info);
 
     result->vars = parse_var(value["variable"], info);
 
@@ -696,7 +714,7 @@ std::shared_ptr<VarDeclEntry> parse_var_decl(const rapidjson::Value &value, JSON
 }
 std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONParseInfo &info) {
     auto result = std::make_shared<AssignEntry>();
-    set_scope_entry_value(value, *result);
+    set_scope_entry_value(value, *result, info);
 
     result->vars = parse_var(value["variable"], info);
 
@@ -704,9 +722,11 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
         auto const &indices = value["indices"];
         for (auto const &index : indices.GetArray()) {
             AssignEntry::IndexInfo idx;
-            idx.var = parse_var(index["var"], info)[0];
-            idx.min = index["min"].GetUint();
-            idx.max = index["max"].GetUint();
+            auto vars = parse_var(index["var"], info);
+            if (vars.empty()) continue;
+            idx.var = vars[0];
+            parse_uint(index, "min", idx.min, info);
+            parse_uint(index, "max", idx.max, info);
             result->indices.emplace_back(idx);
         }
     }
@@ -714,6 +734,23 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
     return result;
 }
 
+std::shared_ptr<VarDef> parse_var_def(const rapidjson::Value &value, JSONParseInfo &info) {
+    auto var = std::make_shared<VarDef>();
+    var->name = value["name"].GetString();
+    var->value = value["value"].GetString();
+    var->rtl = value["rtl"].GetBool();
+
+    if (value.HasMember("type")) {
+        std::string t = value["type"].GetString();
+        if (t == "delay") {
+            var->type = VariableType::delay;
+            parse_uint(value, "depth", var->depth, info);
+            if (var->depth == 0) info.error_reason = "Invalid value for depth";
+        }
+    }
+    return var;
+}
+
 std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JSONParseInfo &info) {
     std::shared_ptr<VarDef> var;
     if (value.IsString()) {
@@ -724,21 +761,7 @@ std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JS
             var = vars.at(id);
         }
     } else {
-        var = std::make_shared<VarDef>();
-        var->name = value["name"].GetString();
-        var->value = value["value"].GetString();
-        var->rtl = value["rtl"].GetBool();
-
-        if (value.HasMember("type")) {
-            std::string t = value["type"].GetString();
-            if (t == "delay") {
-                var->type = VariableType::delay;
-
-                if (value.HasMember("depth")) {
-                    var->depth = value["depth"].GetUint();
-                }
-            }
-        }
+        var = parse_var_def(value, info);
     }
 
     if (!var) {
@@ -753,12 +776,8 @@ void parse_var_defs(const rapidjson::Document &document, JSONParseInfo &info) {
     if (!document.HasMember("variables")) return;
     auto variables = document["variables"].GetArray();
     for (auto const &var_def : variables) {
-        auto var = std::make_shared<VarDef>();
-        var->name = var_def["name"].GetString();
-        var->value = var_def["value"].GetString();
-        var->rtl = var_def["rtl"].GetBool();
         std::string id = var_def["id"].GetString();
-        info.var_defs.emplace(id, var);
+        info.var_defs.emplace(id, parse_var_def(var_def, info));
     }
 }
 
@@ -766,6 +785,8 @@ void parse_attributes(const rapidjson::Document &document, JSONParseInfo &info)
     if (!document.HasMember("attributes")) return;
     auto attributes = document["attributes"].GetArray();
     for (auto const &attr : attributes) {
+        // both are optional
+        if (!attr.HasMember("name") || !attr.HasMember("value")) continue;
         std::string name = attr["name"].GetString();
         std::string value = attr["value"].GetString();
         info.attributes.emplace_back(std::make_pair(name, value));
@@ -799,7 +820,7 @@ std::vector<std::shared_ptr<Instance>> parse(rapidjson::Document &document, JSON
     for (auto &entry : table) {
         auto parsed_entry = parse_scope_entry(entry, info);
         // notice that if the entry type is not a module, we are effectively discarding it
-        if (parsed_entry->type == ScopeEntryType::Module) {
+        if (parsed_entry && parsed_entry->type == ScopeEntryType::Module) {
             auto m = std::reinterpret_pointer_cast<ModuleDef>(parsed_entry);
             if (tops.find(m->name) != tops.end()) {
                 // making a new instance. notice that the name is the same as module name
@@ -810,6 +831,9 @@ std::vector<std::shared_ptr<Instance>> parse(rapidjson::Document &document, JSON
             }
         }
     }
+    if (result.size() != tops.size()) {
+        info.error_reason = "Unable to find the definition of the top modules";
+    }
     parse_attributes(document, info);
     return result;
 }
@@ -953,6 +977,8 @@ private:
                 (ref->type == ScopeEntryType::Declaration)) {
                 for (auto j = i + 1; j < scope.size(); j++) {
                     auto const &target = scope[j];
+                    // merged already
+                    if (!target) continue;
                     if (target->type != ref->type || target->line != ref->line ||
                         target->column != ref->column || target->condition != ref->condition ||
                         has_index_var(target) || has_index_var(ref)) {
@@ -1080,37 +1106,17 @@ bool reordering(const rapidjson::Document &document) {
 }
 
 JSONSymbolTableProvider::JSONSymbolTableProvider(const std::string &filename) {
-    {
-        auto stream = std::ifstream(filename);
-        if (stream.bad()) {
-            return;
-        }
-
-        auto valid = valid_json(stream);
-        if (!valid) {
-            log::log(log::log_level::error, "Invalid JSON file " + filename);
-            return;
-        }
-    }
-
-    {
-        auto stream = std::ifstream(filename);
-        rapidjson::IStreamWrapper isw(stream);
-        rapidjson::Document document;
-        document.ParseStream(isw);
-        db::json::JSONParseInfo info(module_defs_, var_defs_, attributes_);
-        roots_ = db::json::parse(document, info);
-
-        reordering_ = reordering(document);
+    auto stream = std::ifstream(filename);
+    std::stringstream ss;
+    ss << stream.rdbuf();
+    if (!parse(ss.str())) {
+        log::log(log::log_level::error, "Invalid JSON file " + filename);
     }
-    parse_db();
 }
 
 JSONSymbolTableProvider::JSONSymbolTableProvider(std::unique_ptr<JSONSymbolTableProvider> db) {
-    roots_ = db->roots_;
-    module_defs_ = db->module_defs_;
     // ownership transfer complete
-    db.reset();
+    *this = std::move(*db);
 }
 
 class BreakPointVisitor : public db::json::DBVisitor<false> {
@@ -1161,17 +1167,20 @@ private:
         // the query filename might mismatch with the filename we have, i.e. relative vs. absolute
         // Chisel only uses basename, but the users requests always send absolute name
         if (ref_path.empty()) return false;
-        if (is_relative(ref_path)) {
-            auto f = base_name(query_path);
-            return ref_path == f;
-        } else {
-            return query_path == ref_path;
+        if (query_path == ref_path) return true;
+        if (!is_relative(ref_path)) return false;
+        // the query path has to end with the relative path
+        auto const query = std::filesystem::path(query_path);
+        auto const ref = std::filesystem::path(ref_path);
+        if (std::distance(query.begin(), query.end()) < std::distance(ref.begin(), ref.end())) {
+            return false;
         }
-    }
-
-    static std::string base_name(const std::string &filename) {
-        auto p = std::filesystem::path(filename);
-        return p.filename();
+        auto query_it = query.end();
+        auto ref_it = ref.end();
+        while (ref_it != ref.begin()) {
+            if (*--ref_it != *--query_it) return false;
+        }
+        return true;
     }
 
     const db::json::BlockEntry *filename_match(
@@ -1331,7 +1340,7 @@ std::optional<std::string> JSONSymbolTableProvider::get_instance_name(uint32_t i
 
 class InstanceByBpIDVisitor : public db::json::DBVisitor<false> {
 public:
-    explicit InstanceByBpIDVisitor(uint32_t bp_id) : bp_id_(bp_id) {}
+    explicit InstanceByBpIDVisitor(uint64_t bp_id) : bp_id_(bp_id) {}
 
     void handle(const db::json::Instance &inst) override {
         if (!result) {
@@ -1347,7 +1356,7 @@ public:
     const db::json::Instance *result = nullptr;
 
 private:
-    uint32_t bp_id_;
+    uint64_t bp_id_;
 };
 
 const db::json::Instance *get_instance(
@@ -1373,6 +1382,7 @@ std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(uint64_t breakp
 
 std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(const std::string &instance_name) {
     auto instances = util::get_tokens(instance_name, ".");
+    if (instances.empty()) return std::nullopt;
     for (auto const &root : roots_) {
         if (instances[0] == root->name) {
             auto const *p = root.get();
@@ -1453,7 +1463,9 @@ JSONSymbolTableProvider::get_context_variables(uint32_t breakpoint_id) {  // NOL
     auto process_node = [this, &vars, &temp_vars, breakpoint_id](const db::json::ScopeEntry *pre) {
         if (pre->type == db::json::ScopeEntryType::Declaration) {
             auto const *decl = reinterpret_cast<const db::json::VarDeclEntry *>(pre);
-            for (auto const &var : decl->vars) {
+            // NOLINTNEXTLINE
+            for (auto it = decl->vars.rbegin(); it != decl->vars.rend(); it++) {
+                auto const &var = *it;
                 vars.emplace_back(std::make_pair(var->name, var.get()));
             }
 
@@ -1487,7 +1499,9 @@ JSONSymbolTableProvider::get_context_variables(uint32_t breakpoint_id) {  // NOL
                     }
                 }
             } else {
-                for (auto const &var : assign->vars) {
+                // NOLINTNEXTLINE
+                for (auto it = assign->vars.rbegin(); it != assign->vars.rend(); it++) {
+                    auto const &var = *it;
                     vars.emplace_back(std::make_pair(var->name, var.get()));
                 }
             }
@@ -1522,14 +1536,16 @@ JSONSymbolTableProvider::get_context_delayed_variables(uint32_t breakpoint_id) {
     auto process_node = [&vars](const db::json::ScopeEntry *pre) {
         if (pre->type == db::json::ScopeEntryType::Declaration) {
             auto const *decl = reinterpret_cast<const db::json::VarDeclEntry *>(pre);
-            for (auto const &var : decl->vars) {
+            // NOLINTNEXTLINE
+            for (auto it = decl->vars.rbegin(); it != decl->vars.rend(); it++) {
+                auto const &var = *it;
                 if (var->type == VariableType::delay)
                     vars.emplace_back(std::make_pair(var->name, var.get()));
             }
 
         } else if (pre->type == db::json::ScopeEntryType::Assign) {
             auto const *assign = reinterpret_cast<const db::json::AssignEntry *>(pre);
-            bool add_delay = assign->vars[0]->type == VariableType::delay;
+            bool add_delay = false;
             if (assign->has_index()) [[unlikely]] {
                 // need to be careful about the indexed value here
                 for (auto const &indexed : assign->indices) {
@@ -1540,8 +1556,10 @@ JSONSymbolTableProvider::get_context_delayed_variables(uint32_t breakpoint_id) {
                 }
             }
 
-            if (add_delay) {
-                for (auto const &var : assign->vars) {
+            // NOLINTNEXTLINE
+            for (auto it = assign->vars.rbegin(); it != assign->vars.rend(); it++) {
+                auto const &var = *it;
+                if (add_delay || var->type == VariableType::delay) {
                     vars.emplace_back(std::make_pair(var->name, var.get()));
                 }
             }
@@ -1643,13 +1661,13 @@ public:
 };
 
 std::vector<std::string> JSONSymbolTableProvider::get_filenames() {
-    std::vector<std::string> result;
+    FilenameVisitor v;
     for (auto const &root : roots_) {
-        FilenameVisitor v;
         v.visit(*root->definition);
-        result.reserve(result.size() + v.names.size());
-        for (auto const &name : v.names) result.emplace_back(resolve_filename_to_client(name));
     }
+    std::vector<std::string> result;
+    result.reserve(v.names.size());
+    for (auto const &name : v.names) result.emplace_back(resolve_filename_to_client(name));
     return result;
 }
 
@@ -1694,6 +1712,7 @@ private:
     // NOLINTNEXTLINE
     [[nodiscard]] std::optional<Info> rtl_equivalent(const db::json::AssignEntry &assign) const {
         // the problem is the front end name maybe an indexed variable
+        if (var_names_.empty()) return std::nullopt;
         if (assign.has_index()) {
             // this is an indexed variable
             // make sure up to the index we are the same
@@ -1710,8 +1729,7 @@ private:
                             // we have found it. create a condition now
                             auto cond = fmt::format("{0} == {1}", index.var->value, *idx);
                             // and rtl value
-                            auto value =
-                                fmt::format(fmt::format("{0}[{1}]", assign.vars[0]->value, *idx));
+                            auto value = fmt::format("{0}[{1}]", assign.vars[0]->value, *idx);
                             return Info{&assign, value, cond};
                         }
                     }
@@ -1723,9 +1741,6 @@ private:
             // notice that we treat [] and . the same
             // so we have to do some processing
             auto var_names = util::get_tokens(var->name, "[].");
-            if (same_var(var_names.begin(), var_names.end(), var_names_.begin(),
-                         var_names_.end())) {
-            }
             if (var_names.size() == var_names_.size()) {
                 bool same = true;
                 for (auto i = 0u; i < var_names.size(); i++) {
@@ -1854,6 +1869,9 @@ bool JSONSymbolTableProvider::valid_json(std::istream &stream) {
 }
 
 bool JSONSymbolTableProvider::parse(const std::string &db_content) {
+    // we process the nested scopes recursively
+    constexpr auto max_nesting_level = 1024;
+    if (!util::check_json_nesting(db_content, max_nesting_level)) return false;
     {
         std::stringstream ss;
         ss << db_content;
@@ -1874,54 +1892,62 @@ bool JSONSymbolTableProvider::parse(const std::string &db_content) {
         roots_ = db::json::parse(document, info);
         reordering_ = reordering(document);
 
-        parse_db();
-
         if (!info.error_reason.empty()) {
             // we have an error
             log::log(log::log_level::error, info.error_reason);
             roots_.clear();
         }
+
+        parse_db();
     }
     return !roots_.empty();
 }
 
-void resolve_module_instances(db::json::ModuleDef &def, db::json::ModuleDefDict &defs,
-                              bool &has_error) {
-    if (has_error) return;
-    std::set<db::json::ModuleDef *> subs;
+bool resolve_module_instances(db::json::ModuleDef &def, db::json::ModuleDefDict &defs) {
     for (auto const &[name, module] : def.unresolved_instances) {
-        if (defs.find(module) == defs.end()) {
-            has_error = true;
-            return;
-        } else {
-            auto *ptr = defs.at(module).get();
-            def.instances.emplace(name, ptr);
-            subs.emplace(ptr);
-        }
+        if (defs.find(module) == defs.end()) return false;
+        def.instances.emplace(name, defs.at(module).get());
     }
     def.unresolved_instances.clear();
-    // recursively check the child instances
-    for (auto *m : subs) {
-        resolve_module_instances(*m, defs, has_error);
+    return true;
+}
+
+// a module cannot contain itself
+bool has_recursive_instances(const db::json::ModuleDef *def,
+                             std::unordered_map<const db::json::ModuleDef *, bool> &finished) {
+    auto [it, inserted] = finished.emplace(def, false);
+    if (!inserted) return !it->second;
+    for (auto const &[_, sub] : def->instances) {
+        if (has_recursive_instances(sub, finished)) return true;
+    }
+    for (auto const *sub : def->nested_modules) {
+        if (has_recursive_instances(sub, finished)) return true;
     }
+    finished[def] = true;
+    return false;
 }
 
 void JSONSymbolTableProvider::parse_db() {
-    uint32_t inst_id = 0;
-    for (auto const &root : roots_) {
-        if (!root->definition) {
+    if (roots_.empty()) return;
+    // resolve the module names
+    for (auto const &[_, def] : module_defs_) {
+        if (!resolve_module_instances(*def, module_defs_)) {
+            log::log(log::log_level::error, "Unable to resolve all referenced instances");
             roots_.clear();
             return;
         }
-        // resolve the module names
-        bool has_error = false;
-        resolve_module_instances(*(const_cast<db::json::ModuleDef *>(root->definition)),
-                                 module_defs_, has_error);
-        if (has_error) {
-            log::log(log::log_level::error, "Unable to resolve all referenced instances");
+    }
+    std::unordered_map<const db::json::ModuleDef *, bool> finished;
+    for (auto const &[_, def] : module_defs_) {
+        if (has_recursive_instances(def.get(), finished)) {
+            log::log(log::log_level::error, "Recursive module instances");
             roots_.clear();
             return;
         }
+    }
+
+    uint32_t inst_id = 0;
+    for (auto const &root : roots_) {
         // build up the instance tree
         db::json::build_instance_tree(*root, inst_id);
         // depends on whether the generator wants reordering
diff --git a/src/proto.cc b/src/proto.cc
index ba0ffdd..1ce3eb6 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -715,30 +715,13 @@ std::string MonitorResponse::str(bool pretty_print) const {
     return to_string(document, pretty_print);
 }
 
-// whether the nesting is shallow enough to be processed recursively
-bool check_nesting(const std::string &str) {
-    constexpr auto max_level = 256;
-    bool in_string = false;
-    int level = 0;
-    for (auto i = 0u; i < str.size(); i++) {
-        auto const c = str[i];
-        if (in_string) {
-            if (c == '\\') i++;
-            if (c == '"') in_string = false;
-        } else if (c == '"') {
-            in_string = true;
-        } else if (c == '{' || c == '[') {
-            if (++level > max_level) return false;
-        } else if (c == '}' || c == ']') {
-            level--;
-        }
-    }
-    return true;
-}
+// messages are processed recursively
+constexpr auto max_nesting_level = 256;
 
 std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     using namespace rapidjson;
-    if (!check_nesting(str)) return std::make_unique<ErrorRequest>("Invalid json object");
+    if (!util::check_json_nesting(str, max_nesting_level))
+        return std::make_unique<ErrorRequest>("Invalid json object");
     Document document;
     document.Parse(str.c_str(), str.size());
 
@@ -1467,7 +1450,7 @@ std::optional<GeneratorVariable> parse_generator_variable(const rapidjson::Value
 void SymbolResponse::parse(const std::string &str) {
     using namespace rapidjson;
     Document document;
-    if (!check_nesting(str)) return;
+    if (!util::check_json_nesting(str, max_nesting_level)) return;
     document.Parse(str.c_str(), str.size());
     if (document.HasParseError() || !document.IsObject()) return;
 
diff --git a/src/util.cc b/src/util.cc
index 9eaf567..e32b5eb 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -40,6 +40,25 @@ std::optional<uint64_t> stoul(const std::string &value) {
     }
 }
 
+bool check_json_nesting(const std::string &str, uint64_t max_level) {
+    bool in_string = false;
+    uint64_t level = 0;
+    for (auto i = 0u; i < str.size(); i++) {
+        auto const c = str[i];
+        if (in_string) {
+            if (c == '\\') i++;
+            if (c == '"') in_string = false;
+        } else if (c == '"') {
+            in_string = true;
+        } else if (c == '{' || c == '[') {
+            if (++level > max_level) return false;
+        } else if ((c == '}' || c == ']') && level > 0) {
+            level--;
+        }
+    }
+    return true;
+}
+
 std::optional<std::string> getenv(std::string_view name) {
     auto *ptr = std::getenv(name.data());
     if (ptr) {
diff --git a/src/util.hh b/src/util.hh
index 590c11d..74d342e 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -30,6 +30,8 @@ std::string join(T begin, T end, const std::string &sep) {
 
 [[maybe_unused]] std::optional<int64_t> stol(const std::string &value);
 std::optional<uint64_t> stoul(const std::string &value);
+// whether the nesting is shallow enough to be processed recursively
+bool check_json_nesting(const std::string &str, uint64_t max_level);
 
 std::optional<std::string> getenv(std::string_view name);
 
-- 
2.43.0


From 97b357fdb21d1dca8c9270ae6a0558bcf52f7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:46 +0000
Subject: [PATCH 18/36] fix: strings in generated symbol tables are escaped
 completely

---
 include/json.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/json.hh b/include/json.hh
index 6eb814d..53d315e 100644
--- a/include/json.hh
+++ b/include/json.hh
@@ -84,8 +84,12 @@ private:
     static std::string escape(std::string_view value) {
         std::stringstream ss;
         for (auto c : value) {
-            if (c == '\\') {
-                ss << '\\' << '\\';
+            if (c == '\\' || c == '"') {
+                ss << '\\' << c;
+            } else if (static_cast<unsigned char>(c) < 0x20) {
+                // control characters are not allowed in a string
+                constexpr auto digits = "0123456789abcdef";
+                ss << "\\u00" << digits[c >> 4] << digits[c & 0xf];
             } else {
                 ss << c;
             }
-- 
2.43.0


From 80ad3fb58c9d398633cb4d94fb44b7ea01cbbb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:46 +0000
Subject: [PATCH 19/36] fix: the stop request is answered before its connection
 is closed

---
 src/debug.cc  | 7 +++++--
 src/server.cc | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index ce67ab3..7465d7b 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -696,11 +696,14 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
             log_info("handle_command: stop");
             if (scheduler_) scheduler_->clear();
             set_evaluation_mode(Scheduler::EvaluationMode::None);
+            namespaces_.default_rtl()->finish_sim();
+            // need to answer before the connection is closed
+            auto resp = GenericResponse(status_code::success, req);
+            send_message(resp.str(log_enabled_), conn_id);
             // we will unlock the lock during the stop step to ensure proper shutdown
             // of the runtime
-            namespaces_.default_rtl()->finish_sim();
             stop();
-            break;
+            return;
         }
         case CommandRequest::CommandType::step_over: {
             log_info("handle_command: step_over");
diff --git a/src/server.cc b/src/server.cc
index 2aa91ea..06580c0 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -71,7 +71,10 @@ void DebugServer::stop() {
     {
         std::lock_guard guard(connections_lock_);
         for (auto const &[id, conn] : connections_) {
-            conn->close(websocketpp::close::status::going_away, "Server stopped upon user request");
+            // the connection may be closing already
+            websocketpp::lib::error_code ec;
+            conn->close(websocketpp::close::status::going_away, "Server stopped upon user request",
+                        ec);
         }
         connections_.clear();
         connection_id_map_.clear();
-- 
2.43.0


From ba3de2118a07ec25cc970354d9de68e4f2ef1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:46 +0000
Subject: [PATCH 20/36] fix: malformed port numbers and unrelated plus-args are
 ignored

---
 src/debug.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 7465d7b..ca9dfd4 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -380,15 +380,12 @@ void Debugger::send_error(const Request &req, const std::string &message, uint64
 uint16_t Debugger::get_port() {
     auto port_str = get_value_plus_arg("DEBUG_PORT");
     if (!port_str) return default_port_num;
-    uint16_t value;
-    try {
-        value = std::stoul(*port_str);
-    } catch (const std::invalid_argument &) {
-        value = default_port_num;
-    } catch (const std::out_of_range &) {
-        value = default_port_num;
+    auto value = util::stoul(*port_str);
+    if (!value || *value > std::numeric_limits<uint16_t>::max()) {
+        log_error("Invalid port number " + *port_str);
+        return default_port_num;
     }
-    return value;
+    return static_cast<uint16_t>(*value);
 }
 
 std::optional<std::string> Debugger::get_value_plus_arg(const std::string &arg_name,
@@ -397,7 +394,7 @@ std::optional<std::string> Debugger::get_value_plus_arg(const std::string &arg_n
     auto const &args = namespaces_.default_rtl()->get_argv();
     auto const plus_arg = fmt::format("+{0}=", arg_name);
     for (auto const &arg : args) {
-        if (arg.find(plus_arg) != std::string::npos) {
+        if (arg.starts_with(plus_arg)) {
             auto value = arg.substr(plus_arg.size());
             return value;
         }
@@ -1522,14 +1519,15 @@ void Debugger::setup_init_breakpoint_from_env() {
         BreakPoint breakpoint;
         breakpoint.filename = fn_ln[0];
         auto ln = util::stoul(fn_ln[1]);
-        if (!ln) {
+        constexpr auto max_num = std::numeric_limits<uint32_t>::max();
+        if (!ln || *ln > max_num) {
             std::cerr << "Invalid breakpoint expression " << breakpoint_name << std::endl;
             continue;
         }
         breakpoint.line_num = *ln;
         if (fn_ln.size() == 3) {
             auto cn = util::stoul(fn_ln[2]);
-            if (!cn) {
+            if (!cn || *cn > max_num) {
                 std::cerr << "Invalid breakpoint expression " << breakpoint_name << std::endl;
                 continue;
             }
-- 
2.43.0


From 4eef0058d1fd7d74892f2c23d38c9c52c87621a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:57 +0000
Subject: [PATCH 21/36] fix: a slice of nothing or of a module has no value

---
 src/rtl.cc  | 2 ++
 src/util.hh | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index 33b9b9a..7dc6299 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -192,6 +192,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
             auto handle_name = util::join(
                 tokens.begin(), tokens.begin() + static_cast<uint32_t>(tokens.size()) - 1, ".");
             ptr = get_handle_raw(handle_name);
+            // modules don't have slices
+            if (ptr && get_vpi_type(ptr) == vpiModule) return nullptr;
         }
 
         if (!ptr) [[likely]] {
diff --git a/src/util.hh b/src/util.hh
index 74d342e..8294aea 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -18,6 +18,7 @@ std::string join(T begin, T end, const std::string &sep) {
     // more efficient way will be using ostream_joiner,
     // but it is still experimental
     auto it = begin;
+    if (it == end) return {};
     stream << *it;
     it++;
     while (it != end) {
-- 
2.43.0


From 99894f4ee6838f7bf8d4a34202a1e37c2ab8a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:49 +0000
Subject: [PATCH 22/36] fix: reported variables are read from their own signals
 in their own copy

---
 src/db.cc        |  9 +++++----
 src/debug.cc     | 52 ++++++++++++++++++------------------------------
 src/scheduler.cc |  8 ++++++++
 src/scheduler.hh |  2 ++
 src/symbol.hh    |  3 +++
 5 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 54e3453..41a18b2 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1479,10 +1479,11 @@ JSONSymbolTableProvider::get_context_variables(uint32_t breakpoint_id) {  // NOL
                     if (indexed_var->rtl && instance_id) {
                         if (get_symbol_value_) {
                             // if it's enabled
-                            auto indexed_name =
-                                resolve_scoped_name_instance(indexed_var->value, *instance_id);
-                            auto value =
-                                indexed_name ? (*get_symbol_value_)(*indexed_name) : std::nullopt;
+                            auto instance_name =
+                                get_instance_name(static_cast<uint32_t>(*instance_id));
+                            auto value = instance_name ? (*get_symbol_value_)(get_scoped_rtl_name(
+                                                             *instance_name, indexed_var->value))
+                                                       : std::nullopt;
                             if (value) {
                                 auto new_var = std::make_unique<db::json::VarDef>();
                                 // follow index_var's type
diff --git a/src/debug.cc b/src/debug.cc
index ca9dfd4..ea91746 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -71,9 +71,7 @@ void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
     }
 
     // setting methods to help the symbol table understand the design
-    db_->set_get_symbol_value([this](const std::string &symbol_name) {
-        return namespaces_.default_rtl()->get_value(symbol_name);
-    });
+    util::set_symbol_values(namespaces_.default_rtl(), db_.get());
 
     // setup breakpoints from env
     setup_init_breakpoint_from_env();
@@ -510,6 +508,7 @@ std::optional<std::string> Debugger::resolve_var_name(
     if (!db_ && (breakpoint_id || instance_id)) return std::nullopt;
     if (breakpoint_id) {
         auto bp = *breakpoint_id;
+        util::set_symbol_values(namespaces_[ns_id]->rtl.get(), db_.get());
         full_name = db_->resolve_scoped_name_breakpoint(var_name, bp);
     } else if (instance_id) {
         // instance id
@@ -1158,30 +1157,16 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
     }
 }
 
-std::vector<std::pair<std::string, std::string>> resolve_generator_name(std::string rtl_name_base,
-                                                                        const std::string &var_name,
-                                                                        uint32_t instance_id,
-                                                                        RTLSimulatorClient *rtl,
-                                                                        SymbolTableProvider *db) {
-    if (!rtl->is_absolute_path(rtl_name_base)) {
-        auto v = db->resolve_scoped_name_instance(rtl_name_base, instance_id);
-        if (v) rtl_name_base = *v;
-    }
-    auto var_names = rtl->resolve_rtl_variable(var_name, rtl_name_base);
-    return var_names;
-}
-
-std::vector<std::pair<std::string, std::string>> resolve_context_name(std::string rtl_name_base,
-                                                                      const std::string &var_name,
-                                                                      uint32_t bp_id,
-                                                                      RTLSimulatorClient *rtl,
-                                                                      SymbolTableProvider *db) {
-    if (!rtl->is_absolute_path(rtl_name_base)) {
-        auto v = db->resolve_scoped_name_breakpoint(rtl_name_base, bp_id);
-        if (v) rtl_name_base = *v;
-    }
-    auto var_names = rtl->resolve_rtl_variable(var_name, rtl_name_base);
-    return var_names;
+// the signals (or the constant) a variable of an instance stands for
+std::vector<std::pair<std::string, std::string>> resolve_variable(const Variable &var,
+                                                                  const std::string &var_name,
+                                                                  const std::string &instance_name,
+                                                                  RTLSimulatorClient *rtl) {
+    if (!var.is_rtl) return {{var_name, var.value}};
+    auto rtl_name = rtl->is_absolute_path(var.value)
+                        ? var.value
+                        : get_scoped_rtl_name(instance_name, var.value);
+    return rtl->resolve_rtl_variable(var_name, rtl_name);
 }
 
 void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &bps) {
@@ -1195,14 +1180,15 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
         auto bp_id = bp->id;
         auto *rtl = namespaces_[bp->ns_id]->rtl.get();
         auto generator_values = db_->get_generator_variable(bp->instance_id);
+        util::set_symbol_values(rtl, db_.get());
         auto context_values = db_->get_context_variables(bp_id);
         auto bp_ptr = db_->get_breakpoint(bp_id);
         auto instance_name = db_->get_instance_name_from_bp(bp_id);
         auto instance_name_str = instance_name ? *instance_name : "";
         // we use full name to distinguish among IP instantiations
-        instance_name_str = rtl->get_full_name(instance_name_str);
+        auto const instance_full_name = rtl->get_full_name(instance_name_str);
 
-        BreakPointResponse::Scope scope(bp->instance_id, instance_name_str, bp_id, bp->ns_id);
+        BreakPointResponse::Scope scope(bp->instance_id, instance_full_name, bp_id, bp->ns_id);
         switch (bp->type) {
             case DebugBreakPoint::Type::data:
                 scope.bp_type = "data";
@@ -1216,8 +1202,7 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
         using namespace std::string_literals;
         for (auto const &[gen_var, var] : generator_values) {
             // maybe need to resolve the name based on the variable
-            auto var_names =
-                resolve_generator_name(var.value, gen_var.name, bp->instance_id, rtl, db_.get());
+            auto var_names = resolve_variable(var, gen_var.name, instance_name_str, rtl);
             for (auto const &[front_name, rtl_name] : var_names) {
                 std::string value_str = get_value_str(bp->ns_id, rtl_name, var.is_rtl);
                 scope.add_generator_value(front_name, value_str);
@@ -1225,7 +1210,7 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
         }
 
         for (auto const &[ctx_var, var] : context_values) {
-            auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
+            auto var_names = resolve_variable(var, ctx_var.name, instance_name_str, rtl);
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
                 std::optional<uint32_t> delay;
@@ -1608,7 +1593,8 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
         auto func = [this, bp]() { return eval_breakpoint(bp); };
 
         for (auto const &[ctx, v] : context_vars) {
-            auto var_names = resolve_context_name(v.value, ctx.name, bp_id, rtl, db_.get());
+            if (!v.is_rtl) continue;
+            auto var_names = resolve_variable(v, ctx.name, *instance_name, rtl);
             for (auto const &[front_var, rtl_name] : var_names) {
                 // we really don't care about front end name
                 // get current value as initialization. this allows the breakpoint next cycle
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 32f70e5..32770f1 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -584,9 +584,17 @@ namespace util {
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
 #endif
+void set_symbol_values(RTLSimulatorClient *rtl, SymbolTableProvider *db) {
+    if (!db) return;
+    db->set_get_symbol_value(
+        [rtl](const std::string &symbol_name) { return rtl->get_value(symbol_name); });
+}
+
 // NOLINTNEXTLINE
 void validate_expr(RTLSimulatorClient *rtl, SymbolTableProvider *db, DebugExpression *expr,
                    std::optional<uint32_t> breakpoint_id, std::optional<uint32_t> instance_id) {
+    // the indices of a variable are the ones of the same copy of the design
+    set_symbol_values(rtl, db);
     if (!expr->symbols().empty()) {
         // only fill in context static values if the breakpoint has any required symbols
         auto context_static_values = breakpoint_id ? db->get_context_static_values(*breakpoint_id)
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 7896233..645c5a8 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -143,6 +143,8 @@ namespace util {
 constexpr auto time_var_name = "$time";
 constexpr auto instance_var_name = "$instance";
 
+// let the symbol table read the signals of a copy of the design
+void set_symbol_values(RTLSimulatorClient *rtl, SymbolTableProvider *db);
 void validate_expr(RTLSimulatorClient *rtl, SymbolTableProvider *db, DebugExpression *expr,
                    std::optional<uint32_t> breakpoint_id, std::optional<uint32_t> instance_id);
 std::vector<std::string> get_clock_signals(RTLSimulatorClient *rtl, SymbolTableProvider *db);
diff --git a/src/symbol.hh b/src/symbol.hh
index 9c36fd4..9ea37b2 100644
--- a/src/symbol.hh
+++ b/src/symbol.hh
@@ -75,6 +75,9 @@ private:
     uint32_t id_allocator_ = std::numeric_limits<uint32_t>::max();
 };
 
+// name of a signal that belongs to an instance
+std::string get_scoped_rtl_name(const std::string &inst_name, const std::string &value);
+
 // based on the schema we make different symbol table
 std::unique_ptr<SymbolTableProvider> create_symbol_table(const std::string &filename);
 
-- 
2.43.0


From 5f9e16088f0718e4042cd0be1a25616807670cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:12 +0000
Subject: [PATCH 23/36] fix: the VCD reader reports every value change and
 rejects malformed dumps

---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc |   2 +-
 tools/vcd/vcd.cc                           | 129 ++++++++++++---------
 tools/vcd/vcd.hh                           |   8 +-
 3 files changed, 81 insertions(+), 58 deletions(-)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index 868b5f3..c732324 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -316,7 +316,7 @@ private:
         if (has_error) return;
         // we directly dump it since we only modify the value definition
         if (!info.is_event) {
-            stream_ << 'b';
+            stream_ << (info.is_real ? 'r' : 'b');
         }
         stream_ << info.value;
         if (!info.is_event) {
diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index f2e94f7..af38aa4 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -1,7 +1,9 @@
 #include "vcd.hh"
 
+#include <charconv>
 #include <filesystem>
 #include <sstream>
+#include <unordered_map>
 
 namespace hgdb::vcd {
 
@@ -23,9 +25,8 @@ std::string next_token(std::istream &stream) {
         return {};
     std::stringstream result;
     uint64_t length = 0;
-    while (!stream.eof()) {
-        char c = '\0';
-        stream.get(c);
+    char c;
+    while (stream.get(c)) {
         if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f') {
             if (length == 0)
                 continue;
@@ -41,6 +42,23 @@ std::string next_token(std::istream &stream) {
 
 std::string next_token(std::istream *stream) { return next_token(*stream); }
 
+// the entire token has to be a number
+template <typename T>
+bool parse_number(std::string_view token, T &value) {
+    auto const *end = token.data() + token.size();
+    auto const [ptr, ec] = std::from_chars(token.data(), end, value);
+    return ec == std::errc() && ptr == end;
+}
+
+bool VCDParser::set_error(const std::string &message) {
+    std::stringstream ss;
+    ss << "Illegal VCD file " << filename_ << std::endl;
+    ss << "  " << message;
+    error_message_ = ss.str();
+    has_error_ = true;
+    return false;
+}
+
 bool VCDParser::parse() {  // NOLINT
     if (has_error_) return false;
     // the code below is mostly designed by Teguh Hofstee (https://github.com/hofstee)
@@ -58,11 +76,10 @@ bool VCDParser::parse() {  // NOLINT
 
     while (true) {
         auto token = next_token(stream_);
-        if (token.empty()) return true;
+        if (token.empty()) return set_error("Missing $enddefinitions");
 
         if (sv_map.find(token) == sv_map.end()) {
-            error_message_ = "Unable to find token: " + token;
-            return false;
+            return set_error("Unable to find token: " + token);
         }
 
         static const std::unordered_map<sv, VCDMetaInfo::MetaType> meta_map = {
@@ -77,7 +94,7 @@ bool VCDParser::parse() {  // NOLINT
             case sv::Version:
             case sv::Timescale:
             case sv::Comment: {
-                parse_meta(meta_map.at(token_type));
+                if (!parse_meta(meta_map.at(token_type))) return false;
                 break;
             }
             case sv::Scope: {
@@ -87,6 +104,8 @@ bool VCDParser::parse() {  // NOLINT
             case sv::Upscope: {
                 token = next_token(stream_);
                 if (!check_end(token)) return false;
+                if (scope_level_ == 0) return set_error("$upscope without $scope");
+                scope_level_--;
                 if (on_exit_scope_) (*on_exit_scope_)();
                 break;
             }
@@ -98,15 +117,12 @@ bool VCDParser::parse() {  // NOLINT
                 token = next_token(stream_);
                 if (!check_end(token)) return false;
                 if (on_definition_finished_) (*on_definition_finished_)();
-                if (!parse_vcd_values()) return false;
-                break;
+                return parse_vcd_values();
             }
             default: {
             }
         }
     }
-
-    return true;
 }
 
 void VCDParser::set_exit_scope(const std::function<void()> &func) { on_exit_scope_ = func; }
@@ -146,12 +162,13 @@ VCDParser::~VCDParser() {
     }
 }
 
-void VCDParser::parse_meta(VCDMetaInfo::MetaType type) {
+bool VCDParser::parse_meta(VCDMetaInfo::MetaType type) {
     std::stringstream ss;
     std::string token;
     uint64_t start_pos = tellg();
 
     while ((token = next_token(stream_)) != end_str) {
+        if (token.empty()) return check_end(token);
         ss << " " << token;
     }
     if (on_meta_info_) {
@@ -160,6 +177,7 @@ void VCDParser::parse_meta(VCDMetaInfo::MetaType type) {
         meta_info.end_pos = tellg();
         (*on_meta_info_)(meta_info);
     }
+    return true;
 }
 
 bool VCDParser::parse_scope_def() {
@@ -168,10 +186,9 @@ bool VCDParser::parse_scope_def() {
     scope_def.type = next_token(stream_);  // scope type
     scope_def.name = next_token(stream_);
     auto token = next_token(stream_);
-    if (token != end_str) {
-        error_message_ = "Illegal VCD file";
-        return false;
-    }
+    if (!check_end(token)) return false;
+    if (scope_def.name == end_str) return set_error("Missing scope name");
+    scope_level_++;
     scope_def.end_pos = tellg();
     if (on_enter_scope_) {
         (*on_enter_scope_)(scope_def);
@@ -183,7 +200,8 @@ bool VCDParser::parse_var_def() {
     static VCDVarDef var_def;
     var_def.start_pos = tellg();
     var_def.type = next_token(stream_);
-    var_def.width = std::stoul(next_token(stream_));
+    auto const width = next_token(stream_);
+    if (!parse_number(width, var_def.width)) return set_error("Invalid width: " + width);
     var_def.identifier = next_token(stream_);
     var_def.name = next_token(stream_);
 
@@ -192,12 +210,13 @@ bool VCDParser::parse_var_def() {
         // slice
         var_def.slice = token;
         token = next_token(stream_);
-        if (token != end_str) {
-            return false;
-        }
+        if (!check_end(token)) return false;
     } else {
         var_def.slice = "";
     }
+    if (var_def.name == end_str) return set_error("Missing variable name");
+    if (scope_level_ == 0) return set_error("$var without $scope");
+    identifiers_.emplace(var_def.identifier);
 
     var_def.end_pos = tellg();
 
@@ -208,70 +227,68 @@ bool VCDParser::parse_var_def() {
 }
 
 bool VCDParser::parse_vcd_values() {  // NOLINT
-    size_t timestamp = 0;
+    uint64_t timestamp = 0;
     uint64_t start_pos;
 
     auto add_value = [this, &timestamp, &start_pos](const std::string &identifier,
-                                                    const std::string &value,
-                                                    bool is_event = false) {
-        VCDValue v{
-            .time = timestamp, .identifier = identifier, .value = value, .is_event = is_event};
+                                                    const std::string &value, bool is_event = false,
+                                                    bool is_real = false) {
+        if (value.empty()) return set_error("Missing value of " + identifier);
+        if (identifiers_.find(identifier) == identifiers_.end())
+            return set_error("Undefined identifier: " + identifier);
+        VCDValue v{.time = timestamp,
+                   .identifier = identifier,
+                   .value = value,
+                   .is_event = is_event,
+                   .is_real = is_real};
         v.start_pos = start_pos;
         v.end_pos = tellg();
         if (on_value_change_) {
             (*on_value_change_)(v);
         }
+        return true;
     };
 
+    // whether we're between $dumpvars etc. and its $end
+    bool in_dump = false;
     while (true) {
         start_pos = tellg();
         auto token = next_token(stream_);
-        if (token.empty()) return true;
+        if (token.empty()) {
+            return in_dump ? check_end(token) : true;
+        }
 
         if (token[0] == '#') {
-            timestamp = std::stoi(std::string(token.substr(1)));
+            if (!parse_number(std::string_view(token).substr(1), timestamp))
+                return set_error("Invalid time: " + token);
             if (on_time_change_) (*on_time_change_)(timestamp);
-        } else if (std::string("01xz").find(token[0]) != std::string::npos) {
+        } else if (std::string("01xzXZ").find(token[0]) != std::string::npos) {
             auto value = std::string(1, token[0]);
             auto ident = std::string(token.substr(1));
 
-            add_value(ident, value, true);
-        } else if (std::string("b").find(token[0]) != std::string::npos) {
+            if (!add_value(ident, value, true)) return false;
+        } else if (std::string("bBrR").find(token[0]) != std::string::npos) {
+            auto const is_real = token[0] == 'r' || token[0] == 'R';
             auto value = std::string(token.substr(1));
             auto ident = std::string(next_token(stream_));
 
-            add_value(ident, value);
-        } else if (token == "$dumpvars" || token == "$dumpall" || token == "$dumpon" ||
-                   token == "$dumpoff") {
+            if (!add_value(ident, value, false, is_real)) return false;
+        } else if (!in_dump && (token == "$dumpvars" || token == "$dumpall" || token == "$dumpon" ||
+                                token == "$dumpoff")) {
+            in_dump = true;
             if (on_dump_var_action_) (*on_dump_var_action_)(token);
-            while (true) {
-                token = next_token(stream_);
-                if (token == "$end") {
-                    break;
-                } else if (std::string("01xz").find(token[0]) != std::string::npos) {
-                    auto value = std::string(1, token[0]);
-                    auto ident = std::string(token.substr(1));
-
-                    add_value(ident, value, true);
-                } else if (std::string("b").find(token[0]) != std::string::npos) {
-                    auto value = std::string(token.substr(1));
-                    auto ident = std::string(next_token(stream_));
-
-                    add_value(ident, value);
-                }
-            }
+        } else if (in_dump && token == end_str) {
+            in_dump = false;
+        } else if (token == "$comment") {
+            if (!parse_meta(VCDMetaInfo::MetaType::comment)) return false;
+        } else {
+            return set_error("Unable to find token: " + token);
         }
     }
 }
 
 bool VCDParser::check_end(const std::string &token) {
-    if (token != end_str) {
-        std::stringstream ss;
-        ss << "Illegal VCD file " << filename_ << std::endl;
-        ss << "  Missing " << end_str;
-        error_message_ = ss.str();
-        return false;
-    }
+    if (token != end_str) return set_error(std::string("Missing ") + end_str);
     return true;
 }
 
diff --git a/tools/vcd/vcd.hh b/tools/vcd/vcd.hh
index b52989b..2849e0a 100644
--- a/tools/vcd/vcd.hh
+++ b/tools/vcd/vcd.hh
@@ -35,6 +35,7 @@ struct VCDValue : public VCSStreamInfo {
     std::string identifier;
     std::string value;
     bool is_event;
+    bool is_real = false;
 };
 
 struct VCDMetaInfo : public VCSStreamInfo {
@@ -83,16 +84,21 @@ private:
     std::string error_message_;
     bool has_error_ = false;
 
+    // parsing state
+    uint64_t scope_level_ = 0;
+    std::unordered_set<std::string> identifiers_;
+
     inline uint64_t tellg() { return stream_->tellg(); }
 
 protected:
     // parser helpers
-    void parse_meta(VCDMetaInfo::MetaType type);
+    bool parse_meta(VCDMetaInfo::MetaType type);
     bool parse_scope_def();
     bool parse_var_def();
     bool parse_vcd_values();
 
     bool check_end(const std::string &token);
+    bool set_error(const std::string &message);
 };
 
 }  // namespace hgdb::vcd
-- 
2.43.0


From 872b413f1d0bf8018fdf128a4e4b03831a2d3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:50 +0000
Subject: [PATCH 24/36] fix: an instance without name does not exist in a
 remote symbol table

---
 src/symbol.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbol.cc b/src/symbol.cc
index 24f831c..89ae8a2 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -435,6 +435,8 @@ public:
     }
 
     std::optional<uint64_t> get_instance_id(const std::string &instance_name) override {
+        // an empty name in the request denotes the instance of a breakpoint
+        if (instance_name.empty()) return std::nullopt;
         SymbolRequest req(SymbolRequest::request_type::get_instance_id);
         req.instance_name = instance_name;
 
-- 
2.43.0


From 1a92f5faa0d6afd68a7b92efb644a7c10b9d5742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:39 +0000
Subject: [PATCH 25/36] fix: members of a structure are read by their own full
 names

---
 src/rtl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 7dc6299..1d6cc62 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -609,8 +609,9 @@ std::vector<std::pair<std::string, std::string>> RTLSimulatorClient::resolve_rtl
                             int property, std::vector<std::pair<std::string, std::string>> &res) {
         if (auto *it = vpi_->vpi_iterate(property, handle)) {
             while (auto *h = vpi_->vpi_scan(it)) {
-                auto *rtl = vpi_->vpi_get_str(vpiFullName, h);
-                auto *n = vpi_->vpi_get_str(vpiName, h);
+                // the simulator uses the same buffer for every string
+                std::string const rtl = vpi_->vpi_get_str(vpiFullName, h);
+                std::string const n = vpi_->vpi_get_str(vpiName, h);
                 // make it recursive to account for
                 auto new_res = resolve_rtl_variable(front_name + "." + n, rtl);
                 res.insert(res.end(), new_res.begin(), new_res.end());
-- 
2.43.0


From 60e11417746e1d0844ed29468eefbb06d8bbe391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:44 +0000
Subject: [PATCH 26/36] fix: values that do not fit are not written

---
 src/rtl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index 1d6cc62..05d9793 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -397,6 +397,10 @@ bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
     if (!handle) return false;
     // can only set the entire signal
     if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return false;
+    // values are written as 32-bit integers, which are sign extended in wider signals
+    if (value < std::numeric_limits<int32_t>::min() || value > std::numeric_limits<uint32_t>::max())
+        return false;
+    if (value > std::numeric_limits<int32_t>::max() && get_vpi_size(handle) > 32) return false;
     s_vpi_value vpi_value;
     vpi_value.value.integer = static_cast<int>(value);
     vpi_value.format = vpiIntVal;
-- 
2.43.0


From ea1e2046287232ea6c27d2f526b59e4b9fadba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:35 +0000
Subject: [PATCH 27/36] fix: removing a monitor leaves data breakpoints and
 delayed variables alone

---
 src/debug.cc   | 8 ++++++++
 src/monitor.cc | 6 ++++++
 src/monitor.hh | 2 ++
 3 files changed, 16 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index ea91746..910f4a8 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -983,6 +983,14 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
         } else {
             // it's remove
             auto track_id = req.track_id();
+            // data breakpoints and delayed variables use the monitor as well, which is not what
+            // the client has added
+            auto watch_type = monitor.get_watch_type(track_id);
+            if (watch_type == MonitorRequest::MonitorType::data ||
+                watch_type == MonitorRequest::MonitorType::delay_clock_edge) {
+                send_error(req, fmt::format("Invalid track id {0}", track_id), conn_id);
+                return;
+            }
             monitor.remove_monitor_variable(track_id);
 
             // remove topics
diff --git a/src/monitor.cc b/src/monitor.cc
index 30d2243..7cb69e2 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -47,6 +47,12 @@ void Monitor::remove_monitor_variable(uint64_t watch_id) {
     }
 }
 
+std::optional<Monitor::WatchType> Monitor::get_watch_type(uint64_t watch_id) const {
+    auto const pos = watched_variables_.find(watch_id);
+    if (pos == watched_variables_.end()) return std::nullopt;
+    return pos->second->type;
+}
+
 void Monitor::set_monitor_variable_condition(uint64_t id, std::function<bool()> cond) {
     if (watched_variables_.find(id) != watched_variables_.end()) [[likely]] {
         watched_variables_.at(id)->enable_cond = std::move(cond);
diff --git a/src/monitor.hh b/src/monitor.hh
index a6365f3..db9bc10 100644
--- a/src/monitor.hh
+++ b/src/monitor.hh
@@ -26,6 +26,8 @@ public:
     void remove_monitor_variable(uint64_t watch_id);
     [[nodiscard]] std::optional<uint64_t> is_monitored(vpiHandle handle,
                                                        WatchType watch_type) const;
+    // nullopt if there is no such watched variable
+    [[nodiscard]] std::optional<WatchType> get_watch_type(uint64_t watch_id) const;
     void set_monitor_variable_condition(uint64_t id, std::function<bool()> cond);
     [[nodiscard]] std::shared_ptr<std::optional<int64_t>> get_watched_value_ptr(
         const std::unordered_set<std::string>& var_names, WatchType type) const;
-- 
2.43.0


From d622e1e545f6f8e33bb79e0ada28840a26a0030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:25 +0000
Subject: [PATCH 28/36] fix: the namespaces are not read while the server may
 change them

---
 src/debug.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 910f4a8..f620942 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -83,6 +83,12 @@ void Debugger::run() {
     // this is only used for benchmark!
     preload_db_from_env();
 
+    // by default we block the execution. but if user desires, e.g. during a benchmark
+    // we can skip the blocking
+    // rocket chip doesn't like plus args. Need to
+    // once the server runs, only its thread may look at the namespaces
+    bool const disable_blocking = get_test_plus_arg(DISABLE_BLOCKING_ENV, true);
+
     auto on_ = [this](const std::string &msg, uint64_t conn_id) { on_message(msg, conn_id); };
     server_thread_ = std::thread([on_, this]() {
         server_->set_on_message(on_);
@@ -93,11 +99,6 @@ void Debugger::run() {
         server_->run(port);
     });
     // block this thread until we receive the continue command from user
-    //
-    // by default we block the execution. but if user desires, e.g. during a benchmark
-    // we can skip the blocking
-    // rocket chip doesn't like plus args. Need to
-    bool disable_blocking = get_test_plus_arg(DISABLE_BLOCKING_ENV, true);
     if (!disable_blocking) [[likely]] {
         lock_.wait();
     }
-- 
2.43.0


From af75682f00e6010651748440cf5ca10e6bc318e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:05 +0000
Subject: [PATCH 29/36] fix: a command received earlier does not end a clock
 edge pause

---
 src/debug.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index f620942..791d2c4 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -149,8 +149,6 @@ void Debugger::eval() {
 
         if (!result.empty()) {
             scheduler_->set_current_hits(result);
-            // commands received before this point are not meant for this pause
-            lock_.reset();
             // send the breakpoint hit information
             send_breakpoint_hit(result);
             // also send any breakpoint values
@@ -184,6 +182,8 @@ std::vector<RTLSimulatorClient *> Debugger::rtl_clients() const {
 }
 
 void Debugger::pause(std::unique_lock<std::recursive_mutex> &guard) {
+    // commands received before this point are not meant for this pause
+    lock_.reset();
     guard.unlock();
     lock_.wait();
     guard.lock();
-- 
2.43.0


From 4a3f5d1b26f935ace9e4e5e2f20e3dba1a7050ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 30/36] fix: an assertion that fails in consecutive cycles
 pauses in each of them

---
 src/scheduler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 32770f1..5d87771 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -421,6 +421,8 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
         } else if (pos != breakpoints_.end()) {
             // update breakpoint entry
             (*pos)->expr = std::move(bp->expr);
+            // the assertion fails again before the previous one is removed
+            if (bp_type == DebugBreakPoint::Type::assert) (*pos)->evaluated = false;
             result = pos->get();
         } else {
             result = breakpoints_.emplace_back(std::move(bp)).get();
-- 
2.43.0


From 6de38b21db4d5eb61b214580ef3a89179cffe853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 31/36] fix: settings given as plus-args with a value are
 recognised, as documented

---
 src/debug.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 791d2c4..093f870 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -407,8 +407,10 @@ bool Debugger::get_test_plus_arg(const std::string &arg_name, bool check_env) {
     auto const &args = namespaces_.default_rtl()->get_argv();
     // we check env the last since we allow plus args to override env values
     auto plus_arg = "+" + arg_name;
-    auto r = std::any_of(args.begin(), args.end(),
-                         [&plus_arg](const auto &arg) { return arg == plus_arg; });
+    auto const plus_arg_value = plus_arg + "=";
+    auto r = std::any_of(args.begin(), args.end(), [&](const auto &arg) {
+        return arg == plus_arg || arg.starts_with(plus_arg_value);
+    });
 
     // check env as well if allowed
     if (!r && check_env) {
-- 
2.43.0


From b8513d58f70dba0056c02a2b3fbb98c75dad4562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 32/36] fix: breakpoints from the environment without a column
 match every column

---
 src/debug.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 093f870..2bcc6c0 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1512,7 +1512,7 @@ void Debugger::setup_init_breakpoint_from_env() {
             std::cerr << "Invalid breakpoint expression " << breakpoint_name << std::endl;
             continue;
         }
-        BreakPoint breakpoint;
+        BreakPoint breakpoint{};
         breakpoint.filename = fn_ln[0];
         auto ln = util::stoul(fn_ln[1]);
         constexpr auto max_num = std::numeric_limits<uint32_t>::max();
-- 
2.43.0


From 3bca6f190ae87b37580c22e856d05631d1a39711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 33/36] fix: a SQLite breakpoint looked up by id keeps its
 trigger

---
 src/db.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 41a18b2..be60d4e 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -94,7 +94,8 @@ std::optional<BreakPoint> DBSymbolTableProvider::get_breakpoint(uint32_t breakpo
                           .filename = ptr->filename,
                           .line_num = ptr->line_num,
                           .column_num = ptr->column_num,
-                          .condition = ptr->condition};
+                          .condition = ptr->condition,
+                          .trigger = ptr->trigger};
 
     } else {
         return std::nullopt;
-- 
2.43.0


From 1d86ed2340a9931882ebbf4a7b54db6f7a2c9355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 34/36] fix: SQLite variables whose RTL name contains the
 instance name

---
 src/db.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index be60d4e..cec1479 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -140,13 +140,7 @@ std::optional<uint64_t> DBSymbolTableProvider::get_instance_id(uint64_t breakpoi
 }
 
 std::string get_var_value(bool is_rtl, const std::string &value, const std::string &instance_name) {
-    std::string fullname;
-    if (is_rtl && value.find(instance_name) == std::string::npos) {
-        fullname = fmt::format("{0}.{1}", instance_name, value);
-    } else {
-        fullname = value;
-    }
-    return fullname;
+    return is_rtl ? get_scoped_rtl_name(instance_name, value) : value;
 }
 
 std::vector<DBSymbolTableProvider::ContextVariableInfo>
-- 
2.43.0


From 93ee7d3c3d8baf8202326751e837d28cb8f64a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 35/36] fix: SQLite assignments are looked up by name and scope

---
 src/db.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index cec1479..1395cb4 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -296,13 +296,12 @@ DBSymbolTableProvider::get_assigned_breakpoints(const std::string &var_name,  //
         if ((var_name.find('[') != std::string::npos || var_name.find('.') != std::string::npos) &&
             // maybe the generator already taken care of it
             ref_assignment.name != var_name) {
-            auto tokens = util::get_tokens(var_name, "[.");
-            target_var_name = {tokens[0]};
-            found = true;
+            target_var_name = var_name.substr(0, var_name.find_first_of("[."));
             member_access = true;
-            ref_assign = std::move(ref_assignment);
-        } else if (ref_assignment.name == var_name) {
+        }
+        if (ref_assignment.name == target_var_name) {
             found = true;
+            ref_assign = std::move(ref_assignment);
         }
     }
 
-- 
2.43.0


From 553b75babcda3fb341dcbd6d0d906ba9e4feb229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 36/36] fix: assertions skipped by stepping do not pause again
 in the next cycle

---
 src/debug.cc     | 1 +
 src/scheduler.cc | 6 ++++++
 src/scheduler.hh | 1 +
 3 files changed, 8 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 2bcc6c0..99add85 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -159,6 +159,7 @@ void Debugger::eval() {
         }
     }
 
+    scheduler_->end_breakpoint_evaluation();
     // values are going to change once we return
     cached_signal_time_ = std::nullopt;
     send_monitor_values(MonitorRequest::MonitorType::clock_edge);
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 5d87771..59232f6 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -310,6 +310,12 @@ void Scheduler::start_breakpoint_evaluation() {
     current_breakpoint_id_ = std::nullopt;
 }
 
+void Scheduler::end_breakpoint_evaluation() {
+    std::lock_guard guard(breakpoint_lock_);
+    // assertions that are skipped, e.g. because of stepping, don't fail again in the next cycle
+    remove_breakpoint([](auto const &bp) { return bp.type == DebugBreakPoint::Type::assert; });
+}
+
 void Scheduler::set_evaluation_mode(EvaluationMode mode) { evaluation_mode_ = mode; }
 
 void Scheduler::clear() {
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 645c5a8..2771466 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -58,6 +58,7 @@ public:
     std::vector<DebugBreakPoint *> next_reverse_breakpoints();
     DebugBreakPoint *get_breakpoint(uint32_t id) const;
     void start_breakpoint_evaluation();
+    void end_breakpoint_evaluation();
     // set the current position to the breakpoints that are actually hit
     void set_current_hits(const std::vector<const DebugBreakPoint *> &bps);
 
-- 
2.43.0

