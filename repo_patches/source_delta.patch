From c3a5c7be38fa2cd3f81e2dc72cfcba6fb2e3dcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:38 +0000
Subject: [PATCH 01/27] fix: comparing weight vectors of different length read
 past the end of the shorter one

---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 668dfd6..e3c1943 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -178,7 +178,7 @@ namespace pdaaal {
                     auto l1 = lhs.end(), l2 = rhs.end();
                     bool exhaust1 = (f1 == l1);
                     bool exhaust2 = (f2 == l2);
-                    for (; !exhaust1 || !exhaust2; exhaust1 = (++f1 == l1), exhaust2 = (++f2 == l2)) {
+                    for (; !exhaust1 || !exhaust2; exhaust1 = (exhaust1 || ++f1 == l1), exhaust2 = (exhaust2 || ++f2 == l2)) {
                         auto v1 = exhaust1 ? weight<Inner>::zero() : *f1; // Missing elements are implicitly zero.
                         auto v2 = exhaust2 ? weight<Inner>::zero() : *f2;
                         if (weight_impl<Inner, maximize>::less(v1, v2)) return true;
-- 
2.43.0


From aae369c7eab3a49f4b772609cbcc553c8384ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:38 +0000
Subject: [PATCH 02/27] fix: linear weight functions accumulated in int,
 truncating wider weight types

---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index e3c1943..9967492 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -222,7 +222,7 @@ namespace pdaaal {
             if (_function) {
                 return _function.value()(args...);
             }
-            return std::accumulate(_functions.begin(), _functions.end(), 0,
+            return std::accumulate(_functions.begin(), _functions.end(), static_cast<W>(0),
                     [&args...](const W& lhs, const std::pair<W, linear_weight_function<W, Args...>>& rhs) -> W {
                 return lhs + (rhs.first * rhs.second(args...));
             });
-- 
2.43.0


From faadc9ec9aa5bb5325257795545ab701e72ccd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:25 +0000
Subject: [PATCH 03/27] fix: priority_set popped an element twice when it was
 added again after being popped

---
 src/include/pdaaal/utils/more_algorithms.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/utils/more_algorithms.h b/src/include/pdaaal/utils/more_algorithms.h
index 53eeebf..5809ed7 100644
--- a/src/include/pdaaal/utils/more_algorithms.h
+++ b/src/include/pdaaal/utils/more_algorithms.h
@@ -101,11 +101,15 @@ namespace pdaaal {
     public:
         template<typename... Args>
         void emplace(const Weight& weight, Args... args) {
-            _queue.emplace(weight, Elem(std::forward<Args>(args)...));
+            auto elem = Elem(std::forward<Args>(args)...);
+            if (_seen.contains(elem)) return; // Already popped, and we don't pop the same element twice.
+            _queue.emplace(weight, std::move(elem));
         }
         template<typename... Args>
         void emplace(Weight&& weight, Args... args) {
-            _queue.emplace(std::move(weight), Elem(std::forward<Args>(args)...));
+            auto elem = Elem(std::forward<Args>(args)...);
+            if (_seen.contains(elem)) return; // Already popped, and we don't pop the same element twice.
+            _queue.emplace(std::move(weight), std::move(elem));
         }
         void pop() {
             assert(!_seen.contains(_queue.top().second)); // This should be the class invariant.
-- 
2.43.0


From f5d2954f2c20608a80fa2364e02cdde49ef17160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:25 +0000
Subject: [PATCH 04/27] fix: json_stream wrote object keys unescaped

---
 src/pdaaal-bin/utils/json_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/utils/json_stream.h b/src/pdaaal-bin/utils/json_stream.h
index 7bf3db6..d60050e 100644
--- a/src/pdaaal-bin/utils/json_stream.h
+++ b/src/pdaaal-bin/utils/json_stream.h
@@ -93,7 +93,7 @@ private:
         } else {
             _out << ',' << std::endl;
         }
-        return indent() << "\"" << key << "\" : ";
+        return indent() << json(key).dump() << " : ";
     }
 
     bool _started = false;
-- 
2.43.0


From 67934aa9bd285fbc560e53e7b34391fe5dfdac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:25 +0000
Subject: [PATCH 05/27] fix: optional and star automata accepted extra words
 when the initial state is reachable again

---
 src/include/pdaaal/NFA.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 3544662..2264698 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -330,6 +330,17 @@ namespace pdaaal {
         }
         
         void question_extend() {
+            if (_initial.empty() || std::any_of(_initial.begin(), _initial.end(), [](const state_t* s){ return !s->_accepting && !s->_backedges.empty(); })) {
+                // Some initial state can be reached again after reading input, so it cannot just be made accepting.
+                _states.emplace_back(std::make_unique<state_t>(true));
+                auto initial = _states.back().get();
+                for(auto& i : _initial) {
+                    initial->add_epsilon_edge(i);
+                }
+                _initial = {initial};
+                _accepting.push_back(initial);
+                return;
+            }
             for(auto s : _initial) {
                 if(!s->_accepting) {
                     s->_accepting = true;
@@ -356,8 +367,8 @@ namespace pdaaal {
         }
 
         void star_extend() {
-            plus_extend();
             question_extend();
+            plus_extend();
         }
 
         void and_extend(NFA&& other) {
-- 
2.43.0


From cf6d4fe55529a81670ec6fd49ea699f0b7939892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:25 +0000
Subject: [PATCH 06/27] fix: assigning to a non-empty NFA kept the old states

---
 src/include/pdaaal/NFA.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 2264698..4c90330 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -291,6 +291,10 @@ namespace pdaaal {
 
         
         NFA& operator=(const NFA& other) {
+            if (this == &other) return *this;
+            _states.clear();
+            _initial.clear();
+            _accepting.clear();
             std::unordered_map<state_t*, state_t*> indir;
             for(auto& s : other._states) {
                 _states.emplace_back(std::make_unique<state_t>(*s));
-- 
2.43.0


From a2e2b7703d857cec2c2a8ff67ca5701037338c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:25 +0000
Subject: [PATCH 07/27] fix: intersect_edge_labels accumulated the labels of
 earlier edges unsorted

---
 src/include/pdaaal/NFA.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 4c90330..dc2917f 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -270,6 +270,7 @@ namespace pdaaal {
                     result.reserve(labels.size());
                     temp_union.reserve(labels.size());
                     temp.reserve(labels.size());
+                    temp.clear();
                     if (e._negated) {
                         std::set_difference(labels.begin(), labels.end(), e._symbols.begin(), e._symbols.end(), std::back_inserter(temp));
                     } else {
-- 
2.43.0


From 27a48327e2efa7607dc97ff0d981922b05bf7181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:24 +0000
Subject: [PATCH 08/27] fix: a regular expression with a missing alternative
 crashed the parser instead of being rejected

---
 src/include/pdaaal/parsing/NfaParserGrammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/parsing/NfaParserGrammar.h b/src/include/pdaaal/parsing/NfaParserGrammar.h
index bdec27f..b606df8 100644
--- a/src/include/pdaaal/parsing/NfaParserGrammar.h
+++ b/src/include/pdaaal/parsing/NfaParserGrammar.h
@@ -55,7 +55,7 @@ namespace pdaaal {
     template<typename L, typename C>
     struct seq_expr : pegtl::seq<unary_expr<L, C>, pegtl::star<pegtl::seq<pegtl::star<ignored<C>>,unary_expr<L, C>>>> {};
     template<typename L, typename C>
-    struct nfa_expr : pegtl::list<seq_expr<L, C>, or_symbol, ignored < C>> {};
+    struct nfa_expr : pegtl::list_must<seq_expr<L, C>, or_symbol, ignored < C>> {};
     template<typename L, typename C>
     struct nfa_expr_or_empty : pegtl::opt<nfa_expr<L,C>> {};
 
-- 
2.43.0


From e1b32862ec6dac53c11516537ba6da3290ff006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:13 +0000
Subject: [PATCH 09/27] fix: backward saturation skipped push rules of negative
 weight on label 0

---
 src/include/pdaaal/internal/PdaSaturation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 3c1c1a9..693aa3a 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -139,7 +139,7 @@ namespace pdaaal::internal {
             if(_popped[state]) return;
             for (auto pre_state : _pda_states[state]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                auto lb = rules.lower_bound(pda_rule_t<W>{state, op_t{}});
                 while (lb != rules.end() && lb->first._to == state) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -266,7 +266,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = rules.lower_bound(pda_rule_t<W>{t._from, op_t{}});
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -800,7 +800,7 @@ namespace pdaaal::internal {
                 _added_pop[state] = true;
                 for (auto pre_state : _pda_states[state]._pre_states) {
                     const auto &rules = _pda_states[pre_state]._rules;
-                    auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                    auto lb = rules.lower_bound(pda_rule_t<W>{state, op_t{}});
                     while (lb != rules.end() && lb->first._to == state) {
                         const auto& [rule, labels] = *lb;
                         size_t rule_id = lb - rules.begin();
@@ -852,7 +852,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return true; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto &rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = rules.lower_bound(pda_rule_t<W>{t._from, op_t{}});
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto &[rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
-- 
2.43.0


From 1268173370535e12d41056fabf8291e4564af5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 10/27] fix: trace_t equality did not compare the labels

---
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 1e765f1..41aef34 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -91,7 +91,7 @@ namespace pdaaal::internal {
                    _label == std::numeric_limits<uint32_t>::max();
         }
         friend constexpr bool operator==(const trace_t& l, const trace_t& r) {
-            return l._state == r._state && l._rule_id == r._rule_id && l._label && r._label;
+            return l._state == r._state && l._rule_id == r._rule_id && l._label == r._label;
         }
         friend constexpr bool operator!=(const trace_t& l, const trace_t& r) {
             return !(l == r);
-- 
2.43.0


From 2141394051124b350cade310ff5f6ebb6a0cbc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:23 +0000
Subject: [PATCH 11/27] fix: shortest-trace backward saturation lost edges and
 read out of bounds

The edge weights were only looked up when early termination was enabled, _popped was
indexed with automaton states, pop edges added during initialization were taken for
original edges, and an accepting system state without edges had no path weight.
---
 src/include/pdaaal/internal/PdaSaturation.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 693aa3a..34f2509 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -176,6 +176,12 @@ namespace pdaaal::internal {
                         } else throw std::logic_error("Shortest traces for void-weights is not supported.");
                     }
                 }
+                if constexpr (W::is_weight && SHORTEST) {
+                    if(from->_accepting) _minpath[from->_id] = solver_weight::zero();
+                }
+            }
+            // We need to add_pop after going through the original automaton.
+            for (const auto& from : _automaton.states()) {
                 if(from->_accepting) add_pop(from->_id);
             }
         }
@@ -194,6 +200,7 @@ namespace pdaaal::internal {
                     _workset.emplace(from, label, to, std::move(res), trace);
                 } else {
                     if(solver_weight::less(weight, it->second.second)) {
+                        if(solver_weight::less(res, _minpath[from])) _minpath[from] = res;
                         it->second.second = std::move(weight);
                         _workset.emplace(from, label, to, std::move(res), trace);
                     }
@@ -222,7 +229,7 @@ namespace pdaaal::internal {
 
         weight_t get_pautomata_edge_weight(auto from, auto label, auto to)
         {
-            if constexpr (ET && W::is_weight)
+            if constexpr (SHORTEST && W::is_weight)
                 return  _automaton.get_edge(from, label, to)->second;
             return weight_t{};
         }
@@ -239,8 +246,6 @@ namespace pdaaal::internal {
 
             if constexpr (SHORTEST && W::is_weight) {
                 assert(t._weight != solver_weight::max());
-                if(!_popped[t._from])
-                    _minpath[t._from] = t._weight;
                 if(solver_weight::less(solver_weight::add(w, _minpath[t._to]), t._weight))
                     return;
                 if constexpr (ET) {
-- 
2.43.0


From dbf75cb64a8753d0a001bc6a2e212cfdba2a8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:23 +0000
Subject: [PATCH 12/27] fix: shortest-trace backward saturation kept the trace
 of a heavier derivation

---
 src/include/pdaaal/internal/PdaSaturation.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 34f2509..340795c 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -201,6 +201,7 @@ namespace pdaaal::internal {
                 } else {
                     if(solver_weight::less(weight, it->second.second)) {
                         if(solver_weight::less(res, _minpath[from])) _minpath[from] = res;
+                        it->second.first = trace; // The trace must match the weight.
                         it->second.second = std::move(weight);
                         _workset.emplace(from, label, to, std::move(res), trace);
                     }
-- 
2.43.0


From 50fa155114818ab79dbf32880d8e67230e510fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:23 +0000
Subject: [PATCH 13/27] fix: forward traces reported the weight of another push
 rule

---
 src/include/pdaaal/internal/PdaSaturation.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 340795c..bafd8d9 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1155,7 +1155,9 @@ namespace pdaaal::internal {
                             trace_label = get_trace_label<avoid_loop>(from2, label2, to2);
                             assert(!trace_label.is_null());
                             _path.emplace(trace_label._state, trace_label._label);
-                            break;
+                            assert(from == rule._to);
+                            // Push rules to the same state and label share the first edge, so the second edge tells which one was used.
+                            return rule_t(trace_label._state, trace_label._label, _automaton.pda().states()[trace_label._state]._rules[trace_label._rule_id].first);
                     }
                     assert(from == rule._to);
                     return rule_t(trace_label._state, trace_label._label, rule);
-- 
2.43.0


From b73db7f29d1cf44ba04995be80c70076492af921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:23 +0000
Subject: [PATCH 14/27] fix: fixed-point computations stopped in the middle of
 the last round

---
 src/include/pdaaal/utils/workset.h | 188 ++++++++++++++---------------
 1 file changed, 94 insertions(+), 94 deletions(-)

diff --git a/src/include/pdaaal/utils/workset.h b/src/include/pdaaal/utils/workset.h
index e694f3c..a2b6a13 100644
--- a/src/include/pdaaal/utils/workset.h
+++ b/src/include/pdaaal/utils/workset.h
@@ -1,94 +1,94 @@
-/* 
- * This program is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- * 
- * This program is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- * 
- * You should have received a copy of the GNU General Public License
- * along with this program.  If not, see <http://www.gnu.org/licenses/>.
- */
-
-/*
- *  Copyright Morten K. Schou
- */
-
-/* 
- * File:   workset.h
- * Author: Morten K. Schou <morten@h-schou.dk>
- *
- * Created on 23-08-2021.
- */
-
-#ifndef PDAAAL_WORKSET_H
-#define PDAAAL_WORKSET_H
-
-#include <cassert>
-#include <stack>
-#include <queue>
-
-namespace pdaaal {
-
-    template<typename Derived, typename Elem, bool enforce_set = true>
-    class fixed_point_workset {
-        bool _done = false;
-        size_t _round_limit;
-        size_t _rounds = 0;
-        std::vector<Elem> _workset;
-        std::vector<Elem> _next_workset;
-    public:
-        explicit fixed_point_workset(size_t round_limit = 0) : _round_limit(round_limit) { };
-
-        template<bool change_is_bottom = false>
-        bool step() {
-            if (_workset.empty()) {
-                ++_rounds;
-                if (_next_workset.empty()) {
-                    _done = true;
-                    return false;
-                }
-                if constexpr (enforce_set) { // Remove duplicates, if this is not ensured somewhere else.
-                    std::sort(_next_workset.begin(), _next_workset.end());
-                    _next_workset.erase(std::unique(_next_workset.begin(), _next_workset.end()), _next_workset.end());
-                }
-                std::swap(_workset, _next_workset);
-            }
-
-            auto current = _workset.back();
-            _workset.pop_back();
-
-            if (!static_cast<Derived*>(this)->template step_with<change_is_bottom>(std::move(current))) {
-                _done = true;
-                return false;
-            }
-            return true;
-        }
-        void finalize() {
-            _rounds = 0; // Reset _round count and run again, this time changes gives -inf weight.
-            while (!done()) {
-                step<true>();
-            }
-        }
-        [[nodiscard]] bool done() const {
-            return _done || _rounds == _round_limit;
-        }
-        void run() {
-            while(!done()) {
-                step();
-            }
-            finalize();
-        }
-    protected:
-        template<typename... Args>
-        auto emplace(Args&&... args){
-            return _next_workset.emplace_back(std::forward<Args>(args)...);
-        }
-        void set_round_limit(size_t new_round_limit) { _round_limit = new_round_limit; }
-    };
-}
-
-#endif //PDAAAL_WORKSET_H
+/* 
+ * This program is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ * 
+ * This program is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ * 
+ * You should have received a copy of the GNU General Public License
+ * along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+/*
+ *  Copyright Morten K. Schou
+ */
+
+/* 
+ * File:   workset.h
+ * Author: Morten K. Schou <morten@h-schou.dk>
+ *
+ * Created on 23-08-2021.
+ */
+
+#ifndef PDAAAL_WORKSET_H
+#define PDAAAL_WORKSET_H
+
+#include <cassert>
+#include <stack>
+#include <queue>
+
+namespace pdaaal {
+
+    template<typename Derived, typename Elem, bool enforce_set = true>
+    class fixed_point_workset {
+        bool _done = false;
+        size_t _round_limit;
+        size_t _rounds = 0;
+        std::vector<Elem> _workset;
+        std::vector<Elem> _next_workset;
+    public:
+        explicit fixed_point_workset(size_t round_limit = 0) : _round_limit(round_limit) { };
+
+        template<bool change_is_bottom = false>
+        bool step() {
+            if (_workset.empty()) {
+                ++_rounds;
+                if (_next_workset.empty()) {
+                    _done = true;
+                    return false;
+                }
+                if constexpr (enforce_set) { // Remove duplicates, if this is not ensured somewhere else.
+                    std::sort(_next_workset.begin(), _next_workset.end());
+                    _next_workset.erase(std::unique(_next_workset.begin(), _next_workset.end()), _next_workset.end());
+                }
+                std::swap(_workset, _next_workset);
+            }
+
+            auto current = _workset.back();
+            _workset.pop_back();
+
+            if (!static_cast<Derived*>(this)->template step_with<change_is_bottom>(std::move(current))) {
+                _done = true;
+                return false;
+            }
+            return true;
+        }
+        void finalize() {
+            _rounds = 0; // Reset _round count and run again, this time changes gives -inf weight.
+            while (!done()) {
+                step<true>();
+            }
+        }
+        [[nodiscard]] bool done() const {
+            return _done || _rounds > _round_limit;
+        }
+        void run() {
+            while(!done()) {
+                step();
+            }
+            finalize();
+        }
+    protected:
+        template<typename... Args>
+        auto emplace(Args&&... args){
+            return _next_workset.emplace_back(std::forward<Args>(args)...);
+        }
+        void set_round_limit(size_t new_round_limit) { _round_limit = new_round_limit; }
+    };
+}
+
+#endif //PDAAAL_WORKSET_H
-- 
2.43.0


From a6e26050cc11782f921925db29085cd0b2a679eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:48 +0000
Subject: [PATCH 15/27] fix: reduction cleared a target state other than state
 0

---
 src/include/pdaaal/internal/Reducer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/Reducer.h b/src/include/pdaaal/internal/Reducer.h
index 662fcfb..95b1116 100644
--- a/src/include/pdaaal/internal/Reducer.h
+++ b/src/include/pdaaal/internal/Reducer.h
@@ -137,7 +137,7 @@ namespace pdaaal::internal {
             }
             // DO PRUNING!
             for (size_t i = 1; i < pda.states().size(); ++i) {
-                if(i == initial_id) continue;
+                if(i == initial_id || i == terminal_id) continue;
                 auto& app = approximation[i];
                 auto& state = pda.states_mutable()[i];
                 size_t br = 0;
-- 
2.43.0


From f9045ea52cb9e1ff5cd69070c61818e653b6a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 16/27] fix: fut_set of single keys: insert_or_assign did not
 compile

---
 src/include/pdaaal/utils/fut_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/fut_set.h b/src/include/pdaaal/utils/fut_set.h
index 37e2782..5000991 100644
--- a/src/include/pdaaal/utils/fut_set.h
+++ b/src/include/pdaaal/utils/fut_set.h
@@ -150,7 +150,7 @@ namespace pdaaal::fut {
 
             template <typename... Args>
             auto insert_or_assign(Args &&... args) { // In set_containers insert_or_assign is just emplace. Provide it here, to have consistent interface.
-                return emplace(std::forward<Args>(args)...);
+                return this->emplace(std::forward<Args>(args)...);
             }
         };
 
-- 
2.43.0


From 3656957266a53d35b047cea55ee478d46e2fbc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:28 +0000
Subject: [PATCH 17/27] fix: shortest accepting path search must only follow
 edges that read the stack

Following an epsilon edge dropped the state before it from the returned path, so
that the path for a configuration of a post*-saturated automaton could start in
an intermediate state, and the trace reconstructed from it was not a run. A
saturated automaton has a direct edge of the same weight, and the other
acceptance queries do not follow epsilon edges either.
---
 src/include/pdaaal/internal/PAutomaton.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 41aef34..d219c9c 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -604,10 +604,6 @@ namespace pdaaal::internal {
                                 search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, label->second), to, current._stack_index + 1, pointer);
                             }
                         }
-                        auto eps_label = labels.get(epsilon);
-                        if (eps_label != nullptr) {
-                            search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, eps_label->second), to, current._stack_index, pointer->_back_pointer);
-                        }
                     }
                 }
                 return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
-- 
2.43.0


From 4ec59830efc786a6277524c534a6a18b6236d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:23 +0000
Subject: [PATCH 18/27] fix: saturations must own the early-termination
 function, not refer to a dead temporary

---
 src/include/pdaaal/internal/PdaSaturation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index bafd8d9..be41f25 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -113,7 +113,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 42)
 
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_automaton_states;
@@ -361,7 +361,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 48)
 
         p_automaton_t& _automaton;
-        const early_termination_fn<W>& _early_termination;
+        const early_termination_fn<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
@@ -531,7 +531,7 @@ namespace pdaaal::internal {
 
     private:
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
-- 
2.43.0


From 6835aad7e05e673b0b5f833d3aed848e87414a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:23 +0000
Subject: [PATCH 19/27] fix: epsilon edges are legal on the fixed-point path;
 drop assertions that rule them out

---
 src/include/pdaaal/internal/PAutomatonAlgorithms.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomatonAlgorithms.h b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
index 4fb2725..b13f229 100644
--- a/src/include/pdaaal/internal/PAutomatonAlgorithms.h
+++ b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
@@ -129,7 +129,6 @@ namespace pdaaal::internal {
             AutomatonPath path(state_map(_min_accepting_state));
             size_t state = _min_accepting_state;
             while (_states[state].predecessor != no_state) {
-                assert(_states[state].label != std::numeric_limits<uint32_t>::max());
                 path.emplace(state_map(_states[state].predecessor), _states[state].label);
                 state = _states[state].predecessor;
                 assert(path.edges_size() <= _states.size()); // There should be no loop here - covered elsewhere.
@@ -163,7 +162,6 @@ namespace pdaaal::internal {
                     _current_state = _states[_current_state].predecessor;
                 }
                 if (_current_state == no_state) return std::nullopt; // Done searching.
-                assert(label != std::numeric_limits<uint32_t>::max());
                 assert(_current_state != uninitialized_state);
                 _path.emplace(_state_map(_current_state), label);
                 return label;
-- 
2.43.0


From 5de12e580dcc6d5bb7f0e5cd192ac5a05589711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:23 +0000
Subject: [PATCH 20/27] fix: shortest-trace searches must compute path weights
 in the initial product

---
 src/include/pdaaal/Solver.h              | 4 ++--
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 8ab4ed5..84bb3fe 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -83,7 +83,7 @@ namespace pdaaal {
 
         template <Trace_Type trace_type,typename pda_t, typename automaton_t, typename W>
         static bool dual_search_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            if (instance.template initialize_product<true>()) {
+            if (instance.template initialize_product<true,true,trace_type>()) {
                 return true;
             }
             // we could *probably* avoid some dupplication here if the pre/post* algorithms
@@ -181,7 +181,7 @@ namespace pdaaal {
         template <Trace_Type trace_type, typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            return instance.initialize_product() ||
+            return instance.template initialize_product<false,true,trace_type>() ||
                    pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         if constexpr (is_weighted<W> && trace_type == Trace_Type::Shortest)
                             return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index d219c9c..6cfc5c2 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -175,7 +175,7 @@ namespace pdaaal::internal {
             // TODO: Move this out to sub-class IncrementalPAutomaton
             size_t _back_edge_state = std::numeric_limits<size_t>::max(); // Use the back_edge_state to check for existence of a back_edge.
             uint32_t _back_edge_label = std::numeric_limits<uint32_t>::max()-1; // The null value should not equal epsilon (defensive defaults)
-            weight_or_bool_t _best_weight;
+            weight_or_bool_t _best_weight = [](){ if constexpr (W::is_weight) return W::zero(); else return false; }(); // Initial states have weight 0.
 
             state_t(bool accepting, size_t id) : _accepting(accepting), _id(id) {};
 
-- 
2.43.0


From ebc247b8e00b80761b0a3f2c8d06caec7b2721a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:23 +0000
Subject: [PATCH 21/27] fix: rule trace of a zero-step run read past the empty
 trace and swapped the paths

---
 src/include/pdaaal/Solver.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 84bb3fe..0a41e03 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -319,13 +319,13 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto[paths, weight] = instance.template find_path<trace_type, true>();
-                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths), weight);
+                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton()), weight);
             } else if constexpr(use_dual) {
                 auto paths = instance.template find_path<trace_type, true>();
                 return _get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths);
             } else {
                 auto paths = instance.template find_path<trace_type, true>();
-                return _get_rule_trace_and_paths(instance.automaton(), paths);
+                return _get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton());
             }
         }
 
@@ -399,7 +399,8 @@ namespace pdaaal {
                 std::vector<size_t>, // Path in initial PAutomaton (accepting initial stack)
                 std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
                 > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type>& automaton, // The PAutomaton that has been build up (either A_pre* or A_post*)
-                                            const AutomatonPath<true>& paths) {
+                                            const AutomatonPath<true>& paths,
+                                            bool post) { // Whether @automaton is A_post*. (An empty trace does not tell.)
             using rule_t = user_rule_t<W>;
 
             if (paths.is_null()) {
@@ -419,9 +420,10 @@ namespace pdaaal {
             // Get accepting path of initial stack (and the initial stack itself - for post*)
             auto [start_path, start_stack] = tb.path().get_path_and_stack();
 
-            if (tb.post()) { // post* was used
+            if (post) { // post* was used
                 std::reverse(trace.begin(), trace.end());
-                return std::make_tuple(trace[0].from(), std::move(trace),
+                auto initial_state = trace.empty() ? paths.front_state().first : trace[0].from();
+                return std::make_tuple(initial_state, std::move(trace),
                                        std::move(start_stack), std::move(goal_stack),
                                        std::move(start_path), std::move(goal_path));
             } else { // pre* was used
@@ -454,7 +456,8 @@ namespace pdaaal {
             auto [trace2, final_stack, final_path] = _get_trace_stack_path(final_automaton, std::move(final_automaton_path));
             // Concat traces
             trace.insert(trace.end(), trace2.begin(), trace2.end());
-            return std::make_tuple(trace[0].from(), std::move(trace),
+            auto initial_state = trace.empty() ? paths.value().front_state().first : trace[0].from();
+            return std::make_tuple(initial_state, std::move(trace),
                                    std::move(initial_stack), std::move(final_stack),
                                    std::move(initial_path), std::move(final_path));
         }
-- 
2.43.0


From e12603786820fa7787b2069129c677095937d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:41 +0000
Subject: [PATCH 22/27] fix: shortest-trace searches answered no when every
 accepting path is heavier than the last transition

---
 src/include/pdaaal/Solver.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 0a41e03..e6e505c 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -105,8 +105,7 @@ namespace pdaaal {
                         auto w = internal::solver_weight<W,trace_type>::add(latest_poststar_queue_weight, latest_prestar_queue_weight);*/
                         return instance.template add_initial_edge<trace_type>(from, label, to, trace, /*std::move(w)*/ et_param);
                     }
-                );
-                return false;
+                ) || instance.product_automaton().has_accepting_state(); // Paths heavier than the last transition do not terminate early.
             }
             else
             {
@@ -188,7 +187,7 @@ namespace pdaaal {
                         else
                             return instance.add_edge_product(from, label, to, trace);
 
-                   });
+                   }) || instance.product_automaton().has_accepting_state(); // Paths heavier than the last transition do not terminate early.
             }
 
         template <Trace_Type trace_type, typename W, bool ET=false>
@@ -221,7 +220,7 @@ namespace pdaaal {
                     [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
                     });
-                return saturation.run();
+                return saturation.run() || instance.product_automaton().has_accepting_state(); // Paths heavier than the last transition do not terminate early.
             } else if constexpr (trace_type == Trace_Type::Any ||
                                  trace_type == Trace_Type::None) { // TODO: Implement faster no-trace option.
                 internal::PostStarSaturation<W,true> saturation(instance.automaton(),
-- 
2.43.0


From 9b14a0e26e41e7586a8e21e22b4d430060a5b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:14 +0000
Subject: [PATCH 23/27] fix: forward fixed-point saturation did not propagate
 an unbounded weight through pop moves

---
 src/include/pdaaal/internal/PdaSaturation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index be41f25..1ed8279 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1046,9 +1046,10 @@ namespace pdaaal::internal {
                             update_edge<change_is_bottom>(rule._to, rule._op_label, q_new, W::zero(), trace);
                             if (update_edge<change_is_bottom>(q_new, t._label, t._to, wb, trace)) {
                                 assert(q_new >= _n_Q);
+                                const auto wq = _automaton.get_edge(q_new, t._label, t._to)->second; // This is bottom (and not wb), if change_is_bottom.
                                 for (auto f: _rel2[q_new - _n_Q]) {
                                     assert(_automaton.get_edge(f, epsilon, q_new) != nullptr);
-                                    update_edge<change_is_bottom>(f, t._label, t._to, solverW::add(wb, _automaton.get_edge(f, epsilon, q_new)->second), p_automaton_t::new_post_trace(q_new));
+                                    update_edge<change_is_bottom>(f, t._label, t._to, solverW::add(wq, _automaton.get_edge(f, epsilon, q_new)->second), p_automaton_t::new_post_trace(q_new));
                                 }
                             }
                             break;
-- 
2.43.0


From 4c50b3702fbc271af1e2a7c81dbebd68866e1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:51 +0000
Subject: [PATCH 24/27] fix: P-automaton constructor skipped states after a
 repeated initial state

---
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 6cfc5c2..5adf5fc 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -211,7 +211,7 @@ namespace pdaaal::internal {
             for (size_t i = 0; i < size; ++i) {
                 if (j < special_initial_states.size() && special_initial_states[j] == i) {
                     add_state(true, special_accepting);
-                    ++j;
+                    do { ++j; } while (j < special_initial_states.size() && special_initial_states[j] == i); // The list may contain repetitions.
                 } else {
                     add_state(true, false);
                 }
-- 
2.43.0


From 8838d2923bcdd406da500330131b5ef1bcbd294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:17 +0000
Subject: [PATCH 25/27] fix: P-automaton of an NFA over labels got wrong edges
 for negated sets when label ids are not in label order

---
 src/include/pdaaal/PAutomaton.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index f87dc8a..e9a89ca 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -30,6 +30,7 @@
 #include "PDA.h"
 #include "pdaaal/internal/PAutomaton.h"
 #include <nlohmann/json.hpp>
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 
@@ -52,7 +53,11 @@ namespace pdaaal {
         // Construct a PAutomaton that accepts a configuration <p,w> iff states contains p and nfa accepts w.
         PAutomaton(const pda_t& pda, const NFA<label_t>& nfa, const std::vector<size_t>& states)
         : parent_t(static_cast<const internal_pda_t&>(pda), states, nfa.empty_accept()), _pda(pda) {
-            this->template construct<label_t>(nfa, states, [&pda](const auto& e){ return pda.encode_pre(e._symbols); });
+            this->template construct<label_t>(nfa, states, [&pda](const auto& e){
+                auto labels = pda.encode_pre(e._symbols);
+                std::sort(labels.begin(), labels.end()); // The order of ids may differ from the order of labels.
+                return labels;
+            });
         }
         // Same, but where the NFA contains the symbols mapped to ids already.
         PAutomaton(const pda_t& pda, const NFA<uint32_t>& nfa, const std::vector<size_t>& states)
-- 
2.43.0


From 395b47563b016e5cdcef2f9e5cb05776ec4de3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:49 +0000
Subject: [PATCH 26/27] fix: rules of a typed PDA got unsorted label sets when
 the given labels are not in id order

---
 src/include/pdaaal/PDA.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/PDA.h b/src/include/pdaaal/PDA.h
index bcf8ed5..21596a9 100644
--- a/src/include/pdaaal/PDA.h
+++ b/src/include/pdaaal/PDA.h
@@ -32,6 +32,7 @@
 
 #include <nlohmann/json.hpp>
 
+#include <algorithm>
 #include <queue>
 #include <unordered_map>
 #include <cassert>
@@ -250,15 +251,22 @@ namespace pdaaal {
         }
 
     private:
+        // Label sets are sorted by id, whatever the order (and repetitions) of the labels given by the user.
+        std::vector<uint32_t> encode_label_set(const std::vector<label_t>& labels) const {
+            auto ids = encode_pre(labels);
+            std::sort(ids.begin(), ids.end());
+            ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
+            return ids;
+        }
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels) {
-            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_label_set(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels, typename WT::type weight = WT::zero()) {
-            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_label_set(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
-- 
2.43.0


From d7f8efca8a819893edbf9296a44bce98806d5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:53 +0000
Subject: [PATCH 27/27] fix: negated label sets were abstracted to the wrong
 abstract labels

---
 src/include/pdaaal/cegar/AbstractionPDA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/cegar/AbstractionPDA.h b/src/include/pdaaal/cegar/AbstractionPDA.h
index 5b9bd18..87c106b 100644
--- a/src/include/pdaaal/cegar/AbstractionPDA.h
+++ b/src/include/pdaaal/cegar/AbstractionPDA.h
@@ -65,7 +65,7 @@ namespace pdaaal {
                 abstract_labels.erase(std::remove_if(abstract_labels.begin(), abstract_labels.end(), [this, &labels](const auto& abstract_label){
                     auto concrete = _label_abstraction.get_concrete_values(abstract_label);
                     std::sort(concrete.begin(), concrete.end());
-                    return std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
+                    return !std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
                 }), abstract_labels.end());
             }
             return std::vector<uint32_t>(abstract_labels.begin(), abstract_labels.end()); // TODO: This is not optimal. Label type in PDA should be size_t instead of uint32_t. This is a change many places...
-- 
2.43.0

