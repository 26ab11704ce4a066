From be422a8a2ea6e1df8c3798f8cc11851a44389dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 1/6] fix: set_dependency keeps transitions bound to the
 replaced dependencies

set_dependency prepended a second set of dispatch table entries and kept the
ones bound to the old dependencies, which were still tried (guard and action)
whenever the guards of the new entries failed. The unexpected event handlers
were not rebound at all.
---
 include/hsm/details/sm.h | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 0c436ee..e8067f0 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -69,15 +69,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
 
-        if constexpr (has_unexpected_event_handler(rootState)) {
-            fill_unexpected_event_handler_tables(
-                rootState,
-                m_statesMap,
-                m_unexpectedEventHandlerTables,
-                get_unexpected_event_handler(rootState),
-                optionalDependency);
-        }
-
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
         fill_initial_state_table(rootState, m_history);
@@ -169,7 +161,9 @@ template <class RootState, class... OptionalParameters> class sm {
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+        clear_dispatch_table();
         fill_dispatch_table(optionalDependency);
+        fill_unexpected_event_handler_table(optionalDependency);
     }
 
   private:
@@ -361,6 +355,29 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    void clear_dispatch_table()
+    {
+        bh::for_each(collect_event_typeids_recursive(rootState), [this](auto eventTypeid) {
+            for (auto& entries : m_dispatchTables[eventTypeid]) {
+                entries.clear();
+            }
+        });
+    }
+
+    template <class OptionalDependency>
+    void fill_unexpected_event_handler_table(OptionalDependency& optionalDependency)
+    {
+        (void)optionalDependency;
+        if constexpr (has_unexpected_event_handler(rootState)) {
+            fill_unexpected_event_handler_tables(
+                rootState,
+                m_statesMap,
+                m_unexpectedEventHandlerTables,
+                get_unexpected_event_handler(rootState),
+                optionalDependency);
+        }
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
-- 
2.43.0


From 62c94f632fed1984d03b0cbe1b7403990b659adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 2/6] fix: regions activated by entering a sub state are
 uninitialized

Entering a parent state with more regions than the current one raised the
number of active regions without giving the new regions a state, so the next
event indexed the dispatch table with an uninitialized value. set() did not
update the number of active regions at all.
---
 include/hsm/details/sm.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index e8067f0..f2bd64d 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -143,6 +143,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         m_currentCombinedState.at(region)
             = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+        update_current_regions();
     }
 
     auto status() -> std::string
@@ -305,7 +306,15 @@ template <class RootState, class... OptionalParameters> class sm {
     {
         if constexpr (hasParallelRegions(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            const auto& initialStates = m_initial_states[currentParentState()];
+
+            // Regions which become active start in their initial state
+            for (auto region = m_currentRegions; region < initialStates.size(); region++) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                m_currentCombinedState[region] = initialStates[region];
+            }
+
+            m_currentRegions = initialStates.size();
         }
     }
 
-- 
2.43.0


From 6a844f367fddba69c575123b366a53179d86a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 3/6] fix: history is written out of bounds and under the wrong
 parent

The history of a region was recorded under the parent state of region 0, also
when that region had just moved to another parent state with fewer regions,
and restored from a parent state with fewer regions: both index past the end
of a vector. History now has a slot for every region and is recorded under
the parent state the region is leaving.
---
 include/hsm/details/sm.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index f2bd64d..7a45b7c 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -73,6 +73,9 @@ template <class RootState, class... OptionalParameters> class sm {
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
         fill_initial_state_table(rootState, m_history);
+        for (auto& regions : m_history) {
+            regions.resize(maxInitialStates(rootState), regions.empty() ? 0 : regions.front());
+        }
         init_current_state();
         update_current_regions();
     }
@@ -281,7 +284,9 @@ template <class RootState, class... OptionalParameters> class sm {
 
         if constexpr (has_history(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            const auto source = m_currentCombinedState[region];
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+            m_history[calcParentStateIdx(nStates(rootState), source)][region] = source;
 
             if (dispatchTableEntry.history) {
                 auto parent
-- 
2.43.0


From f200bd09d6d55eb01e028d5067b1bd24cae06f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:20 +0000
Subject: [PATCH 4/6] fix: exit action of a state marked as initial is never
 executed

The source of a transition row marked with * is the initial pseudo state,
which has no exit action itself, so leaving the state through such a row
skipped the exit action of the state.
---
 include/hsm/details/has_action.h    |  2 +-
 include/hsm/details/resolve_state.h | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/has_action.h b/include/hsm/details/has_action.h
index eeede7c..3e15a64 100644
--- a/include/hsm/details/has_action.h
+++ b/include/hsm/details/has_action.h
@@ -33,7 +33,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolveExitSource(transition.source())),
         has_pseudo_exit_action(transition));
 };
 }
\ No newline at end of file
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index e46de11..662c154 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -108,6 +108,19 @@ template <class Transition> constexpr auto resolveInitialStateEntryAction(Transi
     }
 }
 
+/**
+ * Returns the state that is left by a transition from the given source to look up its exit
+ * action, which is the marked state itself if the source is an initial pseudo state.
+ */
+template <class Source> constexpr auto resolveExitSource(Source source)
+{
+    if constexpr (is_initial_state(source)) {
+        return get_state(source);
+    } else {
+        return source;
+    }
+}
+
 template <class Transition> constexpr auto resolveExitAction(Transition transition)
 {
     const auto hasPseudoExitAction = has_pseudo_exit_action(transition);
@@ -115,8 +128,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolveExitSource(transition.source()))) {
+        return get_exit_action(resolveExitSource(transition.source()));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
-- 
2.43.0


From 207f4d16d4226d868245e2f17a2962dab06b6b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 5/6] fix: sub states without initial state have no active
 region

---
 include/hsm/details/sm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 7a45b7c..c422038 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -319,7 +319,8 @@ template <class RootState, class... OptionalParameters> class sm {
                 m_currentCombinedState[region] = initialStates[region];
             }
 
-            m_currentRegions = initialStates.size();
+            // A sub state without initial state is entered at one of its states in a single region
+            m_currentRegions = initialStates.empty() ? 1 : initialStates.size();
         }
     }
 
-- 
2.43.0


From 78ea2d2d665d9b7e5ce056783e8028c6182567f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:04 +0000
Subject: [PATCH 6/6] fix: states without outgoing transitions do not defer

---
 include/hsm/details/fill_dispatch_table.h | 29 ++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index c7b3e8f..7718741 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -21,6 +21,8 @@
 #include <boost/hana/if.hpp>
 #include <boost/hana/length.hpp>
 #include <boost/hana/mult.hpp>
+#include <boost/hana/not_equal.hpp>
+#include <boost/hana/or.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/type.hpp>
 
@@ -230,8 +232,18 @@ constexpr auto getDeferingTransitions = [](auto rootState) {
     return bh::filter(transitions, transitionHasDeferedEvents);
 };
 
+constexpr auto getTransitionsToDeferingStates = [](auto rootState) {
+    constexpr auto targetHasDeferedEvents
+        = [](auto transition) { return has_deferred_events(resolveDst(transition)); };
+
+    constexpr auto transitions = flatten_transition_table(rootState);
+    return bh::filter(transitions, targetHasDeferedEvents);
+};
+
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::or_(
+        bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState))),
+        bh::not_equal(bh::size_c<0>, bh::size(getTransitionsToDeferingStates(rootState))));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
@@ -251,6 +263,21 @@ constexpr auto fill_dispatch_table_with_deferred_events(
             dispatchTable[from].front().defer = true;
         });
     });
+
+    // A state without outgoing transitions occurs as target only
+    bh::for_each(getTransitionsToDeferingStates(rootState), [=, &dispatchTables](auto transition) {
+        const auto deferredEvents = get_defer_events(resolveDst(transition));
+        bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
+            const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
+            auto& candidates = dispatchTables[event][getCombinedStateIdx(
+                combinedStateTypeids, resolveDstParent(transition), resolveDst(transition))];
+
+            if (candidates.empty() || !candidates.front().defer) {
+                candidates.push_front({});
+                candidates.front().defer = true;
+            }
+        });
+    });
 }
 
 template <class RootState, class DispatchTables, class StatesMap, class OptionalDependency>
-- 
2.43.0

