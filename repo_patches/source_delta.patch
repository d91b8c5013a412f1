From 788da4d7731e0e79564d96aa9177feaeb78382f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 01/57] fix: change status of a sync transition under lock to
 not lose the wakeup of its waiter

---
 src/HsmImplTypes.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 3406f41..a76e609 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -170,7 +170,13 @@ void PendingEventInfo::unlock(const HsmEventStatus status) {
 
     if (true == isSync()) {
         HSM_TRACE_DEBUG("SYNC object (%p)", transitionStatus.get());
-        *transitionStatus = status;
+
+        {
+            // status must be changed under lock. otherwise notification could be lost if it happens after
+            // waiting thread already checked the status, but didn't start waiting yet
+            UniqueLock lck(*cvLock);
+            *transitionStatus = status;
+        }
 
         if (status != HsmEventStatus::PENDING) {
             syncProcessed->notify();
-- 
2.43.0


From e5ba9559374567a489349ce3906c67f78bddf75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 02/57] fix: clearing the events queue must not drop entry
 point and history steps of the ongoing transition

---
 src/HsmImpl.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b00c921..53f5cef 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1543,14 +1543,15 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
 void HierarchicalStateMachine::Impl::clearPendingEvents() {
     HSM_TRACE_CALL_DEBUG_ARGS("clearPendingEvents: mPendingEvents.size()=%ld", mPendingEvents.size());
 
-    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()); ++it) {
-        // since ongoing transitions can't be canceled we need to treat entry point transitions as atomic
+    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end());) {
+        // since ongoing transitions can't be canceled we need to treat entry point and history transitions as atomic
         if (TransitionBehavior::REGULAR == it->transitionType) {
             it->releaseLock();
+            it = mPendingEvents.erase(it);
+        } else {
+            ++it;
         }
     }
-
-    mPendingEvents.clear();
 }
 
 bool HierarchicalStateMachine::Impl::hasSubstates(const StateID_t parent) const {
-- 
2.43.0


From 4b441223f7248a57dd2d498f436ace313ea30640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 03/57] fix: isTransitionPossible() reused transitions of
 previous pending events and called conditions with locked queue

---
 src/HsmImpl.cpp | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 53f5cef..347c9a1 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -945,32 +945,27 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
     StateID_t currentState = fromState;
     std::list<TransitionInfo> possibleTransitions;
-    EventID_t nextEvent = INVALID_HSM_EVENT_ID;
+    std::list<EventID_t> events;
     bool possible = true;
 
     {
-        // NOTE: findTransitionTarget can be a bit heavy. possible optimization to reduce lock time is
-        //       to make a copy of mPendingEvents and work with it
+        // NOTE: work with a copy because condition callbacks are allowed to access HSM
         HSM_SYNC_EVENTS_QUEUE();
 
-        for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()) && (true == possible); ++it) {
-            nextEvent = it->id;
-            possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
-
-            if (true == possible) {
-                if (false == possibleTransitions.empty()) {
-                    currentState = possibleTransitions.front().destinationState;
-                } else {
-                    possible = false;
-                    break;
-                }
-            }
+        for (const auto& pendingEvent : mPendingEvents) {
+            events.emplace_back(pendingEvent.id);
         }
     }
 
-    if (true == possible) {
-        nextEvent = event;
-        possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
+    events.emplace_back(event);
+
+    for (auto it = events.begin(); (it != events.end()) && (true == possible); ++it) {
+        possibleTransitions.clear();
+        possible = findTransitionTarget(currentState, *it, args, true, possibleTransitions);
+
+        if (true == possible) {
+            currentState = possibleTransitions.front().destinationState;
+        }
     }
 
     HSM_TRACE_CALL_RESULT("%d", BOOL2INT(possible));
-- 
2.43.0


From b36ccae185cdf6819030e970448ce826b873c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 04/57] fix: lock events queue when adding default history
 transitions

---
 src/HsmImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 347c9a1..2a320b9 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1444,6 +1444,7 @@ void HierarchicalStateMachine::Impl::transitionToDefaultHistoryState(
                                                                       cbTransition,
                                                                       nullptr);
 
+        HSM_SYNC_EVENTS_QUEUE();
         mPendingEvents.push_front(defHistoryTransitionEvent);
     }
 }
-- 
2.43.0


From 1aa669b9262f7830a23ad77b8b16fa986dff0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 05/57] fix: restore parents before their substates when a
 transition gets blocked

---
 src/HsmImpl.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 2a320b9..a59bf97 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1165,11 +1165,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             }
         }
     } else {
-        for (const StateID_t& curState : exitedStates) {
+        // states were exited starting from the innermost ones. parents must be restored before their substates
+        for (auto it = exitedStates.rbegin(); it != exitedStates.rend(); ++it) {
             // to prevent infinite loops we don't allow state to cancel transition
-            (void)onStateEntering(curState, VariantVector_t());
-            (void)addActiveState(curState);
-            onStateChanged(curState, VariantVector_t());
+            (void)onStateEntering(*it, VariantVector_t());
+            (void)addActiveState(*it);
+            onStateChanged(*it, VariantVector_t());
         }
     }
 
@@ -1308,7 +1309,10 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
             }
             // if one of the states blocked ongoing transition we need to rollback
             else {
-                for (const auto& curState : outExitedStates) {
+                // states were exited starting from the innermost ones. parents must be restored before their substates
+                for (auto it = outExitedStates.rbegin(); it != outExitedStates.rend(); ++it) {
+                    const StateID_t curState = *it;
+
                     mActiveStates.remove(curState);
                     // to prevent infinite loops we don't allow state to cancel transition
                     (void)onStateEntering(curState, VariantVector_t());
-- 
2.43.0


From 7c3e3891727882a036ed690c8a7e20e386fe306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 06/57] fix: don't try to exit states again for other targets
 of a transition which was already blocked

---
 src/HsmImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index a59bf97..83e6d0d 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1319,6 +1319,9 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
                     mActiveStates.emplace_back(curState);
                     onStateChanged(curState, VariantVector_t());
                 }
+
+                // whole transition is canceled, including other parallel targets
+                break;
             }
         }
     }
-- 
2.43.0


From c353d741edd74658f01657fc92c5407053457841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 07/57] fix: history transitions were executed for every active
 state, deactivating unrelated parallel states

---
 src/HsmImpl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 83e6d0d..4683f45 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1044,12 +1044,16 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
     HSM_TRACE_CALL_DEBUG_ARGS("event=<%s>, transitionType=%d", getEventName(event.id).c_str(), SC2INT(event.transitionType));
     HsmEventStatus res = HsmEventStatus::DONE_FAILED;
     auto activeStatesSnapshot = mActiveStates;
+    // forced transitions don't depend on active states and must be executed only once
+    const bool isForced = (TransitionBehavior::FORCED == event.transitionType);
+    const std::list<StateID_t> fromStates =
+        ((true == isForced) ? std::list<StateID_t>(1U, event.forcedTransitionsInfo->front().fromState) : activeStatesSnapshot);
     std::list<StateID_t> acceptedStates;  // list of states that accepted transitions
 
-    for (auto it = activeStatesSnapshot.rbegin(); it != activeStatesSnapshot.rend(); ++it) {
+    for (auto it = fromStates.rbegin(); it != fromStates.rend(); ++it) {
         // in case of parallel transitions some states might become inactive after handleSingleTransition()
         // example: [*B, *C] -> D
-        if (true == isStateActive(*it)) {
+        if ((true == isForced) || (true == isStateActive(*it))) {
             // we don't need to process transitions for active states if their child already processed it
             bool childStateProcessed = false;
 
-- 
2.43.0


From 3fea2b187d2692eab5e5dd23ee3a0dda32db1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 08/57] fix: entering several parents with one event reported a
 failed transition for the redundant entry steps

---
 src/HsmImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 4683f45..b29036d 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1157,7 +1157,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
 
                     {
                         HSM_SYNC_EVENTS_QUEUE();
-                        mPendingEvents.push_front(entryPointTransitionEvent);
+
+                        // one entry transition is enough for all states which were entered by the same event
+                        if ((true == mPendingEvents.empty()) ||
+                            (TransitionBehavior::ENTRYPOINT != mPendingEvents.front().transitionType)) {
+                            mPendingEvents.push_front(entryPointTransitionEvent);
+                        }
                     }
                     res = HsmEventStatus::PENDING;
                 } else {
-- 
2.43.0


From 026ac6157cd062cd94823bdd9762702d8ffb0011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 09/57] fix: restore parallel substates of a deep history with
 parents first and without their entry points

---
 src/HsmImpl.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b29036d..fdf4a2f 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1364,36 +1364,29 @@ bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEvent
 void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates,
                                                                       const PendingEventInfo& event,
                                                                       const StateID_t destinationState) {
-    StateID_t prevChildState = INVALID_HSM_STATE_ID;
     PendingEventInfo historyTransitionEvent = event;
 
     historyTransitionEvent.transitionType = TransitionBehavior::FORCED;
-    historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
 
     {
         HSM_SYNC_EVENTS_QUEUE();
 
+        // NOTE: states are stored starting from the innermost ones, so parents will be entered before their substates
         for (const StateID_t prevState : previousActiveStates) {
-            if ((INVALID_HSM_STATE_ID != prevChildState) && (true == isSubstateOf(prevState, prevChildState))) {
-                if (false == historyTransitionEvent.forcedTransitionsInfo->empty()) {
-                    mPendingEvents.push_front(historyTransitionEvent);
-                }
-
-                historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
-                historyTransitionEvent.ignoreEntryPoints = true;
-            } else {
-                historyTransitionEvent.ignoreEntryPoints = false;
-            }
-
-            prevChildState = prevState;
+            // entry points must be used only if none of the substates is going to be restored
+            historyTransitionEvent.ignoreEntryPoints =
+                std::any_of(previousActiveStates.begin(), previousActiveStates.end(), [this, prevState](const StateID_t state) {
+                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                    return isSubstateOf(prevState, state);
+                });
+            historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
             historyTransitionEvent.forcedTransitionsInfo->emplace_back(destinationState,
                                                                        prevState,
                                                                        TransitionType::EXTERNAL_TRANSITION,
                                                                        nullptr,
                                                                        nullptr);
+            mPendingEvents.push_front(historyTransitionEvent);
         }
-
-        mPendingEvents.push_front(historyTransitionEvent);
     }
 
     previousActiveStates.clear();
-- 
2.43.0


From b5dbfcdb9b97efc2484419b32df04adf62125b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 10/57] fix: allow registering several entry points for the
 same substate when structure validation is enabled

---
 src/HsmImpl.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index fdf4a2f..b038d8c 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -253,7 +253,8 @@ bool HierarchicalStateMachine::Impl::registerSubstate(const StateID_t parent,
         StateID_t curState = parent;
         StateID_t prevState = INVALID_HSM_STATE_ID;
 
-        if (false == hasParentState(substate, prevState)) {
+        // NOTE: same substate can have multiple entry points (with different conditions)
+        if ((false == hasParentState(substate, prevState)) || ((true == isEntryPoint) && (parent == prevState))) {
             registrationAllowed = true;
 
             while (true == hasParentState(curState, prevState)) {
@@ -292,7 +293,11 @@ bool HierarchicalStateMachine::Impl::registerSubstate(const StateID_t parent,
             (void)mSubstateEntryPoints.emplace(parent, entryInfo);
         }
 
-        (void)mSubstates.emplace(parent, substate);
+        StateID_t curParent = INVALID_HSM_STATE_ID;
+
+        if ((false == getParentState(substate, curParent)) || (parent != curParent)) {
+            (void)mSubstates.emplace(parent, substate);
+        }
 
 #ifdef HSM_ENABLE_SAFE_STRUCTURE
         if (true == isTopState(substate)) {
-- 
2.43.0


From 36c1b72415abedfe8e5ac2041ad38835803cff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:15 +0000
Subject: [PATCH 11/57] fix: finish sync transitions only after all their entry
 point and history steps

---
 src/HsmImpl.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b038d8c..4f6c6a9 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -646,6 +646,27 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
 
                 HsmEventStatus transitiontStatus = doTransition(pendingEvent);
 
+                if (true == pendingEvent.isSync()) {
+                    bool hasPendingSteps = false;
+
+                    {
+                        HSM_SYNC_EVENTS_QUEUE();
+                        hasPendingSteps = std::any_of(mPendingEvents.begin(), mPendingEvents.end(), [&](const PendingEventInfo& item) {
+                            // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                            return (item.transitionStatus == pendingEvent.transitionStatus);
+                        });
+                    }
+
+                    // sync transition is finished only after all its entry point and history steps are done
+                    if (true == hasPendingSteps) {
+                        transitiontStatus = HsmEventStatus::PENDING;
+                    } else if (HsmEventStatus::PENDING == transitiontStatus) {
+                        transitiontStatus = HsmEventStatus::DONE_OK;
+                    } else {
+                        // NOTE: do nothing
+                    }
+                }
+
                 HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
                 pendingEvent.unlock(transitiontStatus);
             }
-- 
2.43.0


From 743eda95255b7e1a6e357b460853007df7a56627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 12/57] fix: release HSM only after its pending sync
 transitions are finished

---
 src/HsmImpl.cpp | 58 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 4f6c6a9..f2b4745 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -178,11 +178,23 @@ void HierarchicalStateMachine::Impl::release() {
         dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
         dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
         dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
-        mDispatcher.reset();
-        mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
 
         // wait for current dispatching to finish if it's ongoing
         mIsDispatching.wait(true);
+
+        mDispatcher.reset();
+        mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
+
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+
+            // pending events will not be processed anymore. nobody should wait for them
+            for (auto& pendingEvent : mPendingEvents) {
+                pendingEvent.releaseLock();
+            }
+
+            mPendingEvents.clear();
+        }
     }
 }
 
@@ -418,6 +430,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
                               args.size());
 
     bool status = false;
+    bool isReleased = false;
     auto dispatcherPtr = mDispatcher.lock();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
@@ -434,23 +447,31 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
         {
             HSM_SYNC_EVENTS_QUEUE();
 
-            if (true == clearQueue) {
-                clearPendingEvents();
-            }
+            // HSM could be released in the meantime
+            if (true == mStopDispatching) {
+                eventInfo.releaseLock();
+                isReleased = true;
+            } else {
+                if (true == clearQueue) {
+                    clearPendingEvents();
+                }
 
-            mPendingEvents.emplace_back(eventInfo);
+                mPendingEvents.emplace_back(eventInfo);
+            }
         }
 
-        HSM_TRACE_DEBUG("transitionEx: emit");
-        dispatcherPtr->emitEvent(mEventsHandlerId);
+        if (false == isReleased) {
+            HSM_TRACE_DEBUG("transitionEx: emit");
+            dispatcherPtr->emitEvent(mEventsHandlerId);
 
-        if (true == sync) {
-            HSM_TRACE_DEBUG("transitionEx: wait...");
-            eventInfo.wait(timeoutMs);
-            status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
-        } else {
-            // always return true for async transitions
-            status = true;
+            if (true == sync) {
+                HSM_TRACE_DEBUG("transitionEx: wait...");
+                eventInfo.wait(timeoutMs);
+                status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
+            } else {
+                // always return true for async transitions
+                status = true;
+            }
         }
     } else {
         HSM_TRACE_ERROR("HSM is not initialized");
@@ -658,7 +679,12 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
                     }
 
                     // sync transition is finished only after all its entry point and history steps are done
-                    if (true == hasPendingSteps) {
+                    if (true == mStopDispatching) {
+                        // HSM was released from a callback. remaining steps will never be executed
+                        if ((true == hasPendingSteps) || (HsmEventStatus::PENDING == transitiontStatus)) {
+                            transitiontStatus = HsmEventStatus::CANCELED;
+                        }
+                    } else if (true == hasPendingSteps) {
                         transitiontStatus = HsmEventStatus::PENDING;
                     } else if (HsmEventStatus::PENDING == transitiontStatus) {
                         transitiontStatus = HsmEventStatus::DONE_OK;
-- 
2.43.0


From 2d77c23b92bf8dbc83e43f007ee390fb4f978e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 13/57] fix: releasing HSM from its own callback blocked the
 dispatching thread forever

---
 include/hsmcpp/os/stl/AtomicFlag.hpp |  2 ++
 src/os/stl/AtomicFlag.cpp            | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/hsmcpp/os/stl/AtomicFlag.hpp b/include/hsmcpp/os/stl/AtomicFlag.hpp
index 1f447f8..35ca331 100644
--- a/include/hsmcpp/os/stl/AtomicFlag.hpp
+++ b/include/hsmcpp/os/stl/AtomicFlag.hpp
@@ -4,6 +4,7 @@
 #define HSMCPP_OS_STL_ATOMICFLAG_HPP
 
 #include <atomic>
+#include <thread>
 
 #include "hsmcpp/os/UniqueLock.hpp"
 #include "hsmcpp/os/ConditionVariable.hpp"
@@ -30,6 +31,7 @@ private:
     Mutex mSync;
     ConditionVariable mWaitCond;
     std::atomic_bool mValue;
+    std::atomic<std::thread::id> mOwner;
 };
 
 }  // namespace hsmcpp
diff --git a/src/os/stl/AtomicFlag.cpp b/src/os/stl/AtomicFlag.cpp
index 6e1654a..c8452e0 100644
--- a/src/os/stl/AtomicFlag.cpp
+++ b/src/os/stl/AtomicFlag.cpp
@@ -8,13 +8,21 @@
 namespace hsmcpp {
 
 AtomicFlag::AtomicFlag()
-    : mValue(false) {}
+    : mValue(false)
+    , mOwner(std::thread::id()) {}
 
 bool AtomicFlag::test_and_set() noexcept {
-    return mValue.exchange(true);
+    const bool prevValue = mValue.exchange(true);
+
+    if (false == prevValue) {
+        mOwner.store(std::this_thread::get_id());
+    }
+
+    return prevValue;
 }
 
 void AtomicFlag::clear() noexcept {
+    mOwner.store(std::thread::id());
     mValue.store(false);
 }
 
@@ -27,7 +35,8 @@ UniqueLock AtomicFlag::lock() noexcept {
 }
 
 void AtomicFlag::wait(const bool old) noexcept {
-    if (mValue.load() == old) {
+    // thread which set the flag can't wait for itself
+    if ((mValue.load() == old) && (mOwner.load() != std::this_thread::get_id())) {
         UniqueLock lk(mSync);
 
         // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function, not parent function
-- 
2.43.0


From a03a147b8044b291a09334694be32ef53a12145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 14/57] fix: state entered by one of several transitions of the
 same event was silently deactivated

---
 src/HsmImpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index f2b4745..621a007 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1182,7 +1182,13 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
     }
 
     if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
-        if (true == replaceActiveState(fromState, curTransition.destinationState)) {
+        // NOTE: only history states must be replaced. source of a regular transition was already exited and should stay
+        //       active if another transition of the same event (self-transition) entered it again
+        const bool isNewState = ((TransitionBehavior::FORCED == event.transitionType)
+                                     ? replaceActiveState(fromState, curTransition.destinationState)
+                                     : addActiveState(curTransition.destinationState));
+
+        if (true == isNewState) {
             onStateChanged(curTransition.destinationState, event.getArgs());
         }
 
-- 
2.43.0


From 87b4ec90f5c9d11d80491f78c68f21c8c6655dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 15/57] fix: transition into an already active state reported a
 failed entry transition

---
 src/HsmImpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 621a007..e910f03 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1204,7 +1204,9 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             if (false == event.ignoreEntryPoints) {
                 std::list<StateID_t> entryPoints;
 
-                if (true == getEntryPoints(curTransition.destinationState, event.id, event.getArgs(), entryPoints)) {
+                // NOTE: state could be already active together with its substates. there is nothing to enter in this case
+                if ((false == hasActiveChildren(curTransition.destinationState, true)) &&
+                    (true == getEntryPoints(curTransition.destinationState, event.id, event.getArgs(), entryPoints))) {
                     HSM_TRACE_DEBUG("state <%s> has substates with %d entry points (first: <%s>)",
                                     getStateName(curTransition.destinationState).c_str(),
                                     SC2INT(entryPoints.size()),
-- 
2.43.0


From 0d8d851b508b09f23be996f338268f6d0d2f1ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 16/57] fix: failed transition was reported after HSM was
 released by one of its callbacks

---
 src/HsmImpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index e910f03..030f40c 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1152,7 +1152,9 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
         }
     }
 
-    if (mFailedTransitionCallback && ((HsmEventStatus::DONE_FAILED == res) || (HsmEventStatus::CANCELED == res))) {
+    // NOTE: callbacks must not be called anymore if HSM was released in the meantime
+    if (mFailedTransitionCallback && (false == mDispatcher.expired()) &&
+        ((HsmEventStatus::DONE_FAILED == res) || (HsmEventStatus::CANCELED == res))) {
         mFailedTransitionCallback(activeStatesSnapshot, event.id, event.getArgs());
     }
 
-- 
2.43.0


From d99be732deda304cb1973572a833affc5b346ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 17/57] fix: event of a final state interrupted entry point and
 history steps of the ongoing transition

---
 src/HsmImpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 030f40c..8dd085e 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1545,7 +1545,13 @@ bool HierarchicalStateMachine::Impl::processFinalStateTransition(const PendingEv
 
                 {
                     HSM_SYNC_EVENTS_QUEUE();
-                    mPendingEvents.push_front(finalStateEvent);
+                    // NOTE: event must not interrupt entry point and history steps of the ongoing transition
+                    auto itFirstRegularEvent =
+                        std::find_if(mPendingEvents.begin(), mPendingEvents.end(), [](const PendingEventInfo& pending) {
+                            return (TransitionBehavior::REGULAR == pending.transitionType);
+                        });
+
+                    mPendingEvents.insert(itFirstRegularEvent, finalStateEvent);
                 }
             }
         }
-- 
2.43.0


From bc5a5b9cae116ca672d21a796c8992349eda743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 18/57] fix: entry point steps of states which were left in the
 meantime were reported as failed transitions

---
 src/HsmImpl.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 8dd085e..7bfc8ce 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1101,6 +1101,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
     const std::list<StateID_t> fromStates =
         ((true == isForced) ? std::list<StateID_t>(1U, event.forcedTransitionsInfo->front().fromState) : activeStatesSnapshot);
     std::list<StateID_t> acceptedStates;  // list of states that accepted transitions
+    bool isBlocked = false;
 
     for (auto it = fromStates.rbegin(); it != fromStates.rend(); ++it) {
         // in case of parallel transitions some states might become inactive after handleSingleTransition()
@@ -1137,6 +1138,8 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
                         acceptedStates.emplace_back(*it);
                         break;
                     case HsmEventStatus::CANCELED:
+                        isBlocked = true;
+                        break;
                     case HsmEventStatus::DONE_FAILED:
                     default:
                         // do nothing
@@ -1152,6 +1155,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
         }
     }
 
+    // NOTE: it's not a failure if entered state was left by another transition of the same event in the meantime
+    if ((TransitionBehavior::ENTRYPOINT == event.transitionType) && (HsmEventStatus::DONE_FAILED == res) &&
+        (false == isBlocked) && (false == mDispatcher.expired())) {
+        res = HsmEventStatus::DONE_OK;
+    }
+
     // NOTE: callbacks must not be called anymore if HSM was released in the meantime
     if (mFailedTransitionCallback && (false == mDispatcher.expired()) &&
         ((HsmEventStatus::DONE_FAILED == res) || (HsmEventStatus::CANCELED == res))) {
@@ -1236,6 +1245,8 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             }
         }
     } else {
+        res = HsmEventStatus::CANCELED;
+
         // states were exited starting from the innermost ones. parents must be restored before their substates
         for (auto it = exitedStates.rbegin(); it != exitedStates.rend(); ++it) {
             // to prevent infinite loops we don't allow state to cancel transition
-- 
2.43.0


From 812954aab70e31320bbe169f3f4db11d319cf12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 19/57] fix: check free space for an enqueued event under lock
 to never grow the events cache

---
 src/HsmEventDispatcherBase.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index b1c8812..407195a 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -75,13 +75,16 @@ void HsmEventDispatcherBase::emitEvent(const HandlerID_t handlerID) {
 bool HsmEventDispatcherBase::enqueueEvent(const HandlerID_t handlerID, const EventID_t event) {
     bool wasAdded = false;
 
-    if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
-        {
-            CriticalSection cs(mEnqueuedEventsSync);
+    {
+        CriticalSection cs(mEnqueuedEventsSync);
+
+        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
             mEnqueuedEvents.emplace_back(handlerID, event);
+            wasAdded = true;
         }
+    }
 
-        wasAdded = true;
+    if (true == wasAdded) {
         notifyDispatcherAboutEvent();
     }
 
-- 
2.43.0


From 4fcd3e2e4d2a23f6d2382a771b11d1b5a2e08be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 20/57] fix: enqueued events were dispatched in reverse order

---
 src/HsmEventDispatcherBase.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 407195a..4aeb468 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -299,8 +299,7 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
             mEnqueuedEvents.clear();
         }
 
-        // need to traverse events in reverse order
-        for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher); ++it) {
+        for (auto it = currentEvents.begin(); (it != currentEvents.end()) && (false == mStopDispatcher); ++it) {
             if (prevHandlerID != it->handlerID) {
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
                 prevHandlerID = it->handlerID;
-- 
2.43.0


From c7c274c9bfe3b35e447bd8831c7ff42360c9ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 21/57] fix: enqueued event of an unregistered handler crashed
 the dispatcher

---
 src/HsmEventDispatcherBase.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 4aeb468..0f018fb 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -3,6 +3,8 @@
 
 #include "hsmcpp/HsmEventDispatcherBase.hpp"
 
+#include <algorithm>
+
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
 #include "hsmcpp/os/LockGuard.hpp"
@@ -287,8 +289,8 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 
 void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
     if ((false == mStopDispatcher) && (false == mEnqueuedEvents.empty())) {
-        HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
         EnqueuedEventHandlerFunc_t callback;
+        std::list<HandlerID_t> invalidHandlers;
         std::vector<EnqueuedEventInfo> currentEvents;
 
         {
@@ -300,12 +302,18 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
         }
 
         for (auto it = currentEvents.begin(); (it != currentEvents.end()) && (false == mStopDispatcher); ++it) {
-            if (prevHandlerID != it->handlerID) {
+            {
+                // NOTE: handler could have been unregistered in the meantime
+                LockGuard lckHandlers(mHandlersSync);
+
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
-                prevHandlerID = it->handlerID;
             }
 
-            callback(it->eventID);
+            if (callback && (invalidHandlers.end() == std::find(invalidHandlers.begin(), invalidHandlers.end(), it->handlerID))) {
+                if (false == callback(it->eventID)) {
+                    invalidHandlers.emplace_back(it->handlerID);
+                }
+            }
         }
     }
 }
-- 
2.43.0


From bce33ef134c13d6c97af1580f3b6c4afc72dadad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 22/57] fix: event handler was called after another handler
 unregistered it

---
 src/HsmEventDispatcherBase.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 0f018fb..ccfbbc9 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -350,22 +350,26 @@ void HsmEventDispatcherBase::dispatchPendingEventsImpl(const std::list<HandlerID
     dispatchEnqueuedEvents();
 
     if ((false == mStopDispatcher) && (false == events.empty())) {
-        std::map<HandlerID_t, EventHandlerFunc_t> eventHandlersCopy;
-
-        {
-            // TODO: workaround to prevent recursive lock if registerEventHandler/unregisterEventHandler is called from handler
-            // callback
-            LockGuard lck(mHandlersSync);
-            eventHandlersCopy = mEventHandlers;
-        }
+        std::list<HandlerID_t> invalidHandlers;
 
         for (auto it = events.begin(); (it != events.end()) && (false == mStopDispatcher); ++it) {
-            auto itHandler = eventHandlersCopy.find(*it);
+            EventHandlerFunc_t handler;
+
+            {
+                // NOTE: work with a copy because registerEventHandler/unregisterEventHandler could be called from handler
+                // callback. handlers which were already unregistered must not be called
+                LockGuard lck(mHandlersSync);
+                auto itHandler = mEventHandlers.find(*it);
+
+                if (itHandler != mEventHandlers.end()) {
+                    handler = itHandler->second;
+                }
+            }
 
-            if (itHandler != eventHandlersCopy.end()) {
+            if (handler && (invalidHandlers.end() == std::find(invalidHandlers.begin(), invalidHandlers.end(), *it))) {
                 // NOTE: if callback returns FALSE it means the handler doesn't want to process more events
-                if (false == itHandler->second()) {
-                    eventHandlersCopy.erase(itHandler);
+                if (false == handler()) {
+                    invalidHandlers.emplace_back(*it);
                 }
             }
         }
-- 
2.43.0


From f62ac443ed25bed8d4821612d51fa6433074d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 23/57] fix: handlers registered at the same time could get the
 same id

---
 src/HsmEventDispatcherBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index ccfbbc9..f8025ff 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -40,8 +40,8 @@ void HsmEventDispatcherBase::stop() {
 
 HandlerID_t HsmEventDispatcherBase::registerEventHandler(const EventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    HandlerID_t id = getNextHandlerID();
 
     mEventHandlers[id] = handler;
 
@@ -106,8 +106,8 @@ void HsmEventDispatcherBase::enqueueAction(ActionHandlerFunc_t actionCallback) {
 
 HandlerID_t HsmEventDispatcherBase::registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    HandlerID_t id = getNextHandlerID();
 
     mEnqueuedEventHandlers[id] = handler;
 
@@ -122,8 +122,8 @@ void HsmEventDispatcherBase::unregisterEnqueuedEventHandler(const HandlerID_t ha
 }
 
 HandlerID_t HsmEventDispatcherBase::registerTimerHandler(const TimerHandlerFunc_t& handler) {
-    const HandlerID_t newID = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t newID = getNextHandlerID();
 
     mTimerHandlers[newID] = handler;
 
-- 
2.43.0


From f37f6ac56a6593b5913ff06375eb7a7ba38c6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 24/57] fix: enqueued action was not executed until some other
 event arrived

---
 src/HsmEventDispatcherSTD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 2f216a7..e13ba36 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -144,7 +144,8 @@ void HsmEventDispatcherSTD::doDispatching() {
                 // cppcheck-suppress misra-c2012-15.5
                 mEmitEvent.wait(lck, [=]() {
                     // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                    return (false == mPendingEvents.empty()) || (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
+                    return (false == mPendingEvents.empty()) || (false == mPendingActions.empty()) ||
+                           (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
                 });
                 HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
             }
-- 
2.43.0


From 995a9daf1045e38429a594663fe8c9ae4b8ab473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 25/57] fix: notification about an enqueued event could be
 lost, leaving the event unprocessed

---
 src/HsmEventDispatcherSTD.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index e13ba36..dc52dd7 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -11,6 +11,9 @@ namespace hsmcpp {
 #undef HSM_TRACE_CLASS
 #define HSM_TRACE_CLASS "HsmEventDispatcherSTD"
 
+// how often to check for enqueued events if there are no other events to process
+constexpr const int ENQUEUED_EVENTS_POLL_INTERVAL_MS = 100;
+
 HsmEventDispatcherSTD::HsmEventDispatcherSTD(const size_t eventsCacheSize)
     // cppcheck-suppress misra-c2012-10.4 ; false-positive. thinks that ':' is arithmetic operation
     : HsmEventDispatcherBase(eventsCacheSize) {
@@ -141,8 +144,10 @@ void HsmEventDispatcherSTD::doDispatching() {
                 HSM_TRACE_DEBUG("wait for emit...");
                 // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
                 //       "return" statement belogs to a lamda function, not doDispatching.
+                // NOTE: enqueueEvent() can be called from an interrupt and is not allowed to lock mEmitSync. If it notifies us
+                //       right before we start to wait this notification is lost and event has to be noticed by ourselves.
                 // cppcheck-suppress misra-c2012-15.5
-                mEmitEvent.wait(lck, [=]() {
+                (void)mEmitEvent.wait_for(lck, ENQUEUED_EVENTS_POLL_INTERVAL_MS, [=]() {
                     // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
                     return (false == mPendingEvents.empty()) || (false == mPendingActions.empty()) ||
                            (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
-- 
2.43.0


From 15b94f999b949c16b8008073d9afb68e3e7adaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 26/57] fix: starting, stopping or restarting a timer while
 timers expire could deadlock, lose the timer or fire it too early

---
 include/hsmcpp/HsmEventDispatcherBase.hpp |  13 +++
 include/hsmcpp/HsmEventDispatcherSTD.hpp  |   4 +
 src/HsmEventDispatcherBase.cpp            |  50 +++++++----
 src/HsmEventDispatcherSTD.cpp             | 105 +++++++++++-----------
 4 files changed, 103 insertions(+), 69 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 07d95f9..7029c12 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -213,6 +213,19 @@ protected:
      */
     virtual void stopTimerImpl(const TimerID_t timerID);
 
+    /**
+     * @brief Confirm that timer is still expired and prepare it for the next interval.
+     * @details Called by handleTimerEvent() before calling timer handler. While it's executed timers can't be started, restarted
+     * or stopped by other threads.
+     *
+     * @param timerID id of the expired timer
+     * @param nextIntervalMs timer interval or 0 if timer shouldn't be restarted
+     *
+     * @retval true timer has expired and its handler should be called
+     * @retval false timer was restarted or stopped in the meantime
+     */
+    virtual bool confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs);
+
     /**
      * @brief Contains common logic for handling timer event
      *
diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index c04001f..d34a431 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -96,6 +96,10 @@ protected:
      * @threadsafe{ }
      */
     void stopTimerImpl(const TimerID_t timerID) override;
+    /**
+     * @brief See HsmEventDispatcherBase::confirmTimerExpiredImpl()
+     */
+    bool confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
 
     void notifyDispatcherAboutEvent() override;
     void doDispatching();
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index f8025ff..599a31a 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -157,7 +157,7 @@ void HsmEventDispatcherBase::startTimer(const HandlerID_t handlerID,
                               timerID,
                               intervalMs,
                               BOOL2INT(isSingleShot));
-    if (intervalMs > 0u) {
+    if ((intervalMs > 0u) && (INVALID_HSM_TIMER_ID != timerID)) {
         LockGuard lck(mHandlersSync);
 
         if (mTimerHandlers.find(handlerID) != mTimerHandlers.end()) {
@@ -183,7 +183,7 @@ void HsmEventDispatcherBase::startTimer(const HandlerID_t handlerID,
             }
         }
     } else {
-        HSM_TRACE_WARNING("skip. intervalMs must be larger than zero");
+        HSM_TRACE_WARNING("skip. intervalMs must be larger than zero and timerID must be valid");
     }
 }
 
@@ -256,32 +256,44 @@ void HsmEventDispatcherBase::stopTimerImpl(const TimerID_t timerID) {
     // do nothing. must be implemented in platfrom specific dispatcher
 }
 
+bool HsmEventDispatcherBase::confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    // should be implemented in platfrom specific dispatcher if timers can be restarted from other threads
+    return true;
+}
+
 unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
     unsigned int nextIntervalMs = 0;
 
     if (INVALID_HSM_TIMER_ID != timerID) {
-        // NOTE: should lock the whole block to prevent situation when timer handler is unregistered during handler execution
-        LockGuard lck(mHandlersSync);
-
-        auto itTimer = mActiveTimers.find(timerID);
-
-        if (mActiveTimers.end() != itTimer) {
-            HSM_TRACE_DEBUG("curTimer.handlerID=%d", itTimer->second.handlerID);
-
-            if (INVALID_HSM_DISPATCHER_HANDLER_ID != itTimer->second.handlerID) {
-                TimerHandlerFunc_t timerHandler = getTimerHandlerFunc(itTimer->second.handlerID);
+        // cppcheck-suppress misra-c2012-17.7 ; false-positive. This a function pointer, not function call.
+        TimerHandlerFunc_t timerHandler;
 
-                nextIntervalMs = ((true == itTimer->second.isSingleShot) ? 0 : itTimer->second.intervalMs);
-
-                // Remove singleshot timer from active list
-                if (0u == nextIntervalMs) {
-                    mActiveTimers.erase(itTimer);
+        {
+            LockGuard lck(mHandlersSync);
+            auto itTimer = mActiveTimers.find(timerID);
+
+            if ((mActiveTimers.end() != itTimer) && (INVALID_HSM_DISPATCHER_HANDLER_ID != itTimer->second.handlerID)) {
+                HSM_TRACE_DEBUG("curTimer.handlerID=%d", itTimer->second.handlerID);
+                const unsigned int intervalMs = ((true == itTimer->second.isSingleShot) ? 0 : itTimer->second.intervalMs);
+
+                // NOTE: timer could have been restarted by another thread right after it expired
+                if (true == confirmTimerExpiredImpl(timerID, intervalMs)) {
+                    timerHandler = getTimerHandlerFunc(itTimer->second.handlerID);
+                    nextIntervalMs = intervalMs;
+
+                    // Remove singleshot timer from active list
+                    if (0u == nextIntervalMs) {
+                        mActiveTimers.erase(itTimer);
+                    }
                 }
-
-                timerHandler(timerID);
             }
         }
+
+        // NOTE: must be called without locks because handler is allowed to use timers
+        if (timerHandler) {
+            (void)timerHandler(timerID);
+        }
     }
 
     return nextIntervalMs;
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index dc52dd7..ac0eb3d 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -3,6 +3,8 @@
 
 #include "hsmcpp/HsmEventDispatcherSTD.hpp"
 
+#include <algorithm>
+
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
 
@@ -162,19 +164,47 @@ void HsmEventDispatcherSTD::doDispatching() {
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
     HSM_TRACE_CALL_DEBUG();
-    mNotifiedTimersThread = true;
+
+    {
+        CriticalSection cs(mRunningTimersSync);
+        mNotifiedTimersThread = true;
+    }
+
     mTimerEvent.notify();
 }
 
+bool HsmEventDispatcherSTD::confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    bool isExpired = false;
+    CriticalSection cs(mRunningTimersSync);
+    const auto currentTime = std::chrono::steady_clock::now();
+    auto it = mRunningTimers.find(timerID);
+
+    if ((mRunningTimers.end() != it) && (it->second.elapseAfter <= currentTime)) {
+        isExpired = true;
+
+        if (nextIntervalMs > 0u) {
+            // restart timer
+            it->second.startedAt = currentTime;
+            it->second.elapseAfter = it->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
+        } else {
+            // single shot timer. remove from queue
+            mRunningTimers.erase(it);
+        }
+    }
+
+    return isExpired;
+}
+
 void HsmEventDispatcherSTD::handleTimers() {
     HSM_TRACE_CALL_DEBUG();
-    Mutex timerEventSync;
-    UniqueLock lck(timerEventSync);
+    // limits duration of a single wait to avoid overflows with long intervals
+    constexpr std::chrono::milliseconds maxWaitDuration(60000);
 
     while (false == mStopDispatcher) {
-        mRunningTimersSync.lock();
+        TimerID_t expiredTimerId = INVALID_HSM_TIMER_ID;
 
-        if (false == mRunningTimers.empty()) {
+        {
+            UniqueLock lck(mRunningTimersSync);
             auto itTimeout = mRunningTimers.begin();
 
             for (auto it = mRunningTimers.begin(); it != mRunningTimers.end(); ++it) {
@@ -183,63 +213,38 @@ void HsmEventDispatcherSTD::handleTimers() {
                 }
             }
 
-            TimerID_t waitingTimerId = itTimeout->first;
-            const int waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
-                                                                                         std::chrono::steady_clock::now())
-                                       .count();
-
-            // unlock after itTimeout value is not needed anymore
-            mRunningTimersSync.unlock();
-            // NOTE: make sure we don't use itTimeout value after this line
-
-            bool waitResult = false;
-
-            // if waitDurationMs <= 0 it means that timer already expired and we only need to trigger event
-            if (waitDurationMs > 0) {
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                waitResult = mTimerEvent.wait_for(lck, waitDurationMs, [&]() { return mNotifiedTimersThread; });
-            }
-
             mNotifiedTimersThread = false;
 
-            if (false == waitResult) {
-                // timeout expired
-
-                // store wakeup time in case we'll need to calculate new elapseAfter value
-                // needed to avoid potential delays caused by CriticalSection and handleTimerEvent()
-                const auto wakeupTime = std::chrono::steady_clock::now();
-                CriticalSection lckExpired(mRunningTimersSync);
-
-                itTimeout = mRunningTimers.find(waitingTimerId);
+            if (mRunningTimers.end() != itTimeout) {
+                const auto remainingTime = itTimeout->second.elapseAfter - std::chrono::steady_clock::now();
 
-                if (itTimeout != mRunningTimers.end()) {
-                    const unsigned int nextIntervalMs = handleTimerEvent(waitingTimerId);
+                if (remainingTime > std::chrono::steady_clock::duration::zero()) {
+                    // NOTE: round up, otherwise timer could be handled before it's elapsed
+                    const auto waitDuration =
+                        std::min(std::chrono::duration_cast<std::chrono::milliseconds>(remainingTime) + std::chrono::milliseconds(1),
+                                 maxWaitDuration);
 
-                    if (nextIntervalMs > 0u) {
-                        // restart timer
-                        itTimeout->second.startedAt = wakeupTime;
-                        itTimeout->second.elapseAfter = itTimeout->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
-                    } else {
-                        // single shot timer. remove from queue
-                        mRunningTimers.erase(itTimeout);
-                    }
+                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                    (void)mTimerEvent.wait_for(lck, static_cast<int>(waitDuration.count()), [&]() { return mNotifiedTimersThread; });
                 } else {
-                    // do nothing
+                    expiredTimerId = itTimeout->first;
                 }
+            } else if (false == mStopDispatcher) {
+                // wait for timer events
+                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                mTimerEvent.wait(lck, [&]() { return mNotifiedTimersThread; });
             } else {
-                // thread was woken up by start/stop operation. no need to do anything
+                // NOTE: do nothing
             }
-        } else {
-            mRunningTimersSync.unlock();
+        }
 
-            // wait for timer events
-            mTimerEvent.wait(lck);
+        // NOTE: must be called without locks to not block threads which are starting or stopping timers
+        if (INVALID_HSM_TIMER_ID != expiredTimerId) {
+            (void)handleTimerEvent(expiredTimerId);
         }
     }
 
     HSM_TRACE_DEBUG("EXIT");
 }
 
-}  // namespace hsmcpp
\ No newline at end of file
+}  // namespace hsmcpp
-- 
2.43.0


From aa71c67e74932289cecdd62eb8bd2163f7dfa250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 27/57] fix: isTimerRunning() accessed active timers without a
 lock

---
 src/HsmEventDispatcherBase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 599a31a..7eaa2f2 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -212,6 +212,8 @@ void HsmEventDispatcherBase::stopTimer(const TimerID_t timerID) {
 }
 
 bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
+    LockGuard lck(mHandlersSync);
+
     return (mActiveTimers.find(timerID) != mActiveTimers.end());
 }
 
-- 
2.43.0


From 2e3e3d8091974b1d2e94b24dc4653c2b5d73ceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:17 +0000
Subject: [PATCH 28/57] fix: restarting a GLib, GLibmm or Qt timer while it
 expires could lose the timer, a Qt timer stopped before it was started kept
 running

---
 include/hsmcpp/HsmEventDispatcherGLib.hpp   |  4 ++
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp |  4 ++
 include/hsmcpp/HsmEventDispatcherQt.hpp     |  4 ++
 src/HsmEventDispatcherGLib.cpp              | 31 +++++----
 src/HsmEventDispatcherGLibmm.cpp            | 25 ++++---
 src/HsmEventDispatcherQt.cpp                | 75 ++++++++++-----------
 6 files changed, 81 insertions(+), 62 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLib.hpp b/include/hsmcpp/HsmEventDispatcherGLib.hpp
index ab6d441..9a95c24 100644
--- a/include/hsmcpp/HsmEventDispatcherGLib.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLib.hpp
@@ -98,6 +98,10 @@ private:
      * @threadsafe{ }
      */
     void stopTimerImpl(const TimerID_t timerID) override;
+    /**
+     * @brief See HsmEventDispatcherBase::confirmTimerExpiredImpl()
+     */
+    bool confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
 
     static gboolean onTimerEvent(const TimerData_t* timerData);
     static void onFreeTimerData(void* timerData);
diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index 3070855..aa1b344 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -104,6 +104,10 @@ protected:
      * @threadsafe{ }
      */
     void stopTimerImpl(const TimerID_t timerID) override;
+    /**
+     * @brief See HsmEventDispatcherBase::confirmTimerExpiredImpl()
+     */
+    bool confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
 
     void notifyDispatcherAboutEvent() override;
     bool onTimerEvent(const TimerID_t timerID);
diff --git a/include/hsmcpp/HsmEventDispatcherQt.hpp b/include/hsmcpp/HsmEventDispatcherQt.hpp
index d2bebef..b3a05ba 100644
--- a/include/hsmcpp/HsmEventDispatcherQt.hpp
+++ b/include/hsmcpp/HsmEventDispatcherQt.hpp
@@ -56,6 +56,10 @@ protected:
 
     void startTimerImpl(const TimerID_t timerID, const unsigned int intervalMs, const bool isSingleShot) override;
     void stopTimerImpl(const TimerID_t timerID) override;
+    /**
+     * @brief See HsmEventDispatcherBase::confirmTimerExpiredImpl()
+     */
+    bool confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
 
 private slots:
     void onTimerEvent();
diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 52443cd..c411334 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -182,24 +182,29 @@ void HsmEventDispatcherGLib::stopTimerImpl(const TimerID_t timerID) {
     }
 }
 
+bool HsmEventDispatcherGLib::confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    bool isExpired = false;
+    CriticalSection lckExpired(mRunningTimersSync);
+    auto itTimer = mNativeTimerHandlers.find(timerID);
+
+    // NOTE: timer could have been stopped or restarted by another thread (with a new source)
+    if ((mNativeTimerHandlers.end() != itTimer) && (g_main_current_source() == itTimer->second)) {
+        isExpired = true;
+
+        if (0u == nextIntervalMs) {
+            g_source_unref(itTimer->second);
+            mNativeTimerHandlers.erase(itTimer);
+        }
+    }
+
+    return isExpired;
+}
+
 gboolean HsmEventDispatcherGLib::onTimerEvent(const TimerData_t* timerData) {
     bool restartTimer = false;
 
     if (nullptr != timerData) {
         restartTimer = (timerData->first->handleTimerEvent(timerData->second) > 0);
-
-        if (false == restartTimer) {
-            CriticalSection lckExpired(timerData->first->mRunningTimersSync);
-            auto itTimer = timerData->first->mNativeTimerHandlers.find(timerData->second);
-
-            if (timerData->first->mNativeTimerHandlers.end() != itTimer) {
-                g_source_unref(itTimer->second);
-                timerData->first->mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_DEF();
-                HSM_TRACE_ERROR("unexpected error. timer not found");
-            }
-        }
     }
 
     return restartTimer;
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 0c1081e..b480129 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -149,22 +149,27 @@ void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
     mDispatcher->emit();
 }
 
-bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
-    HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
-    const bool restartTimer = (handleTimerEvent(timerID) > 0);
+bool HsmEventDispatcherGLibmm::confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    bool isExpired = false;
+    CriticalSection cs(mRunningTimersSync);
+    auto itTimer = mNativeTimerHandlers.find(timerID);
 
-    if (false == restartTimer) {
-        CriticalSection cs(mRunningTimersSync);
-        auto itTimer = mNativeTimerHandlers.find(timerID);
+    // NOTE: timer could have been stopped or restarted by another thread (source is destroyed in this case)
+    if ((mNativeTimerHandlers.end() != itTimer) && (FALSE == g_source_is_destroyed(g_main_current_source()))) {
+        isExpired = true;
 
-        if (mNativeTimerHandlers.end() != itTimer) {
+        if (0u == nextIntervalMs) {
             mNativeTimerHandlers.erase(itTimer);
-        } else {
-            HSM_TRACE_ERROR("unexpected error. timer not found");
         }
     }
 
-    return restartTimer;
+    return isExpired;
+}
+
+bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
+    HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
+
+    return (handleTimerEvent(timerID) > 0);
 }
 
 }  // namespace hsmcpp
\ No newline at end of file
diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 4b79444..b50aed1 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -95,37 +95,26 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
                               SC2INT(timerID),
                               intervalMs,
                               BOOL2INT(isSingleShot));
+    CriticalSection cs(mRunningTimersSync);
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() == it) {
-        auto funcCreateTimer = [=]() {
-            QTimer* newTimer = new QTimer(this);
-
-            newTimer->setProperty("hsmid", QVariant(timerID));
-            connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
-            newTimer->setSingleShot(isSingleShot);
-            newTimer->start(intervalMs);
-
-            CriticalSection cs(mRunningTimersSync);
-            mNativeTimerHandlers[timerID] = newTimer;
-        };
-
-        // NOTE: need to make sure that QTimer is started only from Qt main thread
-        QThread* callerThread = QThread::currentThread();
-
-        if (qApp->thread() != callerThread) {
-            QTimer* mainthreadTimer = new QTimer();
-
-            mainthreadTimer->moveToThread(qApp->thread());
-            mainthreadTimer->setSingleShot(true);
-
-            QObject::connect(mainthreadTimer, &QTimer::timeout, [=]() {
-                funcCreateTimer();
-                mainthreadTimer->deleteLater();
-            });
-            QMetaObject::invokeMethod(mainthreadTimer, "start", Qt::QueuedConnection, Q_ARG(int, 0));
+        // NOTE: need to make sure that QTimer is started only from Qt main thread. Timer has to be registered right away
+        //       so that it can be stopped or restarted before main thread had a chance to start it
+        const bool isMainThread = (qApp->thread() == QThread::currentThread());
+        QTimer* newTimer = new QTimer((true == isMainThread) ? this : nullptr);
+
+        newTimer->setProperty("hsmid", QVariant(timerID));
+        connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
+        newTimer->setSingleShot(isSingleShot);
+        newTimer->setInterval(static_cast<int>(intervalMs));
+        mNativeTimerHandlers[timerID] = newTimer;
+
+        if (true == isMainThread) {
+            newTimer->start();
         } else {
-            funcCreateTimer();
+            newTimer->moveToThread(qApp->thread());
+            QMetaObject::invokeMethod(newTimer, "start", Qt::QueuedConnection);
         }
     } else {
         HSM_TRACE_ERROR("timer with id=%d already exists", timerID);
@@ -143,6 +132,25 @@ void HsmEventDispatcherQt::stopTimerImpl(const TimerID_t timerID) {
     }
 }
 
+bool HsmEventDispatcherQt::confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) {
+    bool isExpired = false;
+    CriticalSection cs(mRunningTimersSync);
+    auto itTimer = mNativeTimerHandlers.find(timerID);
+
+    // NOTE: timer could have been stopped or restarted in the meantime (with a new QTimer)
+    if ((mNativeTimerHandlers.end() != itTimer) && (QObject::sender() == itTimer->second)) {
+        isExpired = true;
+
+        if (0u == nextIntervalMs) {
+            // delete timer since it doesn't need to be restarted
+            itTimer->second->deleteLater();
+            mNativeTimerHandlers.erase(itTimer);
+        }
+    }
+
+    return isExpired;
+}
+
 void HsmEventDispatcherQt::onTimerEvent() {
     QObject* ptrTimer = qobject_cast<QTimer*>(QObject::sender());
 
@@ -151,18 +159,7 @@ void HsmEventDispatcherQt::onTimerEvent() {
 
         HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
 
-        if (0 == handleTimerEvent(timerID)) {
-            // delete timer since it doesn't need to be restarted
-            CriticalSection cs(mRunningTimersSync);
-            auto itTimer = mNativeTimerHandlers.find(timerID);
-
-            if (mNativeTimerHandlers.end() != itTimer) {
-                itTimer->second->deleteLater();
-                mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_ERROR("unexpected error. timer not found");
-            }
-        }
+        (void)handleTimerEvent(timerID);
     }
 }
 
-- 
2.43.0


From 2ecbb9979bd7228be371d0a8da128623e821e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 29/57] fix: GLib, GLibmm and Qt dispatchers didn't deliver
 events after they were stopped and started again

---
 src/HsmEventDispatcherGLib.cpp   | 2 ++
 src/HsmEventDispatcherGLibmm.cpp | 2 ++
 src/HsmEventDispatcherQt.cpp     | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index c411334..0f64d50 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -63,6 +63,8 @@ bool HsmEventDispatcherGLib::start() {
     HSM_TRACE_CALL_DEBUG();
     bool result = false;
 
+    mStopDispatcher = false;
+
     // check if dispatcher was already started
     if ((-1) == mPipeFD[0]) {
         int rc = pipe(mPipeFD);
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index b480129..1ef3084 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -73,6 +73,8 @@ void HsmEventDispatcherGLibmm::emitEvent(const HandlerID_t handlerID) {
 bool HsmEventDispatcherGLibmm::start() {
     bool result = false;
 
+    mStopDispatcher = false;
+
     if (mMainContext) {
         if (!mDispatcher) {
             mDispatcher.reset(new Glib::Dispatcher(mMainContext));
diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index b50aed1..5a8996a 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -44,6 +44,8 @@ bool HsmEventDispatcherQt::start() {
     HSM_TRACE_CALL_DEBUG();
     bool result = true;
 
+    mStopDispatcher = false;
+
     if (QEvent::None == mQtDispatchEventType) {
         int newDispatchEvent = QEvent::registerEventType(static_cast<int>(QEvent::User) + QT_DISPATCH_EVENT);
 
-- 
2.43.0


From e82e56fc84641c5f47002753f54bcef2f1cbb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 30/57] fix: GLib dispatcher blocked forever when its own
 thread emitted more events than fit into the pipe

---
 src/HsmEventDispatcherGLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 0f64d50..5185f80 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -3,6 +3,7 @@
 
 #include "hsmcpp/HsmEventDispatcherGLib.hpp"
 
+#include <fcntl.h>
 #include <unistd.h>
 
 #include "hsmcpp/logging.hpp"
@@ -70,6 +71,10 @@ bool HsmEventDispatcherGLib::start() {
         int rc = pipe(mPipeFD);
 
         if (0 == rc) {
+            // NOTE: events emitted from dispatcher thread must not block it if pipe is full. skipped data doesn't matter since
+            //       all pending events are dispatched at once
+            (void)fcntl(mPipeFD[1], F_SETFL, O_NONBLOCK);
+
             mReadChannel = g_io_channel_unix_new(mPipeFD[0]);
 
             if (nullptr != mReadChannel) {
-- 
2.43.0


From 6c0379440cec9146ae4e20b1dfa7903d4890a7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:39 +0000
Subject: [PATCH 31/57] fix: events added from callbacks doubled the number of
 emitted events, a machine which keeps adding events exhausted the dispatcher

---
 src/HsmImpl.cpp | 19 ++++++++++++++++---
 src/HsmImpl.hpp |  3 +++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 7bfc8ce..cc36ffe 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -431,6 +431,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
 
     bool status = false;
     bool isReleased = false;
+    bool isEmitNeeded = true;
     auto dispatcherPtr = mDispatcher.lock();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
@@ -457,12 +458,16 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
                 }
 
                 mPendingEvents.emplace_back(eventInfo);
+                // events added while HSM is dispatching will be emitted when it's done
+                isEmitNeeded = (false == mEmitAfterDispatching);
             }
         }
 
         if (false == isReleased) {
-            HSM_TRACE_DEBUG("transitionEx: emit");
-            dispatcherPtr->emitEvent(mEventsHandlerId);
+            if (true == isEmitNeeded) {
+                HSM_TRACE_DEBUG("transitionEx: emit");
+                dispatcherPtr->emitEvent(mEventsHandlerId);
+            }
 
             if (true == sync) {
                 HSM_TRACE_DEBUG("transitionEx: wait...");
@@ -663,6 +668,7 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
                     HSM_SYNC_EVENTS_QUEUE();
                     pendingEvent = std::move(mPendingEvents.front());
                     mPendingEvents.pop_front();
+                    mEmitAfterDispatching = true;
                 }
 
                 HsmEventStatus transitiontStatus = doTransition(pendingEvent);
@@ -697,7 +703,7 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
                 pendingEvent.unlock(transitiontStatus);
             }
 
-            if ((false == mStopDispatching) && (false == mPendingEvents.empty())) {
+            if ((false == mStopDispatching) && (true == finishDispatching())) {
                 dispatcherPtr->emitEvent(mEventsHandlerId);
             }
         }
@@ -707,6 +713,13 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
     }
 }
 
+bool HierarchicalStateMachine::Impl::finishDispatching() {
+    HSM_SYNC_EVENTS_QUEUE();
+
+    mEmitAfterDispatching = false;
+    return (false == mPendingEvents.empty());
+}
+
 void HierarchicalStateMachine::Impl::dispatchTimerEvent(const TimerID_t id) {
     HSM_TRACE_CALL_DEBUG_ARGS("id=%d", SC2INT(id));
     auto it = mTimers.find(id);
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 06a4053..233c97d 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -113,6 +113,8 @@ private:
                           const bool expectedConditionValue = true);
 
     void dispatchEvents();
+    // returns TRUE if there are pending events which must be emitted
+    bool finishDispatching();
     void dispatchTimerEvent(const TimerID_t id);
 
     bool onStateExiting(const StateID_t state);
@@ -210,6 +212,7 @@ private:
     std::multimap<StateID_t, StateID_t> mSubstates;
     std::multimap<StateID_t, StateEntryPoint> mSubstateEntryPoints;
     std::list<PendingEventInfo> mPendingEvents;  // protected by mEventsSync
+    bool mEmitAfterDispatching = false;          // protected by mEventsSync
     std::map<TimerID_t, EventID_t> mTimers;
 
     // parent state, history state
-- 
2.43.0


From a1d731b7748ee258f55121184cf4db1eeac38dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:31 +0000
Subject: [PATCH 32/57] fix: events added by callbacks of the initial state
 could be processed by another thread before HSM was initialized

---
 src/HsmImpl.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index cc36ffe..3250e94 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -626,6 +626,14 @@ void HierarchicalStateMachine::Impl::handleStartup() {
         HSM_TRACE_DEBUG("state=<%s>", getStateName(mInitialState).c_str());
         std::list<StateID_t> entryPoints;
 
+        // NOTE: events added by callbacks must not be dispatched by another thread before initial state is entered
+        (void)mIsDispatching.test_and_set();
+
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            mEmitAfterDispatching = true;
+        }
+
         (void)onStateEntering(mInitialState, VariantVector_t());
         mActiveStates.emplace_back(mInitialState);
         onStateChanged(mInitialState, VariantVector_t());
@@ -642,7 +650,14 @@ void HierarchicalStateMachine::Impl::handleStartup() {
             }
         }
 
-        if (false == mPendingEvents.empty()) {
+        {
+            UniqueLock lk = mIsDispatching.lock();
+
+            mIsDispatching.clear();
+            mIsDispatching.notify();
+        }
+
+        if (true == finishDispatching()) {
             dispatcherPtr->emitEvent(mEventsHandlerId);
         }
     }
-- 
2.43.0


From 0bb58da9a8c22cdc239c0ee9cf160472bcf2e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 33/57] fix: events added by other threads while HSM is
 initialized could be processed before initial state is entered

---
 src/HsmImpl.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 3250e94..fffcb42 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -121,7 +121,8 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
                 }
 
                 if (false == ptrInstance.expired()) {
-                    mDispatcher = dispatcher;
+                    // NOTE: events added from now on must not be dispatched by another thread before initial state is entered
+                    (void)mIsDispatching.test_and_set();
 
                     createEventHandler(dispatcherPtr, ptrInstance);
                     createTimerHandler(dispatcherPtr, ptrInstance);
@@ -129,6 +130,8 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
 
                     if ((INVALID_HSM_DISPATCHER_HANDLER_ID != mEventsHandlerId) &&
                         (INVALID_HSM_DISPATCHER_HANDLER_ID != mTimerHandlerId)) {
+                        mDispatcher = dispatcher;
+
                         logHsmAction(HsmLogAction::IDLE,
                                      INVALID_HSM_STATE_ID,
                                      INVALID_HSM_STATE_ID,
@@ -142,6 +145,7 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
                         dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
                         dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
                         dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
+                        mIsDispatching.clear();
                     }
                 }
             } else {
@@ -626,9 +630,6 @@ void HierarchicalStateMachine::Impl::handleStartup() {
         HSM_TRACE_DEBUG("state=<%s>", getStateName(mInitialState).c_str());
         std::list<StateID_t> entryPoints;
 
-        // NOTE: events added by callbacks must not be dispatched by another thread before initial state is entered
-        (void)mIsDispatching.test_and_set();
-
         {
             HSM_SYNC_EVENTS_QUEUE();
             mEmitAfterDispatching = true;
-- 
2.43.0


From cbd4191382a5bcc68aadf22e6be2391d6a5e0153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 34/57] fix: stopping std dispatcher could be delayed until the
 next timer expired

---
 src/HsmEventDispatcherSTD.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index ac0eb3d..410d1a2 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -224,8 +224,11 @@ void HsmEventDispatcherSTD::handleTimers() {
                         std::min(std::chrono::duration_cast<std::chrono::milliseconds>(remainingTime) + std::chrono::milliseconds(1),
                                  maxWaitDuration);
 
-                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                    (void)mTimerEvent.wait_for(lck, static_cast<int>(waitDuration.count()), [&]() { return mNotifiedTimersThread; });
+                    // NOTE: notification from stop() could have been received before mNotifiedTimersThread was reset
+                    (void)mTimerEvent.wait_for(lck, static_cast<int>(waitDuration.count()), [&]() {
+                        // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                        return mNotifiedTimersThread || (true == mStopDispatcher);
+                    });
                 } else {
                     expiredTimerId = itTimeout->first;
                 }
-- 
2.43.0


From 5b5da2646f78b36d0eb14b8d851f218775efc41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 35/57] fix: names of states and events were missing in debug
 log if traces are disabled

---
 src/HsmImpl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index fffcb42..6481ed5 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1901,7 +1901,10 @@ void HierarchicalStateMachine::Impl::dumpActiveStates() {
 
     HSM_TRACE_DEBUG("active states: <%s>", temp.c_str());
 }
+#endif  // HSM_DISABLE_DEBUG_TRACES
 
+// NOTE: names are also used by debug log which doesn't depend on traces
+#if !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     std::string res;
   #ifndef HSM_DISABLE_THREADSAFETY
@@ -1927,7 +1930,7 @@ std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event)
 
     return res;
 }
-#else   // HSM_DISABLE_DEBUG_TRACES
+#else   // !HSM_DISABLE_DEBUG_TRACES || HSMBUILD_DEBUGGING
 
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     return std::string();
@@ -1936,6 +1939,6 @@ std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state)
 std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event) {
     return std::string();
 }
-#endif  // HSM_DISABLE_DEBUG_TRACES
+#endif  // !HSM_DISABLE_DEBUG_TRACES || HSMBUILD_DEBUGGING
 
 }  // namespace hsmcpp
\ No newline at end of file
-- 
2.43.0


From e1eaf0771a3c33bc15fb243ea22457b831a48de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 36/57] fix: arguments with special characters made debug log
 unreadable

---
 src/HsmImpl.cpp | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 6481ed5..951dce9 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1796,6 +1796,41 @@ void HierarchicalStateMachine::Impl::disableHsmDebugging() {
 #endif
 }
 
+#ifdef HSMBUILD_DEBUGGING
+// converts argument to a YAML scalar. text must be quoted since it could contain characters with a special meaning
+static std::string toLogValue(const Variant& value) {
+    const std::string text = value.toString();
+    std::string result;
+
+    if ((true == value.isNumeric()) || (true == value.isBool())) {
+        result = text;
+    } else {
+        constexpr const char* hexDigits = "0123456789ABCDEF";
+
+        result = "\"";
+
+        for (const char curChar : text) {
+            const unsigned char code = static_cast<unsigned char>(curChar);
+
+            if (('"' == curChar) || ('\\' == curChar)) {
+                result += '\\';
+                result += curChar;
+            } else if ((code < 0x20U) || (code == 0x7FU) || ((code > 0x7FU) && (true == value.isByteArray()))) {
+                result += "\\x";
+                result += hexDigits[code >> 4U];
+                result += hexDigits[code & 0x0FU];
+            } else {
+                result += curChar;
+            }
+        }
+
+        result += '"';
+    }
+
+    return result;
+}
+#endif  // HSMBUILD_DEBUGGING
+
 void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                                                   const StateID_t fromState,
                                                   const StateID_t targetState,
@@ -1881,7 +1916,7 @@ void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                     "  args:";
 
         for (const auto& curArg : args) {
-            *mHsmLog << "\n    - " << curArg.toString();
+            *mHsmLog << "\n    - " << toLogValue(curArg);
         }
 
         mHsmLog->flush();
-- 
2.43.0


From 78edc5817839f58dda963fbfe86e602cdb879de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 37/57] fix: emitting events while GLib dispatcher is being
 stopped could terminate the process

---
 src/HsmEventDispatcherGLib.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 5185f80..4a4976b 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -74,6 +74,8 @@ bool HsmEventDispatcherGLib::start() {
             // NOTE: events emitted from dispatcher thread must not block it if pipe is full. skipped data doesn't matter since
             //       all pending events are dispatched at once
             (void)fcntl(mPipeFD[1], F_SETFL, O_NONBLOCK);
+            // NOTE: dispatcher could have been restarted since data was available
+            (void)fcntl(mPipeFD[0], F_SETFL, O_NONBLOCK);
 
             mReadChannel = g_io_channel_unix_new(mPipeFD[0]);
 
@@ -126,6 +128,9 @@ void HsmEventDispatcherGLib::stop() {
     }
 
     if (nullptr != mReadChannel) {
+        // NOTE: pipe could be used by other threads
+        std::lock_guard<std::mutex> lck(mPipeSync);
+
         g_io_channel_unref(mReadChannel);
         mReadChannel = nullptr;
         close(mPipeFD[0]);
@@ -227,7 +232,9 @@ void HsmEventDispatcherGLib::notifyDispatcherAboutEvent() {
 
     // we just need to trigger the callback. there is no need to pass any real data there
     // TODO: should we check for result?
-    write(mPipeFD[1], &dummy, sizeof(dummy));
+    if ((-1) != mPipeFD[1]) {
+        write(mPipeFD[1], &dummy, sizeof(dummy));
+    }
 }
 
 gboolean HsmEventDispatcherGLib::onPipeDataAvailable(GIOChannel* gio, GIOCondition condition, gpointer data) {
@@ -245,7 +252,15 @@ gboolean HsmEventDispatcherGLib::onPipeDataAvailable(GIOChannel* gio, GIOConditi
 
         if (!(condition & G_IO_HUP)) {
             char dummy;
-            int bytes = read(pThis->mPipeFD[0], &dummy, sizeof(dummy));
+            int bytes = 0;
+
+            {
+                std::lock_guard<std::mutex> lck(pThis->mPipeSync);
+
+                if ((-1) != pThis->mPipeFD[0]) {
+                    bytes = read(pThis->mPipeFD[0], &dummy, sizeof(dummy));
+                }
+            }
 
             if (1 == bytes) {
                 pThis->dispatchPendingEvents();
-- 
2.43.0


From a04f767e997559fc592a7ab50ad6284c5ee7f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 38/57] fix: GLibmm dispatcher crashed when it was stopped by a
 handler or another thread

---
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp |  1 +
 src/HsmEventDispatcherGLibmm.cpp            | 29 ++++++++++++---------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index aa1b344..b1fcc49 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -110,6 +110,7 @@ protected:
     bool confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) override;
 
     void notifyDispatcherAboutEvent() override;
+    void onDispatchEvents();
     bool onTimerEvent(const TimerID_t timerID);
 
 private:
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 1ef3084..fb642fd 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -28,6 +28,7 @@ HsmEventDispatcherGLibmm::~HsmEventDispatcherGLibmm() {
     HSM_TRACE_CALL_DEBUG();
 
     stop();
+    mDispatcherConnection.disconnect();
 }
 
 std::shared_ptr<HsmEventDispatcherGLibmm> HsmEventDispatcherGLibmm::create(const size_t eventsCacheSize) {
@@ -65,7 +66,7 @@ bool HsmEventDispatcherGLibmm::deleteSafe() {
 void HsmEventDispatcherGLibmm::emitEvent(const HandlerID_t handlerID) {
     HSM_TRACE_CALL_DEBUG();
 
-    if (mDispatcherConnection.connected() == true) {
+    if ((false == mStopDispatcher) && mDispatcher) {
         HsmEventDispatcherBase::emitEvent(handlerID);
     }
 }
@@ -80,11 +81,8 @@ bool HsmEventDispatcherGLibmm::start() {
             mDispatcher.reset(new Glib::Dispatcher(mMainContext));
 
             if (mDispatcher) {
-                if (mDispatcherConnection.connected() == false) {
-                    mDispatcherConnection =
-                        mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::dispatchPendingEvents));
-                }
-
+                mDispatcherConnection =
+                    mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onDispatchEvents));
                 result = true;
             }
         } else {
@@ -98,15 +96,11 @@ bool HsmEventDispatcherGLibmm::start() {
 void HsmEventDispatcherGLibmm::stop() {
     HSM_TRACE_CALL_DEBUG();
 
+    // NOTE: could be called from any thread (including handlers), but Glib::Dispatcher may only be disconnected and deleted in
+    //       receiver thread. it will stay connected till destructor and can be used by other threads in the meantime
     HsmEventDispatcherBase::stop();
-
-    if (true == mDispatcherConnection.connected()) {
-        mDispatcherConnection.disconnect();
-    }
-
     unregisterAllTimerHandlers();
     unregisterAllEventHandlers();
-    mDispatcher.reset();
 }
 
 void HsmEventDispatcherGLibmm::unregisterAllTimerHandlers() {
@@ -148,7 +142,16 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
-    mDispatcher->emit();
+    // NOTE: actions and interrupt-safe events could be added before dispatcher was started
+    if (mDispatcher) {
+        mDispatcher->emit();
+    }
+}
+
+void HsmEventDispatcherGLibmm::onDispatchEvents() {
+    if (false == mStopDispatcher) {
+        dispatchPendingEvents();
+    }
 }
 
 bool HsmEventDispatcherGLibmm::confirmTimerExpiredImpl(const TimerID_t timerID, const unsigned int nextIntervalMs) {
-- 
2.43.0


From 0d73492713c3a397468527e1897c4b4797260eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 39/57] fix: Qt timers could expire before their interval
 elapsed

---
 src/HsmEventDispatcherQt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 5a8996a..33ff133 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -108,6 +108,8 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
 
         newTimer->setProperty("hsmid", QVariant(timerID));
         connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
+        // NOTE: default (coarse) timers could expire before their interval elapsed
+        newTimer->setTimerType(Qt::PreciseTimer);
         newTimer->setSingleShot(isSingleShot);
         newTimer->setInterval(static_cast<int>(intervalMs));
         mNativeTimerHandlers[timerID] = newTimer;
-- 
2.43.0


From fe6c0d985f28498dac65fb86d98a51079c24845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 40/57] fix: Qt dispatcher didn't work if it was created and
 started by different threads

---
 src/HsmEventDispatcherQt.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 33ff133..916af2a 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -22,6 +22,10 @@ QEvent::Type HsmEventDispatcherQt::mQtDispatchEventType = QEvent::None;
 HsmEventDispatcherQt::HsmEventDispatcherQt(const size_t eventsCacheSize)
     : HsmEventDispatcherBase(eventsCacheSize)
     , QObject(nullptr) {
+    // NOTE: object can be moved only by the thread which created it, but dispatcher could be started by another one
+    if ((nullptr != QCoreApplication::instance()) && (QObject::thread() != QCoreApplication::instance()->thread())) {
+        QObject::moveToThread(QCoreApplication::instance()->thread());
+    }
 }
 
 HsmEventDispatcherQt::~HsmEventDispatcherQt() {
-- 
2.43.0


From d62b06ff8dd522c2b154419ebe52c1f0a3842633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 41/57] fix: starting and stopping GLib dispatcher from several
 threads could leave a dangling event source

---
 src/HsmEventDispatcherGLib.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 4a4976b..eb110ad 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -63,6 +63,8 @@ bool HsmEventDispatcherGLib::deleteSafe() {
 bool HsmEventDispatcherGLib::start() {
     HSM_TRACE_CALL_DEBUG();
     bool result = false;
+    // NOTE: dispatcher could be started and stopped by several threads
+    std::lock_guard<std::mutex> lck(mPipeSync);
 
     mStopDispatcher = false;
 
@@ -121,6 +123,9 @@ void HsmEventDispatcherGLib::stop() {
     unregisterAllTimerHandlers();
     unregisterAllEventHandlers();
 
+    // NOTE: pipe could be used by other threads
+    std::lock_guard<std::mutex> lck(mPipeSync);
+
     if (nullptr != mIoSource) {
         g_source_destroy(mIoSource);
         g_source_unref(mIoSource);
@@ -128,9 +133,6 @@ void HsmEventDispatcherGLib::stop() {
     }
 
     if (nullptr != mReadChannel) {
-        // NOTE: pipe could be used by other threads
-        std::lock_guard<std::mutex> lck(mPipeSync);
-
         g_io_channel_unref(mReadChannel);
         mReadChannel = nullptr;
         close(mPipeFD[0]);
-- 
2.43.0


From 28033ee7f0613d0a5aa95b277bb36d5b385ac654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 42/57] fix: scxml2gen failed to process xi:include elements
 which are children of the root element

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index aaa3a73..bf1378e 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -206,7 +206,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         if ('id' in parentElement.attrib) and (xmlFind(parentElement, "state") is None) and (len(list(xmlFindAll(parentElement, "include"))) == 1):
                             newPrefix += parentElement.attrib['id'] + "__"
                         else:
-                            print(f"WARNING: parent state({parentElement.attrib['id']}) of xi:include has other child states. State names will not be prefixed")
+                            print(f"WARNING: parent state({parentElement.attrib.get('id', '')}) of xi:include has other child states. State names will not be prefixed")
                         subScxml = parseScxml(includePath, newPrefix)
 
                         if subScxml is not None:
-- 
2.43.0


From e1d973fb540fc0241c397fbd5572c5a2b3ec9e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 43/57] fix: scxml2gen generated invalid code for default
 targets of history states

---
 tools/scxml2gen/scxml2gen.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index bf1378e..e4d4f01 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -566,6 +566,7 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                             historyType = ""
                             defaultTarget = ""
                             historyCallback = ""
+                            historyTemplate = ""
 
                             if "history_type" in curSubstate:
                                 if curSubstate["history_type"] == "deep":
@@ -575,14 +576,15 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
 
                             if ('transitions' in curSubstate) and (len(curSubstate['transitions']) > 0):
                                 defaultTransition = curSubstate['transitions'][0]
-                                defaultTarget = f", {getStateEnumValue(genVars, defaultTransition['target'])})"
+                                defaultTarget = f", {getStateEnumValue(genVars, defaultTransition['target'])}"
                                 if 'callback' in defaultTransition:
                                     if defaultTransition['callback'] not in definedCallbacks:
                                         genVars["HSM_TRANSITION_ACTIONS"].add(prepareHsmcppTransitionCallbackDeclaration(defaultTransition['callback']))
                                         definedCallbacks.append(defaultTransition['callback'])
-                                    historyCallback += f", &{genVars['CLASS_NAME']}::{defaultTransition['callback']}"
+                                    historyTemplate = f"<{genVars['CLASS_NAME']}>"
+                                    historyCallback += f", this, &{genVars['CLASS_NAME']}::{defaultTransition['callback']}"
 
-                            genVars["REGISTER_SUBSTATES"].append(f"registerHistory({getStateEnumValue(genVars, curState['id'])}, " +
+                            genVars["REGISTER_SUBSTATES"].append(f"registerHistory{historyTemplate}({getStateEnumValue(genVars, curState['id'])}, " +
                                                                  f"{getStateEnumValue(genVars, curSubstate['id'])}, " +
                                                                  f"{historyType}" +
                                                                  f"{defaultTarget}" +
-- 
2.43.0


From 94d4fc6f6029d4771de7f99fcb9c29cb139223f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 44/57] fix: scxml2gen ignored default transitions of history
 states which have no event

---
 tools/scxml2gen/scxml2gen.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index e4d4f01..171605a 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -252,9 +252,11 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["actions"] = actions
 
                     for curTransition in xmlFindAll(curState, "transition"):
-                        if "event" in curTransition.attrib:
-                            newTransition = {"event": curTransition.attrib["event"]}
-                            validateIdentifier(newTransition["event"])
+                        # default transitions of history states are not triggered by events
+                        if ("event" in curTransition.attrib) or (newState["type"] == STATETYPE_HISTORY):
+                            newTransition = {"event": curTransition.attrib.get("event", "")}
+                            if len(newTransition["event"]) > 0:
+                                validateIdentifier(newTransition["event"])
 
                             if "target" in curTransition.attrib:
                                 newTransition["target"] = namePrefix + curTransition.attrib["target"]
-- 
2.43.0


From 33ea2bf1bf1bd062004d6f40e0849719c44a4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 45/57] fix: scxml2gen didn't generate events which are used
 only by final states or by actions

---
 tools/scxml2gen/scxml2gen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 171605a..f1836f9 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -659,6 +659,8 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                     for curAction in curState['actions'][actionTrigger]:
                         if '_timer' in curAction['action']:
                             genVars["ENUM_TIMERS_ITEM"].add(curAction['args'][0])
+                        else:
+                            genVars["ENUM_EVENTS_ITEM"].add(curAction['args'][0])
                         stateId = f"{getStateEnumValue(genVars, curState['id'])}"
                         genVars["REGISTER_ACTIONS"].append(prepareRegisterActionFunction(stateId,
                                                                                          genVars['ENUM_EVENTS'],
@@ -674,6 +676,7 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
             if (curState["type"] != STATETYPE_HISTORY):
                 if curState["type"] == STATETYPE_FINAL:
                     if "final_event" in curState:
+                        genVars["ENUM_EVENTS_ITEM"].add(curState['final_event'])
                         finalEventID = f"{getEventEnumValue(genVars, curState['final_event'])}"
                     else:
                         finalEventID = "hsmcpp::INVALID_HSM_EVENT_ID"
-- 
2.43.0


From 8f103c3f092e0552fcf569ce1c8f56ec66edaecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 46/57] fix: scxml2gen treated history states of parallel
 states as regular substates

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index f1836f9..8a3361d 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -232,7 +232,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["type"] = STATETYPE_HISTORY
                         newState["history_type"] = curState.attrib["type"]
 
-                    if (getTag(parentElement.tag) == "parallel") or (newState['id'] in initialStates):
+                    if (newState["type"] != STATETYPE_HISTORY) and ((getTag(parentElement.tag) == "parallel") or (newState['id'] in initialStates)):
                         newState["type"] = STATETYPE_INITIAL
                         if newState['id'] in initialStatesTransitions:
                             newState["initial_state_transitions"] = initialStatesTransitions[newState['id']]
-- 
2.43.0


From 21e75c3338c3d4f02db0ab4c503c2c08efebfb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 47/57] fix: scxml2gen treated final states which are entry
 points as regular states

---
 tools/scxml2gen/scxml2gen.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 8a3361d..f8bbdfa 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -117,6 +117,10 @@ def getStateActions(elem):
     return actions
 
 
+def isEntryPoint(state):
+    return (state["type"] == STATETYPE_INITIAL) or ("entry_point" in state)
+
+
 def getStateEnumValue(genVars, name):
     return f"{genVars['ENUM_STATES']}::{name}"
 
@@ -233,7 +237,9 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["history_type"] = curState.attrib["type"]
 
                     if (newState["type"] != STATETYPE_HISTORY) and ((getTag(parentElement.tag) == "parallel") or (newState['id'] in initialStates)):
-                        newState["type"] = STATETYPE_INITIAL
+                        newState["entry_point"] = True
+                        if newState["type"] != STATETYPE_FINAL:
+                            newState["type"] = STATETYPE_INITIAL
                         if newState['id'] in initialStatesTransitions:
                             newState["initial_state_transitions"] = initialStatesTransitions[newState['id']]
 
@@ -593,7 +599,7 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                                                                  f"{historyCallback});")
                         else:
                             registerSubstateFunc = "registerSubstate"
-                            isInitialState = (curSubstate["type"] == STATETYPE_INITIAL)
+                            isInitialState = isEntryPoint(curSubstate)
                             initialStateConditions = []
 
                             if genEntryPoint is True:
@@ -867,7 +873,7 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
 
     # -----------------------------------
     # handle initial states
-    if stateData["type"] == STATETYPE_INITIAL:
+    if isEntryPoint(stateData):
         condition = ""
         highlightEntryTransition = ""
         entryTransitionArgs = ""
-- 
2.43.0


From 56381583525537400288e4b781d021b03b953669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 48/57] fix: scxml2gen ignored substates of states which have
 only final or history states

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index f8bbdfa..3d9abf8 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -287,7 +287,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         else:
                             print(f"WARNING: transition without event was skipped because it's not supported by hsmcpp\n{dumpXmlElement(curTransition)}")
 
-                    for nodeName in nodesWithChildren:
+                    for nodeName in stateNodes:
                         if (xmlFind(curState, nodeName) is not None) or ('src' in curState.attrib):
                             newState["states"] = parseScxmlStates(curState, rootDir, namePrefix)
                             break
-- 
2.43.0


From b537c495bb192532735a3b0be0347910fcfeae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 49/57] fix: scxml2gen ignored unconditional entry transitions
 of states which also have conditional ones

---
 tools/scxml2gen/scxml2gen.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 3d9abf8..f8b12eb 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -169,17 +169,16 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                     initialStateName = namePrefix + initialTransition.attrib["target"]
                     initialStates.append(initialStateName)
 
-                    if any(value in initialTransition.attrib for value in ["event", "cond"]):
-                        transitionInfo = {}
+                    transitionInfo = {}
 
-                        if "event" in initialTransition.attrib:
-                            transitionInfo["event"] = initialTransition.attrib["event"]
-                        if "cond" in initialTransition.attrib:
-                            transitionInfo["condition"] = getCallbackName(initialTransition)
+                    if "event" in initialTransition.attrib:
+                        transitionInfo["event"] = initialTransition.attrib["event"]
+                    if "cond" in initialTransition.attrib:
+                        transitionInfo["condition"] = getCallbackName(initialTransition)
 
-                        if initialStateName not in initialStatesTransitions:
-                            initialStatesTransitions[initialStateName] = []
-                        initialStatesTransitions[initialStateName].append(transitionInfo)
+                    if initialStateName not in initialStatesTransitions:
+                        initialStatesTransitions[initialStateName] = []
+                    initialStatesTransitions[initialStateName].append(transitionInfo)
 
             if len(initialStates) == 0:
                 print(f"ERROR: <initial> element doesn't have transition defined or that transition "
@@ -884,7 +883,7 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
 
         for currentEntryTransition in initialTransitions:
             condition = ""
-            if currentEntryTransition is not None:
+            if currentEntryTransition:
                 condition = " : "
                 if 'event' in currentEntryTransition:
                     condition += currentEntryTransition['event']
-- 
2.43.0


From 12b8a0de49c3fd0de3d4b2c287ed6a493724d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 50/57] fix: scxml2gen changed text arguments of actions which
 contain commas

---
 tools/scxml2gen/scxml2gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index f8b12eb..a9e0507 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -25,7 +25,8 @@ def isStateActionDefinition(identifier):
     if m is not None:
         isAction = True
         actionFunc = m.group(1).strip(' \r\n\t')
-        actionArgs = m.group(2).strip(' \r\n\t').split(',')
+        # commas inside of string literals don't separate arguments
+        actionArgs = re.findall(r'(?:"(?:\\.|[^"\\])*"|[^",])+|(?<=,)(?=,|$)', m.group(2).strip(' \r\n\t'))
     return (isAction, actionFunc, actionArgs)
 
 
-- 
2.43.0


From 49812dd0c14f92081fd22d913728ffebe950a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 51/57] fix: scxml2gen could attach states to a wrong parent in
 PlantUML diagrams

---
 tools/scxml2gen/scxml2gen.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index a9e0507..8c7fd09 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -811,8 +811,11 @@ def generateStatesList(states, level):
 
     for curState in states:
         if curState["type"] not in [STATETYPE_HISTORY, STATETYPE_FINAL]:
-            statesList += f"{offset}state {curState['id']}\n"
-    statesList += "\n"
+            statesList += f"{offset}state {curState['id']}"
+            if "states" in curState:
+                # states belong to the block in which they are mentioned first, so it's necessary to declare them before describing any transitions
+                statesList += " {\n" + generateStatesList(curState["states"], level + 1) + f"{offset}}}"
+            statesList += "\n"
     return statesList
 
 
@@ -908,8 +911,6 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
     # handle substates
     if "states" in stateData:
         plantumlState += f"\n{offset}state {stateData['id']} {{\n"
-        plantumlState += generateStatesList(stateData['states'], level + 1)
-
         for substate in stateData["states"]:
             (substatePlantuml, substateFinalStates) = generatePlantumlState(hsm, substate, level + 1, highlight)
             plantumlState += substatePlantuml
@@ -1062,7 +1063,7 @@ def generatePlantumlInMemory(hsm, left2right=False, highlight=None):
         plantuml += "left to right direction\n\n"
     finalStates = []
 
-    plantuml += generateStatesList(hsm, 0)
+    plantuml += generateStatesList(hsm, 0) + "\n"
 
     for curState in hsm:
         (statePlantuml, stateFinalStates) = generatePlantumlState(hsm, curState, 0, highlight)
-- 
2.43.0


From 65483ab27ff36bea1f0fb28619ca34942d2f9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 52/57] fix: scxml2gen could draw final states in a wrong place
 or instead of other states in PlantUML diagrams

---
 tools/scxml2gen/scxml2gen.py | 54 +++++++++++++++---------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 8c7fd09..9878ca8 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -755,13 +755,17 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
 
 # ==========================================================================================================
 # Plantuml generation
-def getHistoryStateName(state):
+def getDiagramStateName(state):
     stateName = ""
     if state["type"] == STATETYPE_HISTORY:
         if ('history_type' in state) and (state['history_type'] == 'deep'):
             stateName = "[H*]"
         else:
             stateName = "[H]"
+    elif state["type"] == STATETYPE_FINAL:
+        stateName = "[*]"
+    else:
+        stateName = state["id"]
     return stateName
 
 
@@ -795,14 +799,14 @@ def findTranstitions(topLevelState, targetStateId):
     return transitions
 
 
-def isHistoryState(topLevelState, stateId):
+def isPseudoState(topLevelState, stateId):
     state = findState(topLevelState, stateId)
     if state is not None:
-        is_history = (state["type"] == STATETYPE_HISTORY)
+        is_pseudo = (state["type"] in [STATETYPE_HISTORY, STATETYPE_FINAL])
     else:
-        is_history = False
+        is_pseudo = False
 
-    return is_history
+    return is_pseudo
 
 
 def generateStatesList(states, level):
@@ -856,7 +860,6 @@ def preparePlantumlTransition(offset, fromState, toState, curTransition, highlig
 #                               "state_3": {"from": "", "event": "event_self", "args": [...]}, ...}}           # entry
 def generatePlantumlState(hsm, stateData, level, highlight=None):
     plantumlState = ""
-    finalStates = []
     offset = generateOffset(level * 4)
 
     # -----------------------------------
@@ -903,7 +906,7 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
                     if "args" in highlightEntryTransitionInfo:
                         entryTransitionArgs = highlightEntryTransitionInfo['args']
 
-            plantumlState += f"{generateOffset(level * 4)}[*] -{highlightEntryTransition}-> {stateData['id']}{condition}\n"
+            plantumlState += f"{generateOffset(level * 4)}[*] -{highlightEntryTransition}-> {getDiagramStateName(stateData)}{condition}\n"
             if entryTransitionArgs and len(entryTransitionArgs) > 0:
                 plantumlState += f"{offset}note on link\n{offset}  **Arguments:**\n\n{offset}  {entryTransitionArgs}\n{offset}end note\n"
 
@@ -912,13 +915,9 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
     if "states" in stateData:
         plantumlState += f"\n{offset}state {stateData['id']} {{\n"
         for substate in stateData["states"]:
-            (substatePlantuml, substateFinalStates) = generatePlantumlState(hsm, substate, level + 1, highlight)
-            plantumlState += substatePlantuml
-            finalStates += substateFinalStates
+            plantumlState += generatePlantumlState(hsm, substate, level + 1, highlight)
         plantumlState += f"{offset}}}\n\n"
-    elif stateData["type"] == STATETYPE_FINAL:
-        finalStates = [stateData['id']]
-    else:
+    elif stateData["type"] != STATETYPE_FINAL:
         highlightOnEntryGroup = ""
         highlightOnEntry = ""
         highlightOnEntryActions = ""
@@ -1026,17 +1025,17 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
 
     # -----------------------------------
     # handle transitions
-    if stateData["type"] == STATETYPE_HISTORY:
-        historyTransitions = findTranstitions(hsm, stateData['id'])
+    if stateData["type"] in [STATETYPE_HISTORY, STATETYPE_FINAL]:
+        incomingTransitions = findTranstitions(hsm, stateData['id'])
 
-        # render incomming history transitions
-        for fromState in historyTransitions:
-            for curTransition in historyTransitions[fromState]:
+        # transitions to history and final states must be rendered inside of their parent
+        for fromState in incomingTransitions:
+            for curTransition in incomingTransitions[fromState]:
                 (highlightTransition, highlightTransitionEvent, transitionArgs) = prepareTransitionHighlight(highlight,
                                                                                                              highlightColorActive,
                                                                                                              findState(hsm, fromState),
                                                                                                              curTransition)
-                plantumlState += preparePlantumlTransition(offset, fromState, getHistoryStateName(stateData),
+                plantumlState += preparePlantumlTransition(offset, getDiagramStateName(findState(hsm, fromState)), getDiagramStateName(stateData),
                                                            curTransition, highlightTransition, highlightTransitionEvent)
 
     for curTransition in stateData["transitions"]:
@@ -1045,33 +1044,24 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
                                                                                                      stateData,
                                                                                                      curTransition)
         # render transition
-        if stateData["type"] == STATETYPE_HISTORY:
-            plantumlState += preparePlantumlTransition(offset, getHistoryStateName(stateData), curTransition['target'],
-                                                       curTransition, highlightTransition, highlightTransitionEvent)
-        elif isHistoryState(hsm, curTransition['target']) is False:
-            plantumlState += preparePlantumlTransition(offset, stateData['id'], curTransition['target'],
+        if isPseudoState(hsm, curTransition['target']) is False:
+            plantumlState += preparePlantumlTransition(offset, getDiagramStateName(stateData), curTransition['target'],
                                                        curTransition, highlightTransition, highlightTransitionEvent)
 
         if transitionArgs and len(transitionArgs) > 0:
             plantumlState += f"{offset}note on link\n{offset}  **Arguments:**\n\n{offset}  {transitionArgs}\n{offset}end note\n"
-    return (plantumlState, finalStates)
+    return plantumlState
 
 
 def generatePlantumlInMemory(hsm, left2right=False, highlight=None):
     plantuml = "@startuml\n\n"
     if left2right is True:
         plantuml += "left to right direction\n\n"
-    finalStates = []
 
     plantuml += generateStatesList(hsm, 0) + "\n"
 
     for curState in hsm:
-        (statePlantuml, stateFinalStates) = generatePlantumlState(hsm, curState, 0, highlight)
-        plantuml += statePlantuml
-        finalStates += stateFinalStates
-
-    for finalID in finalStates:
-        plantuml = plantuml.replace(f"--> {finalID}", "--> [*]")
+        plantuml += generatePlantumlState(hsm, curState, 0, highlight)
 
     plantuml += "\n@enduml"
     return plantuml
-- 
2.43.0


From 5c4fb99bd58c2e02ba9ee44174ac3fbb6d6e06a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 53/57] fix: variant reads released memory when it's assigned a
 part of its own value

---
 include/hsmcpp/variant.hpp |  2 +-
 src/variant.cpp            | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 41697c8..151d884 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -864,7 +864,7 @@ Variant::Variant(const T& v, const Type t) {
 
 template <typename T>
 void Variant::assign(const T& v, const Type t) {
-    freeMemory();
+    // NOTE: v could be a part of our current value, so it must be copied before current value is released
     createMemoryAllocator<T>();
     type = t;
     data = memoryAllocator(&v);
diff --git a/src/variant.cpp b/src/variant.cpp
index a249742..eb0ac77 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -131,10 +131,13 @@ Variant& Variant::operator=(const char* v) {
 Variant& Variant::operator=(const Variant& v) {
     if (false == isSameObject(v)) {
         if ((Type::UNKNOWN != v.type) && (v.memoryAllocator)) {
-            data = v.memoryAllocator(v.data.get());
+            // NOTE: v could be a part of our current value, so it must be released last
+            std::shared_ptr<void> newData = v.memoryAllocator(v.data.get());
+
             type = v.type;
             memoryAllocator = v.memoryAllocator;
             compareOperator = v.compareOperator;
+            data = std::move(newData);
         } else {
             freeMemory();
         }
@@ -145,12 +148,14 @@ Variant& Variant::operator=(const Variant& v) {
 
 Variant& Variant::operator=(Variant&& v) noexcept {
     if (false == isSameObject(v)) {
-        data = std::move(v.data);
+        // NOTE: v could be a part of our current value, so it must be released last
+        std::shared_ptr<void> newData = std::move(v.data);
+
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
         compareOperator = std::move(v.compareOperator);
-
         v.type = Type::UNKNOWN;
+        data = std::move(newData);
     }
 
     return *this;
-- 
2.43.0


From 206d6a8284275885719b5a2919a384b7b5180747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 54/57] fix: comparing variants with different custom types
 treats one of them as the other

---
 include/hsmcpp/variant.hpp | 5 +++--
 src/variant.cpp            | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 151d884..2d8813c 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -89,7 +89,8 @@ private:
      */
     // using MemoryHandlerFunc_t = std::function<void*(void*, const bool)>;
     using MemoryAllocatorFunc_t = std::function<std::shared_ptr<void>(const void*)>;
-    using CompareFunc_t = std::function<int(const void*, const void*)>;
+    // NOTE: plain function pointer allows to distinguish between different custom types
+    using CompareFunc_t = int (*)(const void*, const void*);
 
 public:
     /**
@@ -674,7 +675,7 @@ private:
     Type type = Type::UNKNOWN;
     std::shared_ptr<void> data;
     MemoryAllocatorFunc_t memoryAllocator;
-    CompareFunc_t compareOperator;
+    CompareFunc_t compareOperator = nullptr;
 };
 
 template <typename T>
diff --git a/src/variant.cpp b/src/variant.cpp
index eb0ac77..70eb45c 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -153,7 +153,7 @@ Variant& Variant::operator=(Variant&& v) noexcept {
 
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
-        compareOperator = std::move(v.compareOperator);
+        compareOperator = v.compareOperator;
         v.type = Type::UNKNOWN;
         data = std::move(newData);
     }
@@ -182,7 +182,7 @@ bool Variant::operator>(const Variant& val) const {
             } else {
                 isGreater = toInt64() > val.toInt64();
             }
-        } else if (type == val.type) {
+        } else if ((type == val.type) && (compareOperator == val.compareOperator)) {
             isGreater = (1 == compareOperator(data.get(), val.data.get()));
         } else {
             // do nothing
@@ -220,7 +220,7 @@ bool Variant::operator==(const Variant& val) const {
                 } else {
                     equal = (toInt64() == val.toInt64());
                 }
-            } else if (val.type == type) {
+            } else if ((val.type == type) && (compareOperator == val.compareOperator)) {
                 equal = (0 == compareOperator(data.get(), val.data.get()));
             } else {
                 // do nothing
-- 
2.43.0


From 47a0c7c320336063ab790cf8d8c974154fec7270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 55/57] fix: variants compare numbers of different signedness,
 width and infinity incorrectly

---
 include/hsmcpp/variant.hpp |  3 ++
 src/variant.cpp            | 69 ++++++++++++++++++++++++++++----------
 2 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 2d8813c..3576571 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -660,6 +660,9 @@ private:
 
     bool isSameObject(const Variant& val) const;
 
+    long double toLongDouble() const;
+    int compareNumbers(const Variant& val) const;
+
     template <typename T>
     void assign(const T& v, const Type t);
 
diff --git a/src/variant.cpp b/src/variant.cpp
index 70eb45c..34e864b 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -3,6 +3,7 @@
 
 #include "hsmcpp/variant.hpp"
 
+#include <cmath>
 #include <cstring>
 
 #include "hsmcpp/os/os.hpp"
@@ -175,13 +176,7 @@ bool Variant::operator>(const Variant& val) const {
 
     if ((data != val.data) && (data) && (val.data)) {
         if (isNumeric() && val.isNumeric()) {
-            if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
-                isGreater = toDouble() > val.toDouble();
-            } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
-                isGreater = toUInt64() > val.toUInt64();
-            } else {
-                isGreater = toInt64() > val.toInt64();
-            }
+            isGreater = (1 == compareNumbers(val));
         } else if ((type == val.type) && (compareOperator == val.compareOperator)) {
             isGreater = (1 == compareOperator(data.get(), val.data.get()));
         } else {
@@ -205,21 +200,12 @@ bool Variant::operator<=(const Variant& val) const {
 }
 
 bool Variant::operator==(const Variant& val) const {
-    constexpr double comparePrecision = 0.00000001;
     bool equal = false;
 
     if (data != val.data) {
         if ((data) && (val.data)) {
             if (isNumeric() && val.isNumeric()) {
-                if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
-                    // compare with precision for double
-                    // cppcheck-suppress misra-c2012-10.4 : false positive. both operands have type double
-                    equal = (std::abs(toDouble() - val.toDouble()) < comparePrecision);
-                } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
-                    equal = (toUInt64() == val.toUInt64());
-                } else {
-                    equal = (toInt64() == val.toInt64());
-                }
+                equal = (0 == compareNumbers(val));
             } else if ((val.type == type) && (compareOperator == val.compareOperator)) {
                 equal = (0 == compareOperator(data.get(), val.data.get()));
             } else {
@@ -779,6 +765,55 @@ std::shared_ptr<VariantPair_t> Variant::getPair() const {
     return result;
 }
 
+long double Variant::toLongDouble() const {
+    long double result = 0.0L;
+
+    if (Type::DOUBLE == type) {
+        result = *value<double>();
+    } else if (isUnsignedNumeric()) {
+        result = static_cast<long double>(toUInt64());
+    } else {
+        result = static_cast<long double>(toInt64());
+    }
+
+    return result;
+}
+
+int Variant::compareNumbers(const Variant& val) const {
+    constexpr long double comparePrecision = 0.00000001L;
+    int res = -1;
+
+    if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
+        const long double left = toLongDouble();
+        const long double right = val.toLongDouble();
+
+        // compare with precision for double (infinity is only equal to itself)
+        if ((left == right) || (std::abs(left - right) < comparePrecision)) {
+            res = 0;
+        } else if (left > right) {
+            res = 1;
+        } else {
+            // do nothing
+        }
+    } else {
+        const bool isNegative = isSignedNumeric() && (toInt64() < 0);
+        const bool isValNegative = val.isSignedNumeric() && (val.toInt64() < 0);
+
+        if (isNegative != isValNegative) {
+            res = (isValNegative ? 1 : -1);
+        } else if (toUInt64() == val.toUInt64()) {
+            res = 0;
+        } else if (toUInt64() > val.toUInt64()) {
+            // NOTE: order of negative values is preserved when they are converted to unsigned
+            res = 1;
+        } else {
+            // do nothing
+        }
+    }
+
+    return res;
+}
+
 bool Variant::isSameObject(const Variant& val) const {
     return ((val.data.get() == data.get()) && data);
 }
-- 
2.43.0


From 36660aab6e17006f769a3e82f491a11f1eee1272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 56/57] fix: variants of different types are less than each
 other, so that they can't be used as map keys

---
 include/hsmcpp/variant.hpp | 11 ++++++-----
 src/variant.cpp            | 15 +++++++++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 3576571..5b36c93 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -615,10 +615,11 @@ public:
 
     /**
      * @brief Checks if this Variant object is greater than another Variant object.
-     * @details Operator only compares variants of the same type. Comparing logic depends on the underlying type:
-     *  \li numeric, bool or string values are compared using standard operator >
-     *  \li vector or list values are compared by size (A.size() > B.size())
-     *  \li other types are not supported and false is always returned
+     * @details Comparing logic depends on the underlying type:
+     *  \li numeric values are compared by value (even if their types are different)
+     *  \li values of the same type are compared using operator > of the stored type
+     *  \li values of different types have a fixed order which is defined by their Type (empty variants are always the smallest).
+     *  This makes it possible to use variants of different types as keys of a map.
      *
      * @param val The Variant object to compare to.
      * @return true if this object is greater than val, false otherwise.
@@ -636,7 +637,7 @@ public:
 
     /**
      * @brief Checks if this Variant object is less than another Variant object.
-     * @details Impelemented using operator!=() and operator>().
+     * @details Impelemented using operator>().
      *
      * @param val The Variant object to compare to.
      * @return true if this object is less than val, false otherwise.
diff --git a/src/variant.cpp b/src/variant.cpp
index 34e864b..a385068 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -174,13 +174,20 @@ bool Variant::operator!=(const Variant& val) const {
 bool Variant::operator>(const Variant& val) const {
     bool isGreater = false;
 
-    if ((data != val.data) && (data) && (val.data)) {
+    if (data != val.data) {
         if (isNumeric() && val.isNumeric()) {
             isGreater = (1 == compareNumbers(val));
         } else if ((type == val.type) && (compareOperator == val.compareOperator)) {
             isGreater = (1 == compareOperator(data.get(), val.data.get()));
+        } else if (type == val.type) {
+            // different custom types
+            isGreater = std::less<CompareFunc_t>()(val.compareOperator, compareOperator);
         } else {
-            // do nothing
+            // all numeric types share the same place in the order
+            const Type left = (isNumeric() ? Type::BYTE_1 : type);
+            const Type right = (val.isNumeric() ? Type::BYTE_1 : val.type);
+
+            isGreater = (left > right);
         }
     }
 
@@ -192,11 +199,11 @@ bool Variant::operator>=(const Variant& val) const {
 }
 
 bool Variant::operator<(const Variant& val) const {
-    return (*this != val) && !(*this > val);
+    return (val > *this);
 }
 
 bool Variant::operator<=(const Variant& val) const {
-    return (*this == val) || !(*this > val);
+    return (*this == val) || (val > *this);
 }
 
 bool Variant::operator==(const Variant& val) const {
-- 
2.43.0


From a0ae61bda6b16f63ef7dec8ef8cae7eb50c5ddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 57/57] fix: fractional and big numbers are converted to a
 wrong bool

---
 src/variant.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index a385068..b681a36 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -621,7 +621,9 @@ bool Variant::toBool() const {
 
         if (strValue != "true") {
             HSM_TRY {
-                result = (0 != std::stoll(strValue));
+                const double number = std::stod(strValue);
+
+                result = ((number > 0.0) || (number < 0.0));
             }
             HSM_CATCH(...) {
                 // return empty value
@@ -629,6 +631,8 @@ bool Variant::toBool() const {
         } else {
             result = true;
         }
+    } else if (Type::DOUBLE == type) {
+        result = ((toDouble() > 0.0) || (toDouble() < 0.0));
     } else {
         result = (0 != toInt64());
     }
-- 
2.43.0

