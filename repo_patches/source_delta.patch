From 6ebc4d2a134312f7c366358d835ef18f7352fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 01/49] fix: process updates of equal priority and level in
 request order

---
 src/runtime.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 7c6a91e..dcf2e75 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -611,7 +611,10 @@ function compareUpdates(update1: Update, update2: Update): number {
   }
   const level1 = update1.transaction.scope.level;
   const level2 = update2.transaction.scope.level;
-  return level1 - level2;
+  if (level1 !== level2) {
+    return level1 - level2;
+  }
+  return update1.id - update2.id;
 }
 
 function runPipeline(
-- 
2.43.0


From d6401e887fbb855b618cfbd08b4d967f41d132cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 02/49] fix: do not strand staged updates behind an unstaged
 update of higher priority

---
 src/runtime.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index dcf2e75..ae4d68e 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -277,7 +277,15 @@ export class Runtime implements Renderer, Dispatcher {
       transaction,
     });
 
-    if (((this._pendingLanes | this._stagedLanes) & lanes) !== lanes) {
+    // Staged lanes are only certain to be processed while a flush is running.
+    // Otherwise they may be left over from a flush that stopped at an update of
+    // higher priority which is not staged yet.
+    const requestedLanes =
+      this._flushLanes !== NoLanes
+        ? this._pendingLanes | this._stagedLanes
+        : this._pendingLanes;
+
+    if ((requestedLanes & lanes) !== lanes) {
       const callback = () => {
         this._pendingLanes &= ~lanes;
         this._stagedLanes |= lanes;
@@ -578,7 +586,11 @@ export class Runtime implements Renderer, Dispatcher {
       }
     }
 
-    this._stagedLanes = NoLanes;
+    // Keep the lanes staged while there are deferred updates, otherwise staged
+    // updates behind them would never be processed.
+    if (this._updateQueue.peek() === undefined) {
+      this._stagedLanes = NoLanes;
+    }
   }
 }
 
-- 
2.43.0


From 3dbfc7fde9323bcd0037aa9546beb88624d6ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 03/49] fix: compare keys with Object.is when committing, as
 when diffing

---
 src/commit.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commit.ts b/src/commit.ts
index 125c7e2..669b98f 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -4,6 +4,7 @@ import {
   type RenderNode,
   type RenderRoot,
 } from './base.js';
+import { is } from './compare.js';
 
 export function mount(node: RenderNode): void {
   mountChild(node, null);
@@ -41,7 +42,7 @@ function applyPatch(
     reparentChild(oldNode, index, parent);
     return;
   }
-  if (oldNode.type !== newNode.type || oldNode.key !== newNode.key) {
+  if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
     unmountChild(oldNode);
     mountChild(newNode, getSiblingDOMNode(newNode));
   } else if (newNode.type === Bind) {
-- 
2.43.0


From e0ae03f08633555c0f77b6f469d305b9e1a8421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 04/49] fix: reset an attribute to the empty string when bound
 to true

---
 src/dom/part.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index dd78029..f6c90ac 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -55,10 +55,10 @@ export class AttributePart extends DOMPart {
   }
 
   override commitMount(value: unknown): void {
-    if (value == null) {
+    if (value == null || value === false) {
       this._node.removeAttribute(this._name);
-    } else if (typeof value === 'boolean') {
-      this._node.toggleAttribute(this._name, value);
+    } else if (value === true) {
+      this._node.setAttribute(this._name, '');
     } else {
       this._node.setAttribute(this._name, toStringOrEmpty(value));
     }
-- 
2.43.0


From d152cf8e807c0a5364bc3aafd0392f4b1e82f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 05/49] fix: keep children of a component committed until its
 update commits

Other updates of the same batch look up DOM nodes through the children of
their siblings, and must not see nodes that are not mounted yet.
---
 src/component.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index 1153477..7256aca 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -509,9 +509,16 @@ class UpdateComponent implements Transaction {
     }
     const subScope = node.state.scope.enter(node.type);
     const newElement = node.state.instance.render(node.props, subScope, lanes);
-    node.left = [renderer.diff(node.right[0]!, newElement, subScope, 0, node)];
+    const newChild = renderer.diff(
+      node.right[0]!,
+      newElement,
+      subScope,
+      0,
+      node,
+    );
     return () => {
       if (node.parent !== null) {
+        node.left = [newChild];
         patch(node.right[0]!, node.left[0]!);
         node.state.instance.connect(node);
         node.right = node.left;
-- 
2.43.0


From bf305bac98124164ae783dce10a36d5869937d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 06/49] fix: place children of fragments before nodes that are
 in place

A mutation used its following sibling as the reference, which may have no
DOM nodes of its own, may not be mounted yet, or may be moved later. This
left children in wrong order, moved blocks before themselves, or threw
NotFoundError. Looking up the reference also took exponential time in the
number of consecutive children without DOM nodes.
---
 src/base.ts    |   2 -
 src/commit.ts  | 114 +++++++++++++++++++++++++++++++------------------
 src/runtime.ts |   5 ---
 3 files changed, 73 insertions(+), 48 deletions(-)

diff --git a/src/base.ts b/src/base.ts
index 7803f46..d49d64e 100644
--- a/src/base.ts
+++ b/src/base.ts
@@ -77,7 +77,6 @@ export type Mutation =
   | {
       type: MutationType.INSERT;
       node: RenderNode;
-      afterNode: RenderNode | undefined;
     }
   | {
       type: MutationType.UPDATE;
@@ -89,7 +88,6 @@ export type Mutation =
       type: MutationType.UPDATE_AND_MOVE;
       oldNode: RenderNode;
       newNode: RenderNode;
-      afterNode: RenderNode | undefined;
       index: number;
     }
   | {
diff --git a/src/commit.ts b/src/commit.ts
index 669b98f..bd2eec3 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -1,11 +1,15 @@
 import {
   Bind,
+  type Mutation,
   MutationType,
   type RenderNode,
   type RenderRoot,
 } from './base.js';
 import { is } from './compare.js';
 
+// Children of fragments being patched that are not in their new place yet.
+const UNPLACED_NODES = new WeakSet<RenderNode>();
+
 export function mount(node: RenderNode): void {
   mountChild(node, null);
   afterCommit(node);
@@ -59,70 +63,98 @@ function applyPatch(
   } else if (typeof newNode.type === 'function') {
     applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode);
   } else {
-    for (const mutation of newNode.state.mutations.splice(0)) {
-      switch (mutation.type) {
-        case MutationType.INSERT:
-          mountChild(
-            mutation.node,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
-          break;
-        case MutationType.UPDATE:
-          applyPatch(
-            mutation.oldNode,
-            mutation.newNode,
-            mutation.index,
-            newNode,
-          );
-          break;
-        case MutationType.UPDATE_AND_MOVE:
-          applyPatch(
-            mutation.oldNode,
-            mutation.newNode,
-            mutation.index,
-            newNode,
-          );
-          moveChild(
-            mutation.newNode,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
-          break;
-        case MutationType.REMOVE:
-          unmountChild(mutation.node);
-          break;
+    applyMutations(newNode, newNode.state.mutations.splice(0));
+  }
+}
+
+function applyMutations(
+  parent: RenderNode.FragmentNode,
+  mutations: Mutation[],
+): void {
+  const children = parent.left;
+  const placements: Exclude<Mutation, { type: MutationType.REMOVE }>[] = [];
+  const afterDOMNodes: (ChildNode | null)[] = [];
+
+  for (const mutation of mutations) {
+    switch (mutation.type) {
+      case MutationType.INSERT:
+        placements[mutation.node.index] = mutation;
+        UNPLACED_NODES.add(mutation.node);
+        break;
+      case MutationType.UPDATE:
+        placements[mutation.index] = mutation;
+        if (mutation.oldNode.type !== mutation.newNode.type) {
+          UNPLACED_NODES.add(mutation.newNode);
+        }
+        break;
+      case MutationType.UPDATE_AND_MOVE:
+        placements[mutation.index] = mutation;
+        UNPLACED_NODES.add(mutation.newNode);
+        break;
+      case MutationType.REMOVE:
+        unmountChild(mutation.node);
+        break;
+    }
+  }
+
+  for (
+    let i = placements.length - 1, afterDOMNode = getSiblingDOMNode(parent);
+    i >= 0;
+    i--
+  ) {
+    afterDOMNodes[i] = afterDOMNode;
+    if (!UNPLACED_NODES.has(children[i]!)) {
+      afterDOMNode = getFirstDOMNode(children[i]!) ?? afterDOMNode;
+    }
+  }
+
+  for (let i = 0, l = placements.length; i < l; i++) {
+    const mutation = placements[i]!;
+    const child = children[i]!;
+    const afterDOMNode = afterDOMNodes[i]!;
+    if (mutation.type === MutationType.INSERT) {
+      mountChild(child, afterDOMNode);
+    } else if (mutation.oldNode.type !== child.type) {
+      unmountChild(mutation.oldNode);
+      mountChild(child, afterDOMNode);
+    } else {
+      applyPatch(mutation.oldNode, child, i, parent);
+      if (mutation.type === MutationType.UPDATE_AND_MOVE) {
+        moveChild(child, afterDOMNode);
       }
     }
+    UNPLACED_NODES.delete(child);
   }
 }
 
-function getChildDOMNode(node: RenderNode): ChildNode | null {
+function getFirstDOMNode(node: RenderNode): ChildNode | null {
   if (typeof node.type === 'object') {
     return node.state.block.staticNodes[0]!;
   }
-  for (const child of node.left) {
-    const domNode = getChildDOMNode(child);
+  // Nodes are patched in order, so a following node is not patched yet.
+  for (const child of node.right) {
+    const domNode = getFirstDOMNode(child);
     if (domNode !== null) {
       return domNode;
     }
   }
-  return getSiblingDOMNode(node);
+  return null;
 }
 
 function getSiblingDOMNode(node: RenderNode): ChildNode | null {
   const part = node.part;
   // Only called on non-detached nodes, so parent is never null.
   while (node.parent!.type != null) {
-    const children = isCommitted(node) ? node.parent!.right : node.parent!.left;
+    const children = node.parent!.left;
     for (let i = node.index + 1, l = children.length; i < l; i++) {
       const child = children[i]!;
       if (child.part !== part) {
         break;
       }
-      const domNode = getChildDOMNode(child);
+      if (UNPLACED_NODES.has(child)) {
+        continue;
+      }
+      const domNode = getFirstDOMNode(child);
       if (domNode !== null) {
         return domNode;
       }
diff --git a/src/runtime.ts b/src/runtime.ts
index ae4d68e..3aa9e36 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -366,7 +366,6 @@ export class Runtime implements Renderer, Dispatcher {
           newMutations.push({
             type: MutationType.INSERT,
             node: newChild,
-            afterNode: newChildren[newTail + 1],
           });
           newChildren[newHead] = newChild;
           newHead++;
@@ -435,14 +434,12 @@ export class Runtime implements Renderer, Dispatcher {
           type: MutationType.UPDATE_AND_MOVE,
           oldNode: oldChildren[oldTail]!,
           newNode: tailChild,
-          afterNode: oldChildren[oldHead],
           index: newHead,
         });
         newMutations.push({
           type: MutationType.UPDATE_AND_MOVE,
           oldNode: oldChildren[oldHead]!,
           newNode: headChild,
-          afterNode: newChildren[newTail + 1],
           index: newTail,
         });
         newChildren[newHead] = tailChild;
@@ -489,7 +486,6 @@ export class Runtime implements Renderer, Dispatcher {
               type: MutationType.UPDATE_AND_MOVE,
               oldNode: oldChildren[oldIndex]!,
               newNode: newChild,
-              afterNode: newChildren[newTail + 1],
               index: newTail,
             });
             newChildren[newTail] = newChild;
@@ -505,7 +501,6 @@ export class Runtime implements Renderer, Dispatcher {
             newMutations.push({
               type: MutationType.INSERT,
               node: newChild,
-              afterNode: newChildren[newTail + 1],
             });
             newChildren[newTail] = newChild;
           }
-- 
2.43.0


From 9e6879f742026e4b96098a14f30e78dc33358996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 07/49] fix: render a root afresh after unmounting it in the
 same batch

The render was diffed against the tree that the preceding unmount removes,
so its result was never mounted.
---
 src/dom/root.ts | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/dom/root.ts b/src/dom/root.ts
index 177f47c..d4b89f7 100644
--- a/src/dom/root.ts
+++ b/src/dom/root.ts
@@ -19,6 +19,7 @@ export class DOMRoot {
     left: null,
     right: null,
   };
+  private _unmounting: boolean = false;
 
   constructor(container: Container, dispatcher: Dispatcher) {
     this._container = container;
@@ -33,9 +34,10 @@ export class DOMRoot {
         pendingLanes: AllLanes,
         prepare: (_lanes, renderer) => {
           const element = wrap(value);
-          this._root.left =
-            this._root.right !== null
-              ? renderer.diff(this._root.right, element, scope, 0, this._root)
+          const oldNode = this._unmounting ? null : this._root.right;
+          const newNode =
+            oldNode !== null
+              ? renderer.diff(oldNode, element, scope, 0, this._root)
               : renderer.render(
                   element,
                   scope,
@@ -43,13 +45,22 @@ export class DOMRoot {
                   this._root,
                   new ContainerPart(this._container),
                 );
+          this._root.left = newNode;
           return () => {
-            if (this._root.right !== null) {
-              patch(this._root.right, this._root.left!);
+            if (this._root.left !== newNode) {
+              // Superseded by a later update of the same batch.
+              return;
+            }
+            if (oldNode !== null) {
+              patch(oldNode, newNode);
             } else {
-              mount(this._root.left!);
+              if (this._root.right !== null) {
+                unmount(this._root.right);
+              }
+              mount(newNode);
             }
-            this._root.right = this._root.left;
+            this._root.right = newNode;
+            this._unmounting = false;
           };
         },
       },
@@ -64,7 +75,10 @@ export class DOMRoot {
         scope,
         pendingLanes: AllLanes,
         prepare: () => {
+          // Updates of the same batch must not reuse the unmounted tree.
+          this._unmounting = true;
           return () => {
+            this._unmounting = false;
             if (this._root.right !== null) {
               unmount(this._root.right);
               this._root.right = null;
-- 
2.43.0


From 88ec71187b4696eb213c1d8459811d7c735aff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 08/49] fix: render ancestors first when lanes of a batch
 differ

A batch can hold a descendant's update of a higher lane before its ancestor's
update. Rendering the descendant first consumed its state and then patched
the ancestor against nodes that had been replaced meanwhile.
---
 src/runtime.ts | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 3aa9e36..cb8cb61 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -539,8 +539,15 @@ export class Runtime implements Renderer, Dispatcher {
       }
 
       try {
+        // The collecting loop stops at the last UserHandlerLane update, which
+        // carries the handler.
+        const { handler } = this._updateBatch.at(-1)!;
         const commitBatch: Commit[] = [];
 
+        // Ancestors must be rendered first, even if their lanes are lower, as
+        // they render the pending updates of their descendants as well.
+        this._updateBatch.sort(compareLevels);
+
         for (const update of this._updateBatch) {
           const { lanes, transaction } = update;
           if (transaction.pendingLanes & lanes) {
@@ -559,9 +566,6 @@ export class Runtime implements Renderer, Dispatcher {
           if (this._flushLanes & SyncLane) {
             callback();
           } else if (this._flushLanes & UserHandlerLane) {
-            // The loop stops at the last UserHandlerLane update, which carries
-            // the handler.
-            const { handler } = this._updateBatch.at(-1)!;
             await handler!(callback);
           } else {
             await this._adapter.requestCommit(callback);
@@ -610,18 +614,17 @@ function buildKeyToIndexMap<T>(
   return keyToIndexMap;
 }
 
+function compareLevels(update1: Update, update2: Update): number {
+  return update1.transaction.scope.level - update2.transaction.scope.level;
+}
+
 function compareUpdates(update1: Update, update2: Update): number {
   const highestLane1 = getHighestPriorityLane(update1.lanes);
   const highestLane2 = getHighestPriorityLane(update2.lanes);
   if (highestLane1 !== highestLane2) {
     return highestLane1 - highestLane2;
   }
-  const level1 = update1.transaction.scope.level;
-  const level2 = update2.transaction.scope.level;
-  if (level1 !== level2) {
-    return level1 - level2;
-  }
-  return update1.id - update2.id;
+  return compareLevels(update1, update2) || update1.id - update2.id;
 }
 
 function runPipeline(
-- 
2.43.0


From 96b90f76cf0378fac83be6cfc99df2b81aaeb156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 09/49] fix: do not reuse components rendered by a superseded
 root render

When a root is rendered twice in a batch, the first render consumed pending
states of components, and the second one bailed out on those components
although the first was never committed.
---
 src/runtime.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index cb8cb61..382acf5 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -8,6 +8,7 @@ import {
   type Middleware,
   type Mutation,
   MutationType,
+  type Owner,
   type Part,
   type Renderer,
   type RenderNode,
@@ -45,6 +46,7 @@ export class Runtime implements Renderer, Dispatcher {
   private _pendingLanes: number = NoLanes;
   private _stagedLanes: number = NoLanes;
   private _flushLanes: number = NoLanes;
+  private _supersedesRender: boolean = false;
   private _identifierCount: number = 0;
   private _transitionCount: number = 0;
   private _updateCount: number = 0;
@@ -63,7 +65,7 @@ export class Runtime implements Renderer, Dispatcher {
     if (oldNode.type !== newElement.type || !is(oldNode.key, newElement.key)) {
       return this.render(newElement, scope, index, parent, oldNode.part);
     }
-    if (oldNode.props === newElement.props) {
+    if (oldNode.props === newElement.props && !this._supersedesRender) {
       return oldNode;
     }
     if (newElement.type === Bind) {
@@ -98,6 +100,7 @@ export class Runtime implements Renderer, Dispatcher {
       return newNode;
     } else if (typeof newElement.type === 'function') {
       if (
+        !this._supersedesRender &&
         ((oldNode as RenderNode.ComponentNode).state.instance.pendingLanes &
           this._flushLanes) ===
           NoLanes &&
@@ -543,6 +546,7 @@ export class Runtime implements Renderer, Dispatcher {
         // carries the handler.
         const { handler } = this._updateBatch.at(-1)!;
         const commitBatch: Commit[] = [];
+        const renderedRoots = new Set<Owner>();
 
         // Ancestors must be rendered first, even if their lanes are lower, as
         // they render the pending updates of their descendants as well.
@@ -551,6 +555,12 @@ export class Runtime implements Renderer, Dispatcher {
         for (const update of this._updateBatch) {
           const { lanes, transaction } = update;
           if (transaction.pendingLanes & lanes) {
+            // When a root is rendered again within the batch, the previous
+            // render is never committed although it has consumed the states of
+            // its components, so they must not be reused as they are.
+            const { owner, level } = transaction.scope;
+            this._supersedesRender = level === 0 && renderedRoots.has(owner);
+            renderedRoots.add(owner);
             commitBatch.push(
               runPipeline(update, this._middlewares, this._flushLanes, this),
             );
-- 
2.43.0


From 3ed59f1b746b0421c9fb9fed5bfbcfa29eb67135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 10/49] fix: do not compute states eagerly while actions are
 skipped

The current state does not include skipped actions of lower priority, so an
eager state based on it discarded them, and an action could be dropped as
having no effect although a skipped one precedes it.
---
 src/component.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index 7256aca..3691f19 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -74,6 +74,7 @@ interface ActionDispatcher<TState, TAction> {
   reducer: (state: TState, payload: TAction) => TState;
   currentState: TState;
   pendingActions: Action<TState, TAction>[];
+  hasSkippedActions: boolean;
 }
 
 type EffectCleanup = () => void;
@@ -368,13 +369,16 @@ export class RenderContext {
       dispatcher.reducer = reducer;
       dispatcher.currentState = nextState;
       dispatcher.pendingActions = [];
+      dispatcher.hasSkippedActions = skipLanes !== NoLanes;
     } else {
       const dispatcher: ActionDispatcher<TState, TAction> = {
         dispatch: (payload, options = {}) => {
           const { pendingActions, currentState, reducer } = dispatcher;
           let eagerState: TState | undefined;
 
-          if (pendingActions.length === 0) {
+          // The current state is not the base of the action while there are
+          // preceding actions to be processed.
+          if (pendingActions.length === 0 && !dispatcher.hasSkippedActions) {
             const areStatesEqual = options.areStatesEqual ?? is;
             eagerState = reducer(currentState, payload);
 
@@ -399,6 +403,7 @@ export class RenderContext {
         reducer,
         currentState: getInitialState(initialState),
         pendingActions: [],
+        hasSkippedActions: false,
       };
       currentHook = {
         type: HookType.REDUCER,
-- 
2.43.0


From a96aa565c92793c45e47b0b3cdd32523d1ca7d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 11/49] fix: accept holes in case-adjusted SVG attributes in
 debug builds

The parser restores the case of attributes such as viewBox, which then differ
from the lowercased name in the template.
---
 src/dom/template.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom/template.ts b/src/dom/template.ts
index 9d37626..b12a8f8 100644
--- a/src/dom/template.ts
+++ b/src/dom/template.ts
@@ -213,7 +213,7 @@ function collectAttributeHoles(
       const caseSensitiveName = extractAttributeName(strings[holes.length]!);
 
       DEBUG: {
-        if (caseSensitiveName?.toLowerCase() !== name) {
+        if (caseSensitiveName?.toLowerCase() !== name.toLowerCase()) {
           throw DOMAdapterError.withNode(
             element.getAttributeNode(name)!,
             `The attribute name must be "${name}", but got "${caseSensitiveName}". There are unclosed tags or duplicate attributes.`,
-- 
2.43.0


From 5ca4856ba750d08a823b672934c86da263b76eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 12/49] fix: do not notify subscribers removed together during
 a notification

---
 src/addons/signal/linked-list.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/linked-list.ts b/src/addons/signal/linked-list.ts
index a93a955..4c362b3 100644
--- a/src/addons/signal/linked-list.ts
+++ b/src/addons/signal/linked-list.ts
@@ -20,7 +20,10 @@ export class LinkedList<T> implements Iterable<T> {
 
   *[Symbol.iterator](): Generator<T> {
     for (let node = this._head; node !== null; node = node.next) {
-      yield node.value;
+      // A node deleted after its deleted predecessor is still reachable.
+      if (node.owner === this) {
+        yield node.value;
+      }
     }
   }
 
-- 
2.43.0


From 18bd3b7508a2be4aa7d6b3da67f5eaf1ee97728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 13/49] fix: do not collect captures of routes that are passed
 over

---
 src/addons/router/router.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/router/router.ts b/src/addons/router/router.ts
index 88c336b..0621d0c 100644
--- a/src/addons/router/router.ts
+++ b/src/addons/router/router.ts
@@ -57,11 +57,12 @@ export class Router<TResult> {
       );
 
       if (captures !== null) {
-        collectedCaptures.push(...captures);
         if (components.length === componentIndex + patterns.length) {
+          collectedCaptures.push(...captures);
           return resolver?.(collectedCaptures, url);
         }
         if (childRoutes.length > 0) {
+          collectedCaptures.push(...captures);
           routes = childRoutes;
           routeIndex = 0;
           componentIndex += patterns.length;
-- 
2.43.0


From 5232254154caaf06aff56e1ac4bbd99fb18e522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 14/49] fix: distinguish partials whose literal strings are
 split differently

---
 src/velement.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/velement.ts b/src/velement.ts
index dae71c6..8796887 100644
--- a/src/velement.ts
+++ b/src/velement.ts
@@ -20,6 +20,7 @@ interface Interpolation {
   interpolatedStrings: readonly string[];
   literalStrings: readonly string[];
   literalPositions: readonly number[];
+  literalLengths: readonly number[];
 }
 
 export class Partial {
@@ -47,6 +48,7 @@ export class Partial {
   ): Partial {
     const literalStrings: string[] = [];
     const literalPositions: number[] = [];
+    const literalLengths: number[] = [];
     const flattenedValues: unknown[] = [];
 
     for (let i = 0, l = values.length; i < l; i++) {
@@ -54,6 +56,7 @@ export class Partial {
       if (value instanceof Partial) {
         literalStrings.push(...value.strings);
         literalPositions.push(i);
+        literalLengths.push(value.strings.length);
         flattenedValues.push(...value.values);
       } else {
         flattenedValues.push(value);
@@ -70,7 +73,8 @@ export class Partial {
       for (const interpolation of interpolations) {
         if (
           sequentialEqual(interpolation.literalStrings, literalStrings) &&
-          sequentialEqual(interpolation.literalPositions, literalPositions)
+          sequentialEqual(interpolation.literalPositions, literalPositions) &&
+          sequentialEqual(interpolation.literalLengths, literalLengths)
         ) {
           return new Partial(
             interpolation.interpolatedStrings,
@@ -89,6 +93,7 @@ export class Partial {
       interpolatedStrings,
       literalStrings,
       literalPositions,
+      literalLengths,
     });
 
     return new Partial(interpolatedStrings, flattenedValues);
-- 
2.43.0


From bd6124694a21eece3794133c4060028acf79d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 15/49] fix: do not commit updates with a handler together with
 sync updates

The handler was ignored when a flushSync update preceded it in the queue.
---
 src/runtime.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime.ts b/src/runtime.ts
index 382acf5..8c169de 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -533,6 +533,14 @@ export class Runtime implements Renderer, Dispatcher {
           // defer it so it commits as its own batch.
           break;
         }
+        if (
+          this._flushLanes !== NoLanes &&
+          !(update.lanes & SyncLane) &&
+          update.lanes & UserHandlerLane
+        ) {
+          // The preceding updates are committed without the handler.
+          break;
+        }
         this._flushLanes |= update.lanes;
         this._updateBatch.push(this._updateQueue.dequeue()!);
       } while (!(this._flushLanes & UserHandlerLane));
-- 
2.43.0


From 1131a6113c10e695541ae2ecd94e71686f2dbf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 16/49] fix: keep the case of custom properties in style
 bindings

---
 src/dom/part.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index f6c90ac..d8d2680 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -345,6 +345,10 @@ function normalizeStyle(value: unknown): StyleMap {
  * toCSSProperty('padding-block'); // => 'padding-block'
  */
 function toCSSPropertyName(key: string): string {
+  if (key.startsWith('--')) {
+    // The names of custom properties are case-sensitive.
+    return key;
+  }
   return key
     .replace(CSS_VENDOR_PREFIX_PATTERN, '-$1')
     .replace(CSS_UPPERCASE_LETTER_PATTERN, (c) => '-' + c.toLowerCase());
-- 
2.43.0


From f2bfc5f5d76831d40c54ac5db75f17dbeb576e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 17/49] fix: reject templates whose holes the HTML parser
 reorders or duplicates

---
 src/dom/template.ts | 96 +++++++++++++++++++++++++++++++--------------
 1 file changed, 67 insertions(+), 29 deletions(-)

diff --git a/src/dom/template.ts b/src/dom/template.ts
index b12a8f8..d02bf7b 100644
--- a/src/dom/template.ts
+++ b/src/dom/template.ts
@@ -114,8 +114,13 @@ export class DOMTemplate {
     }
 
     const template = document.createElement('template');
-    const marker = createMarker(token);
-    const html = stripWhitespaces(strings.join(marker));
+    // Number the markers, as the HTML parser may reorder or duplicate the nodes
+    // that contain them.
+    const html = stripWhitespaces(
+      strings
+        .map((s, i) => (i > 0 ? createMarker(token, i - 1) + s : s))
+        .join(''),
+    );
 
     if (mode === 'html') {
       template.setHTMLUnsafe(html);
@@ -126,7 +131,12 @@ export class DOMTemplate {
       );
     }
 
-    return parseTemplate(strings, values, template, marker);
+    return parseTemplate(
+      strings,
+      values,
+      template,
+      createMarkerPattern(token),
+    );
   }
 
   constructor(template: HTMLTemplateElement, holes: Hole[]) {
@@ -196,20 +206,24 @@ function advanceCursor(cursor: Cursor): Node | null {
 function collectAttributeHoles(
   element: Element,
   strings: readonly string[],
-  marker: string,
+  markerPattern: RegExp,
   holes: Hole[],
   path: number[],
 ): void {
   for (const name of element.getAttributeNames()) {
     const value = element.getAttribute(name)!;
     let hole: Hole;
+    let index: number;
 
-    if (name === marker && value === '') {
+    if (
+      value === '' &&
+      (index = extractHoleIndex(name, markerPattern)) >= 0
+    ) {
       hole = {
         type: HoleType.ELEMENT,
         path: path.slice(),
       };
-    } else if (value === marker) {
+    } else if ((index = extractHoleIndex(value, markerPattern)) >= 0) {
       const caseSensitiveName = extractAttributeName(strings[holes.length]!);
 
       DEBUG: {
@@ -253,13 +267,13 @@ function collectAttributeHoles(
       }
     } else {
       DEBUG: {
-        if (name.includes(marker)) {
+        if (markerPattern.test(name)) {
           throw DOMAdapterError.withNode(
             element.getAttributeNode(name)!,
             'Expressions are not allowed as an attribute name.',
           );
         }
-        if (value.includes(marker)) {
+        if (markerPattern.test(value)) {
           throw DOMAdapterError.withNode(
             element.getAttributeNode(name)!,
             'Expressions inside an attribute must make up the entire attribute value.',
@@ -269,7 +283,7 @@ function collectAttributeHoles(
       continue;
     }
 
-    holes.push(hole);
+    pushHole(holes, hole, index, element);
     element.removeAttribute(name);
   }
 }
@@ -281,8 +295,12 @@ function createCursor(node: Node): Cursor {
   };
 }
 
-function createMarker(token: string): string {
-  return `?$${token}`;
+function createMarker(token: string, index: number): string {
+  return `?$${token}-${index}-`;
+}
+
+function createMarkerPattern(token: string): RegExp {
+  return new RegExp(`\\?\\$${token}-(\\d+)-`);
 }
 
 function decrementCursor(cursor: Cursor): void {
@@ -293,6 +311,11 @@ function extractAttributeName(s: string): string | undefined {
   return s.match(ATTRIBUTE_NAME_PATTERN)?.[0];
 }
 
+function extractHoleIndex(s: string, markerPattern: RegExp): number {
+  const match = s.match(markerPattern);
+  return match?.[0] === s ? Number(match[1]) : -1;
+}
+
 function incrementCursor(cursor: Cursor): void {
   cursor.path[cursor.path.length - 1]!++;
 }
@@ -374,7 +397,7 @@ function parseTemplate(
   strings: readonly string[],
   values: readonly unknown[],
   template: HTMLTemplateElement,
-  marker: string,
+  markerPattern: RegExp,
 ): DOMTemplate {
   const cursor = createCursor(template.content);
   const holes: Hole[] = [];
@@ -384,7 +407,7 @@ function parseTemplate(
     switch (currentNode.nodeType) {
       case Node.ELEMENT_NODE:
         DEBUG: {
-          if ((currentNode as Element).localName.includes(marker)) {
+          if (markerPattern.test((currentNode as Element).localName)) {
             throw DOMAdapterError.withNode(
               currentNode,
               'Expressions are not allowed as a tag name.',
@@ -395,31 +418,32 @@ function parseTemplate(
           collectAttributeHoles(
             currentNode as Element,
             strings,
-            marker,
+            markerPattern,
             holes,
             cursor.path,
           );
         }
         break;
       case Node.TEXT_NODE: {
-        const components = (currentNode as Text).data
-          .split(marker)
-          .map(stripWhitespaces);
+        // Static texts and hole indices are in alternate positions.
+        const components = (currentNode as Text).data.split(markerPattern);
         const suffixIndex = components.length - 1;
-        const suffixComponent = components[suffixIndex]!;
+        const suffixComponent = stripWhitespaces(components[suffixIndex]!);
 
-        for (let i = 0; i < suffixIndex; i++) {
-          const prefixComponent = components[i]!;
+        for (let i = 0; i < suffixIndex; i += 2) {
+          const prefixComponent = stripWhitespaces(components[i]!);
+          const index = Number(components[i + 1]);
           if (prefixComponent !== '') {
             const prefixNode = currentNode;
             currentNode = (currentNode as Text).splitText(0);
             (prefixNode as Text).data = prefixComponent;
             advanceCursor(cursor);
           }
-          holes.push({
+          const hole: Hole = {
             type: HoleType.TEXT,
             path: cursor.path.slice(),
-          });
+          };
+          pushHole(holes, hole, index, currentNode);
           currentNode = (currentNode as Text).splitText(0);
           advanceCursor(cursor);
         }
@@ -435,18 +459,21 @@ function parseTemplate(
         (currentNode as Text).data = suffixComponent;
         break;
       }
-      case Node.COMMENT_NODE:
-        if (
-          stripTrailingSlash((currentNode as Comment).data).trim() === marker
-        ) {
-          holes.push({
+      case Node.COMMENT_NODE: {
+        const index = extractHoleIndex(
+          stripTrailingSlash((currentNode as Comment).data).trim(),
+          markerPattern,
+        );
+        if (index >= 0) {
+          const hole: Hole = {
             type: HoleType.CHILD_NODE,
             path: cursor.path.slice(),
-          });
+          };
+          pushHole(holes, hole, index, currentNode);
           (currentNode as Comment).data = '';
         } else {
           DEBUG: {
-            if ((currentNode as Comment).data.includes(marker)) {
+            if (markerPattern.test((currentNode as Comment).data)) {
               throw DOMAdapterError.withNode(
                 currentNode,
                 'Expressions inside a tag must represent the entire tag',
@@ -455,6 +482,7 @@ function parseTemplate(
           }
         }
         break;
+      }
     }
     currentNode = advanceCursor(cursor);
   }
@@ -469,6 +497,16 @@ function parseTemplate(
   return new DOMTemplate(template, holes);
 }
 
+function pushHole(holes: Hole[], hole: Hole, index: number, node: Node): void {
+  if (index !== holes.length) {
+    throw DOMAdapterError.withNode(
+      node,
+      `The hole must be at position ${index}, but got ${holes.length}. Some holes were dropped, duplicated or reordered by the HTML parser.`,
+    );
+  }
+  holes.push(hole);
+}
+
 function resolvePart(hole: Hole, node: Node): DOMPart {
   switch (hole.type) {
     case HoleType.ATTRIBUTE:
-- 
2.43.0


From 4cf0a13c9a5fe3d83929843e459ed126ec99592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 18/49] fix: keep updates of skipped actions pending

An action with several lanes, such as a transition with a priority, was lost when
its component had been rendered for each of the lanes separately: no lane of its
update was pending any longer, so the update was dropped although the action was
not applied.
---
 src/component.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/component.ts b/src/component.ts
index 3691f19..c89bda4 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -361,6 +361,10 @@ export class RenderContext {
         skipLanes |= (lanes & ~renderLanes) | (revertLanes & renderLanes);
       }
 
+      // The updates of skipped actions must be rendered even if each of their
+      // lanes has been rendered separately.
+      this._instance._pendingLanes |= skipLanes & ~renderLanes;
+
       if (skipLanes === NoLanes) {
         currentHook.memoizedActions = [];
         currentHook.memoizedState = nextState;
-- 
2.43.0


From bcf418d21639a36da1fdcdc3b9aa74ddfca4323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 19/49] fix: keep refs that move between holes of one element

The cleanup of the former hole reset the ref after it had been bound by the new
hole, as both hold the same element.
---
 src/component.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index c89bda4..d193a68 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -451,6 +451,7 @@ export class RenderContext {
 
 export class Ref<T> implements Bindable {
   current: T;
+  private _cleanup: (() => void) | null = null;
 
   constructor(current: T) {
     this.current = current;
@@ -461,12 +462,18 @@ export class Ref<T> implements Bindable {
 
   [toElement](): VElement {
     return createBind((instance: T) => {
-      this.current = instance;
-      return () => {
-        if (this.current === instance) {
-          this.current = null as T;
+      const cleanup = () => {
+        // The ref may have been bound again, even to the same element.
+        if (this._cleanup === cleanup) {
+          this._cleanup = null;
+          if (this.current === instance) {
+            this.current = null as T;
+          }
         }
       };
+      this.current = instance;
+      this._cleanup = cleanup;
+      return cleanup;
     });
   }
 }
-- 
2.43.0


From f821d08f60330a02a8b8cb6e2bb1252fb81304ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 20/49] fix: compare only enumerable keys in shallowEqual

Equality held when a key of one object was a non-enumerable property of the
other and that one had a different key in addition.
---
 src/compare.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compare.ts b/src/compare.ts
index b9e0fcb..dad1cd0 100644
--- a/src/compare.ts
+++ b/src/compare.ts
@@ -1,5 +1,7 @@
 export const is = Object.is;
 
+const propertyIsEnumerable = Object.prototype.propertyIsEnumerable;
+
 export function areDependenciesChanged(
   oldDeps: readonly unknown[] | null | undefined,
   newDeps: readonly unknown[] | null | undefined,
@@ -48,7 +50,7 @@ export function shallowEqual<T extends {}>(
 
     for (let i = 0, l = ks1.length; i < l; i++) {
       const k = ks1[i] as keyof T;
-      if (!Object.hasOwn(ys, k) || !equals(xs[k]!, ys[k]!)) {
+      if (!propertyIsEnumerable.call(ys, k) || !equals(xs[k]!, ys[k]!)) {
         return false;
       }
     }
-- 
2.43.0


From 140243907687b5e970c1c0761c4d708852b12630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 21/49] fix: keep undefined as the initial result of a computed
 signal

The default argument turned it into null, so a getter of a derivable that
returned undefined was first read as null.
---
 src/addons/signal/signal.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/addons/signal/signal.ts b/src/addons/signal/signal.ts
index 164eb59..6900060 100644
--- a/src/addons/signal/signal.ts
+++ b/src/addons/signal/signal.ts
@@ -187,13 +187,13 @@ export class Computed<
     ...signals: UnwrapSignals<TDependencies>
   ) => TResult;
   private readonly _dependencies: TDependencies;
-  private _memoizedResult: TResult | null;
+  private _memoizedResult: TResult | undefined;
   private _memoizedVersion;
 
   constructor(
     computation: (...values: UnwrapSignals<TDependencies>) => TResult,
     dependencies: TDependencies,
-    initialResult: TResult | null = null,
+    initialResult: TResult | undefined = undefined,
     initialVersion = -1, // -1 indicates an uninitialized signal.
   ) {
     super();
-- 
2.43.0


From 32600b1d36003d1537f81632adda43e78736da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 22/49] fix: do not accept NaN as an integer in routes

---
 src/addons/router/matchers.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/router/matchers.ts b/src/addons/router/matchers.ts
index 11b6438..cd09207 100644
--- a/src/addons/router/matchers.ts
+++ b/src/addons/router/matchers.ts
@@ -27,7 +27,7 @@ export function encoded(component: string): string {
 
 export function integer(component: string): number | undefined {
   const n = Number.parseInt(component, 10);
-  return n.toString() === component ? n : undefined;
+  return !Number.isNaN(n) && n.toString() === component ? n : undefined;
 }
 
 export function keyword<const T extends string>(s: T): Matcher<T> {
-- 
2.43.0


From e86f1b855d5f96e0fd74c44e1daea22e097b2d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 23/49] fix: do not render updates early on lanes left staged
 by earlier ones

---
 src/runtime.ts | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 8c169de..223c180 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -4,6 +4,7 @@ import {
   type Dispatcher,
   Fragment,
   type HostAdapter,
+  type Lane,
   type Lanes,
   type Middleware,
   type Mutation,
@@ -45,6 +46,8 @@ export class Runtime implements Renderer, Dispatcher {
   private readonly _middlewares: Middleware[] = [];
   private _pendingLanes: number = NoLanes;
   private _stagedLanes: number = NoLanes;
+  // For each lane, updates with a smaller ID are staged.
+  private readonly _stagedUpdateCounts: Map<Lane, number> = new Map();
   private _flushLanes: number = NoLanes;
   private _supersedesRender: boolean = false;
   private _identifierCount: number = 0;
@@ -280,18 +283,14 @@ export class Runtime implements Renderer, Dispatcher {
       transaction,
     });
 
-    // Staged lanes are only certain to be processed while a flush is running.
-    // Otherwise they may be left over from a flush that stopped at an update of
-    // higher priority which is not staged yet.
-    const requestedLanes =
-      this._flushLanes !== NoLanes
-        ? this._pendingLanes | this._stagedLanes
-        : this._pendingLanes;
-
-    if ((requestedLanes & lanes) !== lanes) {
+    if (((this._pendingLanes | this._stagedLanes) & lanes) === lanes) {
+      // The remaining lanes are being flushed.
+      this._stage(lanes & ~this._pendingLanes);
+    } else {
       const callback = () => {
         this._pendingLanes &= ~lanes;
         this._stagedLanes |= lanes;
+        this._stage(lanes);
         if (this._flushLanes === NoLanes) {
           this._flush();
         }
@@ -525,7 +524,7 @@ export class Runtime implements Renderer, Dispatcher {
         const update = this._updateQueue.peek();
         if (
           update === undefined ||
-          ((update.lanes & this._stagedLanes) !== update.lanes &&
+          (!this._isStaged(update) &&
             getHighestPriorityLane(this._flushLanes) <
               getHighestPriorityLane(update.lanes))
         ) {
@@ -603,10 +602,25 @@ export class Runtime implements Renderer, Dispatcher {
       }
     }
 
-    // Keep the lanes staged while there are deferred updates, otherwise staged
-    // updates behind them would never be processed.
-    if (this._updateQueue.peek() === undefined) {
-      this._stagedLanes = NoLanes;
+    this._stagedLanes = NoLanes;
+  }
+
+  private _isStaged(update: Update): boolean {
+    for (let lanes = update.lanes; lanes !== NoLanes; lanes &= lanes - 1) {
+      const count = this._stagedUpdateCounts.get(getHighestPriorityLane(lanes));
+      if (count === undefined || update.id >= count) {
+        return false;
+      }
+    }
+    return true;
+  }
+
+  private _stage(lanes: Lanes): void {
+    for (; lanes !== NoLanes; lanes &= lanes - 1) {
+      this._stagedUpdateCounts.set(
+        getHighestPriorityLane(lanes),
+        this._updateCount,
+      );
     }
   }
 }
-- 
2.43.0


From 9248460e9bb1151cd20b64b7eefa7007a24e46fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 24/49] fix: keep observing signals after their computation
 threw

---
 src/addons/signal/signal.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/signal.ts b/src/addons/signal/signal.ts
index 6900060..455dd79 100644
--- a/src/addons/signal/signal.ts
+++ b/src/addons/signal/signal.ts
@@ -74,13 +74,14 @@ export abstract class Signal<T> implements Bindable, HookObject<T> {
 
     context.useEffect(() => {
       const checkForChanges = () => {
+        // The computation of the value may throw.
+        batched = false;
         if (
           snapshot.version < this.version &&
           !is(snapshot.value, this.value)
         ) {
           context.forceUpdate();
         }
-        batched = false;
       };
       let batched = true;
       queueMicrotask(checkForChanges);
-- 
2.43.0


From 3e29756bd88b615450f291333a65a70835efc2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 25/49] fix: honour the delay of updates where
 scheduler.postTask() is missing

---
 src/dom/adapter.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dom/adapter.ts b/src/dom/adapter.ts
index b383209..81887f4 100644
--- a/src/dom/adapter.ts
+++ b/src/dom/adapter.ts
@@ -57,6 +57,10 @@ export class DOMAdapter implements HostAdapter {
       return scheduler.postTask(callback, options);
     } else {
       return new Promise((resolve) => {
+        if (options?.delay) {
+          setTimeout(resolve, options.delay);
+          return;
+        }
         switch (options?.priority) {
           case 'user-blocking': {
             const channel = new MessageChannel();
-- 
2.43.0


From 4aac3988ea122be455953dadbcab5c23f66dd644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 26/49] fix: keep a component pending until all of its
 transitions have ended

Transition() kept one flag, so that the end of any transition showed the
component idle while others were running, and an action throwing
synchronously left it pending for ever.
---
 src/addons/hooks.ts | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index d49b3f1..d5fc3db 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -105,15 +105,21 @@ export function Transition(): HookFunction<
   ]
 > {
   return (context) => {
-    const [isPending, setIsPending] = context.useState(false);
+    const [pendingCount, setPendingCount] = context.useState(0);
 
     const startTransition = <T>(action: (transition: number) => T): T => {
       return context.startTransition((transition) => {
         const endTransition = () => {
-          setIsPending(false, { transition });
+          setPendingCount((count) => count - 1, { transition });
         };
-        setIsPending(true, { flushSync: true });
-        const result = action(transition);
+        setPendingCount((count) => count + 1, { flushSync: true });
+        let result: T;
+        try {
+          result = action(transition);
+        } catch (error) {
+          endTransition();
+          throw error;
+        }
         if (result instanceof Promise) {
           result.then(endTransition, endTransition);
         } else {
@@ -123,6 +129,6 @@ export function Transition(): HookFunction<
       });
     };
 
-    return [isPending, startTransition];
+    return [pendingCount > 0, startTransition];
   };
 }
-- 
2.43.0


From 96edf2dfa5a878dcc5255243511cc5cfe137337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 27/49] fix: show an explicit null as the initial value of
 DeferredValue

Only undefined means that no initial value was given.
---
 src/addons/hooks.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index d5fc3db..4a2e4ed 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -16,7 +16,7 @@ export function DeferredValue<T>(
 ): HookFunction<T> {
   return (context) => {
     const [deferredValue, setDeferredValue] = context.useState(
-      initialValue ?? (() => value),
+      initialValue !== undefined ? initialValue : () => value,
     );
 
     context.useEffect(() => {
-- 
2.43.0


From 7348173a554a8f09c9682ace2030324d58669d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 28/49] fix: do not delay flushSync updates that also have a
 transition

An update with flushSync and a transition whose callback was pending
waited for that callback, and all later flushSync updates with it.
---
 src/runtime.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 223c180..1f6a34b 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -606,7 +606,9 @@ export class Runtime implements Renderer, Dispatcher {
   }
 
   private _isStaged(update: Update): boolean {
-    for (let lanes = update.lanes; lanes !== NoLanes; lanes &= lanes - 1) {
+    // Sync updates never wait for the other lanes they belong to.
+    let lanes = update.lanes & SyncLane || update.lanes;
+    for (; lanes !== NoLanes; lanes &= lanes - 1) {
       const count = this._stagedUpdateCounts.get(getHighestPriorityLane(lanes));
       if (count === undefined || update.id >= count) {
         return false;
-- 
2.43.0


From 718266cb202277eba5849f4e04398b408ff00e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 29/49] fix: render all pending updates of a transition
 together

Components consume all of their pending states of the lanes being
rendered, so that a component using Transition could become idle in a
batch that left out other updates of the same transition, because they
had been requested after the callback of its lane.
---
 src/runtime.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime.ts b/src/runtime.ts
index 1f6a34b..e453e6a 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -31,6 +31,7 @@ import {
   getRenderLanes,
   NoLanes,
   SyncLane,
+  TransitionLanes,
   UserHandlerLane,
 } from './lane.js';
 import { PriorityQueue } from './queue.js';
@@ -525,6 +526,9 @@ export class Runtime implements Renderer, Dispatcher {
         if (
           update === undefined ||
           (!this._isStaged(update) &&
+            // Components consume all pending states of a transition at once.
+            (update.lanes & this._flushLanes & TransitionLanes) !==
+              update.lanes &&
             getHighestPriorityLane(this._flushLanes) <
               getHighestPriorityLane(update.lanes))
         ) {
-- 
2.43.0


From 656001e36feddeeca22ae442c46c99b35ab95114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 30/49] fix: do not create missing properties of drafts by
 reading them

---
 src/addons/signal/derivable.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 8c288c3..266a292 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -366,7 +366,8 @@ function resolveProperty<T>(
       FLAG_CONFIGURABLE_PROPERTY |
         FLAG_ENUMERABLE_PROPERTY |
         FLAG_WRITABLE_PROPERTY |
-        FLAG_DYNAMIC_PROPERTY,
+        FLAG_DYNAMIC_PROPERTY |
+        FLAG_DELETED_PROPERTY, // The property does not exist until it is set.
     );
   }
 
-- 
2.43.0


From 5ec8cd70452fbba67b11dadb0c5d246b76f9f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 31/49] fix: return the current values in property descriptors
 of drafts

---
 src/addons/signal/derivable.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 266a292..695e45d 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -220,13 +220,18 @@ function draftTarget<T>(
       }
       if (prop._flags & FLAG_DYNAMIC_PROPERTY) {
         return {
-          value: prop._source.value,
+          value: commitValue(prop),
           writable: true,
           enumerable: true,
           configurable: true,
         };
       }
-      return Reflect.getOwnPropertyDescriptor(target, key);
+      const descriptor: PropertyDescriptor | undefined =
+        Reflect.getOwnPropertyDescriptor(target, key);
+      if (descriptor?.writable) {
+        descriptor.value = commitValue(prop);
+      }
+      return descriptor;
     },
     set(target, key, value, _proxyReceiver) {
       const prop = getProperty(receiver, target, key);
-- 
2.43.0


From 040e65f637969ec9c969a5599b481041cb5159c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 32/49] fix: make deleted properties of derivables undefined

---
 src/addons/signal/derivable.ts | 36 ++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 695e45d..ef53bc1 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -86,14 +86,14 @@ export class Derivable<T> extends Signal<T> {
   ): T extends object ? Derivable<Get<NonPrimitive<T>, K>> : undefined;
   get(key: PropertyKey): T extends object ? Derivable<never> : undefined;
   get(key: PropertyKey): Derivable<any> | Derivable<never> | undefined {
-    const target = this._source.value;
+    const target = currentValue(this);
     return isNonPrimitive(target)
       ? getProperty(this, target, normalizeKey(key))
       : undefined;
   }
 
   scope<TReturn>(callback: (draft: T) => TReturn): TReturn {
-    const target = this._source.value;
+    const target = currentValue(this);
     if (isNonPrimitive(target)) {
       const { proxy, revoke } = draftTarget(this, target);
       try {
@@ -141,7 +141,7 @@ export function unwrap<T>(value: T): T {
 }
 
 function commitValue<T>(receiver: Derivable<T>): T {
-  let pendingValue = receiver._source.value;
+  let pendingValue = currentValue(receiver);
   if (receiver._flags & FLAG_NEEDS_COMMIT) {
     pendingValue = shallowClone(pendingValue);
     for (const [key, prop] of receiver._properties!.entries()) {
@@ -159,9 +159,19 @@ function commitValue<T>(receiver: Derivable<T>): T {
   return pendingValue;
 }
 
+function currentValue<T>(receiver: Derivable<T>): T {
+  return receiver._flags & FLAG_DELETED_PROPERTY
+    ? (undefined as T)
+    : receiver._source.value;
+}
+
 function deleteProperty<T>(prop: Derivable<T>): void {
+  if (prop._owner === null) {
+    return;
+  }
   for (
-    let owner = prop._owner, reversePath = [prop._key!];
+    let owner: Derivable<unknown> | null = prop._owner,
+      reversePath = [prop._key!];
     owner !== null;
     owner = owner._owner
   ) {
@@ -178,7 +188,18 @@ function deleteProperty<T>(prop: Derivable<T>): void {
     owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
+  detachProperties(prop);
   prop._flags |= FLAG_DELETED_PROPERTY;
+  prop._flags &= ~FLAG_DIRTY_VALUE;
+}
+
+function detachProperties<T>(receiver: Derivable<T>): void {
+  if (receiver._properties !== null) {
+    for (const prop of receiver._properties.values()) {
+      prop._owner = null;
+    }
+    receiver._properties.clear();
+  }
 }
 
 function draftTarget<T>(
@@ -472,12 +493,7 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
     owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  if (receiver._properties !== null) {
-    for (const prop of receiver._properties.values()) {
-      prop._owner = null;
-    }
-    receiver._properties.clear();
-  }
+  detachProperties(receiver);
   receiver._flags |= FLAG_PENDING_VALUE;
   receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
 }
-- 
2.43.0


From 548ae5445d50ae60bc0bce9a6969235f231383aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 33/49] fix: let subscribers of derivables read the edited
 value

---
 src/addons/signal/derivable.ts | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index ef53bc1..60cf3a1 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -169,6 +169,10 @@ function deleteProperty<T>(prop: Derivable<T>): void {
   if (prop._owner === null) {
     return;
   }
+  detachProperties(prop);
+  prop._flags |= FLAG_DELETED_PROPERTY;
+  prop._flags &= ~FLAG_DIRTY_VALUE;
+  markOwners(prop);
   for (
     let owner: Derivable<unknown> | null = prop._owner,
       reversePath = [prop._key!];
@@ -185,12 +189,8 @@ function deleteProperty<T>(prop: Derivable<T>): void {
         },
       });
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  detachProperties(prop);
-  prop._flags |= FLAG_DELETED_PROPERTY;
-  prop._flags &= ~FLAG_DIRTY_VALUE;
 }
 
 function detachProperties<T>(receiver: Derivable<T>): void {
@@ -373,6 +373,12 @@ function isNonPrimitive(value: unknown): value is object {
   );
 }
 
+function markOwners<T>(receiver: Derivable<T>): void {
+  for (let owner = receiver._owner; owner !== null; owner = owner._owner) {
+    owner._flags |= FLAG_DIRTY_VALUE;
+  }
+}
+
 function normalizeKey(key: PropertyKey): NormalizedKey {
   return typeof key === 'number' ? key.toString() : key;
 }
@@ -471,6 +477,13 @@ function resolveProperty<T>(
 
 function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   const oldValue = receiver._source.value;
+  if (receiver._source instanceof WritableSignal) {
+    // Subscribers may read the value, so that the flags must be set in advance.
+    detachProperties(receiver);
+    receiver._flags |= FLAG_PENDING_VALUE;
+    receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
+    markOwners(receiver);
+  }
   // Intentionally throws a TypeError if signal is a Computed (which has no setter).
   (receiver._source as WritableSignal<T>).value = newValue;
   for (
@@ -490,12 +503,8 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
         newValue,
       });
     }
-    owner._flags |= FLAG_DIRTY_VALUE;
     reversePath.push(owner._key!);
   }
-  detachProperties(receiver);
-  receiver._flags |= FLAG_PENDING_VALUE;
-  receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
 }
 
 function shallowClone<T>(target: T): T {
-- 
2.43.0


From b9d6ecd6ec5cc2bf81a7557150f40463e2b65f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 34/49] fix: notify subscribers of a deleted property

---
 src/addons/signal/derivable.ts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 60cf3a1..6ed9af6 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -169,10 +169,7 @@ function deleteProperty<T>(prop: Derivable<T>): void {
   if (prop._owner === null) {
     return;
   }
-  detachProperties(prop);
-  prop._flags |= FLAG_DELETED_PROPERTY;
-  prop._flags &= ~FLAG_DIRTY_VALUE;
-  markOwners(prop);
+  removeValue(prop);
   for (
     let owner: Derivable<unknown> | null = prop._owner,
       reversePath = [prop._key!];
@@ -383,6 +380,17 @@ function normalizeKey(key: PropertyKey): NormalizedKey {
   return typeof key === 'number' ? key.toString() : key;
 }
 
+function removeValue(prop: Derivable<any>): void {
+  detachProperties(prop);
+  prop._flags |= FLAG_DELETED_PROPERTY;
+  prop._flags &= ~FLAG_DIRTY_VALUE;
+  markOwners(prop);
+  if (prop._source instanceof Atom) {
+    prop._source.write(undefined);
+    prop._source.invalidate({ type: 'delete', source: prop._source, path: [] });
+  }
+}
+
 function resolveProperty<T>(
   receiver: Derivable<T>,
   target: T & object,
-- 
2.43.0


From 0afb467f00e64cda990289c9258656596470aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 35/49] fix: keep the length of derivable arrays in step with
 their elements

---
 src/addons/signal/derivable.ts | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 6ed9af6..41eae29 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -140,6 +140,28 @@ export function unwrap<T>(value: T): T {
   return (value as any)?.[UNWRAP_TAG] ?? value;
 }
 
+function adjustArray(
+  owner: Derivable<unknown>,
+  target: unknown[],
+  key: NormalizedKey,
+  newValue: unknown,
+): void {
+  const length = getProperty(owner, target, 'length') as Derivable<number>;
+  if (key === 'length') {
+    // The elements beyond the new length are removed.
+    for (let i = newValue as number; i < length._source.value; i++) {
+      removeValue(getProperty(owner, target, i.toString()));
+    }
+  } else if (typeof key === 'string') {
+    // An element beyond the length extends the array.
+    const index = Number(key) >>> 0;
+    if (index.toString() === key && index >= length._source.value) {
+      length._flags |= FLAG_PENDING_VALUE;
+      (length._source as WritableSignal<number>).value = index + 1;
+    }
+  }
+}
+
 function commitValue<T>(receiver: Derivable<T>): T {
   let pendingValue = currentValue(receiver);
   if (receiver._flags & FLAG_NEEDS_COMMIT) {
@@ -485,6 +507,14 @@ function resolveProperty<T>(
 
 function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   const oldValue = receiver._source.value;
+  if (receiver._owner !== null && Array.isArray(receiver._owner._source.value)) {
+    adjustArray(
+      receiver._owner,
+      receiver._owner._source.value,
+      receiver._key!,
+      newValue,
+    );
+  }
   if (receiver._source instanceof WritableSignal) {
     // Subscribers may read the value, so that the flags must be set in advance.
     detachProperties(receiver);
-- 
2.43.0


From f36a16655ee653baffc5828ba2fdc62dd0feb67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 36/49] fix: list properties of drafts that are set again after
 their deletion

---
 src/addons/signal/derivable.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 41eae29..45f43b4 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -404,7 +404,8 @@ function normalizeKey(key: PropertyKey): NormalizedKey {
 
 function removeValue(prop: Derivable<any>): void {
   detachProperties(prop);
-  prop._flags |= FLAG_DELETED_PROPERTY;
+  // The property is a new one of the owner if it is set again.
+  prop._flags |= FLAG_DELETED_PROPERTY | FLAG_DYNAMIC_PROPERTY;
   prop._flags &= ~FLAG_DIRTY_VALUE;
   markOwners(prop);
   if (prop._source instanceof Atom) {
-- 
2.43.0


From c5a377331b34cc98171ffd94e73023d0a63e6dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 37/49] fix: let drafts keep standing for the values they were
 taken from

---
 src/addons/signal/derivable.ts | 46 ++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 45f43b4..7b8fa96 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -20,6 +20,10 @@ const FLAG_WRITABLE_PROPERTY /*     */ = 0b0010000;
 const FLAG_DYNAMIC_PROPERTY /*      */ = 0b0100000;
 const FLAG_DELETED_PROPERTY /*      */ = 0b1000000;
 
+interface Draft {
+  receiver: Derivable<any>;
+}
+
 type Get<T, K extends keyof T, P = PropertyKey> = P extends keyof T
   ? K extends P
     ? T[K] | undefined
@@ -43,6 +47,8 @@ export class Derivable<T> extends Signal<T> {
   _flags: number;
   /** @internal */
   _properties: Map<NormalizedKey, Derivable<unknown>> | null = null;
+  /** @internal */
+  _drafts: Set<Draft> | null = null;
 
   static from<T>(value: T): Derivable<T> {
     return new Derivable(new Atom(value), null, null, NO_FLAGS);
@@ -213,11 +219,27 @@ function deleteProperty<T>(prop: Derivable<T>): void {
 }
 
 function detachProperties<T>(receiver: Derivable<T>): void {
+  let owner: Derivable<any> | null = null;
+  if (receiver._drafts !== null && receiver._drafts.size > 0) {
+    // The existing drafts stand for the value that is going to be replaced.
+    owner = new Derivable(
+      new Atom(receiver._source.value),
+      null,
+      null,
+      receiver._flags & FLAG_NEEDS_COMMIT,
+    );
+    owner._properties = receiver._properties;
+    owner._drafts = receiver._drafts;
+    for (const draft of receiver._drafts) {
+      draft.receiver = owner;
+    }
+    receiver._drafts = null;
+  }
   if (receiver._properties !== null) {
     for (const prop of receiver._properties.values()) {
-      prop._owner = null;
+      prop._owner = owner;
     }
-    receiver._properties.clear();
+    receiver._properties = null;
   }
 }
 
@@ -226,9 +248,10 @@ function draftTarget<T>(
   target: T & object,
   trackProperty: typeof getProperty = getProperty,
 ): { proxy: T; revoke: () => void } {
+  const draft: Draft = { receiver };
   const { proxy, revoke } = Proxy.revocable(target, {
     deleteProperty(target, key) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(draft.receiver, target, key);
       const success = !!(prop._flags & FLAG_CONFIGURABLE_PROPERTY);
       if (success) {
         deleteProperty(prop);
@@ -237,9 +260,9 @@ function draftTarget<T>(
     },
     get(target, key, _proxyReceiver) {
       if (key === UNWRAP_TAG) {
-        return commitValue(receiver);
+        return commitValue(draft.receiver);
       }
-      const prop = trackProperty(receiver, target, key);
+      const prop = trackProperty(draft.receiver, target, key);
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         return undefined;
       }
@@ -254,7 +277,7 @@ function draftTarget<T>(
       return commitValue(prop);
     },
     getOwnPropertyDescriptor(target, key) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(draft.receiver, target, key);
       if (prop._flags & FLAG_DELETED_PROPERTY) {
         return undefined;
       }
@@ -274,7 +297,7 @@ function draftTarget<T>(
       return descriptor;
     },
     set(target, key, value, _proxyReceiver) {
-      const prop = getProperty(receiver, target, key);
+      const prop = getProperty(draft.receiver, target, key);
       const success = !!(prop._flags & FLAG_WRITABLE_PROPERTY);
       if (success) {
         setPendingValue(prop, finalizeValue(value));
@@ -285,17 +308,17 @@ function draftTarget<T>(
       if (key === UNWRAP_TAG) {
         return true;
       }
-      const prop = receiver._properties?.get(key);
+      const prop = draft.receiver._properties?.get(key);
       return prop !== undefined
         ? !(prop._flags & FLAG_DELETED_PROPERTY)
         : Reflect.has(target, key);
     },
     ownKeys(target) {
       const baseKeys = Reflect.ownKeys(target);
-      if (receiver._properties !== null) {
+      if (draft.receiver._properties !== null) {
         const deletedKeys: NormalizedKey[] = [];
         const dynamicKeys: NormalizedKey[] = [];
-        for (const [key, prop] of receiver._properties.entries()) {
+        for (const [key, prop] of draft.receiver._properties.entries()) {
           if (prop._flags & FLAG_DELETED_PROPERTY) {
             deletedKeys.push(key);
           } else if (prop._flags & FLAG_DYNAMIC_PROPERTY) {
@@ -317,9 +340,12 @@ function draftTarget<T>(
     },
   });
   const revokeBatch = [revoke];
+  receiver._drafts ??= new Set();
+  receiver._drafts.add(draft);
   return {
     proxy,
     revoke() {
+      draft.receiver._drafts?.delete(draft);
       for (const revoke of revokeBatch) {
         revoke();
       }
-- 
2.43.0


From 930668708a49c9e8ccd3558cbb401d3e2125dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 38/49] fix: call setters of properties through drafts

---
 src/addons/signal/derivable.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 7b8fa96..792c211 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -406,7 +406,7 @@ function getPropertyFlags(descriptor: PropertyDescriptor): number {
   if (descriptor.enumerable) {
     flags |= FLAG_ENUMERABLE_PROPERTY;
   }
-  if (descriptor.writable) {
+  if (descriptor.writable || descriptor.set !== undefined) {
     flags |= FLAG_WRITABLE_PROPERTY;
   }
   return flags;
-- 
2.43.0


From 8075e9926115dc9a532e59a13865a5bdebb078df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 39/49] fix: call setters of derivable properties once

---
 src/addons/signal/derivable.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 792c211..e2a13e1 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -545,8 +545,11 @@ function setPendingValue<T>(receiver: Derivable<T>, newValue: T): void {
   if (receiver._source instanceof WritableSignal) {
     // Subscribers may read the value, so that the flags must be set in advance.
     detachProperties(receiver);
-    receiver._flags |= FLAG_PENDING_VALUE;
-    receiver._flags &= ~(FLAG_NEEDS_COMMIT | FLAG_DELETED_PROPERTY);
+    receiver._flags &= ~(FLAG_DIRTY_VALUE | FLAG_DELETED_PROPERTY);
+    if (!(receiver._source instanceof Accessor)) {
+      // A setter edits other properties, which will be committed instead.
+      receiver._flags |= FLAG_PENDING_VALUE;
+    }
     markOwners(receiver);
   }
   // Intentionally throws a TypeError if signal is a Computed (which has no setter).
-- 
2.43.0


From a56338ab247c2d19ee728408ff7c44c5f61c8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 40/49] fix: keep accessors of replaced values away from the
 new value

---
 src/addons/signal/derivable.ts | 52 +++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index e2a13e1..4adb26d 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -219,27 +219,31 @@ function deleteProperty<T>(prop: Derivable<T>): void {
 }
 
 function detachProperties<T>(receiver: Derivable<T>): void {
-  let owner: Derivable<any> | null = null;
-  if (receiver._drafts !== null && receiver._drafts.size > 0) {
-    // The existing drafts stand for the value that is going to be replaced.
-    owner = new Derivable(
-      new Atom(receiver._source.value),
-      null,
-      null,
-      receiver._flags & FLAG_NEEDS_COMMIT,
-    );
-    owner._properties = receiver._properties;
-    owner._drafts = receiver._drafts;
-    for (const draft of receiver._drafts) {
-      draft.receiver = owner;
-    }
-    receiver._drafts = null;
+  const { _drafts: drafts, _properties: properties } = receiver;
+  if (properties === null && !drafts?.size) {
+    return;
   }
-  if (receiver._properties !== null) {
-    for (const prop of receiver._properties.values()) {
+  // The existing properties and drafts stand for the value that is going to be
+  // replaced.
+  const owner: Derivable<any> = new Derivable(
+    new Atom(receiver._source.value),
+    null,
+    null,
+    receiver._flags & FLAG_NEEDS_COMMIT,
+  );
+  if (properties !== null) {
+    owner._properties = properties;
+    receiver._properties = null;
+    for (const prop of properties.values()) {
       prop._owner = owner;
     }
-    receiver._properties = null;
+  }
+  if (drafts !== null) {
+    owner._drafts = drafts;
+    receiver._drafts = null;
+    for (const draft of drafts) {
+      draft.receiver = owner;
+    }
   }
 }
 
@@ -464,10 +468,10 @@ function resolveProperty<T>(
   const flags = getPropertyFlags(descriptor);
 
   if (get !== undefined && set !== undefined) {
-    return new Derivable(
+    const prop: Derivable<unknown> = new Derivable(
       new Accessor(
         () => {
-          const { proxy, revoke } = draftTarget(receiver, target);
+          const { proxy, revoke } = draftTarget(prop._owner!, target);
           try {
             return finalizeValue(get.call(proxy));
           } finally {
@@ -475,7 +479,7 @@ function resolveProperty<T>(
           }
         },
         (newValue) => {
-          const { proxy, revoke } = draftTarget(receiver, target);
+          const { proxy, revoke } = draftTarget(prop._owner!, target);
           try {
             set.call(proxy, finalizeValue(newValue));
           } finally {
@@ -487,6 +491,7 @@ function resolveProperty<T>(
       key,
       flags,
     );
+    return prop;
   }
 
   if (get !== undefined) {
@@ -506,10 +511,10 @@ function resolveProperty<T>(
         (version, dependency) => version + dependency.version,
         0,
       );
-      return new Derivable(
+      const prop: Derivable<unknown> = new Derivable(
         new Computed(
           () => {
-            const { proxy, revoke } = draftTarget(receiver, target);
+            const { proxy, revoke } = draftTarget(prop._owner!, target);
             try {
               return finalizeValue(get.call(proxy));
             } finally {
@@ -524,6 +529,7 @@ function resolveProperty<T>(
         key,
         flags,
       );
+      return prop;
     } finally {
       revoke();
     }
-- 
2.43.0


From 41e363833c3434abf0111f3e22d8e1caacd1444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 41/49] fix: render updates whose components were rendered in a
 failed batch

---
 src/base.ts      |  2 ++
 src/component.ts | 13 ++++++++++++-
 src/runtime.ts   |  5 +++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/base.ts b/src/base.ts
index d49d64e..2876715 100644
--- a/src/base.ts
+++ b/src/base.ts
@@ -186,6 +186,8 @@ export type TemplateMode = 'html' | 'math' | 'svg' | 'textarea';
 export interface Transaction {
   readonly scope: Scope;
   readonly pendingLanes: Lanes;
+  /** Makes states pending again that were rendered in a failed batch. */
+  restore?(): void;
   prepare(lanes: Lanes, renderer: Renderer): Commit;
 }
 
diff --git a/src/component.ts b/src/component.ts
index d193a68..5172982 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -131,6 +131,9 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   readonly _dispatcher: Dispatcher;
   /** @internal */
   _pendingLanes: Lanes = NoLanes;
+  // The lanes that have been rendered but not committed (yet).
+  /** @internal */
+  _uncommittedLanes: Lanes = NoLanes;
   /** @internal */
   _context: RenderContext | null = null;
   /** @internal */
@@ -145,10 +148,11 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   }
 
   get pendingLanes(): Lanes {
-    return this._pendingLanes;
+    return this._pendingLanes | this._uncommittedLanes;
   }
 
   render(props: TProps, scope: Scope, lanes: Lanes): VElement {
+    this._uncommittedLanes |= this._pendingLanes & lanes;
     this._pendingLanes &= ~lanes;
     if (this._context !== null) {
       this._context._scope = scope;
@@ -182,6 +186,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
       }
     }
     this._connectedNode = node;
+    this._uncommittedLanes = NoLanes;
   }
 
   disconnect(): void {
@@ -518,6 +523,12 @@ class UpdateComponent implements Transaction {
     return this._instance._pendingLanes;
   }
 
+  restore(): void {
+    const instance = this._instance;
+    instance._pendingLanes |= instance._uncommittedLanes;
+    instance._uncommittedLanes = NoLanes;
+  }
+
   prepare(lanes: Lanes, renderer: Renderer): Commit {
     const node = this._instance._connectedNode;
     if (node === null) {
diff --git a/src/runtime.ts b/src/runtime.ts
index e453e6a..e7e6951 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -563,6 +563,11 @@ export class Runtime implements Renderer, Dispatcher {
         // they render the pending updates of their descendants as well.
         this._updateBatch.sort(compareLevels);
 
+        // A previous batch may have rendered components before it failed.
+        for (const { transaction } of this._updateBatch) {
+          transaction.restore?.();
+        }
+
         for (const update of this._updateBatch) {
           const { lanes, transaction } = update;
           if (transaction.pendingLanes & lanes) {
-- 
2.43.0


From 48db045f79fb6ddb15cd6ed7ffdae5a58fce9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 42/49] fix: process actions once if a reducer throws

---
 src/component.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index 5172982..c83c0aa 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -354,6 +354,9 @@ export class RenderContext {
       let skipLanes = NoLanes;
 
       memoizedActions.push(...dispatcher.pendingActions);
+      dispatcher.pendingActions = [];
+      // Stays true if the reducer throws.
+      dispatcher.hasSkippedActions = true;
 
       for (const action of memoizedActions) {
         const { payload, lanes, revertLanes } = action;
@@ -377,7 +380,6 @@ export class RenderContext {
 
       dispatcher.reducer = reducer;
       dispatcher.currentState = nextState;
-      dispatcher.pendingActions = [];
       dispatcher.hasSkippedActions = skipLanes !== NoLanes;
     } else {
       const dispatcher: ActionDispatcher<TState, TAction> = {
-- 
2.43.0


From 4a3c4a1d3b2b699c14fc1a6be95ee784aae37fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 43/49] fix: release the tree of a root when it is unmounted

---
 src/dom/root.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dom/root.ts b/src/dom/root.ts
index d4b89f7..eab8a7d 100644
--- a/src/dom/root.ts
+++ b/src/dom/root.ts
@@ -81,6 +81,10 @@ export class DOMRoot {
             this._unmounting = false;
             if (this._root.right !== null) {
               unmount(this._root.right);
+              if (this._root.left === this._root.right) {
+                // Release the unmounted tree.
+                this._root.left = null;
+              }
               this._root.right = null;
             }
           };
-- 
2.43.0


From 18385f2559fe2cd9e57e2a40de377776bc98894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 44/49] fix: keep the priority of style declarations

---
 src/dom/part.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index d8d2680..030c2fe 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -5,6 +5,7 @@ import { DOMAdapterError } from './error.js';
 
 const CLASS_TOKEN_SEPARATOR_PATTERN = /\s+/;
 
+const CSS_IMPORTANT_PATTERN = /\s*!\s*important\s*$/i;
 const CSS_UPPERCASE_LETTER_PATTERN = /[A-Z]/g;
 const CSS_VENDOR_PREFIX_PATTERN = /^(webkit|moz|ms|o)(?=[A-Z])/;
 
@@ -364,7 +365,9 @@ function parseCSSText(cssText: string): StyleMap {
   const styleMap: StyleMap = {};
   style.cssText = cssText;
   for (const property of style) {
-    styleMap[property] = style.getPropertyValue(property);
+    styleMap[property] =
+      style.getPropertyValue(property) +
+      (style.getPropertyPriority(property) && ' !important');
   }
   return styleMap;
 }
@@ -416,7 +419,16 @@ function updateStyle(
     const value = newProps[key];
     if (value != null) {
       const name = toCSSPropertyName(key);
-      style.setProperty(name, value);
+      if (CSS_IMPORTANT_PATTERN.test(value)) {
+        // The priority must be given separately.
+        style.setProperty(
+          name,
+          value.replace(CSS_IMPORTANT_PATTERN, ''),
+          'important',
+        );
+      } else {
+        style.setProperty(name, value);
+      }
     }
   }
 }
-- 
2.43.0


From 4241d7623a0ac1923e20a5620213c92c68bf5858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 45/49] fix: keep template modes that share their strings apart

---
 src/velement.ts | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/velement.ts b/src/velement.ts
index 8796887..dc56503 100644
--- a/src/velement.ts
+++ b/src/velement.ts
@@ -14,6 +14,12 @@ import {
 } from './base.js';
 import { sequentialEqual } from './compare.js';
 
+// The strings of a template literal whose tag varies are the same in all modes.
+const FOREIGN_STRINGS_CACHE = new WeakMap<
+  readonly string[],
+  { [mode in TemplateMode]?: readonly string[] }
+>();
+
 const INTERPOLATION_CACHE = new WeakMap<readonly string[], Interpolation[]>();
 
 interface Interpolation {
@@ -153,7 +159,7 @@ export function createTemplate(
     }
   }
   return new VNode(
-    strings,
+    mode === 'html' ? strings : getForeignStrings(mode, strings),
     {
       mode,
     },
@@ -199,6 +205,18 @@ export function wrap(value: unknown): VElement {
         : createBind(value);
 }
 
+function getForeignStrings(
+  mode: TemplateMode,
+  strings: readonly string[],
+): readonly string[] {
+  let foreignStrings = FOREIGN_STRINGS_CACHE.get(strings);
+  if (foreignStrings === undefined) {
+    foreignStrings = {};
+    FOREIGN_STRINGS_CACHE.set(strings, foreignStrings);
+  }
+  return (foreignStrings[mode] ??= strings.slice());
+}
+
 function isBindable(value: any): value is Bindable {
   return typeof value?.[toElement] === 'function';
 }
-- 
2.43.0


From f7f2825613c01a1ea7194a1ce0b395032a36863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 46/49] fix: keep the scope of a component until its next
 render is committed

---
 src/runtime.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index e7e6951..f5c396f 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -124,7 +124,11 @@ export class Runtime implements Renderer, Dispatcher {
         part: oldNode.part,
         left: oldNode.right.slice(),
         right: oldNode.right,
-        state: (oldNode as RenderNode.ComponentNode).state,
+        // The scope of the old node stays valid until the new node is committed.
+        state: {
+          instance: (oldNode as RenderNode.ComponentNode).state.instance,
+          scope,
+        },
       };
       const subScope = scope.enter(newElement.type);
       newNode.left[0] = this.diff(
@@ -138,7 +142,6 @@ export class Runtime implements Renderer, Dispatcher {
         0,
         newNode,
       );
-      newNode.state.scope = scope;
       return newNode;
     } else {
       const newNode: RenderNode.BlockNode = {
-- 
2.43.0


From 6773494804b5b626f16211477f7c0fddf1551aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 47/49] fix: turn class tokens with undefined flags off

DOMTokenList.toggle() ignores its second argument if it is undefined, so
that class=${{ name: undefined }} switched the class with every update
instead of removing it.
---
 src/dom/part.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dom/part.ts b/src/dom/part.ts
index 030c2fe..eb4a884 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -379,7 +379,8 @@ function toggleClass(
 ): void {
   for (const token of component.trim().split(CLASS_TOKEN_SEPARATOR_PATTERN)) {
     if (token !== '') {
-      classList.toggle(token, enabled);
+      // toggle() ignores the second argument if it is undefined.
+      classList.toggle(token, !!enabled);
     }
   }
 }
-- 
2.43.0


From da0258d74fbdfd2b870ab5f772d6e8710ce4fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:44 +0000
Subject: [PATCH 48/49] fix: leave requests made while a component is rendered
 to the next batch

---
 src/component.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index c83c0aa..40fc695 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -134,6 +134,9 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   // The lanes that have been rendered but not committed (yet).
   /** @internal */
   _uncommittedLanes: Lanes = NoLanes;
+  // Whether it was rendered since the last commit.
+  /** @internal */
+  _uncommitted: boolean = false;
   /** @internal */
   _context: RenderContext | null = null;
   /** @internal */
@@ -154,6 +157,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   render(props: TProps, scope: Scope, lanes: Lanes): VElement {
     this._uncommittedLanes |= this._pendingLanes & lanes;
     this._pendingLanes &= ~lanes;
+    this._uncommitted = true;
     if (this._context !== null) {
       this._context._scope = scope;
       this._context._lanes = lanes;
@@ -187,6 +191,7 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
     }
     this._connectedNode = node;
     this._uncommittedLanes = NoLanes;
+    this._uncommitted = false;
   }
 
   disconnect(): void {
@@ -522,13 +527,18 @@ class UpdateComponent implements Transaction {
   }
 
   get pendingLanes(): Lanes {
-    return this._instance._pendingLanes;
+    // Lanes that became pending after the component was rendered in the batch
+    // belong to a later update.
+    return this._instance._uncommitted
+      ? NoLanes
+      : this._instance._pendingLanes;
   }
 
   restore(): void {
     const instance = this._instance;
     instance._pendingLanes |= instance._uncommittedLanes;
     instance._uncommittedLanes = NoLanes;
+    instance._uncommitted = false;
   }
 
   prepare(lanes: Lanes, renderer: Renderer): Commit {
-- 
2.43.0


From ac385ef351bd250c7424420e73fcf92978d4432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:16 +0000
Subject: [PATCH 49/49] fix: apply any number of pending actions in one render

---
 src/component.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index 40fc695..356c20c 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -358,7 +358,10 @@ export class RenderContext {
         : memoizedState;
       let skipLanes = NoLanes;
 
-      memoizedActions.push(...dispatcher.pendingActions);
+      // Spreading the actions would limit their number.
+      for (const action of dispatcher.pendingActions) {
+        memoizedActions.push(action);
+      }
       dispatcher.pendingActions = [];
       // Stays true if the reducer throws.
       dispatcher.hasSkippedActions = true;
-- 
2.43.0

