#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "The DOM shows exactly the last value rendered, whatever came before",
  "Once all requested updates have finished, the visible DOM of every root and portal container equals the DOM denoted by the value last committed to that root together with the current state of its components, node for node and in order. It depends on nothing else: not on the values rendered earlier, the route of list edits, type switches, unmounts and remounts that led there, nor on how updates were batched or in what order the host ran its callbacks.",
  ["histories", "inputs", "schedules"], "all trees of templates, keyed/unkeyed lists, components, portals, empty values; all edit histories; all batchings and host callback orders",
  "Tests render a handful of hand-picked before/after pairs; list diffing, sibling anchoring and double buffering interact over unbounded histories.",
  ["src/runtime.ts", "src/commit.ts", "src/dom/block.ts", "src/dom/part.ts", "src/dom/root.ts", "src/dom/template.ts"],
  [("Runtime.diff/_diffChildren", "src/runtime.ts"), ("applyPatch/getSiblingDOMNode", "src/commit.ts")],
  ["container DOM after UpdateHandle.finished"],
  [("RenderNode.left/right", "work-in-progress vs committed children", "src/base.ts")])
p("C02", "Keyed and positional identity of DOM nodes and component state",
  "When a new value has the same type and key as the one at the same position, or the same type and key among the items of the same list, its existing DOM elements and component instances (with their state) are kept, moved if needed; otherwise the old ones are discarded and fresh ones are created. Keys are compared with Object.is, and no element or component state is ever shared between, or handed over to, a different key or type.",
  ["histories", "inputs"], "all permutations, insertions, removals and replacements of list items and all type/key switches, at any depth",
  "Tests cover fixed permutations; identity must hold for every reordering at every nesting depth and key value.",
  ["src/runtime.ts", "src/commit.ts", "src/velement.ts", "src/base.ts"],
  [("_diffChildren head/tail/map algorithm", "src/runtime.ts"), ("applyPatch type/key test", "src/commit.ts")],
  ["object identity of DOM elements", "state rendered by component instances"])
p("C03", "Attribute, class, style, property, live and event bindings track their value",
  "After every update each bound attribute, class list, style declaration, element property, live property and event listener of an element is what the latest bound value alone calls for, the same as if that value had been bound first; static classes, style properties and other attributes written in the template are left alone. null, undefined and false remove an attribute and true sets it to the empty string; an event reaches exactly the current listener, once, with its current options.",
  ["histories", "inputs"], "all sequences of values (strings, numbers, booleans, null, maps, listener functions and objects with options) bound to each kind of hole",
  "Tests check a few value pairs per binding; the property is about every ordered pair and longer histories, where stale parts of an old value may survive.",
  ["src/dom/part.ts"],
  [("AttributePart/ClassPart/StylePart/EventPart/LivePart/PropertyPart", "src/dom/part.ts")],
  ["Element attributes, classList, style, properties, dispatched events"])
p("C04", "Every template hole is bound to the place where it was written, or rejected",
  "For any template, each interpolated value takes effect exactly at the element, attribute (with its written case for foreign attributes), text position or child position where it stands in the source, and the static markup around the holes is reproduced as the HTML parser would build it in the context its tag (html, svg, math or text) stands for (up to whitespace around line breaks). A template in which some value has no such place, or in which the HTML parser changes the order or number of the holes, is rejected with an error when it is first rendered; a value is never silently bound to another hole's place.",
  ["inputs", "programs"], "all template sources: nesting, void elements, tables, svg/math, comments, adjacent holes, whitespace, attribute quoting styles",
  "Tests list a few dozen templates; holes are matched by document traversal against source order, which must agree for every markup shape.",
  ["src/dom/template.ts", "src/dom/adapter.ts"],
  [("parseTemplate/collectAttributeHoles", "src/dom/template.ts"), ("navigateNode", "src/dom/template.ts")],
  ["rendered DOM compared with an independent model of the template"])
p("C05", "Bound values are inert data",
  "Whatever strings are bound to text, attribute, class, style, property or child holes, they appear only as text, attribute values, class tokens, declared style properties or comment data: no element, attribute, listener or further hole that is not in the template source ever comes into being from a value.",
  ["inputs"], "all strings, including markup, comment and quote terminators, hole-marker look-alikes, NUL and lone surrogates, in every hole kind and over successive updates",
  "Tests never bind hostile strings.",
  ["src/dom/template.ts", "src/dom/part.ts", "src/velement.ts"],
  [("values are never joined into markup", "src/dom/template.ts")],
  ["element and attribute census of the rendered DOM"])
p("C06", "Unmounting leaves nothing behind and touches nothing foreign",
  "Removing any part of a tree, or unmounting a root, removes exactly the nodes that part put into the document, including the contents of its portals wherever they are nested, removes its event listeners and clears its element refs; nodes that others put into the same containers before or after the rendered ones stay, untouched and in order. A later update or event for a removed part changes nothing in the document, and the same root can be rendered into again.",
  ["histories", "inputs"], "all trees, removed at any level and by any route (list removal, type switch, null, root unmount), with foreign content in the containers",
  "Tests unmount small fixed trees; cascading removal depends on every combination of nesting.",
  ["src/commit.ts", "src/dom/block.ts", "src/dom/part.ts", "src/dom/root.ts"],
  [("unmountChild cascade", "src/commit.ts"), ("DOMBlock.unmount", "src/dom/block.ts")],
  ["container children, listener counts, refs"])
p("C07", "Updates touch only what changed",
  "Rendering an equal value again causes no DOM mutation at all, and an update only mutates nodes whose own rendered content, attributes or list membership/position changed: bindings whose value is identical to the previous one are not written again, and elements that stay are never removed and re-inserted except to reorder list items, and not even then in lists whose surviving keys keep their relative order. In particular pure appends, prepends, removals and in-place updates of a keyed list move no surviving item. What is removed together with an ancestor stays inside of it, unchanged.",
  ["histories", "inputs"], "all pairs of successive values",
  "Tests assert final markup, not the absence of intermediate or redundant mutations, over arbitrary pairs of trees.",
  ["src/runtime.ts", "src/commit.ts", "src/dom/part.ts"],
  [("is() guards in parts", "src/dom/part.ts"), ("_diffChildren head/tail matching", "src/runtime.ts")],
  ["MutationObserver records"])
p("C08", "Component state is the in-order fold of its actions, each exactly once",
  "After all its updates have finished, the state of a reducer or state hook equals the initial state with every dispatched (non-transient) action applied exactly once, in dispatch order, whatever priorities, transitions, sync flushes, batching and host callback orders were used; no action is lost, doubled or reordered in the final state, however many there are. A reducer exchanged while no action is pending applies to all later actions. Every value a component renders in between is the fold of a subset of the dispatched actions in dispatch order, with each action included once its own update has finished, and dispatching an action that yields an equal state on an idle hook causes no re-render.",
  ["schedules", "histories"], "all interleavings of dispatches at all priorities with renders and commits, including dispatches from effects and event handlers",
  "Tests use two or three dispatches with one schedule.",
  ["src/component.ts", "src/runtime.ts", "src/lane.ts"],
  [("useReducer action replay and eager state", "src/component.ts")],
  ["rendered state values", "UpdateHandle.finished"],
  [("pendingActions/memoizedActions", "actions not yet part of the base state", "src/component.ts")])
p("C09", "Effects run exactly once per change and are always cleaned up",
  "An effect runs after the commit of every render in which its dependencies changed (each element compared with Object.is; always when given no dependencies), after the DOM of that commit is in place, and never for unchanged dependencies. Before an effect runs again and when its component is unmounted, the cleanup returned by its previous run is called exactly once; at all times setups minus cleanups is 1 for mounted effects and 0 for unmounted ones, and children's effects run before their parent's.",
  ["histories", "inputs", "schedules"], "all sequences of mounts, re-renders with changing dependency lists, moves and unmounts",
  "Tests exercise fixed dependency sequences on a couple of components.",
  ["src/component.ts", "src/commit.ts"],
  [("FunctionComponent.connect/disconnect", "src/component.ts"), ("afterCommit", "src/commit.ts")],
  ["setup/cleanup calls made by effects"])
p("C10", "Memoised values, callbacks, refs, dispatchers and ids are stable",
  "useMemo and useCallback return the value of the latest render in which a dependency changed under Object.is and recompute only then; useRef objects, dispatch functions and ids keep their identity for the whole life of an instance, across moves and re-renders. Ids are unique among all instances and hooks of all runtimes (each with its own host adapter) and valid as element ids, a useRef never carries over to another instance, and changing the number of hooks between renders, or exchanging state, effect, id and memo hooks for each other, is reported as an error instead of mixing up their data.",
  ["histories", "inputs"], "all sequences of renders with arbitrary dependency lists and any number of instances and runtimes",
  "Tests compare one re-render.",
  ["src/component.ts", "src/runtime.ts", "src/dom/adapter.ts"],
  [("useMemo/useId/ensureHookType", "src/component.ts"), ("nextIdentifier", "src/runtime.ts")],
  ["values returned by hooks over time"])
p("C11", "Context injection resolves to the nearest provider",
  "When a component renders, inject() returns the instance most recently provided by the nearest enclosing component (itself included), in the render of it (a failed one does not count) under which the injecting component is rendered, whose provided instance is an instance of the requested class, subclasses included and through portals; it falls back to the class's default only if no ancestor provides one, and throws if there is no default. It never sees instances provided by siblings, descendants or other roots, nor ones provided only by earlier renders of a component that rendered it again.",
  ["inputs", "histories"], "all component trees with arbitrary providers and consumers, under re-renders of providers, moves and portals",
  "Tests use one or two provider levels.",
  ["src/component.ts", "src/base.ts"],
  [("RenderContext.inject/provide, Scope", "src/component.ts")],
  ["values returned by inject()"])
p("C12", "Components re-render when needed and only then",
  "A component's function runs when it is mounted, when its parent renders it with props its arePropsEqual deems different, or when it has an update of its own due, and in no other case; and it never fails to run in those cases, even below parents that were skipped. Within one batch of updates each mounted instance runs at most once, however many of its ancestors and of its own updates are in the batch (several renders of the same root aside).",
  ["schedules", "histories"], "all trees with memoised and plain components, all sets of simultaneous updates",
  "Tests count renders for one parent/child pair.",
  ["src/runtime.ts", "src/component.ts"],
  [("Runtime.diff bail-out on props and pendingLanes", "src/runtime.ts"), ("UpdateComponent.pendingLanes", "src/component.ts")],
  ["component function invocations"])
p("C13", "Element refs point to live elements, exactly while they are mounted",
  "A ref callback bound to an element is called exactly once with that element when it is mounted or newly bound, and its cleanup exactly once when it is replaced by a different callback or unmounted; calls and cleanups alternate, and an unchanged callback is not called again. A Ref object bound to one element holds it during effects and event handlers as long as the element is mounted and is null afterwards, also when refs are swapped or move between elements in one update.",
  ["histories", "inputs"], "all sequences of (un)mounting, replacing, swapping and moving refs",
  "Tests mount and unmount one ref.",
  ["src/dom/part.ts", "src/component.ts", "src/commit.ts"],
  [("ElementPart", "src/dom/part.ts"), ("Ref[toElement]", "src/component.ts")],
  ["ref callback and cleanup calls", "Ref.current"])
p("C14", "Every requested update settles, and finished means visible",
  "Every update handle's finished promise settles once the host has run the callbacks it was asked to run, in whatever order and with whatever delays it runs them, including updates requested from effects, commits, event handlers or other updates' continuations; no update is starved or forgotten. When finished fulfils, the update's effect is already in the DOM; an update for a component that was unmounted meanwhile fulfils without effect. The updates of a batch in which a component throws are rejected, every one of them. The step() of the public API, called while updates are open, resolves to true when one of them has settled, and to false if there is none.",
  ["schedules"], "all interleavings of schedule calls at all priorities with host task and frame callbacks",
  "Tests use one in-order host; starvation needs specific callback orders.",
  ["src/runtime.ts", "src/queue.ts", "src/lane.ts"],
  [("Runtime.schedule/_flush", "src/runtime.ts")],
  ["UpdateHandle.finished", "host callback queue"],
  [("_pendingLanes/_stagedLanes", "lanes with a requested / fired callback", "src/runtime.ts")])
p("C15", "Rendering never touches the document; a batch commits atomically",
  "While components render, the document does not change; all changes of a batch of updates are applied in one uninterrupted synchronous step, so neither a microtask nor a task can observe a partially applied batch. That step runs inside the host's commit request, except that flushSync updates (with or without a handler) are applied in the microtask in which they are rendered and any other update with a handler is applied when, and only when, its handler calls the given commit function.",
  ["schedules", "inputs"], "all batches, trees and commit modes",
  "Tests look at the document after everything settled.",
  ["src/runtime.ts", "src/commit.ts"],
  [("Runtime._flush commit callback", "src/runtime.ts")],
  ["MutationObserver records between render and commit events", "microtasks interleaved with commits"])
p("C16", "Updates are ordered by priority, then by request",
  "Among updates that are ready, those of higher priority (sync, then handler, user-blocking, user-visible, background, transitions, delays) are rendered and committed no later than those of lower priority; an update is never rendered before it, an update of lower urgency or another update of its transition became due, and renders of one root at the same priority take effect in request order, so the last one wins. A request for which no callback of the same kind is pending yet reaches the host with the priority and options given, or by default with the priority the host reports for the current situation.",
  ["schedules", "inputs"], "all sets of simultaneous updates and host callback orders",
  "Tests use two updates at a time.",
  ["src/runtime.ts", "src/lane.ts", "src/queue.ts"],
  [("PriorityQueue, compareUpdates", "src/runtime.ts"), ("getRenderLanes", "src/lane.ts")],
  ["order of update renderings seen by middleware", "requestCallback options"])
p("C17", "A failing render is reported and contained",
  "If a component throws while rendering (in its function, hooks, reducers, or while its result is turned into elements), or a template is malformed, or a middleware or a commit handler fails before anything is committed (with the error itself), every update of the batch is rejected with an error whose cause chain contains the thrown value and, in debug builds, names the component that threw, if any; none of them commits, the DOM stays exactly as it was, and no effect, cleanup or ref is called. The runtime keeps processing: every other update settles, and one of a component that is fulfilled afterwards is shown. As soon as a later update renders a value whose components do not throw, the DOM shows it completely; every finished action of a component is part of its state exactly once and in order, one whose update has failed at most once.",
  ["fault_sequences", "histories", "inputs"], "all positions and times at which components may throw, followed by any further updates",
  "Tests throw at one position and check the message.",
  ["src/runtime.ts", "src/component.ts", "src/error.ts", "src/dom/error.ts"],
  [("Runtime._flush catch", "src/runtime.ts"), ("FunctionComponent.render catch", "src/component.ts")],
  ["finished rejections", "DOM before/after the failure"])
p("C18", "Middleware see every update once, in order, and logging is transparent",
  "Each rendered update passes once through the middleware in registration order, starting with the first registered, and its commit through the commits they return; removed middleware are not called again. UpdateLogger and UpdateProfiler change nothing about rendering: DOM, effects, errors and promises are the same with and without them, also when updates fail or commit together. UpdateLogger emits exactly one report (a group with its end, never nested) for every update that failed to render or whose commit was run, in the order of the commits, and reports it as failed only in the former case, with the component updated and its owners, the priority and the mode of commit requested, and, for commits, their number within the batch from 0; UpdateProfiler marks the start and the end of every render and commit (only the start of one that throws) and measures each committed update, its render and its commit between the matching marks.",
  ["histories", "fault_sequences"], "all update sequences incl. failing ones, any number of middleware added and removed over time",
  "Tests log one successful and one failing update.",
  ["src/runtime.ts", "src/addons/update-logger.ts", "src/addons/update-profiler.ts"],
  [("runPipeline", "src/runtime.ts"), ("UpdateLogger/UpdateProfiler.handle", "src/addons")],
  ["middleware calls", "logger and user-timing calls"])
p("C19", "Production builds behave like debug builds",
  "Removing the debug-labelled code, as production builds do, changes no observable behaviour of a correct program: the same program under the same schedule produces the same DOM, the same sequence of component renders, effects, ref calls, promise settlements and the same state.",
  ["programs", "schedules"], "all programs that raise no debug error",
  "Tests only run the debug build.",
  ["src/dom/template.ts", "src/base.ts", "src/component.ts", "src/velement.ts", "src/error.ts", "src/dom/part.ts"],
  [("DEBUG: labelled statements", "src")],
  ["event traces of the two builds"])
p("C20", "Computed signals are always consistent with their sources",
  "Reading a computed signal always returns its computation applied to the current values of its dependencies, through any graph of atoms, accessors and computed signals; a computation that returned is not run again while no dependency has been written since, and a signal's version never decreases and grows whenever its value may have changed. Subscribers of a computed signal hear of every write of a dependency, at which time it already reads its new value.",
  ["histories", "inputs"], "all dependency graphs and all interleavings of writes and reads",
  "Tests build one or two level graphs.",
  ["src/addons/signal/signal.ts"],
  [("Computed.value/version", "src/addons/signal/signal.ts")],
  ["signal values, versions and computation calls"])
p("C21", "Subscribers hear of each write exactly once, and only while subscribed",
  "Writing a different value (under Object.is) to a writable signal notifies every current subscriber once, in subscription order, with the old and new value, after the new value is readable; writing an equal value notifies nobody. A subscriber removed at any moment, also by another subscriber during notification, is not called after its removal, removing one subscription never affects another, and unsubscribing twice is harmless.",
  ["histories"], "all sequences of subscribe, unsubscribe and write, including reentrant ones from inside subscribers",
  "Tests never unsubscribe during notification.",
  ["src/addons/signal/signal.ts", "src/addons/signal/linked-list.ts"],
  [("WritableSignal.invalidate", "src/addons/signal/signal.ts"), ("LinkedList", "src/addons/signal/linked-list.ts")],
  ["subscriber calls"])
p("C22", "Components always catch up with the signals they use, and let go of them",
  "After pending microtasks and updates have run, every mounted component or template hole that uses a signal shows that signal's current value, no matter when writes happen (before mount, between render and commit, inside effects, several at once) or which signal is used in each render; a write that leaves the value equal causes no re-render. Each mounted use holds exactly one subscription, and unmounting or switching to another signal releases it.",
  ["schedules", "histories"], "all interleavings of signal writes with rendering, committing, unmounting and switching of signals",
  "Tests write a signal once after mounting.",
  ["src/addons/signal/signal.ts", "src/addons/signal/hooks.ts"],
  [("Signal.onUse", "src/addons/signal/signal.ts")],
  ["rendered values", "subscription counts"])
p("C23", "Derivable edits behave like edits of a mutable copy, with immutable snapshots",
  "After any sequence of reads, sets and deletes through property signals and of reads, assignments, deletions, array methods and exchanges through scope drafts, a derivable holding a tree of objects, arrays and class instances (no object twice, nothing frozen) and each of its property signals have the value that the same edits give a plain mutable copy, and drafts show it while they are edited; values read or assigned earlier are never modified, an unedited subtree keeps its identity, and an unedited derivable keeps returning the same object. By each set or deletion of a property, subscribers of every owner above it are called once with the path from that owner to the property, subscribers of other properties are not (those of getters that read the property are), a subscriber already reads the edited value, and the versions of the owners increase; a shallow signal is notified when its own property is set or deleted, not of edits below. Drafts are unusable after their scope. Property signals of values that have been replaced or deleted no longer affect the derivable.",
  ["histories", "inputs"], "all trees and all sequences of edits and reads at any depth",
  "Tests try a few single edits.",
  ["src/addons/signal/derivable.ts"],
  [("commitValue/setPendingValue/draftTarget", "src/addons/signal/derivable.ts")],
  ["derivable values vs a mutable model", "events"])
p("C24", "External stores are never read stale",
  "SyncExternalStore returns the store's snapshot of the moment of the render. After any change announced to the subscribers, or made between the render and the effects of a component, every mounted component shows the current snapshot of the store last passed to it as soon as microtasks have run (or, if a batch is waiting then for its frame or handler, as soon as they have run after that commit), also when its subscribe or getSnapshot function has been replaced. A change that leaves a component's snapshot the same under Object.is does not render it, and one change renders it at most once. Each mounted component is subscribed exactly once: it subscribes in its effects, subscribes again only if renders since passed another subscribe function, and ends each subscription once, when it is replaced or the component is unmounted.",
  ["schedules", "histories"], "all interleavings of store changes with rendering, committing and replacing of the store",
  "Tests change the store once after mounting.",
  ["src/addons/hooks.ts"],
  [("SyncExternalStore", "src/addons/hooks.ts")],
  ["rendered snapshots", "subscribe/unsubscribe calls"])
p("C25", "Deferred values catch up and transitions end",
  "DeferredValue first shows the given initial value (anything but undefined, a function being called for it) or else the value itself; after that it only ever shows values passed to it in earlier committed renders, in that order and never the one just being passed for the first time; it catches up by an update in a transition of its own with the dispatch options given, and shows the latest value when all updates have finished. A component using Transition is pending from the microtasks after a transition started (or, if a batch is waiting for its frame or handler then, from that commit on) as long as at least one started transition has not ended - its action returning or throwing, or its promise settling either way - or has updates of the same component, or of others in its transition, that have not been committed; once all have ended and been committed it is idle. The action runs once, synchronously, with a transition number, and startTransition returns or throws what the action did.",
  ["schedules", "histories", "fault_sequences"], "all sequences of values and overlapping transitions, sync, async, rejected, under any host schedule",
  "Tests run a single transition with one schedule.",
  ["src/addons/hooks.ts", "src/component.ts", "src/runtime.ts"],
  [("DeferredValue, Transition", "src/addons/hooks.ts")],
  ["rendered values and pending flags"])
p("C26", "Effect events call the latest callback; imperative handles match the mount",
  "A function returned by EffectEvent, in any render, always calls the callback of the latest committed render (from that component's effects on) exactly once with the given arguments and this, and returns or throws what it does. ImperativeHandle creates a handle, in the effects of a component and never while rendering, when it is mounted, in every render if no dependencies are given, and else only if a dependency or the ref changed since; the ref object holds, or the function ref has got, the latest handle until the ref is replaced, another handle is created or the component is unmounted, when the ref object is set to null or the cleanup the function ref returned is called once. The dependencies given are left as they are.",
  ["histories"], "all sequences of renders with changing callbacks, refs and dependencies, and calls at any time",
  "Tests check one re-render.",
  ["src/addons/hooks.ts"],
  [("EffectEvent, ImperativeHandle", "src/addons/hooks.ts")],
  ["calls and results", "ref contents"])
p("C27", "Routing picks the first matching route with exactly its captures",
  "Router.match splits the URL path at slashes and, at each level in declaration order, takes the first route whose patterns all match the next components and either exhausts the URL or has child routes to descend into; it calls that route's resolver once with the captures of the routes on the path to it, in order and nothing else, and returns its result, or undefined when nothing matches. The matchers accept exactly their language: integer only canonical decimal integers, keyword only itself, choice the first success, select the mapped value, decoded the percent-decoded component (a malformed escape throws).",
  ["inputs"], "all route tables and URLs",
  "Tests use one route table.",
  ["src/addons/router/router.ts", "src/addons/router/matchers.ts"],
  [("Router.match", "src/addons/router/router.ts")],
  ["match results vs a reference matcher"])
p("C28", "Navigation and the rendered scene stay in step",
  "Every navigation delivered by a Browser, Hash or InMemory adapter to its current listeners carries the destination's URL (relative, without the leading # for hashes), state and type, listeners are called once per navigation while registered and never after removal, and navigations the adapter must not handle (downloads, cross-document, hash changes for Browser, non-hash changes for Hash) are not delivered. navigate() rejects when a handler fails and otherwise resolves, but only after all intercepting handlers have finished, at which point (unless another navigation overlaps) every component that was mounted with SyncNavigation shows that scene, provides it to its descendants, and the adapter reports the new URL and state; the handler returned by an intercept function is used in place of the default one. Each mounted component listens to its current adapter only.",
  ["histories", "schedules", "inputs"], "all sequences of navigations, listener changes and interceptions",
  "Tests navigate once per adapter.",
  ["src/addons/router/adapter.ts", "src/addons/router/hook.ts"],
  [("BrowserAdapter/HashAdapter/InMemoryAdapter", "src/addons/router/adapter.ts"), ("SyncNavigation", "src/addons/router/hook.ts")],
  ["listener calls, adapter URL/state, rendered scene"])
p("C29", "Template minification changes only whitespace at line breaks",
  "Minified source evaluates to a program that behaves the same: only the text of the tagged templates named in the options changes, and there only line breaks with the whitespace after them are dropped next to a tag boundary or collapsed to one space elsewhere. Interpolated expressions, other templates, strings, escapes and the rest of the program are preserved, templates nested at any depth are treated alike, minifying again changes nothing, and source without such templates is returned unchanged.",
  ["programs", "inputs"], "all JavaScript and TypeScript sources with tagged templates nested anywhere",
  "Tests transform a few snippets and compare text.",
  ["tools/esbuild-plugin-minify-templates/src/transform.ts", "tools/esbuild-plugin-minify-templates/src/index.ts"],
  [("transformTemplates", "tools/esbuild-plugin-minify-templates/src/transform.ts")],
  ["strings and values received by the tags before/after"])
p("C30", "Composing partials equals writing the template out in one piece",
  "Partial.html, svg, math and parse with embedded partials and literals yield the strings and values of the one template obtained by splicing each partial's text and values in place, at any nesting depth, regardless of what was composed before. Repeating a composition with the same tag and pieces yields the same template identity, so rendering it again updates in place, and different static text or modes never share a template identity.",
  ["inputs", "histories"], "all nestings of partials and literals and all orders of composing them",
  "Tests compose a few fixed partials.",
  ["src/velement.ts"],
  [("Partial.parse, interpolation cache", "src/velement.ts")],
  ["strings/values of composed templates", "element identity on re-render"])
p("C31", "The DOM adapter runs each host request exactly once",
  "For every callback handed to the DOM adapter, exactly one invocation happens, asynchronously and not before the requested delay, whichever native scheduling APIs exist and whichever of the competing timers fires first; the returned promise settles with it, a commit is run in the animation frame when frames are produced and by the timeout otherwise, with the other one cancelled. Default task priority is user-visible inside continuous input events, user-blocking inside any other event or while the document is loading, and background otherwise.",
  ["schedules", "configurations", "fault_sequences"], "all combinations of available host APIs, timer orders, current events, and throwing callbacks",
  "Tests stub one API at a time with a fixed order.",
  ["src/dom/adapter.ts"],
  [("DOMAdapter.requestCallback/requestCommit/getTaskPriority", "src/dom/adapter.ts")],
  ["callback invocations and API calls"])
p("C32", "Unmounted trees are not retained",
  "Once a tree or part of it, or a value bound to a surviving element, has been removed (by an update, a re-render or unmount()) and the pending updates have finished, neither the runtime and its host adapter, the root, surviving components and elements, nor the signals, stores, refs and navigation adapters used keep its elements, component instances, templates, props, states, actions, closures, subscriptions or other values alive, so repeated mounting and unmounting runs in bounded memory, as do repeated updates, failing renders, transitions, edits, scopes, subscriptions, navigations and compositions. What a failed render leaves behind may be kept until the same place is rendered again.",
  ["histories"], "all trees, mounted and unmounted repeatedly under a surviving root",
  "Tests do not observe garbage collection.",
  ["src/commit.ts", "src/runtime.ts", "src/dom/root.ts", "src/component.ts", "src/addons/signal/signal.ts"],
  [("unmountChild, disconnect", "src/commit.ts")],
  ["WeakRefs after forced garbage collection"])
p("C33", "Equality helpers agree with their definition",
  "sequentialEqual and shallowEqual return true exactly when both arguments are identical or have the same length (the same own enumerable string keys) and every element pair is equal under the given comparison, called with the elements in argument order, Object.is by default; they are reflexive, symmetric for symmetric comparisons, and never report equal for values one of which merely inherits or lacks a key.",
  ["inputs"], "all arrays/array-likes and objects, including NaN, signed zero, holes, undefined values, inherited, symbol and non-enumerable keys",
  "Tests list a dozen pairs.",
  ["src/compare.ts"],
  [("sequentialEqual/shallowEqual", "src/compare.ts")],
  ["return values vs a reference definition"])

p("C34", "flushSync updates commit before the host gets its next turn",
  "An update requested with flushSync, alone or together with a priority, transition, delay or handler, and from anywhere (outside, listeners, effects, cleanups, refs, handlers, continuations), never asks the host for a callback: it has been rendered, committed and settled as soon as the microtasks following the request have run, or, if a batch is waiting at that time for its frame or for its handler, as soon as the microtasks following that commit have run. No other pending update delays it.",
  ["schedules", "inputs"], "all sets of pending updates of any lanes and all origins of requests, at any host schedule",
  "Tests flush a single update with nothing else pending.",
  ["src/runtime.ts", "src/lane.ts"],
  [("schedule, _flush", "src/runtime.ts"), ("getRenderLanes", "src/lane.ts")],
  ["settled updates after each turn", "requests to the host"])

p("C35", "Reports of mistakes point at the right place, and only mistakes are reported",
  "In debug builds, an error about a template (an expression as tag or attribute name, as part of an attribute value or of a comment, doubled attributes, holes moved by the parser) or about a value that an event or element hole cannot take shows the node or attribute in question within a whole piece of the tree it stands in, exactly as that tree is: every element with its attributes, text and comment of the piece once, in document order, indented by depth, with carets below exactly the markup in question. Small trees are shown whole, larger pieces have at least ten elements, attributes, texts or comments. A template bound to a hole that is no child hole gives one such warning, a Partial among the values of a template one warning with that Partial; both are rendered nevertheless. Reporting changes nothing in the document. Nothing else is ever written to the console: correct templates and values give no output, and production builds never write anything and their errors of this kind show no tree.",
  ["inputs", "programs"], "all templates (elements, void elements, svg, attributes, texts and comments with markup characters, further holes) with a mistake of any of these kinds at any place, and all values of event, element and attribute holes, at mount and update, in debug and production builds",
  "Tests print ten small trees built by hand; the report is computed from any tree a template may describe, in the middle of parsing or committing it.",
  ["src/dom/debug.ts", "src/dom/error.ts", "src/dom/template.ts", "src/dom/part.ts", "src/velement.ts"],
  [("generateNodeFrame", "src/dom/debug.ts"), ("DOMAdapterError.withNode", "src/dom/error.ts"), ("DOMPart.mountBlock", "src/dom/part.ts")],
  ["error messages", "console output", "document before and after"])

p("C36", "Roots may stand inside of elements rendered by other roots",
  "Any number of runtimes, each with an adapter of its own and any number of roots with containers of their own, may work in one or several documents, side by side or inside of elements that other roots (of the same or another runtime) render; roots may be created by effects and unmounted by their cleanups. An update of a root modifies nothing outside of its container and nothing in containers of other roots inside of it; the content of an inner root survives all updates and moves of its surroundings and is removed, with the cleanups of its effects, when it is unmounted. Failing updates of one runtime never make updates of another fail. Values provided in one root cannot be injected in another one, also when this stands inside of it. All nodes are created by the document of the adapter. Every update settles, and when all are done each root shows its last requested value with the state its own actions make.",
  ["schedules", "histories"], "all arrangements of runtimes, documents and (nested) roots, all update histories and all orders of their host callbacks, with failing components in one of them",
  "Tests use one root per runtime; interference needs specific timings of several runtimes and roots.",
  ["src/dom/root.ts", "src/runtime.ts", "src/dom/adapter.ts", "src/commit.ts", "src/component.ts"],
  [("DOMRoot", "src/dom/root.ts"), ("Runtime", "src/runtime.ts"), ("RenderContext.inject", "src/component.ts"), ("DOMAdapter", "src/dom/adapter.ts")],
  ["mutations of the document", "settled updates", "injected values", "content of the roots"])

p("C37", "A runtime behaves as if it were alone",
  "What a runtime does depends only on the calls made to it and the order in which its adapter runs its callbacks: the sequence of its renders, commits, effects, cleanups, refs, identifiers (apart from the prefix of the adapter), update and transition numbers, injected values, settlements and failures, and the content of its roots, are the same whether or not other runtimes of the same copy of the library, with the same components and templates, work between its callbacks, or within its renders, commits, effects and middleware.",
  ["schedules", "histories"], "all workloads of several runtimes and all interleavings and nestings of their steps",
  "Tests never let two runtimes work at the same time.",
  ["src/runtime.ts", "src/component.ts", "src/commit.ts", "src/velement.ts", "src/dom/template.ts"],
  [("Runtime", "src/runtime.ts"), ("RenderContext", "src/component.ts"), ("DOMTemplate", "src/dom/template.ts")],
  ["log of everything a runtime does, alone and together"])

p("C38", "Custom elements are complete whenever they are connected, and see each change once",
  "Custom elements in templates are constructed (upgraded) while rendering, so that bound properties always go through their setters. Whenever such an element is connected to the document, by being rendered or moved, its properties, live properties, attributes, classes, texts, child elements and event listeners are those of the value being committed, and events it dispatches at that moment reach its listeners. An update sets each of its bound properties and attributes at most once, and only if the value has changed (live properties: if the element has another value); attributes that are not bound are never touched. An element that keeps its place among its siblings, as its ancestors do, is neither disconnected nor connected; elements that are moved are disconnected and connected once per moved ancestor or self at most, and where the browser has moveBefore they are moved by it, which keeps their state; removed elements are disconnected. Updates requested by callbacks and setters of elements, also during a commit or a render, settle and leave the document of the last values.",
  ["inputs", "histories", "schedules"], "all trees of custom elements and update histories with requests from their reactions, all orders of host callbacks",
  "Tests use built-in elements, which do not observe the order in which they are set up.",
  ["src/dom/template.ts", "src/dom/part.ts", "src/dom/block.ts", "src/commit.ts", "src/runtime.ts"],
  [("DOMTemplate.render", "src/dom/template.ts"), ("mountChild, applyMutations", "src/commit.ts"), ("PropertyPart, LivePart, AttributePart", "src/dom/part.ts")],
  ["reactions of custom elements", "property sets", "attribute changes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
