#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": mech, "where": files[0]}], "observe_at": [observe]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Texts, attributes and images mirror the current value",
  "After every update, every shown element displays exactly what its template produces from the value passed to that update: bound text, bound attributes, boolean tag attributes and image sources, with transformers applied, through aliases, components and repeated items. Null or missing data shows as empty text, and nothing of any earlier value or of the unbound template remains, whatever sequence of values was delivered before.",
  ["histories", "inputs", "programs"], "all templates, all sequences of delivered values (delayed, lost, duplicated and reordered snapshots), all transformers",
  "The view updates incrementally from differences between values; tests sample one or two transitions of one binding each, while staleness needs particular value histories combined with aliases, repeats and hidden parts.",
  ["src/view_model.rs", "src/view.rs", "src/rendering.rs", "src/controls/img.rs", "src/value.rs"],
  "ViewModel::bind diffs the new value against the previous one along the template schema and emits reactions which View::update applies to the tree.",
  "Fragment tree after update: text, attrs, backgrounds of img content",
  [("ViewModel.schema/value", "structure of used values, last bound value"), ("Element.text/attrs_bindings", "spans of bound content")])
p("C02", "Conditional blocks are shown exactly when their condition holds now",
  "After every update, an element with a ?-condition is shown if and only if its bound value (after transformers) is truthy in the current value, and an element with a !-condition if and only if it is falsy; null, false, 0, empty text and empty array are falsy and everything else is truthy. Shown elements always appear in the order of the template, independently of the order in which they were shown and hidden before.",
  ["histories", "inputs", "programs"], "all templates with nested conditional blocks, all sequences of values",
  "Order and visibility depend on the whole show/hide history of all siblings; the tests exercise single transitions of three siblings.",
  ["src/view_model.rs", "src/view.rs", "src/value.rs"],
  "Visibility bindings attach and detach layout nodes incrementally, computing the insertion index from siblings currently attached.",
  "children of fragments after update")
p("C03", "Repeated elements follow the current array item by item",
  "After every update, a repeat with limit N bound to an array shows exactly min(length, N) copies, the i-th copy displaying the i-th item of the current value, in array order and at the template position of the repeat among its siblings. An array that is null or missing shows no copies, and growing, shrinking, replacing and reordering items in any sequence never leaves stale, missing or misplaced copies.",
  ["histories", "inputs", "programs"], "all templates with (nested) repeats and siblings, all sequences of array values",
  "Needs sequences of grow/shrink/replace steps with siblings after the repeat and nested data; tests do one step on a lone list.",
  ["src/view_model.rs", "src/view.rs", "src/rendering.rs"],
  "A fixed pool of N rendered nodes per repeat is attached and detached by array length; items are bound by index path.",
  "children of fragments after update")
p("C04", "Malformed or missing data is survived and leaves no trace",
  "Updates that deliver data of wrong types or with missing parts (scalars instead of arrays or objects, nulls, truncated structures) still succeed. As soon as well-formed data is delivered again, the view shows, lays out and reports in messages exactly what it would if the malformed data had never been delivered.",
  ["fault_sequences", "histories", "inputs"], "all corruptions of delivered values at any moments of any history",
  "Tests never deliver a value of a wrong type; the recovery property is about arbitrary corruption points in a history.",
  ["src/view_model.rs", "src/view.rs"],
  "Binding walks schema and value together and must neither lose the schema nor keep parts of bad values.",
  "twin view which never saw the malformed updates, compared element by element")
p("C05", "A long-lived view equals a freshly started one",
  "At any moment when interaction and time-based effects have settled, a view that lived through an arbitrary history of values, viewport sizes, styles toggled by attributes and user input has the same elements, contents, styles, layout, positions and sizes as a view newly created from the same sources and given only the current value and viewport. In other words restarting the application view is never observable in what is displayed.",
  ["histories", "crash_points", "fault_sequences"], "all histories, restart at any frame",
  "Tests construct a fresh view for every scenario, so leftovers of previous frames (cached layout, kept styles, kept state) are invisible to them.",
  ["src/view.rs", "src/view_model.rs", "src/styles/mod.rs", "src/styles/default.rs", "src/animation.rs"],
  "Incremental layout cache, per-element style state and animators survive between updates.",
  "differential comparison of two views' fragment trees")
p("C06", "Styles are decided by the rules that match now",
  "After every update, the effective style of every shown element (layout properties, colours, font, borders, backgrounds, opacity, cursor, visibility, pointer events) is the one given by the stylesheet rules whose selectors match its current attributes, ancestors, previous sibling and hover/active/focus state, in stylesheet order, then the inline style, with variables and inherited properties taken from current ancestors. A rule that stops matching leaves nothing behind, and a rule that starts matching takes effect.",
  ["histories", "inputs", "programs", "schedules"], "all stylesheets over supported selectors, all histories of attribute changes and pointer interaction",
  "Rules are pre-classified as static or dynamic and applied on top of kept state; tests check single frames of single rules.",
  ["src/styles/mod.rs", "src/styles/apply.rs", "src/styles/compute_style.rs", "src/styles/inherit.rs", "src/css/matching.rs", "src/view.rs"],
  "Static rules are matched once at creation, dynamic ones on each update; computed declarations are applied to element and layout style.",
  "public element fields and layout style of nodes after update",
  [("Element.styles", "candidate rules of element"), ("Variables", "custom properties in scope")])
p("C07", "Hover enters and leaves are balanced and agree with the geometry",
  "After every pointer event (and at the start of every update), an element is hovered if and only if it is shown, visible, accepts pointer events and its current rectangle contains the pointer. It reports mouse-enter exactly when it becomes hovered and mouse-leave exactly when it stops being hovered, also when it moves, is resized, hidden or removed under a resting pointer, and reported pointer positions are those of the event itself.",
  ["schedules", "histories", "fault_sequences"], "all sequences of pointer events and value changes, any batching, lost and duplicated events",
  "Balance is a property of whole histories in which geometry changes between events; tests move the pointer three times over static boxes.",
  ["src/view_model.rs", "src/view.rs"],
  "Hovered set is recomputed on each move and on a synthetic move at frame start, and compared with the previous one.",
  "messages of onmouseenter, onmouseleave, onmousemove listeners", [("elements_under_mouse", "hovered elements")])
p("C08", "Clicks happen exactly for press and release on the same element",
  "An element reports a click exactly when a left release happens over it after a press made over it that was not yet released anywhere, and no drag is in progress; it reports mouse-down, mouse-up and context-menu exactly for the presses and (right) releases over it. An element is active from a press over it until the next release anywhere, also if it is moved or hidden in between.",
  ["schedules", "histories", "fault_sequences"], "all sequences of button events, moves and value changes, with lost, duplicated and batched events",
  "Tests contain one click; overlapping elements, lost releases and elements changing between press and release need generated histories.",
  ["src/view_model.rs"], "Presses mark all hovered elements active until any release.",
  "messages of onclick, onmousedown, onmouseup, oncontextmenu listeners and the active state they report", [("elements_in_action", "pressed elements")])
p("C09", "At most one shown element has focus, and only it receives keys",
  "At any moment at most one element is focused, focus and blur reports of elements strictly alternate, and a press on a focusable element moves focus to it while a press elsewhere removes it. Key and character events are reported exactly once and only by the focused element, and an element that is no longer shown is blurred before any further input and never receives keys.",
  ["schedules", "histories", "fault_sequences"], "all sequences of presses, key events and value changes which hide or show elements",
  "No test covers focus at all; the property needs hide/show of the focused element at arbitrary points.",
  ["src/view_model.rs"], "Single focus slot updated on presses and checked against shown elements at frame start.",
  "messages of onfocus, onblur, onkeydown, onkeyup, oninput listeners and the focus state they report", [("focus", "focused element")])
p("C10", "Every drag starts once, ends once and never turns into a click",
  "A left press over a draggable element starts exactly one drag, of the innermost draggable element under the pointer; drag enter, over and leave reports of the other elements follow hovering only while the drag is in progress. Every started drag ends exactly once, with a drop report to the topmost drop target under the pointer if there is one, at the release or at the latest at the next left press if the release was lost, and after it clicks work again.",
  ["schedules", "histories", "fault_sequences"], "all sequences of pointer events with lost releases, hidden sources and nested draggables or drop targets",
  "No test covers dragging; lifecycle balance is about whole event histories with losses.",
  ["src/view_model.rs"], "A single drag context created by a press and dropped by a release.",
  "messages of ondragstart, ondragenter, ondragover, ondragleave, ondrop, ondragend listeners", [("drag", "drag in progress")])
p("C11", "Messages carry the arguments of the current value",
  "Every reported message has the key written in the template and its arguments in order: bound arguments are the complete data found at their path in the value of the same update (null if it is absent, transformers applied), $event describes the actual event and target. A message is text if it has no arguments, an object with the plain argument if one, and an object with an array of arguments otherwise.",
  ["histories", "inputs", "programs"], "all templates with listeners inside repeats, aliases and components, all value histories, all event kinds",
  "Tests send one constant argument; stale or partial payloads appear only after particular value histories.",
  ["src/view_model.rs", "src/rendering.rs"], "Arguments are resolved by path at the moment of emission.",
  "messages returned by update")
p("C12", "How events are batched into updates does not matter",
  "While value and layout stay the same, delivering a sequence of input events in one update, one event per update, or in any other partition produces the same sequence of messages (not counting mouse-move and drag-over, which are repeated every update). The final hover, active, focus and drag state is the same too.",
  ["schedules"], "all event sequences and all partitions of them into updates",
  "Tests use one fixed partition per scenario; the property compares arbitrary pairs of partitions.",
  ["src/view_model.rs"], "Events of an update are processed in order against the geometry of that update.",
  "messages of two views fed with different partitions")
p("C13", "Transitions run continuously from shown to target value",
  "A property with a transition starts changing from the value shown at that moment, holds it during the delay, then moves linearly and reaches the target exactly when its duration has elapsed, independently of how the elapsed time is split into frames; it never leaves the range between start and target and then stays at the target. A target changed midway continues from the value shown, a property without previous value, without duration or without transition takes the target at once.",
  ["schedules", "histories", "fault_sequences"], "all frame schedules (jitter, stalls, zero and huge frame times), all retargeting histories",
  "Tests use three fixed timelines with 0.1 s frames; behaviour under other clocks and retargeting is not sampled.",
  ["src/animation.rs", "src/styles/mod.rs", "src/styles/apply.rs"], "Transition keeps a range and an animator advanced by frame time.",
  "style values of elements after each update", [("Transition.range", "start and target values")])
p("C14", "Animations are a function of elapsed time and never stall",
  "While an element is shown and an animation is specified for it, the animated properties are those of the keyframes at the position given by the time elapsed since the animation was specified (less the delay), interpolated linearly, cyclically for infinite iterations and ending at the last frame otherwise, independently of how time is split into frames. This holds after arbitrarily long uptimes, stalls and clock jumps, and when the animation is no longer specified its effect disappears; specified again it starts from the beginning.",
  ["schedules", "histories", "fault_sequences"], "all frame schedules, long uptimes, clock jumps, all histories of rules starting and stopping to match",
  "Tests play one animation for three frames; accumulation of time, stalls and restarts are histories.",
  ["src/animation.rs", "src/styles/mod.rs", "src/styles/compute_animation_tracks.rs"], "Animator accumulates frame time and maps it to keyframes.",
  "style values of elements after each update", [("Animator.time", "elapsed time")])
p("C15", "Every update completes with finite geometry",
  "An update never panics, fails, or runs forever, whatever values, frame times, viewport sizes and input events are delivered, in whatever order, for every view that was created successfully. With finite viewport and style values all positions and sizes remain finite, and an element hidden or shown at any moment keeps later updates working.",
  ["fault_sequences", "histories", "inputs", "programs"], "all inputs including malformed values, extreme frame times, extreme coordinates",
  "Totality over all inputs and histories; tests use well-behaved input only.",
  ["src/view.rs", "src/view_model.rs", "src/animation.rs", "src/styles/mod.rs", "src/styles/scrolling.rs", "src/css/matching.rs"], "update = bind, styles, layout, positions, events",
  "result of update, geometry of all elements, watchdog")
p("C16", "Results are reproducible: no dependence on hash seeds or process",
  "The same sources and the same sequence of updates always produce the same display and the same messages, in every run of the program. In particular results do not depend on the randomised iteration order of hash tables, on other views or on memory addresses.",
  ["schedules", "histories", "configurations"], "all hash seeds, all programs and histories",
  "Hash tables are seeded randomly per process; a test run samples one seed and small tables.",
  ["src/styles/mod.rs", "src/styles/compute_animation_tracks.rs", "src/view.rs", "src/element.rs"], "Computed styles, attributes, variables and animations are kept in hash maps whose iteration order must not be observable.",
  "digest of complete display and messages under different seeds")
p("C17", "Lookup by id finds the element that carries the id now",
  "Looking up an identifier which exactly one element carries (static or bound, unique among all elements) returns that element in its current state after every update. An identifier that no element carries any more is not found.",
  ["histories", "inputs"], "all histories of bound identifiers moving between elements and repeated copies",
  "Tests never look elements up after identifiers changed.",
  ["src/view.rs", "src/rendering.rs"], "A map from identifiers to nodes maintained by attribute reactions.",
  "get_element_by_id after every update", [("identified", "identifier map")])
p("C18", "Reloading torn sources fails cleanly and complete ones start cleanly",
  "Creating a view from a template or stylesheet that was cut at any point or damaged by a partial write either succeeds or returns an error, never panics or hangs, and a created view can be updated. A running view is not affected by failed reloads, and a reload from complete sources behaves like the first start.",
  ["crash_points", "fault_sequences", "inputs"], "all truncation points and damaged ranges of sources, at any moment of a session",
  "Tests parse complete well-formed sources only.",
  ["src/view.rs", "src/html/reader.rs", "src/css/reader.rs", "src/rendering.rs"], "Sources are parsed and rendered by View::from_html.",
  "result of from_html on torn sources and comparison of views")
p("C19", "Views are isolated from each other",
  "A view produces the same display and messages when it runs alone, interleaved with other views on the same thread, or concurrently with views on other threads. Creating, updating, failing to create and dropping other views has no effect on it.",
  ["schedules", "configurations"], "all interleavings of operations of several views on one or several threads",
  "Tests run views one by one and never compare interleaved runs.",
  ["src/view.rs", "src/metrics.rs", "src/view_model.rs"], "All state belongs to the view except global metrics counters.",
  "digests of interleaved runs against solo runs")
p("C20", "Positions, clipping and opacity compose along the shown tree",
  "After every update, the absolute position of a shown element is its parent's position plus its own offset in the layout (less the scroll offset of the parent, which lies between zero and the overflow), its opacity is its own opacity times that of all ancestors, and it is clipped by its nearest overflowing ancestor's rectangle. An element scrolls in a direction only if its content currently overflows it in this direction.",
  ["histories", "inputs", "programs"], "all trees and all histories of layout, opacity and overflow changes",
  "Tests check positions of two or three static trees.",
  ["src/view.rs", "src/styles/scrolling.rs"], "A pass over the shown tree after layout composes offsets, opacity and clipping.",
  "public element fields against layout of nodes")
p("C21", "Input capture and cursor reported by updates match the pointer state",
  "An update reports that input is captured exactly when, after its events, some element is hovered, pressed, focused or dragged. The reported cursor is the one of the topmost hovered element that specifies a cursor, and default if there is none.",
  ["schedules", "histories", "fault_sequences"], "all histories of events, styles and value changes",
  "Tests check the flag in two static situations.",
  ["src/view_model.rs"], "Flags are computed from interaction state at the end of update.",
  "fields of update output")
p("C22", "Viewport-relative lengths follow the current viewport",
  "After every update, all lengths given in viewport units (vw, vh, vmin, vmax) are computed from the viewport size passed to that update, also when only one dimension changes, and the layout equals that of a view which always had this viewport.",
  ["histories", "inputs"], "all sequences of viewport sizes, any properties and units",
  "Tests never resize.",
  ["src/view.rs", "src/styles/apply.rs"], "Sizes passed to the cascade on each update.",
  "layout style and geometry after resize")
p("C23", "Text is measured with its current content and font",
  "After every update, the box of every shown text has the size the font provider gives for the text and font it has now (within the width available to it), however content, own or inherited font properties, and visibility changed before. Boxes that depend on it follow.",
  ["histories", "inputs"], "all histories of text, font and visibility changes",
  "Layout caches measured sizes between updates; tests measure each text once.",
  ["src/view.rs", "src/styles/inherit.rs"], "Layout nodes are marked dirty when content or font changes; measure function asks Fonts.",
  "text boxes against a simulated font provider")
p("C24", "Template grammar: markup and bindings are parsed faithfully",
  "Parsing a template yields exactly the elements, attributes, texts and bindings written in it.",
  ["inputs"], "all template sources",
  "Unbounded grammar; the tests sample some forms.",
  ["src/html/reader.rs", "src/html/html.pest"], "pest grammar and reader", "parsed document")
p("C25", "Stylesheet grammar: rules and values are parsed faithfully",
  "Parsing a stylesheet yields exactly the selectors, declarations, keyframes and values written in it, and unsupported ones are skipped without affecting others.",
  ["inputs"], "all stylesheet sources",
  "Unbounded grammar; the tests sample some forms.",
  ["src/css/reader.rs", "src/css/css.pest"], "pest grammar and reader", "parsed stylesheet")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
