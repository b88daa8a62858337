#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("A01","Every frame owns exactly its hold window, for every loop period",
  "In an animated SVG made from a list of frames, at every instant of a frame's hold window that frame is fully opaque, undisplaced, unscaled and unclipped over the whole viewport, and no other frame is painted. The windows follow each other in the authored order with the authored hold and transition lengths, the scene's period is their sum, and every later loop repeats the first. A non-looping or final frame holds to the end of the period unless the configuration asks for a loop fade.",
  ["inputs","configurations"],"every sequence of frames over every transition type (with and without its parameters and bridges), hold and transition durations from sub-epsilon to many seconds, loop fade on and off; every instant of the period",
  "the tests compare generated CSS substrings of a few hand-picked sequences; whether a frame is painted at an instant depends on the interplay of up to six tracks whose branch is selected by the pair (entrance, exit), and no test plays the output back",
  ["src/animation/animator.ts","src/utils/keyframe-pad.ts"],[("frame windows and per-family emitters","src/animation/animator.ts generateAnimatedSvg"),("boundary padding","src/utils/keyframe-pad.ts")],["the CSS and markup of the generated SVG, played at time t"])
p("A02","Transitions never blink, and do what their type says",
  "During every transition window the outgoing and incoming frames start and end exactly in their rest states, move or fade monotonically in the authored direction, slides abut, and reveals uncover the authored shape over a still-opaque predecessor. For a transition that covers, no point of the viewport is ever left without a painted frame. A cut has no intermediate state.",
  ["inputs","configurations"],"every pair and triple of transition types with their parameters, every instant of the window, durations of both orders of magnitude",
  "tests pin the text of some pairs; blanks and jumps arise from the composition of neighbouring transitions and from percentage rounding in long scenes",
  ["src/animation/animator.ts","src/utils/keyframe-pad.ts"],[("composed boundaries","src/animation/animator.ts emitComposedFrame"),("slide and reveal keyframes","src/animation/animator.ts")],["painted coverage at time t"])
p("A03","Overlays are shown exactly in their authored windows",
  "Every overlay on a frame (typing, tap, blink, shine, svg, interact) becomes visible when its delay has passed inside its frame, lasts as authored, leaves by its authored exit, and is never painted outside its window (delay to endAt or the end of the frame; typed text may dissolve with the frame's transition, a tap without endAt runs its half second). Typed text reveals its characters in order, once each, at the authored pace or faster where the window is short, and is complete when typing is done; a typing mistake shows only until it is corrected, the caret stands behind the last character shown, and a repeating overlay loops only while its window is open.",
  ["inputs","configurations"],"every overlay kind, delay, duration, exit and loop flag, alone and in pairs, on the first, middle and last frame of a scene, at every instant",
  "tests check the emitted strings for a handful of timings; the window is a function of frame position, scene length and exit kind that only a playback over all instants can judge",
  ["src/animation/animator.ts","src/animation/overlay-schema.ts"],[("overlay emission and windows","src/animation/animator.ts emitFrameOverlays")],["overlay group opacity/display at time t"])
p("A04","The cursor overlay follows its script",
  "At every instant of the scene the pointer is where the script puts it: a slide runs in a straight line at constant speed from where the pointer is to its target, an instant move or a show jumps, the pointer rests there until the next event, an event during a slide takes over from where the pointer is by then, and it is visible exactly from a show or move until a hide, up to the scene's end. Every click is accompanied by its ring (and half disc, if secondary) at the place of the pointer at that instant and no ring shows otherwise. With a hit test the glyph is that of what lies under the pointer in the current frame, or the authored override. A recording's automatic script has the pointer on each interaction's target when it clicks, within the hold of the frame it happens on.",
  ["histories","inputs"],"every script of cursor events (show, jump, slide, relative, selector, click, hide, glyph override) up to a depth, in scenes of one to three frames, listed in any order; every assignment of interactions to the frames of a recording",
  "a script is a history; tests have single hand-written scripts",
  ["src/animation/cursor-overlay.ts","src/cli/animate.ts"],[("script resolution","src/animation/cursor-overlay.ts resolveCursorScript"),("markup","src/animation/cursor-overlay.ts cursorOverlayMarkup"),("recorded and authored events","src/cli/animate.ts buildCursorOverlay")],["cursor transform, glyph and opacity at time t","click rings at time t"])
p("A05","An embedded animation plays as it would alone, on the host clock",
  "An animated SVG embedded in another, as a layer of a composite or as a frame of a scene, shows at every host instant what it shows alone at the mapped local instant: its own-period animations are held before their start and after their end, stretched or looped as authored, whatever the lengths of window and master loop; animations with another period, a delay, a finite count or an alternating direction keep their own clock. Layer animations run over their window and hold outside it, and a box scaling keeps the edge it was given. Embedding any number of documents never lets an id, class, keyframe, embedded font or scene-duration name of one affect another or the host, and never alters text or values that merely look like a name.",
  ["inputs","configurations"],"every embedding window, playback policy and nesting over a family of animated documents with clashing names, at every instant",
  "tests check a few renamed strings; interference needs name-collision patterns and window/period combinations nobody enumerated",
  ["src/animation/embed-namespace.ts","src/animation/embed-timeline.ts","src/animation/composite.ts","src/animation/svg-meta.ts"],[("renaming","src/animation/embed-namespace.ts"),("time mapping","src/animation/embed-timeline.ts"),("placement","src/animation/composite.ts")],["leaf state at time t, alone vs embedded"])
p("A06","A compressed run shows exactly the states it was built from",
  "A run of near-identical states that is stored once plus differences paints, at every instant of each state's window, what the renderer paints for that state alone (same elements, text, geometry and styles, and the same order wherever two of them overlap), however elements appear, disappear, move, or reorder between states.",
  ["histories","inputs"],"every history of states over a small universe of elements (insert, delete, move, restyle, retext, reorder) up to a length",
  "tests use a few hand-made runs; a stale or missing element needs a particular history",
  ["src/animation/compressed-run.ts","src/tree-ops/tree-diff.ts"],[("plan","src/animation/compressed-run.ts buildCompressedRunPlan"),("composition","src/animation/compressed-run.ts composeCompressedRun")],["paint list at time t"])
p("A07","Caret and selection tracks follow their script over the text",
  "Text addresses resolve to the caret positions and selection rectangles of exactly the addressed characters, and the played-back caret and selection equal, at every instant, the script's current position; the caret never shows while a selection or a hidden span is in force.",
  ["histories","inputs"],"every script of caret/selection events up to a depth over a family of multi-line texts with surrogate pairs, every offset and range",
  "the tests sample a few offsets and scripts",
  ["src/animation/caret-track.ts","src/animation/text-address.ts","src/animation/caret-metrics.ts"],[("addressing","src/animation/text-address.ts"),("track","src/animation/caret-track.ts resolveTextTrack")],["caret and selection rects at time t"])
p("A08","A magic-move bridge starts as the old frame and ends as the new one",
  "The bridge between two captured frames shows at its first instant what the outgoing frame showed and at its last instant what the incoming frame shows, with every element of either frame accounted for once: moved, faded in or faded out.",
  ["inputs"],"every pair of small element trees over a universe of identities, positions, texts and nestings",
  "tests have a few pairs; pairing and duplicates depend on the whole pair of trees",
  ["src/animation/magic-move.ts","src/tree-ops/tree-diff.ts"],[("pairing and emission","src/animation/magic-move.ts buildMagicMove")],["bridge leaves at both ends"])
p("T01","The terminal screen depends on the bytes, not on how they were chunked",
  "Replaying a terminal recording gives the same final screen, cursor position, cursor visibility and frame contents however its output bytes are split over output events at the same instant, including in the middle of an escape sequence or a surrogate pair.",
  ["schedules","inputs"],"every way of splitting each byte string of a family of terminal outputs (all control sequences used) into consecutive events",
  "tests feed whole sequences; the split points are chosen by the operating system's pty reads",
  ["src/terminal/emulator.ts","src/terminal/cast.ts"],[("write and DECTCEM scan","src/terminal/emulator.ts"),("cast replay","src/terminal")],["snapshot of the emulator"])
p("T02","The terminal animation shows, at every instant, the screen of that instant",
  "The generated terminal animation paints at every instant exactly the glyph cells, colours and attributes (bold, italic, dim, underline, inverse) of the emulated screen at the corresponding recording time (after idle compression), whichever storage strategy (full frames, incremental lines, pooled lines) is used; the cursor is the one of the moment the screen's cells last changed (screens that differ only in the cursor count as one screen).",
  ["histories","inputs"],"every history of screen operations over a small grid (print, newline, erase, colour, scroll, cursor hide/show, alternate screen) up to a depth, every storage mode, every instant",
  "tests compare a few recordings as strings; line reuse is a history property",
  ["src/terminal"],[("incremental animation","src/terminal"),("frame selection and idle compression","src/terminal")],["painted text at time t vs emulator snapshot"])
p("T03","A terminal session survives recording, writing and re-reading",
  "Writing a recorded session to a recording file and parsing it back gives the same header, event kinds, times and data for every data content, including quotes, control characters, non-BMP text and bytes that were split between reads.",
  ["inputs","schedules"],"every event list over an alphabet of difficult data strings and read splits up to a length",
  "tests round-trip two sessions",
  ["src/terminal"],[("writer and parser","src/terminal/cast.ts")],["parsed events"])
p("S01","The scroll pattern language accepts exactly its grammar",
  "Every well-formed scroll pattern parses to the operations it denotes with the authored numbers, units, directions and repetitions, and every other string is rejected with an error; parsing never hangs or returns a partial program.",
  ["programs"],"every token string up to a length over the whole token alphabet",
  "tests list a few dozen patterns",
  ["src/scroll/pattern.ts"],[("parser","src/scroll")],["AST or error"])
p("S02","Executing a scroll pattern visits exactly the positions it denotes",
  "Running a scroll pattern against a page records the same positions, times and holds as the pattern's meaning: durations sum to the authored ones, positions are clamped to the page, loops and until-conditions repeat as documented and always terminate.",
  ["programs","configurations"],"every small pattern against pages of several extents and starting positions",
  "tests sample patterns on one page size",
  ["src/scroll/executor.ts"],[("executor","src/scroll/executor.ts")],["recorded segments and page scroll calls"])
p("S03","The scroll animation shows the page at the scroll position of each instant",
  "The composed scroll animation paints, at every instant, the captured page content displaced by that instant's scroll position, while fixed elements, and sticky elements pinned all along, stay put; nothing is blank where the page had content.",
  ["programs","inputs"],"every segment list over a grid of offsets, durations and easings, and pages with fixed and pinned parts, at every instant",
  "tests compare strings of a few compositions",
  ["src/scroll/composer.ts"],[("composition","src/scroll")],["transform of each page part at time t"])
p("R01","Paint order follows CSS stacking for every tree",
  "For every tree of elements with positions, z-indexes, floats, opacities and other stacking properties, the rendered document paints the boxes in the order of CSS 2.1 Appendix E with the stacking-context rules, and hit testing returns the element painted topmost.",
  ["inputs"],"every element tree up to a number of nodes over the stacking-relevant style combinations",
  "tests hold a few dozen trees",
  ["src/render/stacking.ts","src/render/paint-order.ts"],[("paint order","src/render/paint-order.ts"),("stacking","src/render/stacking.ts")],["order of painted boxes in the SVG"])
p("R02","Culling never removes anything that would be visible",
  "Removing off-screen elements from a frame, statically or with animations taken into account, never changes a painted pixel at any instant of the frame: an element is dropped only if neither it nor any of its descendants can reach the viewport then.",
  ["inputs"],"every placement of element boxes relative to the viewport on a grid, nesting, transforms, clipping and animated translations, rotations, scales over every instant",
  "tests sample placements; a wrong bound needs a particular motion or nesting",
  ["src/tree-ops/viewbox-culling.ts","src/tree-ops/swept-transform-bounds.ts"],[("cull decision","src/tree-ops/viewbox-culling.ts"),("swept bounds","src/tree-ops/swept-transform-bounds.ts")],["surviving elements"])
p("R03","A rendering depends only on its input, not on what was rendered before",
  "After the per-document font and glyph registries are cleared (as every document producer does), rendering a captured tree gives byte-identical output whatever was rendered, tried and rolled back, failed, registered and dropped, or trimmed from caches earlier in the same process; drawings that share one registry show the same glyphs as alone; a rolled-back trial or a self-contained producer leaves no trace in the output of others; and drawing leaves its input tree unchanged.",
  ["histories"],"every sequence, up to a length, of renders, trials, animations, compressed runs, bridges, web-font sessions, cache trims and clears over pages that touch every piece of module state",
  "tests render each document once, in one order",
  ["src/render/font-resolution.ts","src/render/embedded-font-builder.ts","src/render/text-to-path.ts"],[("registries and their rollback","src/render/font-resolution.ts snapshotGeneration, restoreGeneration, truncateGlyphDefs, clearEmbeddedFonts, clearGlyphDefs"),("embedded font builder","src/render/embedded-font-builder.ts")],["bytes of the SVG and of the font and glyph definitions","glyph outlines the SVG leads to"])
p("R04","Overflow clips exactly what CSS says it clips",
  "For every tree of overflow-clipping and positioned elements, a box is shown, and can be hit, exactly where every clipping box on its containing-block chain shows it: descendants whose containing block is outside a clipping box are not clipped by it, however the renderer reorders them.",
  ["inputs"],"every element tree up to a number of nodes over kinds of clipping, positioned, floating and stacking boxes, each sticking out of its parent",
  "the renderer moves boxes out of their parents to paint them in order; which clips must follow them depends on the whole ancestor chain",
  ["src/render/stacking.ts","src/render/element-tree-to-svg.ts","src/render/paint-order.ts"],[("which clips follow a box","src/render/stacking.ts"),("clip groups","src/render/element-tree-to-svg.ts")],["visible area of each box"])
p("R05","Any captured text or attribute yields well-formed, inert markup",
  "Whatever strings a page's text, form values, list markers, attributes, urls, font names or ids contain, the SVG is well-formed XML (namespaces included) that shows the text literally, minus the characters XML does not admit, names exactly the urls the page named, and gains no elements, attributes, style declarations, style rules, scripts or event handlers from them. (Inline <svg> markup is taken over as the page wrote it; the strings inside it are covered.)",
  ["inputs"],"every string up to a length over the alphabet of XML-, CSS- and url-significant characters, in every string-valued slot of a captured tree",
  "tests escape a few strings in a few slots",
  ["src/render/format.ts","src/render/svg-inline.ts","src/render/css-tokens.ts","src/render/form-controls.ts"],[("escaping","src/render/format.ts esc")],["parsed SVG"])
p("A09","Every generated document is self-contained and internally consistent",
  "Every generated document is well-formed XML with unique ids, every internal reference (href, url(), class animation name, aria reference) resolves inside it, and it refers to nothing outside itself.",
  ["inputs","configurations"],"all documents generated over the whole space of frame sequences, overlays, embeddings and post-processing settings explored by the other checks",
  "tests check ids on a few outputs; collisions need particular combinations of frames, overlays and embeddings",
  ["src/animation/animator.ts","src/animation/composite.ts","src/post-processing"],[("id prefixes","src/animation/animator.ts")],["ids and references in the SVG"])
p("O01","Video export renders every frame once, in order, or fails cleanly",
  "Exporting an SVG as video seeks and captures exactly the frames of the requested duration and rate, each once and in order at its own sample time, and hands them to the encoder in order. Whatever step fails (browser, seek, screenshot, encoder write, encoder exit, file write), the call rejects once with an error, and no browser, encoder process or temporary directory is left behind, and no unhandled error ends the process.",
  ["fault_sequences","schedules","configurations"],"every single fault (and pairs) at every external call of the export, every ordering of encoder exit versus writes, frame counts and option combinations",
  "tests never make the browser or encoder fail",
  ["src/cli/svg-to-video-core.ts"],[("export loop","src/cli/svg-to-video-core.ts runSvgToVideo")],["calls made, promise outcome, processes left"])
p("O02","Trimming plays exactly the selected window of the original",
  "For a document animated by CSS (rules or style attributes), the trimmed document gives every animated property of every element, at every instant of its first pass, the value the original has at the corresponding instant of the selected window, wherever the window starts and ends; where every animation repeats with the document's period, every further pass is the window again. Whatever does not animate (structure, text, attributes, labels that look like CSS) is unchanged. (SMIL animations and what a scheduled animation does on a second pass are outside this property.)",
  ["inputs"],"every window on and beside every stop of a family of animated documents with all timing-function, delay, unit, spelling, iteration, direction and fill combinations",
  "tests trim one or two animations",
  ["src/scrubber/trim.ts"],[("keyframe slicing","src/scrubber/trim.ts trimAnimatedSvg")],["leaf state at time t"])
p("O03","Local servers answer every request on its own and clean up",
  "For every interleaving of concurrent requests, client aborts and failures, the preview servers give each request its own correct answer, never serve files outside what they publish, keep serving after a failed request, recover after a browser crash, and leave no browser or temporary file behind on close.",
  ["schedules","fault_sequences"],"every interleaving of up to three requests and one fault over the server's routes",
  "tests send one request at a time and no faults",
  ["src/scrubber/server.ts","src/review/server.ts","src/utils/local-server.ts"],[("request handling","src/scrubber/server.ts"),("listening and shutdown","src/utils/local-server.ts")],["responses, open resources"])
p("O04","A glyph helper is only ever installed whole and verified",
  "At every moment, including after a crash or power loss at any step or with several processes installing at once, an installed helper (the glyph extractor and its ICU companion) is either absent or exactly the bytes whose checksum was published, and executable; any failed download, short or altered body, missing, empty, partial or wrong checksum, or file error installs nothing, leaves no temporary file behind and is reported as not installed without throwing; the blocking form tries at most once per process.",
  ["crash_points","fault_sequences","schedules"],"every crash point and every single fault of the install's file and network calls, every interleaving of two installers",
  "tests cover success and two failures, never a crash or a race",
  ["src/render/helper-acquire.ts","src/render/icu-helper-acquire.ts","src/render/install-file.ts"],[("download, verify, rename","src/render/helper-acquire.ts"),("ICU companion","src/render/icu-helper-acquire.ts")],["files in the cache directory"])
p("O06","Configuration validation and the published schema agree",
  "A storyboard, composite or animation configuration is accepted exactly if the published schema accepts it, an accepted configuration keeps every authored value, and a rejected one names the offending path.",
  ["configurations"],"every single and pairwise mutation (missing, wrong type, unknown key, out of range, null) of configurations that use every key",
  "tests hold a few bad configurations",
  ["src/cli","schemas"],[("zod schemas","src/cli"),("published JSON schema","schemas")],["accept/reject and error path"])
p("O07","The glyph helper channel never changes an answer",
  "Whatever happens to the persistent glyph helper process (it cannot be started, dies at any byte of a question or an answer or while idle, answers in pieces of any size, takes a question in pieces, writes noise, or hangs), on every platform's carrier, every question gets exactly the answer that a fresh one-shot helper process gives; the failure never ends the calling process, and no helper process or descriptor that has been given up stays behind.",
  ["fault_sequences","histories"],"every read boundary, write size, death point, hang and failed start at every round trip of every history of up to three questions of five kinds",
  "tests run a healthy helper, if one is installed at all",
  ["src/render/glyph-helper.ts"],[("persistent round trip","src/render/glyph-helper.ts callHelperPersistent"),("start","src/render/glyph-helper.ts startPersistent, startPersistentViaPipe")],["answers, running processes"])
p("O08","Post-processing changes the bytes, not the picture",
  "Every post-processing step (payload hoisting, optimisation, font compression, gzip) yields a document that shows the same thing as its input at every instant: same images, text, geometry, animations and ids that are referenced.",
  ["inputs","configurations"],"every small document over the constructs the steps look at, every combination of steps",
  "tests run a few documents through single steps",
  ["src/post-processing"],[("steps","src/post-processing")],["leaf state before and after"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
