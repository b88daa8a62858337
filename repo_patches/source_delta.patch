From a0840fbbd01d21782e9554cd54587b84f881a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 01/55] fix: angled wipes keep the viewport corners

The 8 clip vertices were sampled evenly along the revealed polygon's perimeter,
so they missed the corners: a frame entered through an angled wipe (or a linear
reveal) stayed clipped at two corners for as long as it was shown.
---
 src/animation/animator.ts | 40 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index f3a4ddb..6d03a2d 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -441,8 +441,6 @@ type SlideEnter =
  *  sweep. `wipe` stays the linear inset. */
 type RevealShape = "wipe" | "iris" | "clock";
 
-const WIPE_POLYGON_VERTICES = 8;
-
 /** A rectangular half-plane reveal sampled to a fixed vertex count so angled
  * wipe polygons remain CSS-interpolable on every supported engine. */
 export function linearWipeClip(f: number, width: number, height: number, angleDeg: number): string {
@@ -453,29 +451,21 @@ export function linearWipeClip(f: number, width: number, height: number, angleDe
   const values = rect.map(projection);
   const lo = Math.min(...values), hi = Math.max(...values);
   const threshold = lo + Math.max(0, Math.min(1, f)) * (hi - lo);
-  const clipped: typeof rect = [];
-  for (let i = 0; i < rect.length; i++) {
-    const a = rect[i], b = rect[(i + 1) % rect.length];
-    const pa = projection(a), pb = projection(b);
-    const aIn = pa <= threshold + 1e-7, bIn = pb <= threshold + 1e-7;
-    if (aIn) clipped.push(a);
-    if (aIn !== bIn) {
-      const t = (threshold - pa) / (pb - pa);
-      clipped.push({ x: a.x + (b.x - a.x) * t, y: a.y + (b.y - a.y) * t });
-    }
-  }
-  const source = clipped.length > 0 ? clipped : [rect[values.indexOf(lo)]];
-  const lengths = source.map((p, i) => Math.hypot(source[(i + 1) % source.length].x - p.x, source[(i + 1) % source.length].y - p.y));
-  const perimeter = lengths.reduce((sum, n) => sum + n, 0);
-  const points = Array.from({ length: WIPE_POLYGON_VERTICES }, (_, i) => {
-    if (perimeter < 1e-7) return source[0];
-    let distance = perimeter * i / WIPE_POLYGON_VERTICES;
-    let edge = 0;
-    while (edge < lengths.length - 1 && distance > lengths[edge]) distance -= lengths[edge++];
-    const a = source[edge], b = source[(edge + 1) % source.length];
-    const t = lengths[edge] < 1e-7 ? 0 : distance / lengths[edge];
-    return { x: a.x + (b.x - a.x) * t, y: a.y + (b.y - a.y) * t };
-  });
+  // The boundary runs from the lowest-projection corner to the highest one along
+  // two edge chains. Each chain's middle corner keeps its own vertex slot, which
+  // rides the wipe edge until the edge passes the corner: every corner the wipe
+  // has reached is a vertex, and the fully revealed shape is the full rectangle.
+  const first = values.indexOf(lo);
+  const corner = (i: number) => rect[(first + i) % 4];
+  const at = (i: number) => values[(first + i) % 4];
+  const edgeOn = (i: number, j: number, t: number) => {
+    const f = at(j) - at(i) < 1e-7 ? 1 : Math.max(0, Math.min(1, (t - at(i)) / (at(j) - at(i))));
+    return { x: corner(i).x + (corner(j).x - corner(i).x) * f, y: corner(i).y + (corner(j).y - corner(i).y) * f };
+  };
+  const lead = (mid: number) => threshold >= at(mid) ? edgeOn(mid, 2, threshold) : edgeOn(0, mid, threshold);
+  const slot = (mid: number) => threshold >= at(mid) ? corner(mid) : lead(mid);
+  const half = (p: { x: number; y: number }, q: { x: number; y: number }) => ({ x: (p.x + q.x) / 2, y: (p.y + q.y) / 2 });
+  const points = [corner(0), half(corner(0), slot(1)), slot(1), lead(1), half(lead(1), lead(3)), lead(3), slot(3), half(slot(3), corner(0))];
   const n = (value: number) => Number(value.toFixed(3));
   return `polygon(${points.map((p) => `${n(p.x)}px ${n(p.y)}px`).join(", ")})`;
 }
-- 
2.43.0


From 23b4879301faf22d281c26f6add13c1ed504ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 02/55] fix: a last frame authored with an unbridged magic-move
 holds to the end

Without a next frame there is no bridge and the type degrades to crossfade, but
the hold-to-end rule still classified it as a cut, so the frame faded to nothing
before the loop.
---
 src/animation/animator.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 6d03a2d..08cb689 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1603,7 +1603,7 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
       // DM-1148: the last frame holds solid to 100% (no loop cross-dissolve)
       // unless `loopFade` is set. Only the crossfade path fades — cut already
       // holds-then-cuts — so this is a no-op for cut frames.
-      const isCutFrame = transitionPlan.outgoing.opacity === "cut" || transDur === 0;
+      const isCutFrame = transType === "cut" || transDur === 0;
       const holdToEnd = i === frames.length - 1 && config.loopFade !== true && !isCutFrame;
       // DM-1524: `shine` and `zoom-*` ride the crossfade opacity machinery (the
       // frame fades in/out normally); the extra motion is layered on top. A
-- 
2.43.0


From aa945d987715222d0787a5e4cf716f6dfdd92f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 03/55] fix: a held last frame does not run its custom exit
 scale

---
 src/animation/animator.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 08cb689..70ca106 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -976,7 +976,7 @@ function emitComposedFrame(
 
   const needSlide = entrance.kind === "slide" || exit.kind === "slide" || entrance.vector != null || exit.vector != null;
   const needScale = entrance.fromScale != null;
-  const needExitScale = exit.toScale != null;
+  const needExitScale = exit.toScale != null && !holdToEnd;
   const needReveal = entrance.reveal != null;
   // A fade/dolly entrance RAMPS opacity in over [enter, start]; a slide/reveal
   // entrance SNAPS opacity to 1 at `enter` (the transform / clip does the hiding).
-- 
2.43.0


From d9a69eb391023b9945c9d93732722211a28d89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 04/55] fix: a frame leaves the scene after a custom exit that
 ends above opacity 0

The outgoing frame stayed at its exit opacity until the (wider) visibility window
closed, ghosting through the next frame's hold.
---
 src/animation/animator.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 70ca106..f1aefb2 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1000,7 +1000,13 @@ function emitComposedFrame(
     // Crossfade/zoom/shine exit: hold, then dissolve out over the trans window.
     opacityStops.push(`${holdNum.toFixed(3)}% { opacity: 1; }`);
     opacityStops.push(`${transNum.toFixed(3)}% { opacity: ${exit.opacityTo ?? 0}; }`);
-    opacityStops.push(`100% { opacity: ${exit.opacityTo ?? 0}; }`);
+    // A custom exit may end above zero; the frame still leaves at the hand-off.
+    if (exit.opacityTo != null && transNum < 100) {
+      opacityStops.push(`${padAfter(transNum, KEYFRAME_EPSILON.cull, 3)}% { opacity: 0; }`);
+      opacityStops.push(`100% { opacity: 0; }`);
+    } else {
+      opacityStops.push(`100% { opacity: ${exit.opacityTo ?? 0}; }`);
+    }
   } else {
     // Slide / reveal-hold / cut exit: hold solid to the trans end, then hard-cut.
     opacityStops.push(`${transNum.toFixed(3)}% { opacity: 1; }`);
-- 
2.43.0


From 84c7b86eca36cd148cdae7e6eb84d3f2040f430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 05/55] fix: a looping scene's last slide frame stays opaque
 through its hold

With loopFade the last frame's window closes at 100%, where the trailing
opacity-0 stop replaced the held opacity-1 one and washed the frame out over its
whole hold.
---
 src/animation/animator.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index f1aefb2..7ac5187 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1010,8 +1010,12 @@ function emitComposedFrame(
   } else {
     // Slide / reveal-hold / cut exit: hold solid to the trans end, then hard-cut.
     opacityStops.push(`${transNum.toFixed(3)}% { opacity: 1; }`);
-    opacityStops.push(`${padAfter(transNum, KEYFRAME_EPSILON.cull, 3)}% { opacity: 0; }`);
-    opacityStops.push(`100% { opacity: 0; }`);
+    // A window that closes with the loop is cut by the wrap itself: a zero stop at
+    // the same 100% would replace the held one and fade the frame across its hold.
+    if (transNum < 100) {
+      opacityStops.push(`${padAfter(transNum, KEYFRAME_EPSILON.cull, 3)}% { opacity: 0; }`);
+      opacityStops.push(`100% { opacity: 0; }`);
+    }
   }
   const onEnd = holdToEnd ? "100" : win.transEndPct;
   let keyframe = `
@@ -2803,6 +2807,12 @@ function slideKeyframes(
     .f-${i} { animation: fv-${i} ${totalSec.toFixed(2)}s infinite, fd-${i} ${totalSec.toFixed(2)}s infinite step-end; }
     .fp-${i} { animation: fp-${i} ${totalSec.toFixed(2)}s infinite; }`;
   }
+  // A window that closes with the loop is cut by the wrap itself: a zero stop at
+  // the same 100% would replace the held one and fade the frame across its hold.
+  const fvExit = parseFloat(transEndPct) < 100
+    ? `
+      ${padAfter(parseFloat(transEndPct), KEYFRAME_EPSILON.slide, 2)}%, 100% { opacity: 0; }`
+    : "";
   return `
     @keyframes fp-${i} {
       0%, ${enterBound}% { transform: ${enterT}; }
@@ -2813,8 +2823,7 @@ function slideKeyframes(
     }
     @keyframes fv-${i} {
       ${fvEnter}
-      ${transEndPct} { opacity: 1; }
-      ${padAfter(parseFloat(transEndPct), KEYFRAME_EPSILON.slide, 2)}%, 100% { opacity: 0; }
+      ${transEndPct} { opacity: 1; }${fvExit}
     }${buildDisplayKeyframes(`fd-${i}`, visStart, visEnd, totalSec)}
     .f-${i} { animation: fv-${i} ${totalSec.toFixed(2)}s infinite, fd-${i} ${totalSec.toFixed(2)}s infinite step-end; }
     .fp-${i} { animation: fp-${i} ${totalSec.toFixed(2)}s infinite; }`;
-- 
2.43.0


From b35fad9d88158f5a1337397fb53e022339cd4971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 06/55] fix: a zero-length transition of any type is a cut

The slide and composed emitters put the exit stop on the same offset as the hold
stop, so a frame with e.g. a 0 ms push slid away during its own hold.
---
 src/animation/animator.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 7ac5187..fbdf599 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1402,6 +1402,9 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
   const glyphDefsStart = glyphDefCount();
   // DM-1145: guard against cross-frame id collisions (reused/cached svgContent).
   let frames = dedupeFrameIds(config.frames);
+  // A zero-length transition of any type is a cut: its exit stops would otherwise
+  // land on the same offset as its hold stops and replace them.
+  frames = frames.map((f) => f.transition != null && transitionDurationMs(f) === 0 ? { ...f, transition: { type: "cut", duration: 0 } } : f);
 
   const totalDuration = frames.reduce(
     (sum, f) => sum + frameAdvanceMs(f),
-- 
2.43.0


From 5d8e43528cf5102d5ce2e870e45cae2be3b6de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 07/55] fix: a slide frame does not start 0.1 % of the scene
 early

The lead-in pad was a share of the whole scene, so in a long scene a slide frame
ghosted over (or slid over) its still-held predecessor.
---
 src/animation/animator.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index fbdf599..e366c26 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -2757,7 +2757,7 @@ function slideKeyframes(
    *  ramp the last frame to opacity 0 across its whole hold, washing it out. */
   holdToEnd = false,
 ): string {
-  const enterBound = padBefore(parseFloat(enterStartPct), KEYFRAME_EPSILON.slide, 2);
+  const enterBound = padBefore(parseFloat(enterStartPct), KEYFRAME_EPSILON.cull, 3);
 
   // Transform stops. Single-axis form — byte-identical to the pre-DM-1414 output
   // — for same-axis slide / fade / cut entrances; the full translate(x,y) form is
-- 
2.43.0


From 77aa2e45c83e98490e4d2eca922affc7b0ae7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 08/55] fix: a frame with a cut exit still enters the way its
 predecessor hands off

A crossfade, push or zoom into a frame that itself cuts away ran only its outgoing
half: the scene dissolved or slid to nothing and the next frame popped in.
---
 src/animation/animator.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index e366c26..e665432 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -932,6 +932,10 @@ function composedBoundaryNeeded(entrance: EntranceKind, exit: ExitKind): boolean
   // crossfade → wipe, push → iris, zoom → wipe. The old reveal branch dropped
   // the fade/slide/dolly entrance and cut the frame in.
   if ((entrance === "fade" || entrance === "dolly" || entrance === "slide") && exit === "hold") return true;
+  // A fade/dolly/slide ENTRANCE composed with a cut EXIT: the cut branch shows
+  // the frame only from its own start, so the outgoing half would fade or slide
+  // away over nothing.
+  if ((entrance === "fade" || entrance === "dolly" || entrance === "slide") && exit === "cut") return true;
   // A dolly ENTRANCE composed with a slide EXIT: zoom → push/scroll. The old
   // slide branch faded (dropping the scale dolly).
   if (entrance === "dolly" && exit === "slide") return true;
-- 
2.43.0


From 474e358bc6681ca8ce21fd8b510d12c48e69c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 09/55] fix: magic-move composes with the entrance of the frame
 it leaves

A magic-move frame entered through a reveal or a parameterized transition lost its
bridge, one entered through a fade or push lost its entrance, a parameterized frame
painted over the bridge it follows, and an unbridged magic-move (a crossfade) into a
push frame cut.
---
 src/animation/animator.ts | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index e665432..e585353 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -171,6 +171,8 @@ function emitMagicMoveFrame(
   holdEndPct: string,
   transEndPct: string,
   totalSec: number,
+  /** The frame's own blob when its entrance was composed elsewhere. */
+  composedBlob: { group: string; keyframe: string } | null = null,
 ): { groups: string[]; keyframes: string[] } {
   const groups: string[] = [];
   const keyframes: string[] = [];
@@ -186,8 +188,8 @@ function emitMagicMoveFrame(
   // DM-1511: opacity does the cut; a SEPARATE wide-overlap `fd-` `visibility`
   // track handles paint-culling so Firefox can't flash a transparent gap at the
   // hand-off (it composites `visibility` off the opacity clock).
-  groups.push(`  <g class="f f-${i}">\n${frame.svgContent}\n  </g>`);
-  keyframes.push(`
+  groups.push(composedBlob?.group ?? `  <g class="f f-${i}">\n${frame.svgContent}\n  </g>`);
+  keyframes.push(composedBlob?.keyframe ?? `
     @keyframes fv-${i} {
       0% { opacity: 0; }
       ${beforeS}% { opacity: 0; }
@@ -902,7 +904,7 @@ function classifyEntrance(plan: NormalizedTransitionPlan | undefined, prevMagicB
  *  crossfade/zoom/shine fade out (the dolly rides on the NEXT frame's entrance);
  *  wipe/iris/… hold beneath and hard-cut (the next frame reveals on top); cut
  *  hard-cuts; magic-move is special-cased elsewhere. */
-function classifyExit(plan: NormalizedTransitionPlan): ComposedExit {
+function classifyExit(plan: NormalizedTransitionPlan, magicBridged: boolean): ComposedExit {
   if (plan.custom != null) {
     const translate = plan.outgoing.translate;
     return { kind: translate != null ? "slide" : plan.outgoing.opacityTo != null ? "fade" : "hold", vector: translate != null && "x" in translate ? translate : undefined,
@@ -911,7 +913,8 @@ function classifyExit(plan: NormalizedTransitionPlan): ComposedExit {
   const dir = plan.outgoing.translate;
   if (dir != null) return "axis" in dir ? { kind: "slide", axis: dir.axis, sign: dir.sign } : { kind: "slide", vector: dir };
   if (plan.incoming.clip != null) return { kind: "hold" };
-  if (plan.overlay === "magic-move") return { kind: "magic" };
+  // Without a built bridge magic-move degrades to crossfade.
+  if (plan.overlay === "magic-move") return { kind: magicBridged ? "magic" : "fade" };
   if (plan.outgoing.opacity === "cut") return { kind: "cut" };
   return { kind: "fade" }; // crossfade / zoom-in / zoom-out / shine / default
 }
@@ -932,6 +935,9 @@ function composedBoundaryNeeded(entrance: EntranceKind, exit: ExitKind): boolean
   // crossfade → wipe, push → iris, zoom → wipe. The old reveal branch dropped
   // the fade/slide/dolly entrance and cut the frame in.
   if ((entrance === "fade" || entrance === "dolly" || entrance === "slide") && exit === "hold") return true;
+  // Any overlapping ENTRANCE composed with a magic-move EXIT: the reveal branch
+  // drops the bridge, the magic-move branch drops the entrance.
+  if (entrance !== "cut" && exit === "magic") return true;
   // A fade/dolly/slide ENTRANCE composed with a cut EXIT: the cut branch shows
   // the frame only from its own start, so the outgoing half would fade or slide
   // away over nothing.
@@ -1502,7 +1508,7 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
     const slideEnter: SlideEnter =
       prevDir != null
         ? { mode: "slide", axis: prevDir.axis, enterOffset: -prevDir.sign * (prevDir.axis === "X" ? width : height) }
-      : prevPlan?.incoming.opacity === "fade"
+      : prevPlan?.incoming.opacity === "fade" || (prevType === "magic-move" && prevFrame?.magicMove == null)
         ? { mode: "fade" }
       : { mode: "cut" }; // cut / magic-move / wipe / iris / first frame — appears at its own start
     // DM-898: a frame entered from a magic-move transition appears at its own
@@ -1537,21 +1543,30 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
     // the slide/fade mixes the DM-1414 branches already compose stay on those
     // branches, so their output is byte-identical (see `composedBoundaryNeeded`).
     const composedEntrance = classifyEntrance(prevPlan, entersViaMagicMove);
-    const composedExit = classifyExit(transitionPlan);
+    const composedExit = classifyExit(transitionPlan, frame.magicMove != null);
     const useComposed = transitionPlan.parameterized || prevPlan?.parameterized === true || composedBoundaryNeeded(composedEntrance.kind, composedExit.kind);
 
     if (useComposed) {
       // Mixed-family boundary: compose the entrance (from prevType) and the exit
       // (from ownType) as independent tracks. The entrance overlaps the
-      // predecessor's transition window, opening at `timeOffset - prevTransDur`.
-      const composedEnterStartPct = pct(Math.max(0, timeOffset - prevTransDur), totalDuration);
+      // predecessor's transition window, opening at `timeOffset - prevTransDur` —
+      // except a `cut` one (behind a magic-move bridge), which has no overlap.
+      const composedEnterStartPct = composedEntrance.kind === "cut" ? startPct : pct(Math.max(0, timeOffset - prevTransDur), totalDuration);
+      // A magic-move exit hands over to its bridge at the hold end.
+      const bridged = composedExit.kind === "magic";
       const r = emitComposedFrame(
-        i, frame.svgContent, composedEntrance, composedExit, { width, height },
-        { enterStartPct: composedEnterStartPct, startPct, holdEndPct, transEndPct }, totalSec, holdLastFrame,
+        i, frame.svgContent, composedEntrance, bridged ? { kind: "cut" } : composedExit, { width, height },
+        { enterStartPct: composedEnterStartPct, startPct, holdEndPct, transEndPct: bridged ? holdEndPct : transEndPct }, totalSec, holdLastFrame,
         transitionPlan.custom?.reducedMotion ?? prevPlan?.custom?.reducedMotion ?? "crossfade",
       );
-      frameGroups.push(r.group);
-      keyframes.push(r.keyframe);
+      if (bridged && frame.magicMove != null) {
+        const mm = emitMagicMoveFrame(i, frame, frame.magicMove, startPct, holdEndPct, transEndPct, totalSec, r);
+        frameGroups.push(...mm.groups);
+        keyframes.push(...mm.keyframes);
+      } else {
+        frameGroups.push(r.group);
+        keyframes.push(r.keyframe);
+      }
       // A `shine` EXIT still sweeps its gradient highlight over the handoff window
       // on top of the composed dissolve (same helper as the crossfade branch).
       if (transitionPlan.overlay === "shine") {
-- 
2.43.0


From 9a0772fa5d365fcb7a4e46719f4bfe08ea55ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 10/55] fix: a composed sliding frame does not start 0.1 % of
 the scene early

---
 src/animation/animator.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index e585353..4e12daf 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1136,7 +1136,7 @@ ${mid}
       : exit.kind === "slide" && exit.axis != null && exit.sign != null
       ? off(exit.axis, exit.sign * (exit.axis === "X" ? width : height))
       : "translate(0px, 0px)";
-    const enterBound = padBefore(enterNum, KEYFRAME_EPSILON.slide, 2);
+    const enterBound = padBefore(enterNum, KEYFRAME_EPSILON.cull, 3);
     if (holdToEnd) {
       keyframe += `
     @keyframes fp-${i} {
-- 
2.43.0


From 90ac0d50725ebc9d656f3dc7918da7ba1ab188f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 11/55] fix: cursor visibility survives split and combined
 terminal escapes

---
 src/terminal/emulator.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/terminal/emulator.ts b/src/terminal/emulator.ts
index b5afec6..669a16b 100644
--- a/src/terminal/emulator.ts
+++ b/src/terminal/emulator.ts
@@ -54,7 +54,9 @@ export class TerminalEmulator {
   rows: number;
   private theme: TerminalTheme;
   // `@xterm/headless` has no public cursor-visibility getter, so track DECTCEM
-  // (`\x1b[?25h` show / `\x1b[?25l` hide) off the byte stream ourselves.
+  // (`\x1b[?25h` show / `\x1b[?25l` hide) and the two resets that re-show the
+  // cursor off xterm's own parser — an escape sequence may be split over writes
+  // or set several modes at once.
   private cursorVisible = true;
 
   constructor(cols: number, rows: number, theme: TerminalTheme = THEMES.catppuccin) {
@@ -62,13 +64,20 @@ export class TerminalEmulator {
     this.rows = rows;
     this.theme = theme;
     this.term = new Terminal({ cols, rows, allowProposedApi: true, scrollback: 0 });
+    // Returning false lets xterm's own handler run as well.
+    const show = (): boolean => { this.cursorVisible = true; return false; };
+    const { parser } = this.term;
+    parser.registerCsiHandler({ prefix: "?", final: "h" }, (params) => params.includes(25) ? show() : false);
+    parser.registerCsiHandler({ prefix: "?", final: "l" }, (params) => {
+      if (params.includes(25)) this.cursorVisible = false;
+      return false;
+    });
+    parser.registerCsiHandler({ intermediates: "!", final: "p" }, show);
+    parser.registerEscHandler({ final: "c" }, show);
   }
 
   /** Feed raw output bytes; resolves once xterm has parsed them. */
   write(data: string): Promise<void> {
-    // Track the LAST cursor show/hide toggle in this chunk (DECTCEM).
-    const m = data.match(/\x1b\[\?25([hl])(?![\s\S]*\x1b\[\?25[hl])/);
-    if (m != null) this.cursorVisible = m[1] === "h";
     return new Promise((resolve) => this.term.write(data, resolve));
   }
 
-- 
2.43.0


From 04132264358949fc485af2e3dbd9d328e36c9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 12/55] fix: underlined blanks at the end of a terminal row are
 kept

---
 src/terminal/render.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terminal/render.ts b/src/terminal/render.ts
index 0764a98..27ef705 100644
--- a/src/terminal/render.ts
+++ b/src/terminal/render.ts
@@ -134,7 +134,7 @@ export function rowInnerHtml(row: TermCell[], theme: TerminalTheme): string {
   let end = row.length;
   while (end > 0) {
     const c = row[end - 1];
-    if (c.char !== " " || c.fg != null || c.bg != null) break;
+    if (c.char !== " " || c.fg != null || c.bg != null || c.underline) break;
     end--;
   }
   if (end === 0) return "";
-- 
2.43.0


From 2c19167455bc70d7d4f1e6a3b8bec97350e1236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 13/55] fix: terminal cells honour inverse video and wide
 glyphs take no extra blank

---
 src/terminal/emulator.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/terminal/emulator.ts b/src/terminal/emulator.ts
index 669a16b..ef98e30 100644
--- a/src/terminal/emulator.ts
+++ b/src/terminal/emulator.ts
@@ -132,10 +132,14 @@ export class TerminalEmulator {
           continue;
         }
         const chars = cell.getChars();
+        let fg = this.resolveColor(cell.getFgColor(), cell.isFgRGB(), cell.isFgPalette());
+        let bg = this.resolveColor(cell.getBgColor(), cell.isBgRGB(), cell.isBgPalette());
+        if (cell.isInverse() !== 0) [fg, bg] = [bg ?? this.theme.bg, fg ?? this.theme.fg];
         row.push({
-          char: chars === "" ? " " : chars,
-          fg: this.resolveColor(cell.getFgColor(), cell.isFgRGB(), cell.isFgPalette()),
-          bg: this.resolveColor(cell.getBgColor(), cell.isBgRGB(), cell.isBgPalette()),
+          // The second cell of a wide glyph holds nothing of its own.
+          char: chars === "" && cell.getWidth() !== 0 ? " " : chars,
+          fg,
+          bg,
           bold: cell.isBold() !== 0,
           italic: cell.isItalic() !== 0,
           dim: cell.isDim() !== 0,
-- 
2.43.0


From ab1e150a270ed1126893b54fd0f3ebef8a6c4587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:19 +0000
Subject: [PATCH 14/55] fix: the terminal caret stays on its cell when the
 recording grows wider

---
 src/terminal/incremental.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/terminal/incremental.ts b/src/terminal/incremental.ts
index ff024a3..3ce2bac 100644
--- a/src/terminal/incremental.ts
+++ b/src/terminal/incremental.ts
@@ -404,7 +404,8 @@ export async function composeIncrementalTermSvg(
   // Blinking caret that follows the recorded cursor (incremental mode). charW is
   // the monospace cell advance, recovered from the measured content width.
   const shape = opts.cursor ?? "block";
-  const charW = cols > 0 ? (width - 2 * padding) / cols : fontSize * MONO_ADVANCE_RATIO;
+  // The canvas holds the widest grid of the recording.
+  const charW = maxCols > 0 ? (width - 2 * padding) / maxCols : fontSize * MONO_ADVANCE_RATIO;
   const cursor = shape === "none" ? null : buildCursor(frames, totalMs, charW, linePx, padding, shape, opts.cursorColor ?? theme.fg);
 
   const fontFaceCss = manageFonts ? getEmbeddedFontFaceCss() : "";
-- 
2.43.0


From 399785367d70f866535fd22275c611f4115a3758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:48 +0000
Subject: [PATCH 15/55] fix: a window resize during live terminal capture is
 recorded

---
 src/terminal/pty.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/terminal/pty.ts b/src/terminal/pty.ts
index 189c0c6..be8d219 100644
--- a/src/terminal/pty.ts
+++ b/src/terminal/pty.ts
@@ -152,7 +152,7 @@ export async function recordPtySession(
     env: { ...process.env, ...opts.env },
   });
 
-  const events: Array<[number, "o", string]> = [];
+  const events: Array<[number, "o" | "r", string]> = [];
   const start = nowMs();
   term.onData((data) => {
     events.push([(nowMs() - start) / 1000, "o", data]);
@@ -167,7 +167,11 @@ export async function recordPtySession(
   const onResize = (): void => {
     const c = process.stdout.columns || cols;
     const r = process.stdout.rows || rows;
-    try { term.resize(c, r); } catch { /* pty may have exited */ }
+    try {
+      term.resize(c, r);
+      // Output from here on is laid out for the new size: the replay must follow.
+      events.push([(nowMs() - start) / 1000, "r", `${c}x${r}`]);
+    } catch { /* pty may have exited */ }
   };
   if (stdin != null) {
     if (stdin.isTTY && stdin.setRawMode != null) stdin.setRawMode(true);
@@ -189,7 +193,7 @@ export async function recordPtySession(
   }
 
   const durationS = (nowMs() - start) / 1000;
-  opts.log?.(`term: captured ${events.length} output event(s), ${durationS.toFixed(1)}s, exit ${exitCode}`);
+  opts.log?.(`term: captured ${events.filter((e) => e[1] === "o").length} output event(s), ${durationS.toFixed(1)}s, exit ${exitCode}`);
   return { cast: buildCastText(cols, rows, command, events), exitCode, cols, rows };
 }
 
@@ -198,7 +202,7 @@ export function buildCastText(
   cols: number,
   rows: number,
   command: string[],
-  events: Array<[number, "o", string]>,
+  events: Array<[number, "o" | "r", string]>,
 ): string {
   const header = JSON.stringify({ version: 2, width: cols, height: rows, command: command.join(" ") });
   const lines = [header, ...events.map((e) => JSON.stringify(e))];
-- 
2.43.0


From f021d4aff89c2d94d25831e469310a84b0bf07cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:39 +0000
Subject: [PATCH 16/55] fix: a clock reveal from a viewport corner ends fully
 revealed

---
 src/animation/animator.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 4e12daf..c767c01 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -481,6 +481,13 @@ function linearWipeStops(width: number, height: number, enterPct: number, endPct
   }).join("\n");
 }
 
+/** A sweep origin on the viewport's very corner has no angle to that corner, so
+ *  the polygon would thread it out of order: keep the origin just inside. */
+function clockOriginInside(w: number, h: number, cx: number, cy: number): [number, number] {
+  const inside = (c: number, size: number): number => Math.min(Math.max(c, size * 1e-6), size * (1 - 1e-6));
+  return [inside(cx, w), inside(cy, h)];
+}
+
 /**
  * DM-1547: one `clip-path: polygon()` frame of the `wipe-clock` sweep at progress
  * `f` ∈ [0, 1] (0 → fully hidden, 1 → fully revealed). A "clock hand" sweeps
@@ -499,6 +506,7 @@ function linearWipeStops(width: number, height: number, enterPct: number, endPct
  * animates on Blink / WebKit / Gecko; no conic mask, no filter (docs/84).
  */
 function clockWipeClip(f: number, w: number, h: number, startDeg = 0, dir: 1 | -1 = 1, cx = w / 2, cy = h / 2): string {
+  [cx, cy] = clockOriginInside(w, h, cx, cy);
   const theta = 2 * Math.PI * f;
   const norm = (a: number): number => { let x = a % (2 * Math.PI); if (x < 0) x += 2 * Math.PI; return x; };
   // DM-1585: the sweep starts at `startDeg` (clockwise from 12 o'clock) and turns
@@ -615,6 +623,7 @@ function clockWipeStops(w: number, h: number, enterNum: number, startNum: number
     }
     return out.join("\n");
   }
+  [cx, cy] = clockOriginInside(w, h, cx, cy);
   const norm = (a: number): number => { let x = a % (2 * Math.PI); if (x < 0) x += 2 * Math.PI; return x; };
   const s = (startDeg * Math.PI) / 180;
   // Corner fractions = each corner's phase into the sweep (respects start + dir),
-- 
2.43.0


From 47582fe8ef4933e2379466f310a1ab1f3edf9aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 17/55] fix: a scroll pattern number needs a digit after its
 decimal point

---
 src/scroll/pattern.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scroll/pattern.ts b/src/scroll/pattern.ts
index e774502..de2e5e3 100644
--- a/src/scroll/pattern.ts
+++ b/src/scroll/pattern.ts
@@ -239,7 +239,7 @@ function tokenize(source: string): Token[] {
       while (i < len && (isDigit(source[i]) || source[i] === ".")) i++;
       const numText = source.slice(numStart, i);
       const num = Number(numText);
-      if (!Number.isFinite(num)) {
+      if (!Number.isFinite(num) || numText.endsWith(".")) {
         throw new ScrollPatternError(`Invalid number "${numText}"`, source, numStart);
       }
       // Peek for unit suffix. `%` is special-cased as a single-char unit; the
-- 
2.43.0


From b92d671ccf327772e8d8e61ac2c026a6d0773db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 18/55] fix: easing arguments in a scroll pattern are plain
 numbers

---
 src/scroll/pattern.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scroll/pattern.ts b/src/scroll/pattern.ts
index de2e5e3..440fabf 100644
--- a/src/scroll/pattern.ts
+++ b/src/scroll/pattern.ts
@@ -500,6 +500,7 @@ class Parser {
       // [steps(N)] or [steps(N, <position>)]
       this.expect("lparen");
       this.consume("lparen");
+      if (this.peek().kind === "plus") this.expect("number");   // the count is unsigned
       const count = this.parseSignedNumberLiteral();
       if (!Number.isInteger(count) || count < 1) {
         throw new ScrollPatternError(
@@ -546,7 +547,6 @@ class Parser {
     else if (this.peek().kind === "plus") { this.consume("plus"); }
     const tok = this.peek();
     if (tok.kind === "number") { this.consume("number"); return sign * (tok.num as number); }
-    if (tok.kind === "length" && tok.unit === "px") { this.consume("length"); return sign * (tok.num as number); }
     throw new ScrollPatternError(`Expected a number, got ${describeToken(tok)}`, this.source, tok.start);
   }
 
-- 
2.43.0


From 6ca697ad009a983bfa3ad312e38a911323c2bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 19/55] fix: a selector in a scroll pattern may hold double
 quotes

---
 src/scroll/pattern.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scroll/pattern.ts b/src/scroll/pattern.ts
index 440fabf..80a723e 100644
--- a/src/scroll/pattern.ts
+++ b/src/scroll/pattern.ts
@@ -224,7 +224,10 @@ function tokenize(source: string): Token[] {
       const start = i;
       i++;
       const valueStart = i;
-      while (i < len && source[i] !== "\"") i++;
+      // A selector's own quotes (`a[href="x"]`) don't end the literal — only a
+      // quote followed by the closing paren does. Elsewhere any quote does.
+      const inSelector = tokens.at(-1)?.kind === "lparen" && tokens.at(-2)?.text === "selector";
+      while (i < len && !(source[i] === "\"" && (!inSelector || /^\s*\)/.test(source.slice(i + 1))))) i++;
       if (i >= len) {
         throw new ScrollPatternError("Unterminated string literal", source, start);
       }
-- 
2.43.0


From 654f7ea841a5e6825c05b400f70adb2acff5abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:24 +0000
Subject: [PATCH 20/55] fix: a chunked scroll keeps its speed and its whole
 duration

---
 src/scroll/executor.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 47692bc..eb7e4f6 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -431,9 +431,12 @@ export async function executeScrollPattern(
       const chunkDestY = op.axis === "y"
         ? (isLast ? op.destY : snap0.scrollY + dir * ci * viewportSize)
         : op.destY;
-      const chunkDur = isLast
-        ? op.durationMs - Math.round(op.durationMs * (ci - 1) / numChunks)
-        : Math.round(op.durationMs / numChunks);
+      // Each chunk takes its distance's share of the duration (the last one is
+      // usually shorter), so the speed stays constant and the shares add up.
+      const msAt = (n: number): number => n === numChunks
+        ? op.durationMs
+        : Math.round(op.durationMs * n * viewportSize / Math.abs(totalDelta));
+      const chunkDur = msAt(ci) - (ci === 1 ? 0 : msAt(ci - 1));
       const segStart = sceneTime;
       await scrollTo(page, selector, chunkDestX, chunkDestY, chunkDur);
       sceneTime += chunkDur;
-- 
2.43.0


From f37af989491e186f29646986fa4bef21739dcfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:24 +0000
Subject: [PATCH 21/55] fix: selector anchors in an inner scroller resolve in
 its own coordinates

---
 src/scroll/executor.ts | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index eb7e4f6..5472401 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -170,7 +170,8 @@ export interface SelectorBbox {
 export interface PageQuery {
   /** Snapshot the current scroll position + maximum scrollable extents. */
   snapshot(): Promise<PageStateSnapshot>;
-  /** Bbox of an element matching the CSS selector, in document coordinates. */
+  /** Bbox of an element matching the CSS selector, in document coordinates
+   *  (in the inner scroller's content coordinates when one is scrolled). */
   selectorBbox(css: string): Promise<SelectorBbox | null>;
 }
 
@@ -642,12 +643,22 @@ function realPageQuery(page: Page, selector: string | null): PageQuery {
       }, selector);
     },
     async selectorBbox(css: string): Promise<SelectorBbox | null> {
-      return page.evaluate((sel) => {
+      return page.evaluate(({ sel, scrollerSel }) => {
         const el = document.querySelector(sel);
         if (el == null) return null;
         const r = el.getBoundingClientRect();
+        // Inner scroller: its own scroll coordinates, not the document's.
+        const scroller = scrollerSel != null ? document.querySelector(scrollerSel) : null;
+        if (scroller != null) {
+          const s = scroller.getBoundingClientRect();
+          return {
+            x: r.left - s.left - scroller.clientLeft + scroller.scrollLeft,
+            y: r.top - s.top - scroller.clientTop + scroller.scrollTop,
+            width: r.width, height: r.height,
+          };
+        }
         return { x: r.left + window.scrollX, y: r.top + window.scrollY, width: r.width, height: r.height };
-      }, css);
+      }, { sel: css, scrollerSel: selector });
     },
   };
 }
-- 
2.43.0


From 9047dce9f529c186ea7b68466be64340bee4408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:15 +0000
Subject: [PATCH 22/55] fix: a scroll cut short by its until target keeps its
 speed

---
 src/scroll/executor.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 5472401..603995b 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -283,6 +283,9 @@ interface ResolvedScrollOp {
   destX: number;
   destY: number;
   durationMs: number;
+  /** Set when `durationMs` was derived from a speed (no `/<duration>`): a
+   *  scroll cut short by an `until` target keeps that speed. */
+  speedPxPerSec?: number;
   easing?: Easing;
 }
 interface ResolvedPauseOp {
@@ -418,6 +421,9 @@ export async function executeScrollPattern(
     const viewportSize = op.axis === "x" ? opts.viewportW : opts.viewportH;
     const numChunks = Math.max(1, Math.ceil(Math.abs(totalDelta) / viewportSize));
     const dir = totalDelta >= 0 ? 1 : -1;
+    const opDur = op.speedPxPerSec != null
+      ? Math.round((Math.abs(totalDelta) / op.speedPxPerSec) * 1000)
+      : op.durationMs;
     for (let ci = 1; ci <= numChunks; ci++) {
       // Advance by exactly `viewportSize` per chunk so adjacent segments
       // tile contiguously (no overlap, no gap) in the composer. The final
@@ -435,8 +441,8 @@ export async function executeScrollPattern(
       // Each chunk takes its distance's share of the duration (the last one is
       // usually shorter), so the speed stays constant and the shares add up.
       const msAt = (n: number): number => n === numChunks
-        ? op.durationMs
-        : Math.round(op.durationMs * n * viewportSize / Math.abs(totalDelta));
+        ? opDur
+        : Math.round(opDur * n * viewportSize / Math.abs(totalDelta));
       const chunkDur = msAt(ci) - (ci === 1 ? 0 : msAt(ci - 1));
       const segStart = sceneTime;
       await scrollTo(page, selector, chunkDestX, chunkDestY, chunkDur);
@@ -615,7 +621,7 @@ async function runAction(
   }
   const snap = await pageQuery.snapshot();
   const resolved = await resolveScrollAction(a, pageQuery, snap, defaultSpeed);
-  await runOp({ kind: "scroll", axis: resolved.axis, destX: resolved.destX, destY: resolved.destY, durationMs: resolved.scrollDurationMs, easing: resolved.easing });
+  await runOp({ kind: "scroll", axis: resolved.axis, destX: resolved.destX, destY: resolved.destY, durationMs: resolved.scrollDurationMs, speedPxPerSec: a.durationMs == null ? (a.speedPxPerSec ?? defaultSpeed) : undefined, easing: resolved.easing });
 }
 
 // ── Playwright I/O ─────────────────────────────────────────────────────────
-- 
2.43.0


From 5bd82e17860471e56b57f8ef8d31fd05be1762a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:15 +0000
Subject: [PATCH 23/55] fix: an upward or leftward until loop runs until its
 target

---
 src/scroll/executor.ts | 48 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 603995b..1bf8ffc 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -498,7 +498,7 @@ async function walkSegment(
   if (seg.kind === "bracketed") {
     await runWithMaybeUntil(seg.until, async (bodyRunOp) => {
       await walkPattern(seg.pattern, pageQuery, defaultSpeed, bodyRunOp, checkTimeout, log);
-    }, pageQuery, defaultSpeed, runOp, checkTimeout, log);
+    }, seg, pageQuery, defaultSpeed, runOp, checkTimeout, log);
     return;
   }
   // Flat segment.
@@ -506,12 +506,13 @@ async function walkSegment(
     for (const a of (seg as FlatSegment).actions) {
       await runAction(a, pageQuery, defaultSpeed, bodyRunOp);
     }
-  }, pageQuery, defaultSpeed, runOp, checkTimeout, log);
+  }, seg, pageQuery, defaultSpeed, runOp, checkTimeout, log);
 }
 
 async function runWithMaybeUntil(
   until: UntilClause | undefined,
   bodyOnce: (runOp: (op: ResolvedOp) => Promise<void>) => Promise<void>,
+  seg: ScrollPatternSegment,
   pageQuery: PageQuery,
   defaultSpeed: number,
   runOp: (op: ResolvedOp) => Promise<void>,
@@ -536,11 +537,13 @@ async function runWithMaybeUntil(
   // stops precisely 1000px from the bottom instead of one action-magnitude past
   // the target. (The resolver's page-bounds clamp still applies underneath.)
   let prevSnap: PageStateSnapshot | null = null;
+  let heading: number | null = null;
   const MAX_ITER = 1000;   // hard upper bound on `until <position>` loops
   for (let i = 0; i < MAX_ITER; i++) {
     checkTimeout();
     const snap = await pageQuery.snapshot();
-    if (await isUntilConditionMet(until, snap, pageQuery)) break;
+    heading ??= await bodyHeading(seg, until, pageQuery, snap);
+    if (await isUntilConditionMet(until, snap, pageQuery, heading)) break;
     if (prevSnap != null && snap.scrollX === prevSnap.scrollX && snap.scrollY === prevSnap.scrollY) {
       // No progress between iterations — bail to avoid an infinite loop. Unlike
       // the timeout path (which throws), an `until` that can't make progress is
@@ -593,20 +596,51 @@ function untilAxis(until: PositionUntil): ScrollAxis {
   return "y";
 }
 
+/** Sign of the body's net motion along the `until` axis (+1 down / right), read
+ *  from its actions at the loop's start; toward the target when the body has no
+ *  motion of its own on that axis. */
+async function bodyHeading(
+  seg: ScrollPatternSegment,
+  until: PositionUntil,
+  pageQuery: PageQuery,
+  snap: PageStateSnapshot,
+): Promise<number> {
+  const axis = untilAxis(until);
+  const cur = axis === "x" ? snap.scrollX : snap.scrollY;
+  const net = async (s: ScrollPatternSegment): Promise<number> => {
+    let sum = 0;
+    if (s.kind === "bracketed") {
+      for (const inner of s.pattern.segments) sum += await net(inner);
+      return sum;
+    }
+    for (const a of s.actions) {
+      if (a.kind === "pause" || axisOfScroll(a) !== axis) continue;
+      if (a.target.kind === "absolute") {
+        sum += await resolveAbsoluteTarget(a.target, axis, pageQuery, snap) - cur;
+      } else {
+        const { sign, value, unit } = a.target.signedLength;
+        sum += (directionSign(a) ?? 1) * sign * (unit === "px" ? value : percentOf(value, axis, snap));
+      }
+    }
+    return sum;
+  };
+  return Math.sign(await net(seg)) || Math.sign(await resolveAbsoluteTarget(until.target, axis, pageQuery, snap) - cur);
+}
+
 async function isUntilConditionMet(
   until: UntilClause,
   snap: PageStateSnapshot,
   pageQuery: PageQuery,
+  heading: number,
 ): Promise<boolean> {
   if (until.kind === "count") return false;   // handled separately
   const axis = untilAxis(until);
   const target = await resolveAbsoluteTarget(until.target, axis, pageQuery, snap);
   const cur = axis === "x" ? snap.scrollX : snap.scrollY;
   // Condition is "we've reached or passed the target in the natural direction
-  // of motion". Inferring the natural direction: positive if target > cur at
-  // the loop's start. For the common case (scroll down until bottom), this
-  // means cur >= target stops the loop.
-  return Math.abs(cur - target) < 0.5 || (target > 0 && cur >= target) || (target < 0 && cur <= target);
+  // of motion" (`bodyHeading`). For the common case (scroll down until bottom),
+  // this means cur >= target stops the loop; scrolling up, cur <= target does.
+  return Math.abs(cur - target) < 0.5 || (heading > 0 ? cur >= target : cur <= target);
 }
 
 async function runAction(
-- 
2.43.0


From bd45fe09f9fde843576e90f7ce9740547f858bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 24/55] fix: a scroll composite holds still during pauses and
 keeps its first easing

---
 src/scroll/composer.ts | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index 13f692b..cf623f3 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -231,13 +231,19 @@ function buildScrollVisibility(
   segOffsets: number[],
   totalMs: number,
 ): {
-  cycleStops: Array<{ pct: number; offset: number }>;
+  cycleStops: Array<{ pct: number; offset: number; easing?: Easing }>;
   pctAtScrollY: (targetY: number, mode: "first" | "last") => number;
 } {
-  const cycleStops: Array<{ pct: number; offset: number }> = [];
+  const cycleStops: Array<{ pct: number; offset: number; easing?: Easing }> = [];
   cycleStops.push({ pct: 0, offset: segOffsets[0] });
   for (let i = 0; i < segments.length; i++) {
+    const startPct = (segments[i].segmentStartMs / totalMs) * 100;
     const endPct = (segments[i].segmentEndMs / totalMs) * 100;
+    // A pause that needed no capture leaves a gap before the next segment: hold.
+    let from = cycleStops[cycleStops.length - 1];
+    if (startPct > from.pct) cycleStops.push(from = { pct: startPct, offset: from.offset });
+    // The stop a motion starts at carries that motion's easing.
+    from.easing = segments[i].easing;
     cycleStops.push({ pct: endPct, offset: segOffsets[i] });
   }
   function pctAtScrollY(targetY: number, mode: "first" | "last"): number {
@@ -423,24 +429,18 @@ function composeScrollSvgBody(
   // DM-1076: each stop also carries the CSS timing-function for the interval
   // that STARTS at it (CSS applies a keyframe's `animation-timing-function` to
   // the segment after it). The interval out of `stops[i]` lands at the next
-  // segment, so it takes THAT segment's action easing — `segments[i + 1]`
-  // relative to the per-segment stop, and `segments[0]` for the initial stop.
+  // segment, so it takes THAT segment's action easing.
   // `null` (absent or `linear`) emits nothing, so patterns without an
   // `[easing]` suffix produce byte-identical CSS and animate `linear` (the
   // animation-level default below).
   // DM-1436: every stop's pct + offset is identical to `cycleStops` (built above
-  // for the visibility interpolation) — both walk the segments with the same
-  // `segmentEndMs/totalMs` pct and the same `scrollY/X - minPos` offset. The only
-  // extra here is the per-stop timing-function: `stops[k]` carries the easing of
-  // the interval that STARTS at it, i.e. `segments[k]` (the initial stop k=0 takes
-  // segments[0]; the trailing stop takes the absent segments[n] → null). So derive
-  // `stops` from `cycleStops` rather than rebuilding the same per-segment loop.
+  // for the visibility interpolation); the only extra here is the per-stop
+  // timing-function of the interval that STARTS at it.
   const stops: Array<{ pct: number; offset: number; tf: string | null }> =
-    cycleStops.map((s, k) => ({ ...s, tf: cssTimingFunction(segments[k]?.easing) }));
-  // Dedupe trivially equal stops to keep CSS small (pct + offset only — a stop
-  // with the same position/time as its predecessor is a zero-motion interval
-  // whose timing-function is moot).
-  const dedupedStops = stops.filter((s, i, arr) => i === 0 || !(s.pct === arr[i - 1].pct && s.offset === arr[i - 1].offset));
+    cycleStops.map((s) => ({ pct: s.pct, offset: s.offset, tf: cssTimingFunction(s.easing) }));
+  // Dedupe trivially equal stops to keep CSS small (pct + offset only). The LAST
+  // of a run stays: it carries the timing-function of the interval that follows.
+  const dedupedStops = stops.filter((s, i, arr) => i === arr.length - 1 || !(s.pct === arr[i + 1].pct && s.offset === arr[i + 1].offset));
   const translateFn = axis === "x" ? "X" : "Y";
   const keyframes = dedupedStops
     .map((s) =>
-- 
2.43.0


From a3d82c3206ff13408b884511b8cafa64dbb783ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 25/55] fix: a zero-length scroll keeps the position before it

---
 src/scroll/composer.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index cf623f3..f531f04 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -442,13 +442,19 @@ function composeScrollSvgBody(
   // of a run stays: it carries the timing-function of the interval that follows.
   const dedupedStops = stops.filter((s, i, arr) => i === arr.length - 1 || !(s.pct === arr[i + 1].pct && s.offset === arr[i + 1].offset));
   const translateFn = axis === "x" ? "X" : "Y";
+  // Two positions at one instant (a zero-length scroll) need two keyframes: a
+  // second one at the same percentage would replace the first.
+  const printedPct = dedupedStops.map((s) => s.pct.toFixed(3));
+  for (let i = printedPct.length - 2; i >= 0; i--) {
+    if (printedPct[i] === printedPct[i + 1] && dedupedStops[i].pct > 0) printedPct[i] = (Number(printedPct[i]) - 0.001).toFixed(3);
+  }
   const keyframes = dedupedStops
-    .map((s) =>
+    .map((s, i) =>
       // DM-642: use translate3d to coax the browser into promoting the
       // animated <g> onto its own compositing layer so per-frame motion is
       // a GPU paint rather than a CPU re-rasterisation of every embedded
       // image/path under the composite.
-      `      ${s.pct.toFixed(3)}% { transform: translate3d(${translateFn === "X" ? `-${s.offset.toFixed(3)}px, 0` : `0, -${s.offset.toFixed(3)}px`}, 0);${s.tf != null ? ` animation-timing-function: ${s.tf};` : ""} }`,
+      `      ${printedPct[i]}% { transform: translate3d(${translateFn === "X" ? `-${s.offset.toFixed(3)}px, 0` : `0, -${s.offset.toFixed(3)}px`}, 0);${s.tf != null ? ` animation-timing-function: ${s.tf};` : ""} }`,
     )
     .join("\n");
 
-- 
2.43.0


From e038deea39d9e7a80a9a8a8e3e7d59ae8001a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 26/55] fix: a scroll that comes back shows the segments it
 comes back to

---
 src/scroll/composer.ts | 60 ++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index f531f04..a6e8241 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -220,10 +220,9 @@ export function composeScrollSvg(
 /**
  * Per-segment visibility-window math (DM-642), extracted from
  * `composeScrollSvgBody` (DM-1458). Builds the cycle's `(time-percent,
- * position-offset)` stops and returns a resolver that linearly interpolates them
- * to find the cycle-percent at which the composite's scroll position crosses a
- * target offset — `"first"` for the entering crossing, `"last"` for the leaving
- * crossing, both clamped to `[0, 100]`. `cycleStops` is returned too because the
+ * position-offset)` stops and returns a resolver that interpolates them to find
+ * the first and last cycle-percent at which the composite's scroll position is
+ * within reach of a target offset. `cycleStops` is returned too because the
  * keyframe `stops` derive from the same data (DM-1436).
  */
 function buildScrollVisibility(
@@ -232,7 +231,7 @@ function buildScrollVisibility(
   totalMs: number,
 ): {
   cycleStops: Array<{ pct: number; offset: number; easing?: Easing }>;
-  pctAtScrollY: (targetY: number, mode: "first" | "last") => number;
+  windowNear: (target: number, reach: number) => [number, number];
 } {
   const cycleStops: Array<{ pct: number; offset: number; easing?: Easing }> = [];
   cycleStops.push({ pct: 0, offset: segOffsets[0] });
@@ -246,27 +245,37 @@ function buildScrollVisibility(
     from.easing = segments[i].easing;
     cycleStops.push({ pct: endPct, offset: segOffsets[i] });
   }
-  function pctAtScrollY(targetY: number, mode: "first" | "last"): number {
-    // Linear interpolation across cycleStops to find when scroll-y crosses
-    // targetY. With monotonic ascending scroll-y, "first" returns the first
-    // crossing (entering); "last" returns the last crossing (leaving).
-    // Out-of-range clamps to 0 / 100.
-    let hit = mode === "first" ? Number.POSITIVE_INFINITY : Number.NEGATIVE_INFINITY;
-    for (let s = 0; s + 1 < cycleStops.length; s++) {
-      const a = cycleStops[s], b = cycleStops[s + 1];
-      const lo = Math.min(a.offset, b.offset);
-      const hi = Math.max(a.offset, b.offset);
-      if (targetY < lo - 0.001 || targetY > hi + 0.001) continue;
+  function windowNear(target: number, reach: number): [number, number] {
+    // The cycle's scroll path is linear between stops; find the first and last
+    // percent at which it is within `reach` of `target`. A scroll may come back
+    // (down, then up), so every interval counts, not just the crossings. An eased
+    // interval is not linear: it counts as a whole.
+    let first = Number.POSITIVE_INFINITY;
+    let last = Number.NEGATIVE_INFINITY;
+    for (let s = 0; s < cycleStops.length; s++) {
+      // The last stop holds to the end of the cycle.
+      const a = cycleStops[s], b = cycleStops[s + 1] ?? { pct: 100, offset: a.offset };
       const span = b.offset - a.offset;
-      const t = span === 0 ? 0 : (targetY - a.offset) / span;
-      const pct = a.pct + (b.pct - a.pct) * t;
-      if (mode === "first" && pct < hit) hit = pct;
-      if (mode === "last" && pct > hit) hit = pct;
+      const at = (y: number): number => span === 0 ? 0 : (y - a.offset) / span;
+      let t0 = Math.max(0, Math.min(at(target - reach), at(target + reach)));
+      let t1 = Math.min(1, Math.max(at(target - reach), at(target + reach)));
+      if (span === 0) {
+        if (Math.abs(a.offset - target) > reach + 0.001) continue;
+        t0 = 0;
+        t1 = 1;
+      } else if (t0 > t1 + 1e-9) {
+        continue;
+      }
+      if (cssTimingFunction(a.easing) != null) {
+        t0 = 0;
+        t1 = 1;
+      }
+      first = Math.min(first, a.pct + (b.pct - a.pct) * t0);
+      last = Math.max(last, a.pct + (b.pct - a.pct) * t1);
     }
-    if (!isFinite(hit)) return mode === "first" ? 0 : 100;
-    return Math.max(0, Math.min(100, hit));
+    return [first, last];
   }
-  return { cycleStops, pctAtScrollY };
+  return { cycleStops, windowNear };
 }
 
 /**
@@ -347,7 +356,7 @@ function composeScrollSvgBody(
   const segOffsets: number[] = segments.map((s) =>
     (axis === "y" ? s.scrollY : s.scrollX) - minPos,
   );
-  const { cycleStops, pctAtScrollY } = buildScrollVisibility(segments, segOffsets, totalMs);
+  const { cycleStops, windowNear } = buildScrollVisibility(segments, segOffsets, totalMs);
 
   // ── Render each capture's content at its position offset ──
   const captureGroups: string[] = [];
@@ -382,8 +391,7 @@ function composeScrollSvgBody(
     // acceptable on every device we've profiled.
     const dim = axis === "y" ? VH : W;
     const rasterBuffer = dim;
-    const enterPct = pctAtScrollY(offset - dim - rasterBuffer, "first");
-    const leavePct = pctAtScrollY(offset + dim + rasterBuffer, "last");
+    const [enterPct, leavePct] = windowNear(offset, dim + rasterBuffer);
     const fullyVisible = enterPct <= 0 && leavePct >= 100;
     if (fullyVisible) {
       captureGroups.push(
-- 
2.43.0


From 9c9b3824121b15e377976b2e340df2c42b78abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 27/55] fix: several zero-length scrolls at one instant keep
 their order

---
 src/scroll/composer.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index a6e8241..b57b5c2 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -454,7 +454,7 @@ function composeScrollSvgBody(
   // second one at the same percentage would replace the first.
   const printedPct = dedupedStops.map((s) => s.pct.toFixed(3));
   for (let i = printedPct.length - 2; i >= 0; i--) {
-    if (printedPct[i] === printedPct[i + 1] && dedupedStops[i].pct > 0) printedPct[i] = (Number(printedPct[i]) - 0.001).toFixed(3);
+    if (Number(printedPct[i]) >= Number(printedPct[i + 1]) && dedupedStops[i].pct > 0) printedPct[i] = (Number(printedPct[i + 1]) - 0.001).toFixed(3);
   }
   const keyframes = dedupedStops
     .map((s, i) =>
-- 
2.43.0


From 2d2f3974585d6663125c0ba6167305a87f9db8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:02 +0000
Subject: [PATCH 28/55] fix: a scroll composes along every axis it moves on

---
 src/scroll/composer.ts | 82 +++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index b57b5c2..e45d7f7 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -55,7 +55,7 @@ export interface ScrollComposerOptions {
   viewportW: number;
   /** Visible viewport height (output SVG height). */
   viewportH: number;
-  /** Which axis the scroll moves along. Default `"y"`. */
+  /** The only axis to follow. Default: every axis the scroll moves along. */
   axis?: "x" | "y";
   /** DM-1488: accessible name → `role="img"` + `<title>` on the root `<svg>`
    *  (for inline-`<svg>` embedding). Omit to leave the output unchanged. */
@@ -171,7 +171,7 @@ export function composeScrollSvg(
   if (segments.length === 0) {
     throw new Error("composeScrollSvg: at least one segment capture required");
   }
-  const axis = opts.axis ?? "y";
+  const axis = opts.axis;
   const W = opts.viewportW;
   const VH = opts.viewportH;
   // DM-894: paint the canvas background from the captured page's ROOT
@@ -217,6 +217,9 @@ export function composeScrollSvg(
   }
 }
 
+/** A scroll position relative to the composite's top-left corner. */
+interface Offset { x: number; y: number }
+
 /**
  * Per-segment visibility-window math (DM-642), extracted from
  * `composeScrollSvgBody` (DM-1458). Builds the cycle's `(time-percent,
@@ -227,13 +230,13 @@ export function composeScrollSvg(
  */
 function buildScrollVisibility(
   segments: ScrollSegmentCapture[],
-  segOffsets: number[],
+  segOffsets: Offset[],
   totalMs: number,
 ): {
-  cycleStops: Array<{ pct: number; offset: number; easing?: Easing }>;
-  windowNear: (target: number, reach: number) => [number, number];
+  cycleStops: Array<{ pct: number; offset: Offset; easing?: Easing }>;
+  windowNear: (target: Offset, reach: Offset) => [number, number];
 } {
-  const cycleStops: Array<{ pct: number; offset: number; easing?: Easing }> = [];
+  const cycleStops: Array<{ pct: number; offset: Offset; easing?: Easing }> = [];
   cycleStops.push({ pct: 0, offset: segOffsets[0] });
   for (let i = 0; i < segments.length; i++) {
     const startPct = (segments[i].segmentStartMs / totalMs) * 100;
@@ -245,7 +248,7 @@ function buildScrollVisibility(
     from.easing = segments[i].easing;
     cycleStops.push({ pct: endPct, offset: segOffsets[i] });
   }
-  function windowNear(target: number, reach: number): [number, number] {
+  function windowNear(target: Offset, reach: Offset): [number, number] {
     // The cycle's scroll path is linear between stops; find the first and last
     // percent at which it is within `reach` of `target`. A scroll may come back
     // (down, then up), so every interval counts, not just the crossings. An eased
@@ -255,17 +258,19 @@ function buildScrollVisibility(
     for (let s = 0; s < cycleStops.length; s++) {
       // The last stop holds to the end of the cycle.
       const a = cycleStops[s], b = cycleStops[s + 1] ?? { pct: 100, offset: a.offset };
-      const span = b.offset - a.offset;
-      const at = (y: number): number => span === 0 ? 0 : (y - a.offset) / span;
-      let t0 = Math.max(0, Math.min(at(target - reach), at(target + reach)));
-      let t1 = Math.min(1, Math.max(at(target - reach), at(target + reach)));
-      if (span === 0) {
-        if (Math.abs(a.offset - target) > reach + 0.001) continue;
-        t0 = 0;
-        t1 = 1;
-      } else if (t0 > t1 + 1e-9) {
-        continue;
+      let t0 = 0;
+      let t1 = 1;
+      for (const k of ["x", "y"] as const) {
+        const span = b.offset[k] - a.offset[k];
+        if (span === 0) {
+          if (Math.abs(a.offset[k] - target[k]) > reach[k] + 0.001) t1 = -1;
+          continue;
+        }
+        const at = (p: number): number => (p - a.offset[k]) / span;
+        t0 = Math.max(t0, Math.min(at(target[k] - reach[k]), at(target[k] + reach[k])));
+        t1 = Math.min(t1, Math.max(at(target[k] - reach[k]), at(target[k] + reach[k])));
       }
+      if (t0 > t1 + 1e-9) continue;
       if (cssTimingFunction(a.easing) != null) {
         t0 = 0;
         t1 = 1;
@@ -287,7 +292,7 @@ function buildScrollVisibility(
 function composeScrollSvgBody(
   segments: ScrollSegmentCapture[],
   opts: ScrollComposerOptions,
-  ctx: { axis: "x" | "y"; W: number; VH: number; bg: string | undefined; paintBg: boolean; hiDPIFactor: number; chunkSize: number },
+  ctx: { axis: "x" | "y" | undefined; W: number; VH: number; bg: string | undefined; paintBg: boolean; hiDPIFactor: number; chunkSize: number },
 ): string {
   const { axis, W, VH, bg, paintBg, hiDPIFactor, chunkSize } = ctx;
 
@@ -299,20 +304,22 @@ function composeScrollSvgBody(
   const totalSec = totalMs / 1000;
 
   // ── Compute composite dimensions ──
-  // The composite spans the full scroll range. For axis=y, that's from min
-  // scrollY (typically 0) to max scrollY + viewportH (covers the LAST
-  // visible portion of the page).
-  const positions = segments.map((s) => (axis === "y" ? s.scrollY : s.scrollX));
-  const minPos = Math.min(...positions);
-  const maxPos = Math.max(...positions);
-  const compositeH = axis === "y" ? (maxPos - minPos) + VH : VH;
-  const compositeW = axis === "x" ? (maxPos - minPos) + W  : W;
+  // The composite spans the full scroll range on each axis it follows. For y,
+  // that's from min scrollY (typically 0) to max scrollY + viewportH (covers the
+  // LAST visible portion of the page).
+  const xs = segments.map((s) => (axis === "y" ? 0 : s.scrollX));
+  const ys = segments.map((s) => (axis === "x" ? 0 : s.scrollY));
+  const minX = Math.min(...xs), minY = Math.min(...ys);
+  const movesX = Math.max(...xs) > minX, movesY = Math.max(...ys) > minY;
+  const axes = movesX ? (movesY ? "xy" : "x") : "y";
+  const compositeH = (Math.max(...ys) - minY) + VH;
+  const compositeW = (Math.max(...xs) - minX) + W;
 
   // DM-1073: derive the animation class from a stable signature of this
   // composite (axis, dimensions, segment scroll offsets) rather than
   // `Math.random()`, so the same input produces byte-identical output (stable
   // diffing / caching) while distinct composites in one document still differ.
-  const animClass = `scrl-${fnv1aHex(`${axis}|${W}x${VH}|${positions.join(",")}`)}`;
+  const animClass = `scrl-${fnv1aHex(`${axes}|${W}x${VH}|${[axes === "x" ? xs : ys, axes === "xy" ? xs : []].flat().join(",")}`)}`;
 
   // ── Split each capture into "scrolling" + "fixed" subtrees ──
   // DM-643: `position: fixed` elements (site headers, cookie banners, etc.)
@@ -353,9 +360,7 @@ function composeScrollSvgBody(
   // ticks the keyframe that would bring it back in.
   // The full-cycle anchors come from `dedupedStops` below; build a temporary
   // helper here that mirrors the same data shape.
-  const segOffsets: number[] = segments.map((s) =>
-    (axis === "y" ? s.scrollY : s.scrollX) - minPos,
-  );
+  const segOffsets: Offset[] = segments.map((_s, i) => ({ x: xs[i] - minX, y: ys[i] - minY }));
   const { cycleStops, windowNear } = buildScrollVisibility(segments, segOffsets, totalMs);
 
   // ── Render each capture's content at its position offset ──
@@ -365,8 +370,7 @@ function composeScrollSvgBody(
     const seg = segments[i];
     const offset = segOffsets[i];
     const inner = elementTreeToSvgInner(strippedTrees[i], W, VH, `seg${i}-`, true, hiDPIFactor, false);
-    const tx = axis === "x" ? offset : 0;
-    const ty = axis === "y" ? offset : 0;
+    const { x: tx, y: ty } = offset;
     // Visibility window: visible while scroll-y is in the rasterisation
     // window for this segment. The strict mathematical bound is
     // `offset ± VH` (segment content can intersect viewport), but using
@@ -379,7 +383,7 @@ function composeScrollSvgBody(
     // viewport bottom" (DM-668 — reproducible on the NYT-desktop-scroll
     // fixture at the s5→s6 boundary, ~26.3% of cycle).
     //
-    // Fix: make each segment visible one extra `dim` (viewport-height /
+    // Fix: make each segment visible one extra viewport (viewport-height /
     // -width) earlier on enter and later on leave. Browsers get a full
     // viewport-height of scroll time to rasterise before the segment's
     // content actually needs to paint, and the segment stays rasterised
@@ -389,9 +393,7 @@ function composeScrollSvgBody(
     // size (the wrappers are hidden, not omitted) but does increase
     // resident raster memory by ~one extra viewport per layer chunk —
     // acceptable on every device we've profiled.
-    const dim = axis === "y" ? VH : W;
-    const rasterBuffer = dim;
-    const [enterPct, leavePct] = windowNear(offset, dim + rasterBuffer);
+    const [enterPct, leavePct] = windowNear(offset, { x: 2 * W, y: 2 * VH });
     const fullyVisible = enterPct <= 0 && leavePct >= 100;
     if (fullyVisible) {
       captureGroups.push(
@@ -444,12 +446,12 @@ function composeScrollSvgBody(
   // DM-1436: every stop's pct + offset is identical to `cycleStops` (built above
   // for the visibility interpolation); the only extra here is the per-stop
   // timing-function of the interval that STARTS at it.
-  const stops: Array<{ pct: number; offset: number; tf: string | null }> =
+  const stops: Array<{ pct: number; offset: Offset; tf: string | null }> =
     cycleStops.map((s) => ({ pct: s.pct, offset: s.offset, tf: cssTimingFunction(s.easing) }));
   // Dedupe trivially equal stops to keep CSS small (pct + offset only). The LAST
   // of a run stays: it carries the timing-function of the interval that follows.
-  const dedupedStops = stops.filter((s, i, arr) => i === arr.length - 1 || !(s.pct === arr[i + 1].pct && s.offset === arr[i + 1].offset));
-  const translateFn = axis === "x" ? "X" : "Y";
+  const dedupedStops = stops.filter((s, i, arr) => i === arr.length - 1 || !(s.pct === arr[i + 1].pct && s.offset.x === arr[i + 1].offset.x && s.offset.y === arr[i + 1].offset.y));
+  const shift = (n: number, moves: boolean): string => (moves ? `-${n.toFixed(3)}px` : "0");
   // Two positions at one instant (a zero-length scroll) need two keyframes: a
   // second one at the same percentage would replace the first.
   const printedPct = dedupedStops.map((s) => s.pct.toFixed(3));
@@ -462,7 +464,7 @@ function composeScrollSvgBody(
       // animated <g> onto its own compositing layer so per-frame motion is
       // a GPU paint rather than a CPU re-rasterisation of every embedded
       // image/path under the composite.
-      `      ${printedPct[i]}% { transform: translate3d(${translateFn === "X" ? `-${s.offset.toFixed(3)}px, 0` : `0, -${s.offset.toFixed(3)}px`}, 0);${s.tf != null ? ` animation-timing-function: ${s.tf};` : ""} }`,
+      `      ${printedPct[i]}% { transform: translate3d(${shift(s.offset.x, movesX)}, ${shift(s.offset.y, movesY || !movesX)}, 0);${s.tf != null ? ` animation-timing-function: ${s.tf};` : ""} }`,
     )
     .join("\n");
 
-- 
2.43.0


From 3ae0f91b5990fd42bbf45785938761462fe700c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:02 +0000
Subject: [PATCH 29/55] fix: a pause at the end of a scroll holds the scene for
 its duration

---
 src/scroll/executor.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 1bf8ffc..0302643 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -464,6 +464,12 @@ export async function executeScrollPattern(
   };
 
   await walkPattern(pattern, pageQuery, defaultSpeed, runOp, checkTimeout, log);
+  // The last record's end is the scene's: a pause at the end that needed no capture
+  // still holds the scene for its duration.
+  const last = captures[captures.length - 1];
+  if (sceneTime > last.segmentEndMs) {
+    captures.push({ ...last, segmentStartMs: last.segmentEndMs, segmentEndMs: sceneTime, diffFromPrev: null, easing: undefined });
+  }
   return captures;
 }
 
-- 
2.43.0


From 542409609007719bb43b4f9f1ee5ec951124767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:37 +0000
Subject: [PATCH 30/55] fix: translucent content paints once where scroll
 captures overlap

---
 src/scroll/composer.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index e45d7f7..8182da5 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -369,7 +369,10 @@ function composeScrollSvgBody(
   for (let i = 0; i < segments.length; i++) {
     const seg = segments[i];
     const offset = segOffsets[i];
-    const inner = elementTreeToSvgInner(strippedTrees[i], W, VH, `seg${i}-`, true, hiDPIFactor, false);
+    // Where captures overlap, the later one replaces the earlier: its own copy of
+    // the page background keeps translucent content from painting twice.
+    const backdrop = paintBg ? `<rect width="${W}" height="${VH}" fill="${bg}"/>` : "";
+    const inner = backdrop + elementTreeToSvgInner(strippedTrees[i], W, VH, `seg${i}-`, true, hiDPIFactor, false);
     const { x: tx, y: ty } = offset;
     // Visibility window: visible while scroll-y is in the rasterisation
     // window for this segment. The strict mathematical bound is
-- 
2.43.0


From 03da282579b4c81ff0357a9590b7e619121677ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 31/55] fix: an unpositioned stacking context paints in its
 stacking context's positioned layer

---
 src/render/stacking.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index c8fad7a..fc025ad 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -339,7 +339,11 @@ export function gatherStackingContextChildren(
       // before step-5 content, then walks that content in tree order. Hoisting
       // a flex item into the root inline bucket loses that tree order: an
       // overflowing early item paints over text in later flow siblings.
-      if (positioned || flexGridItemSC || (isFloat && !floatHoistBlocked)) {
+      // An unpositioned stacking context (opacity, transform, filter, …) paints in
+      // the same layer as a positioned z-index:0 box (Appendix E step 6), however
+      // deep it sits below its stacking context.
+      const otherSC = !positioned && establishesStackingContext(c, childParentDisplay) && !isOverflowOnlySC(c);
+      if (positioned || flexGridItemSC || otherSC || (isFloat && !floatHoistBlocked)) {
         out.push(c);
         hoistedOut.add(c);
         // DM-712 / DM-687: a flex/grid item hoisted because of its explicit
-- 
2.43.0


From 40e0c53e97cd8b8073ff940fc4e1257a74a39ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 32/55] fix: a fixed element keeps its place in a stacking
 context that clips nothing

---
 src/render/element-tree-to-svg.ts | 14 +++++++++-----
 src/render/paint-order.ts         | 20 +++++++++-----------
 src/render/stacking.ts            |  6 ++++++
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 622f2ec..96d8455 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -22,7 +22,7 @@ import { buildImagePatternDef, cyclicBackgroundLayer } from "./image-pattern.js"
 import { buildLinearGradientDef, buildRadialGradientDef, parseBgPositionPx, type GradientStop } from "./gradient-defs.js";
 import { advancedGradientTile, needsChromiumGradientRaster } from "./advanced-gradient-raster.js";
 import { computeTileSize } from "./conic-raster.js";
-import { isFlexOrGridContainerDisplay, establishesStackingContext, gatherStackingContextChildren, isOverflowOnlySC, isFixedContainingBlock, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
+import { overflowClips, isFlexOrGridContainerDisplay, establishesStackingContext, gatherStackingContextChildren, isOverflowOnlySC, isFixedContainingBlock, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
 export { parseGradientStops, buildRadialGradientDef, parseBgPositionPx } from "./gradient-defs.js"; // re-export for existing test importers
 import { buildMaskDef, buildMaskBorder9Slice, positionFragmentMaskDef, positionFragmentClipPathDef, rewriteFragmentMaskDef } from "./mask.js";
 // Re-export mask helpers used by focused geometry/emission tests.
@@ -3373,7 +3373,9 @@ function elementTreeToSvgInnerImpl(
   // the reference section's pin should hit the viewport; the pins under
   // .frame-transform / .frame-filter / .frame-will / .frame-contain stay
   // trapped to .frame.
-  const collectViewportFixed = (parent: CapturedElement): void => {
+  // A stacking context that clips nothing keeps its fixed descendants: they paint
+  // in its order and under its opacity / filter, and there is no clip to escape.
+  const collectViewportFixed = (parent: CapturedElement, clipped: boolean): void => {
     for (const c of parent.children) {
       if (c.styles.position === "fixed") {
         if (!hoistedFromAncestor.has(c)) {
@@ -3382,14 +3384,16 @@ function elementTreeToSvgInnerImpl(
         }
         // c is its own SC root; descendants render via c's renderElement.
       } else if (!isFixedContainingBlock(c)) {
-        collectViewportFixed(c);
+        const cClipped = clipped || overflowClips(c);
+        if (cClipped || !establishesStackingContext(c, parent.styles.display)) collectViewportFixed(c, cClipped);
       }
       // else: c is a fixed-CB; fixed descendants stay within c's subtree.
     }
   };
   for (const e of elements) {
-    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e)) {
-      collectViewportFixed(e);
+    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e)
+        && (overflowClips(e) || !establishesStackingContext(e))) {
+      collectViewportFixed(e, overflowClips(e));
     }
   }
   // The implicit document root stacking context paints in the same phased
diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index d987735..fee76cb 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -45,6 +45,7 @@
 
 import type { CapturedElement } from "../capture/types.js";
 import {
+  overflowClips,
   establishesStackingContext,
   gatherStackingContextChildren,
   isFixedContainingBlock,
@@ -59,12 +60,6 @@ interface HitEntry {
   clips: ClipRect[];
 }
 
-function overflowClips(el: CapturedElement): boolean {
-  const s = el.styles;
-  return (s.overflowX != null && s.overflowX !== "visible")
-    || (s.overflowY != null && s.overflowY !== "visible");
-}
-
 function rectOf(el: CapturedElement): ClipRect {
   return { x: el.x, y: el.y, w: el.width, h: el.height };
 }
@@ -95,8 +90,9 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
   const topFlat = gatherStackingContextChildren(elements, hoisted, undefined, topInline, clipForHoisted, topZSorted);
   // Viewport-fixed pull — mirror of the renderer's collectViewportFixed
   // (position:fixed paints in the viewport SC and escapes ancestor clips,
-  // unless trapped by a fixed-containing-block ancestor).
-  const collectViewportFixed = (parent: CapturedElement): void => {
+  // unless trapped by a fixed-containing-block ancestor, or kept by a stacking
+  // context with no clip to escape).
+  const collectViewportFixed = (parent: CapturedElement, clipped: boolean): void => {
     for (const c of parent.children ?? []) {
       if (c.styles.position === "fixed") {
         if (!hoisted.has(c)) {
@@ -104,13 +100,15 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
           hoisted.add(c);
         }
       } else if (!isFixedContainingBlock(c)) {
-        collectViewportFixed(c);
+        const cClipped = clipped || overflowClips(c);
+        if (cClipped || !establishesStackingContext(c, parent.styles.display)) collectViewportFixed(c, cClipped);
       }
     }
   };
   for (const e of elements) {
-    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e)) {
-      collectViewportFixed(e);
+    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e)
+        && (overflowClips(e) || !establishesStackingContext(e))) {
+      collectViewportFixed(e, overflowClips(e));
     }
   }
   const sortedTop = sortChildrenByPaintOrder(topFlat, undefined, undefined, topInline, topZSorted);
diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index fc025ad..a048b26 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -474,6 +474,12 @@ export function isOverflowOnlySC(el: CapturedElement): boolean {
   return true;
 }
 
+/** Does `el` clip its overflow (`overflow-x` / `overflow-y` other than visible)? */
+export function overflowClips(el: CapturedElement): boolean {
+  const { overflowX, overflowY } = el.styles;
+  return (overflowX != null && overflowX !== "visible") || (overflowY != null && overflowY !== "visible");
+}
+
 /**
  * DM-543: returns true when `el` creates a containing block for
  * position:fixed descendants. Per CSS Containment 1 / Transforms 2 / Will
-- 
2.43.0


From cbe80b3261e43ccbc8d89c07e9bcd0a0903dd112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:42 +0000
Subject: [PATCH 33/55] fix: a box painted atomically owns the floats below it

---
 src/render/element-tree-to-svg.ts |  4 +--
 src/render/paint-order.ts         |  3 +-
 src/render/stacking.ts            | 59 ++++++++++++++++++++++++++++---
 3 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 96d8455..8e95b0b 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -22,7 +22,7 @@ import { buildImagePatternDef, cyclicBackgroundLayer } from "./image-pattern.js"
 import { buildLinearGradientDef, buildRadialGradientDef, parseBgPositionPx, type GradientStop } from "./gradient-defs.js";
 import { advancedGradientTile, needsChromiumGradientRaster } from "./advanced-gradient-raster.js";
 import { computeTileSize } from "./conic-raster.js";
-import { overflowClips, isFlexOrGridContainerDisplay, establishesStackingContext, gatherStackingContextChildren, isOverflowOnlySC, isFixedContainingBlock, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
+import { overflowClips, isFlexOrGridContainerDisplay, establishesStackingContext, gatherOwnChildren, gatherStackingContextChildren, isOverflowOnlySC, isFixedContainingBlock, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
 export { parseGradientStops, buildRadialGradientDef, parseBgPositionPx } from "./gradient-defs.js"; // re-export for existing test importers
 import { buildMaskDef, buildMaskBorder9Slice, positionFragmentMaskDef, positionFragmentClipPathDef, rewriteFragmentMaskDef } from "./mask.js";
 // Re-export mask helpers used by focused geometry/emission tests.
@@ -4421,7 +4421,7 @@ function resolveChildPlan(
   if (establishesStackingContext(el, parentDisplayForEl)) {
     childrenForSort = gatherStackingContextChildren(el.children, hoistedFromAncestor, childDisplay, hoistedAsInlineForEl, overflowClipForHoisted, hoistedAsZSortedForEl);
   } else {
-    childrenForSort = el.children.filter((c) => !hoistedFromAncestor.has(c));
+    childrenForSort = gatherOwnChildren(el, parentDisplayForEl, hoistedFromAncestor, overflowClipForHoisted);
   }
   // DM-1052: pass the SC root's actual direct children so a flex/grid
   // `order` / `*-reverse` reorder of a flattened paint list keeps each
diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index fee76cb..9ffcab4 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -47,6 +47,7 @@ import type { CapturedElement } from "../capture/types.js";
 import {
   overflowClips,
   establishesStackingContext,
+  gatherOwnChildren,
   gatherStackingContextChildren,
   isFixedContainingBlock,
   sortChildrenByPaintOrder,
@@ -124,7 +125,7 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
     if (establishesStackingContext(el, parentDisplay)) {
       childrenForSort = gatherStackingContextChildren(el.children, hoisted, display, inlineForEl, clipForHoisted, zSortedForEl);
     } else {
-      childrenForSort = el.children.filter((c) => !hoisted.has(c));
+      childrenForSort = gatherOwnChildren(el, parentDisplay, hoisted, clipForHoisted);
     }
     let sorted = sortChildrenByPaintOrder(childrenForSort, display, el.styles.flexDirection, inlineForEl, zSortedForEl, new Set(el.children));
     if (el.styles.transformStyle === "preserve-3d") {
diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index a048b26..ba00f70 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -379,7 +379,7 @@ export function gatherStackingContextChildren(
         // positioned z=auto/0 element — its descendants' floats paint with
         // it atomically, not at the parent SC. Existing float-block state
         // propagates downward too.
-        const cBlocks = (positioned && !hasExplicitZ) || paintsAtomicallyAsInlineBox(c, childParentDisplay);
+        const cBlocks = paintsAtomicallyWithoutSC(c, childParentDisplay);
         const nextOverflowAncestor = cIsOverflowOnly ? c : currentOverflowAncestor;
         collectFromNonSC(c, floatHoistBlocked || cBlocks, nextOverflowAncestor);
       }
@@ -393,10 +393,7 @@ export function gatherStackingContextChildren(
       // If `c` is a `position:relative/absolute` with `z-index: auto/0` it
       // paints atomically at step 6 — block float hoisting from its subtree
       // (matches the `cBlocks` rule inside collectFromNonSC).
-      const cPositioned = c.styles.position != null && c.styles.position !== "static";
-      const cZRaw = c.styles.zIndex;
-      const cHasExplicitZ = cZRaw != null && cZRaw !== "" && cZRaw !== "auto";
-      const cBlocksFloats = (cPositioned && !cHasExplicitZ) || paintsAtomicallyAsInlineBox(c, parentDisplay);
+      const cBlocksFloats = paintsAtomicallyWithoutSC(c, parentDisplay);
       // DM-673: if `c` is an overflow-only SC, mark `c` as the overflow
       // ancestor for any positioned descendant we hoist out of it.
       const nextOverflowAncestor = cIsOverflowOnly ? c : null;
@@ -406,6 +403,58 @@ export function gatherStackingContextChildren(
   return out;
 }
 
+/**
+ * Does `el`, no stacking context, still paint "as if it created one" (Appendix E):
+ * a positioned `z-index: auto` box, a float, or an atomic inline-level box? The
+ * floats below such a box belong to ITS float step.
+ */
+function paintsAtomicallyWithoutSC(el: CapturedElement, parentDisplay: string | undefined): boolean {
+  const { position, zIndex } = el.styles;
+  const positioned = position != null && position !== "static";
+  const hasExplicitZ = zIndex != null && zIndex !== "" && zIndex !== "auto";
+  return (positioned && !hasExplicitZ) || isNonPositionedFloat(el) || paintsAtomicallyAsInlineBox(el, parentDisplay);
+}
+
+/**
+ * The paint list of an element that is no stacking context: its own children and,
+ * when it paints atomically, the floats of the in-flow boxes below it (positioned
+ * descendants are already gone to the enclosing stacking context).
+ */
+export function gatherOwnChildren(
+  el: CapturedElement,
+  parentDisplay: string | undefined,
+  hoistedOut: Set<CapturedElement>,
+  overflowClipForHoisted: Map<CapturedElement, CapturedElement>,
+): CapturedElement[] {
+  const own = el.children.filter((c) => !hoistedOut.has(c));
+  if (!paintsAtomicallyWithoutSC(el, parentDisplay)) return own;
+  const out: CapturedElement[] = [];
+  const collectFloats = (parent: CapturedElement, clip: CapturedElement | null): void => {
+    const overflowOnly = isOverflowOnlySC(parent);
+    const nextClip = overflowOnly ? parent : clip;
+    for (const c of parent.children) {
+      if (hoistedOut.has(c)) continue;
+      if (isNonPositionedFloat(c)) {
+        out.push(c);
+        hoistedOut.add(c);
+        if (nextClip != null) overflowClipForHoisted.set(c, nextClip);
+      } else {
+        descend(c, parent.styles.display, nextClip);
+      }
+    }
+  };
+  const descend = (c: CapturedElement, parentDisplayOfC: string | undefined, clip: CapturedElement | null): void => {
+    if (paintsAtomicallyWithoutSC(c, parentDisplayOfC)) return;
+    if (establishesStackingContext(c, parentDisplayOfC) && !isOverflowOnlySC(c)) return;
+    collectFloats(c, clip);
+  };
+  for (const c of own) {
+    out.push(c);
+    if (!isNonPositionedFloat(c)) descend(c, el.styles.display, null);
+  }
+  return out;
+}
+
 /**
  * DM-673: returns true when `el` is a stacking context whose ONLY reason
  * for being one is `overflow != visible`. Such elements are scroll
-- 
2.43.0


From a841adaba516962870da2ffd5b4085252974718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 34/55] fix: hit testing follows the renderer's two paint
 passes

---
 src/render/paint-order.ts | 93 +++++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 37 deletions(-)

diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index 9ffcab4..d28c4d1 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -11,7 +11,7 @@
  * not what the viewer sees.
  *
  * This module walks the tree in the RENDERER'S OWN paint order — the same
- * `gatherStackingContextChildren` / `sortChildrenByPaintOrder` traversal
+ * `gatherStackingContextChildren` / `paintOrderBuckets` two-phase traversal
  * `elementTreeToSvg` uses to emit the SVG (stacking contexts, z-index
  * buckets, float/inline hoisting, viewport-fixed pulling, preserve-3d
  * re-sort) — and takes the last hit. So the glyph matches whatever OUR
@@ -30,13 +30,12 @@
  *   escapes overflow clips entirely, mirroring the render path.
  * - `visibility: hidden` needs no handling — the capture script omits those
  *   elements from the tree entirely.
- * - One place this is deliberately flatter than the renderer: the renderer
- *   emits each in-flow block subtree twice (box decorations, then inline
- *   content) with the context's floats in between, so a float paints under
- *   text it overlaps. A hit sequence has one entry per element and can't hold
- *   both positions, so it keeps the float AFTER the block content — which is
- *   also what a browser hit-test does with an overlapping float (the float box
- *   is hit, even where the text paints on top of it).
+ * - One place this is deliberately flatter than the renderer: a block's own
+ *   text paints after the context's floats, so a float paints under text it
+ *   overlaps. A hit sequence has one entry per element (at its box), so it keeps
+ *   the float AFTER the block — which is also what a browser hit-test does with
+ *   an overlapping float (the float box is hit, even where the text paints on
+ *   top of it).
  *
  * The flattened sequence is memoized per tree (WeakMap on the roots array):
  * the cursor-timeline builder samples hundreds of points with bisection
@@ -50,7 +49,9 @@ import {
   gatherOwnChildren,
   gatherStackingContextChildren,
   isFixedContainingBlock,
-  sortChildrenByPaintOrder,
+  paintOrderBuckets,
+  paintsAtomicallyAsInlineBox,
+  type PaintOrderBuckets,
 } from "./stacking.js";
 
 interface ClipRect { x: number; y: number; w: number; h: number }
@@ -112,43 +113,61 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
       collectViewportFixed(e, overflowClips(e));
     }
   }
-  const sortedTop = sortChildrenByPaintOrder(topFlat, undefined, undefined, topInline, topZSorted);
-
-  const visit = (el: CapturedElement, parentDisplay: string | undefined, clips: ClipRect[]): void => {
-    out.push({ el, clips });
-    if (el.children == null || el.children.length === 0) return;
-    const childClips = overflowClips(el) ? [...clips, rectOf(el)] : clips;
+  type Plan = { buckets: PaintOrderBuckets; display: string | undefined; flat3d: CapturedElement[] | null };
+  const plans = new Map<CapturedElement, Plan>();
+  // Resolved once per element: gathering records what it hoists.
+  const planOf = (el: CapturedElement, parentDisplay: string | undefined): Plan => {
+    const known = plans.get(el);
+    if (known != null) return known;
     const display = el.styles.display;
     const inlineForEl = new Set<CapturedElement>();
     const zSortedForEl = new Set<CapturedElement>();
-    let childrenForSort: CapturedElement[];
-    if (establishesStackingContext(el, parentDisplay)) {
-      childrenForSort = gatherStackingContextChildren(el.children, hoisted, display, inlineForEl, clipForHoisted, zSortedForEl);
-    } else {
-      childrenForSort = gatherOwnChildren(el, parentDisplay, hoisted, clipForHoisted);
-    }
-    let sorted = sortChildrenByPaintOrder(childrenForSort, display, el.styles.flexDirection, inlineForEl, zSortedForEl, new Set(el.children));
+    const childrenForSort = establishesStackingContext(el, parentDisplay)
+      ? gatherStackingContextChildren(el.children, hoisted, display, inlineForEl, clipForHoisted, zSortedForEl)
+      : gatherOwnChildren(el, parentDisplay, hoisted, clipForHoisted);
+    const buckets = paintOrderBuckets(childrenForSort, display, el.styles.flexDirection, inlineForEl, zSortedForEl, new Set(el.children));
+    let flat3d: CapturedElement[] | null = null;
     if (el.styles.transformStyle === "preserve-3d") {
-      sorted = sorted
+      flat3d = [...buckets.negative, ...buckets.base, ...buckets.floats, ...buckets.inlines, ...buckets.zeroOrAuto, ...buckets.positive]
         .map((c, idx) => ({ c, idx, z: c.styles.translateZ ?? 0 }))
-        .sort((a, b) => a.z - b.z || a.idx - b.idx)
+        .sort((x, y) => x.z - y.z || x.idx - y.idx)
         .map((x) => x.c);
     }
-    for (const c of sorted) {
-      // A hoisted descendant that escaped an overflow-only scroller keeps
-      // that scroller's clip (unless fixed, which escapes overflow clips).
-      const escaped = clipForHoisted.get(c);
-      const cClips = escaped != null && c.styles.position !== "fixed"
-        ? [...childClips, rectOf(escaped)]
-        : childClips;
-      visit(c, display, cClips);
-    }
+    const plan: Plan = { buckets, display, flat3d };
+    plans.set(el, plan);
+    return plan;
+  };
+
+  // Mirror of the renderer's two passes: block boxes and floats first, then the
+  // inline-level boxes and the positioned layers.
+  const visitBoxPhase = ({ buckets, display }: Plan, clips: ClipRect[]): void => {
+    for (const c of buckets.negative) visit(c, display, clips, "all");
+    for (const c of buckets.base) if (!paintsAtomicallyAsInlineBox(c, display)) visit(c, display, clips, "box");
+    for (const c of buckets.floats) visit(c, display, clips, "all");
   };
-  for (const el of sortedTop) {
+  const visitInlinePhase = ({ buckets, display }: Plan, clips: ClipRect[]): void => {
+    for (const c of buckets.base) visit(c, display, clips, paintsAtomicallyAsInlineBox(c, display) ? "all" : "inline");
+    for (const c of [...buckets.inlines, ...buckets.zeroOrAuto, ...buckets.positive]) visit(c, display, clips, "all");
+  };
+  const visit = (el: CapturedElement, parentDisplay: string | undefined, parentClips: ClipRect[], phase: "all" | "box" | "inline"): void => {
+    // A hoisted descendant that escaped an overflow-only scroller keeps
+    // that scroller's clip (unless fixed, which escapes overflow clips).
     const escaped = clipForHoisted.get(el);
-    const clips = escaped != null && el.styles.position !== "fixed" ? [rectOf(escaped)] : [];
-    visit(el, undefined, clips);
-  }
+    const clips = escaped != null && el.styles.position !== "fixed" ? [...parentClips, rectOf(escaped)] : parentClips;
+    if (phase !== "inline") out.push({ el, clips });
+    if (el.children.length === 0) return;
+    const childClips = overflowClips(el) ? [...clips, rectOf(el)] : clips;
+    const plan = planOf(el, parentDisplay);
+    if (plan.flat3d != null) {
+      if (phase !== "box") for (const c of plan.flat3d) visit(c, plan.display, childClips, "all");
+      return;
+    }
+    if (phase !== "inline") visitBoxPhase(plan, childClips);
+    if (phase !== "box") visitInlinePhase(plan, childClips);
+  };
+  const topPlan: Plan = { buckets: paintOrderBuckets(topFlat, undefined, undefined, topInline, topZSorted), display: undefined, flat3d: null };
+  visitBoxPhase(topPlan, []);
+  visitInlinePhase(topPlan, []);
   return out;
 }
 
-- 
2.43.0


From df576aac2b6e07a1a9a0b728dee5472ec40fef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:46 +0000
Subject: [PATCH 35/55] fix: a hoisted box is clipped by the clipping boxes of
 its containing-block chain

---
 src/render/element-tree-to-svg.ts | 31 ++++-------
 src/render/paint-order.ts         |  8 +--
 src/render/stacking.ts            | 91 ++++++++++++++++++-------------
 3 files changed, 68 insertions(+), 62 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 8e95b0b..9622bd3 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -281,7 +281,7 @@ interface RenderState {
   height: number;
   idPrefix: string;
   hoistedFromAncestor: Set<CapturedElement>;
-  overflowClipForHoisted: Map<CapturedElement, CapturedElement>;
+  overflowClipForHoisted: Map<CapturedElement, CapturedElement[]>;
   overflowClipPathIds: Map<CapturedElement, string>;
   offGridCollapsedCells: Set<CapturedElement>;
   elementMaskRasters: Map<string, MaskRasterRef>;
@@ -3150,7 +3150,7 @@ function buildRenderState(
   // descendant's emission in the same clip-path so the visual effect is
   // preserved. `position:fixed` descendants escape overflow clips per the
   // spec, so they aren't added here.
-  const overflowClipForHoisted = new Map<CapturedElement, CapturedElement>();
+  const overflowClipForHoisted = new Map<CapturedElement, CapturedElement[]>();
   // DM-673: maps an overflow-clip ancestor element to the clip-path id that
   // its `renderElement` generated when emitting its own `<g clip-path>`
   // wrapper. The hoisted-descendant emission re-uses the same id so the
@@ -3664,26 +3664,19 @@ function renderMaskPhase(state: RenderState, el: CapturedElement): string | null
   return maskUrlId;
 }
 
-// DM-673: wraps `renderElement` with a `<g clip-path>` group when `el`
-// was hoisted past an overflow-clip ancestor. The ancestor's clip-path
-// id is stashed in `overflowClipPathIds` by the ancestor's own
-// renderElement call (which runs first because sections paint at body's
-// step 3 / base bucket, BEFORE positioned descendants at step 6 /
-// zeroOrAuto bucket). `position:fixed` descendants are never added to
-// the map (CSS Overflow 3 §2.2 — fixed elements escape ancestor
-// overflow clipping), so they aren't wrapped here.
+// DM-673: wraps `renderElement` with one `<g clip-path>` group per overflow-clip
+// ancestor `el` was hoisted past and is still clipped by (`overflowClipsAlong`).
+// The clip-paths are minted here when the ancestor has not painted yet — a
+// negative-z descendant paints before it.
 function renderElementWithOverflowClip(state: RenderState, el: CapturedElement, depth: number, parentDisplayForEl?: string, phase: PaintPhase = "all"): void {
-  const { overflowClipForHoisted, overflowClipPathIds, svgParts } = state;
-  const overflowClipAncestor = overflowClipForHoisted.get(el);
-  const clipId = overflowClipAncestor != null ? overflowClipPathIds.get(overflowClipAncestor) : undefined;
-  if (clipId == null) {
-    renderElement(state, el, depth, parentDisplayForEl, phase);
-    return;
-  }
+  const { overflowClipForHoisted, svgParts } = state;
+  const clipIds = (overflowClipForHoisted.get(el) ?? [])
+    .map((anc) => ensureChildOverflowClipId(state, anc, parseCornerRadii(anc.styles, anc.width, anc.height)))
+    .filter((id) => id != null);
   const indent = "  ".repeat(depth);
-  svgParts.push(`${indent}<g clip-path="url(#${clipId})">`);
+  for (const id of clipIds) svgParts.push(`${indent}<g clip-path="url(#${id})">`);
   renderElement(state, el, depth, parentDisplayForEl, phase);
-  svgParts.push(`${indent}</g>`);
+  for (let i = 0; i < clipIds.length; i++) svgParts.push(`${indent}</g>`);
 }
 
 /**
diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index d28c4d1..fbab03a 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -85,7 +85,7 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
   for (const e of elements) normalize(e);
   const out: HitEntry[] = [];
   const hoisted = new Set<CapturedElement>();
-  const clipForHoisted = new Map<CapturedElement, CapturedElement>();
+  const clipForHoisted = new Map<CapturedElement, CapturedElement[]>();
 
   const topInline = new Set<CapturedElement>();
   const topZSorted = new Set<CapturedElement>();
@@ -150,10 +150,10 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
     for (const c of [...buckets.inlines, ...buckets.zeroOrAuto, ...buckets.positive]) visit(c, display, clips, "all");
   };
   const visit = (el: CapturedElement, parentDisplay: string | undefined, parentClips: ClipRect[], phase: "all" | "box" | "inline"): void => {
-    // A hoisted descendant that escaped an overflow-only scroller keeps
-    // that scroller's clip (unless fixed, which escapes overflow clips).
+    // A hoisted descendant keeps the clips of the overflow scrollers it was
+    // hoisted past and is still clipped by.
     const escaped = clipForHoisted.get(el);
-    const clips = escaped != null && el.styles.position !== "fixed" ? [...parentClips, rectOf(escaped)] : parentClips;
+    const clips = escaped != null ? [...parentClips, ...escaped.map(rectOf)] : parentClips;
     if (phase !== "inline") out.push({ el, clips });
     if (el.children.length === 0) return;
     const childClips = overflowClips(el) ? [...clips, rectOf(el)] : clips;
diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index ba00f70..cdd03e7 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -230,13 +230,13 @@ export function gatherStackingContextChildren(
   hoistedAsInline?: Set<CapturedElement>,
   /**
    * DM-673: when set, this map is populated with `{ hoistedDescendant →
-   * overflow-clip ancestor }` for any positioned descendant that escapes an
-   * `overflow != visible` ancestor whose ONLY SC-creating property is the
-   * overflow. The renderer reads this map to re-wrap the descendant's
-   * emission in the same `<g clip-path>` the ancestor would have wrapped
-   * it in had it stayed nested.
+   * overflow-clip ancestors }` for any descendant hoisted past clipping
+   * ancestors that stay in its containing-block chain (see
+   * `overflowClipsAlong`). The renderer reads this map to re-wrap the
+   * descendant's emission in the same `<g clip-path>`s the ancestors would
+   * have wrapped it in had it stayed nested.
    */
-  overflowClipForHoisted?: Map<CapturedElement, CapturedElement>,
+  overflowClipForHoisted?: Map<CapturedElement, CapturedElement[]>,
   /**
    * DM-712: out-parameter populated with flex/grid items that were hoisted
    * because they carry an explicit z-index. Once hoisted, the sort needs
@@ -264,7 +264,7 @@ export function gatherStackingContextChildren(
    * of `.stages { position:relative }`) was rendering before the white
    * `.river-prop` page background and disappeared completely.
    */
-  const collectFromNonSC = (parent: CapturedElement, floatHoistBlocked: boolean = false, currentOverflowAncestor: CapturedElement | null = null): void => {
+  const collectFromNonSC = (parent: CapturedElement, floatHoistBlocked: boolean, path: CapturedElement[]): void => {
     const childParentDisplay = parent.styles.display;
     const parentIsFlexGrid = isFlexOrGridContainerDisplay(childParentDisplay);
     // DM-537: when the parent is a flex/grid container, flex items hoisted
@@ -342,7 +342,7 @@ export function gatherStackingContextChildren(
       // An unpositioned stacking context (opacity, transform, filter, …) paints in
       // the same layer as a positioned z-index:0 box (Appendix E step 6), however
       // deep it sits below its stacking context.
-      const otherSC = !positioned && establishesStackingContext(c, childParentDisplay) && !isOverflowOnlySC(c);
+      const otherSC = !positioned && establishesStackingContext(c, childParentDisplay) && !isOverflowOnlySC(c, childParentDisplay);
       if (positioned || flexGridItemSC || otherSC || (isFloat && !floatHoistBlocked)) {
         out.push(c);
         hoistedOut.add(c);
@@ -358,46 +358,37 @@ export function gatherStackingContextChildren(
         if (flexGridItemSC && !positioned) {
           hoistedAsZSorted?.add(c);
         }
-        // DM-673: if we hoisted `c` past an overflow-clip ancestor (and
-        // `c` isn't `position:fixed` — which escapes overflow per CSS
-        // Overflow 3 §2.2), remember the ancestor so the renderer can
-        // re-wrap `c` in its clip-path.
-        if (currentOverflowAncestor != null && c.styles.position !== "fixed") {
-          overflowClipForHoisted?.set(c, currentOverflowAncestor);
-        }
+        // DM-673: if we hoisted `c` past overflow-clip ancestors that still
+        // clip it, remember them so the renderer can re-wrap `c` in their
+        // clip-paths.
+        const clips = overflowClipsAlong(path, c);
+        if (clips.length > 0) overflowClipForHoisted?.set(c, clips);
       }
       // DM-673: also recurse THROUGH `overflow != visible` SCs whose ONLY
       // SC-creating property is the overflow (per `isOverflowOnlySC`). Per
       // Chrome's paint model these scroll containers paint atomically only
       // for their bg/border at step 3, while positioned descendants escape
       // to the parent SC's step 6 — intermixed in tree order with sibling
-      // positioned descendants. Mark `c` as the overflow ancestor so any
-      // descendant we hoist further down gets the clip-path applied.
-      const cIsOverflowOnly = isOverflowOnlySC(c);
-      if (!establishesStackingContext(c, childParentDisplay) || cIsOverflowOnly) {
+      // positioned descendants.
+      if (!establishesStackingContext(c, childParentDisplay) || isOverflowOnlySC(c, childParentDisplay)) {
         // Block float hoisting from this point downward if `c` itself is a
         // positioned z=auto/0 element — its descendants' floats paint with
         // it atomically, not at the parent SC. Existing float-block state
         // propagates downward too.
         const cBlocks = paintsAtomicallyWithoutSC(c, childParentDisplay);
-        const nextOverflowAncestor = cIsOverflowOnly ? c : currentOverflowAncestor;
-        collectFromNonSC(c, floatHoistBlocked || cBlocks, nextOverflowAncestor);
+        collectFromNonSC(c, floatHoistBlocked || cBlocks, [...path, c]);
       }
     }
   };
   for (const c of children) {
     if (hoistedOut.has(c)) continue;
     out.push(c);
-    const cIsOverflowOnly = isOverflowOnlySC(c);
-    if (!establishesStackingContext(c, parentDisplay) || cIsOverflowOnly) {
+    if (!establishesStackingContext(c, parentDisplay) || isOverflowOnlySC(c, parentDisplay)) {
       // If `c` is a `position:relative/absolute` with `z-index: auto/0` it
       // paints atomically at step 6 — block float hoisting from its subtree
       // (matches the `cBlocks` rule inside collectFromNonSC).
       const cBlocksFloats = paintsAtomicallyWithoutSC(c, parentDisplay);
-      // DM-673: if `c` is an overflow-only SC, mark `c` as the overflow
-      // ancestor for any positioned descendant we hoist out of it.
-      const nextOverflowAncestor = cIsOverflowOnly ? c : null;
-      collectFromNonSC(c, cBlocksFloats, nextOverflowAncestor);
+      collectFromNonSC(c, cBlocksFloats, [c]);
     }
   }
   return out;
@@ -424,37 +415,57 @@ export function gatherOwnChildren(
   el: CapturedElement,
   parentDisplay: string | undefined,
   hoistedOut: Set<CapturedElement>,
-  overflowClipForHoisted: Map<CapturedElement, CapturedElement>,
+  overflowClipForHoisted: Map<CapturedElement, CapturedElement[]>,
 ): CapturedElement[] {
   const own = el.children.filter((c) => !hoistedOut.has(c));
   if (!paintsAtomicallyWithoutSC(el, parentDisplay)) return own;
   const out: CapturedElement[] = [];
-  const collectFloats = (parent: CapturedElement, clip: CapturedElement | null): void => {
-    const overflowOnly = isOverflowOnlySC(parent);
-    const nextClip = overflowOnly ? parent : clip;
+  const collectFloats = (parent: CapturedElement, path: CapturedElement[]): void => {
     for (const c of parent.children) {
       if (hoistedOut.has(c)) continue;
       if (isNonPositionedFloat(c)) {
         out.push(c);
         hoistedOut.add(c);
-        if (nextClip != null) overflowClipForHoisted.set(c, nextClip);
+        const clips = overflowClipsAlong(path, c);
+        if (clips.length > 0) overflowClipForHoisted.set(c, clips);
       } else {
-        descend(c, parent.styles.display, nextClip);
+        descend(c, parent.styles.display, path);
       }
     }
   };
-  const descend = (c: CapturedElement, parentDisplayOfC: string | undefined, clip: CapturedElement | null): void => {
+  const descend = (c: CapturedElement, parentDisplayOfC: string | undefined, path: CapturedElement[]): void => {
     if (paintsAtomicallyWithoutSC(c, parentDisplayOfC)) return;
-    if (establishesStackingContext(c, parentDisplayOfC) && !isOverflowOnlySC(c)) return;
-    collectFloats(c, clip);
+    if (establishesStackingContext(c, parentDisplayOfC) && !isOverflowOnlySC(c, parentDisplayOfC)) return;
+    collectFloats(c, [...path, c]);
   };
   for (const c of own) {
     out.push(c);
-    if (!isNonPositionedFloat(c)) descend(c, el.styles.display, null);
+    if (!isNonPositionedFloat(c)) descend(c, el.styles.display, []);
   }
   return out;
 }
 
+/**
+ * The boxes of `path` (`el`'s ancestors, outermost first) whose overflow clips
+ * `el`: the clipping ones of its containing-block chain. An absolutely positioned
+ * box skips the ancestors below its containing block, a fixed one those below its
+ * fixed containing block (CSS Overflow 3 §3: overflow affects the element's
+ * content except descendants whose containing block is outside it).
+ */
+export function overflowClipsAlong(path: CapturedElement[], el: CapturedElement): CapturedElement[] {
+  const clips: CapturedElement[] = [];
+  let position = el.styles.position;
+  for (let i = path.length - 1; i >= 0; i--) {
+    const anc = path[i];
+    const positioned = anc.styles.position != null && anc.styles.position !== "static";
+    if (position === "fixed" && !isFixedContainingBlock(anc)) continue;
+    if (position === "absolute" && !positioned && !isFixedContainingBlock(anc)) continue;
+    if (overflowClips(anc)) clips.unshift(anc);
+    position = anc.styles.position;
+  }
+  return clips;
+}
+
 /**
  * DM-673: returns true when `el` is a stacking context whose ONLY reason
  * for being one is `overflow != visible`. Such elements are scroll
@@ -475,7 +486,7 @@ export function gatherOwnChildren(
  * filter, opacity, etc.), we still keep them atomic — their descendants
  * are contained by the layer, matching Chrome's behavior.
  */
-export function isOverflowOnlySC(el: CapturedElement): boolean {
+export function isOverflowOnlySC(el: CapturedElement, parentDisplay?: string): boolean {
   const s = el.styles;
   const transformRelated = transformRelatedCreatesStackingBoundary(el);
   // An animation target must stay atomic so its descendants render INSIDE its
@@ -489,8 +500,10 @@ export function isOverflowOnlySC(el: CapturedElement): boolean {
   const overflowIsSC = (ox != null && ox !== "visible") || (oy != null && oy !== "visible");
   if (!overflowIsSC) return false;
   // Must have NO other SC-creating property
+  const hasExplicitZ = s.zIndex != null && s.zIndex !== "" && s.zIndex !== "auto";
   const positioned = s.position != null && s.position !== "static";
-  if (positioned) return false;
+  if (hasExplicitZ && (positioned || isFlexOrGridContainerDisplay(parentDisplay))) return false;
+  if (s.position === "fixed" || s.position === "sticky") return false;
   if (transformRelated && s.transform != null && s.transform !== "" && s.transform !== "none") return false;
   if (transformRelated && s.transformCreatesSc) return false;
   if (transformRelated && s.transformStyle != null && s.transformStyle !== "" && s.transformStyle !== "flat") return false;
-- 
2.43.0


From bdf4a85d87b48cfa7399f4a3a1cc9bd84df92b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:58 +0000
Subject: [PATCH 36/55] fix: a fixed box leaves only a stacking context that is
 clipped

---
 src/render/element-tree-to-svg.ts | 41 ++-----------------------------
 src/render/paint-order.ts         | 26 ++------------------
 src/render/stacking.ts            | 31 +++++++++++++++++++++++
 3 files changed, 35 insertions(+), 63 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 9622bd3..4489c59 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -22,7 +22,7 @@ import { buildImagePatternDef, cyclicBackgroundLayer } from "./image-pattern.js"
 import { buildLinearGradientDef, buildRadialGradientDef, parseBgPositionPx, type GradientStop } from "./gradient-defs.js";
 import { advancedGradientTile, needsChromiumGradientRaster } from "./advanced-gradient-raster.js";
 import { computeTileSize } from "./conic-raster.js";
-import { overflowClips, isFlexOrGridContainerDisplay, establishesStackingContext, gatherOwnChildren, gatherStackingContextChildren, isOverflowOnlySC, isFixedContainingBlock, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
+import { fixedLeavingClippedContexts, isFlexOrGridContainerDisplay, establishesStackingContext, gatherOwnChildren, gatherStackingContextChildren, isOverflowOnlySC, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
 export { parseGradientStops, buildRadialGradientDef, parseBgPositionPx } from "./gradient-defs.js"; // re-export for existing test importers
 import { buildMaskDef, buildMaskBorder9Slice, positionFragmentMaskDef, positionFragmentClipPathDef, rewriteFragmentMaskDef } from "./mask.js";
 // Re-export mask helpers used by focused geometry/emission tests.
@@ -3358,44 +3358,7 @@ function elementTreeToSvgInnerImpl(
   const topLevelHoistedAsInline = new Set<CapturedElement>();
   const topLevelHoistedAsZSorted = new Set<CapturedElement>();
   const topLevelFlat = gatherStackingContextChildren(elements, hoistedFromAncestor, undefined, topLevelHoistedAsInline, overflowClipForHoisted, topLevelHoistedAsZSorted);
-  // DM-543: position:fixed elements paint relative to the viewport stacking
-  // context and escape ALL ancestor overflow clips. The standard SC-by-SC
-  // hoist halts at any SC ancestor (e.g. an overflow:auto section creates an
-  // SC, so its fixed descendants get buried inside the section's <g
-  // clip-path> wrapper and disappear). Pull viewport-anchored fixed
-  // descendants up to the root SC so they paint at document root.
-  // Constraint: stop bubbling at fixed-CB ancestors — when an ancestor
-  // creates a containing block for fixed (transform / filter / will-change:
-  // <transform|filter|perspective> / computed perspective / computed
-  // transform-style:preserve-3d / contain:<paint|strict|content|layout>),
-  // the descendant is effectively absolute-positioned to that ancestor and
-  // must respect the ancestor's clipping. See `13-deep-fixed-in-transform`:
-  // the reference section's pin should hit the viewport; the pins under
-  // .frame-transform / .frame-filter / .frame-will / .frame-contain stay
-  // trapped to .frame.
-  // A stacking context that clips nothing keeps its fixed descendants: they paint
-  // in its order and under its opacity / filter, and there is no clip to escape.
-  const collectViewportFixed = (parent: CapturedElement, clipped: boolean): void => {
-    for (const c of parent.children) {
-      if (c.styles.position === "fixed") {
-        if (!hoistedFromAncestor.has(c)) {
-          topLevelFlat.push(c);
-          hoistedFromAncestor.add(c);
-        }
-        // c is its own SC root; descendants render via c's renderElement.
-      } else if (!isFixedContainingBlock(c)) {
-        const cClipped = clipped || overflowClips(c);
-        if (cClipped || !establishesStackingContext(c, parent.styles.display)) collectViewportFixed(c, cClipped);
-      }
-      // else: c is a fixed-CB; fixed descendants stay within c's subtree.
-    }
-  };
-  for (const e of elements) {
-    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e)
-        && (overflowClips(e) || !establishesStackingContext(e))) {
-      collectViewportFixed(e, overflowClips(e));
-    }
-  }
+  topLevelFlat.push(...fixedLeavingClippedContexts(elements, hoistedFromAncestor));
   // The implicit document root stacking context paints in the same phased
   // order as any other: every in-flow block's box (step 3), then the floats
   // (step 4), then all the inline content (step 5), then the positioned and
diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index fbab03a..0d6891f 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -46,9 +46,9 @@ import type { CapturedElement } from "../capture/types.js";
 import {
   overflowClips,
   establishesStackingContext,
+  fixedLeavingClippedContexts,
   gatherOwnChildren,
   gatherStackingContextChildren,
-  isFixedContainingBlock,
   paintOrderBuckets,
   paintsAtomicallyAsInlineBox,
   type PaintOrderBuckets,
@@ -90,29 +90,7 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
   const topInline = new Set<CapturedElement>();
   const topZSorted = new Set<CapturedElement>();
   const topFlat = gatherStackingContextChildren(elements, hoisted, undefined, topInline, clipForHoisted, topZSorted);
-  // Viewport-fixed pull — mirror of the renderer's collectViewportFixed
-  // (position:fixed paints in the viewport SC and escapes ancestor clips,
-  // unless trapped by a fixed-containing-block ancestor, or kept by a stacking
-  // context with no clip to escape).
-  const collectViewportFixed = (parent: CapturedElement, clipped: boolean): void => {
-    for (const c of parent.children ?? []) {
-      if (c.styles.position === "fixed") {
-        if (!hoisted.has(c)) {
-          topFlat.push(c);
-          hoisted.add(c);
-        }
-      } else if (!isFixedContainingBlock(c)) {
-        const cClipped = clipped || overflowClips(c);
-        if (cClipped || !establishesStackingContext(c, parent.styles.display)) collectViewportFixed(c, cClipped);
-      }
-    }
-  };
-  for (const e of elements) {
-    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e)
-        && (overflowClips(e) || !establishesStackingContext(e))) {
-      collectViewportFixed(e, overflowClips(e));
-    }
-  }
+  topFlat.push(...fixedLeavingClippedContexts(elements, hoisted));
   type Plan = { buckets: PaintOrderBuckets; display: string | undefined; flat3d: CapturedElement[] | null };
   const plans = new Map<CapturedElement, Plan>();
   // Resolved once per element: gathering records what it hoists.
diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index cdd03e7..e9545c0 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -466,6 +466,37 @@ export function overflowClipsAlong(path: CapturedElement[], el: CapturedElement)
   return clips;
 }
 
+/**
+ * DM-543: the `position: fixed` boxes that must leave their stacking context and
+ * paint at the document root: the viewport is their containing block, so no
+ * ancestor's overflow clips them (CSS Overflow 3 §2.2), but the stacking context
+ * they paint in is clipped and would clip them with it.
+ *
+ * Fixed boxes below a fixed containing block stay (that ancestor's clipping is
+ * theirs), and so do those in a stacking context nothing clips: they paint in its
+ * order and under its opacity / filter.
+ */
+export function fixedLeavingClippedContexts(elements: CapturedElement[], hoistedOut: Set<CapturedElement>): CapturedElement[] {
+  const out: CapturedElement[] = [];
+  // `path`: ancestors below the enclosing stacking context; `clipped`: is that context clipped
+  const visit = (c: CapturedElement, parentDisplay: string | undefined, path: CapturedElement[], clipped: boolean): void => {
+    if (c.styles.position === "fixed") {
+      if (clipped && !hoistedOut.has(c)) {
+        out.push(c);
+        hoistedOut.add(c);
+      }
+      return;
+    }
+    if (isFixedContainingBlock(c)) return;
+    const isContext = establishesStackingContext(c, parentDisplay) && !isOverflowOnlySC(c, parentDisplay);
+    const childPath = isContext ? [] : [...path, c];
+    const childClipped = clipped || (isContext && (overflowClips(c) || overflowClipsAlong(path, c).length > 0));
+    for (const child of c.children) visit(child, c.styles.display, childPath, childClipped);
+  };
+  for (const e of elements) visit(e, undefined, [], false);
+  return out;
+}
+
 /**
  * DM-673: returns true when `el` is a stacking context whose ONLY reason
  * for being one is `overflow != visible`. Such elements are scroll
-- 
2.43.0


From dd67708c22a89f2d4e02084edaaaeeacb7d1fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 37/55] fix: a hoisted flex item with a z-index stays a
 stacking context

---
 src/render/element-tree-to-svg.ts |  9 ++++++---
 src/render/paint-order.ts         |  6 ++++--
 src/render/stacking.ts            | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 4489c59..7d8fb6d 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -22,7 +22,7 @@ import { buildImagePatternDef, cyclicBackgroundLayer } from "./image-pattern.js"
 import { buildLinearGradientDef, buildRadialGradientDef, parseBgPositionPx, type GradientStop } from "./gradient-defs.js";
 import { advancedGradientTile, needsChromiumGradientRaster } from "./advanced-gradient-raster.js";
 import { computeTileSize } from "./conic-raster.js";
-import { fixedLeavingClippedContexts, isFlexOrGridContainerDisplay, establishesStackingContext, gatherOwnChildren, gatherStackingContextChildren, isOverflowOnlySC, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
+import { fixedLeavingClippedContexts, isFlexOrGridContainerDisplay, establishesStackingContext, gatherOwnChildren, gatherStackingContextChildren, isOverflowOnlySC, paintOrderBuckets, parentDisplays, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
 export { parseGradientStops, buildRadialGradientDef, parseBgPositionPx } from "./gradient-defs.js"; // re-export for existing test importers
 import { buildMaskDef, buildMaskBorder9Slice, positionFragmentMaskDef, positionFragmentClipPathDef, rewriteFragmentMaskDef } from "./mask.js";
 // Re-export mask helpers used by focused geometry/emission tests.
@@ -281,6 +281,7 @@ interface RenderState {
   height: number;
   idPrefix: string;
   hoistedFromAncestor: Set<CapturedElement>;
+  parentDisplays: Map<CapturedElement, string | undefined>;
   overflowClipForHoisted: Map<CapturedElement, CapturedElement[]>;
   overflowClipPathIds: Map<CapturedElement, string>;
   offGridCollapsedCells: Set<CapturedElement>;
@@ -3282,6 +3283,7 @@ function buildRenderState(
     height,
     idPrefix,
     hoistedFromAncestor,
+    parentDisplays: parentDisplays(elements),
     overflowClipForHoisted,
     overflowClipPathIds,
     offGridCollapsedCells,
@@ -3631,8 +3633,9 @@ function renderMaskPhase(state: RenderState, el: CapturedElement): string | null
 // ancestor `el` was hoisted past and is still clipped by (`overflowClipsAlong`).
 // The clip-paths are minted here when the ancestor has not painted yet — a
 // negative-z descendant paints before it.
-function renderElementWithOverflowClip(state: RenderState, el: CapturedElement, depth: number, parentDisplayForEl?: string, phase: PaintPhase = "all"): void {
-  const { overflowClipForHoisted, svgParts } = state;
+function renderElementWithOverflowClip(state: RenderState, el: CapturedElement, depth: number, listDisplay?: string, phase: PaintPhase = "all"): void {
+  const { overflowClipForHoisted, svgParts, parentDisplays } = state;
+  const parentDisplayForEl = parentDisplays.has(el) ? parentDisplays.get(el) : listDisplay;
   const clipIds = (overflowClipForHoisted.get(el) ?? [])
     .map((anc) => ensureChildOverflowClipId(state, anc, parseCornerRadii(anc.styles, anc.width, anc.height)))
     .filter((id) => id != null);
diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index 0d6891f..c2bcace 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -50,6 +50,7 @@ import {
   gatherOwnChildren,
   gatherStackingContextChildren,
   paintOrderBuckets,
+  parentDisplays,
   paintsAtomicallyAsInlineBox,
   type PaintOrderBuckets,
 } from "./stacking.js";
@@ -92,6 +93,7 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
   const topFlat = gatherStackingContextChildren(elements, hoisted, undefined, topInline, clipForHoisted, topZSorted);
   topFlat.push(...fixedLeavingClippedContexts(elements, hoisted));
   type Plan = { buckets: PaintOrderBuckets; display: string | undefined; flat3d: CapturedElement[] | null };
+  const displays = parentDisplays(elements);
   const plans = new Map<CapturedElement, Plan>();
   // Resolved once per element: gathering records what it hoists.
   const planOf = (el: CapturedElement, parentDisplay: string | undefined): Plan => {
@@ -127,7 +129,7 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
     for (const c of buckets.base) visit(c, display, clips, paintsAtomicallyAsInlineBox(c, display) ? "all" : "inline");
     for (const c of [...buckets.inlines, ...buckets.zeroOrAuto, ...buckets.positive]) visit(c, display, clips, "all");
   };
-  const visit = (el: CapturedElement, parentDisplay: string | undefined, parentClips: ClipRect[], phase: "all" | "box" | "inline"): void => {
+  const visit = (el: CapturedElement, listDisplay: string | undefined, parentClips: ClipRect[], phase: "all" | "box" | "inline"): void => {
     // A hoisted descendant keeps the clips of the overflow scrollers it was
     // hoisted past and is still clipped by.
     const escaped = clipForHoisted.get(el);
@@ -135,7 +137,7 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
     if (phase !== "inline") out.push({ el, clips });
     if (el.children.length === 0) return;
     const childClips = overflowClips(el) ? [...clips, rectOf(el)] : clips;
-    const plan = planOf(el, parentDisplay);
+    const plan = planOf(el, displays.has(el) ? displays.get(el) : listDisplay);
     if (plan.flat3d != null) {
       if (phase !== "box") for (const c of plan.flat3d) visit(c, plan.display, childClips, "all");
       return;
diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index e9545c0..4be490a 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -445,6 +445,20 @@ export function gatherOwnChildren(
   return out;
 }
 
+/**
+ * Each element's own parent's display. A hoisted element paints in an ancestor's
+ * list, but whether it is a flex / grid item is its parent's business.
+ */
+export function parentDisplays(elements: CapturedElement[]): Map<CapturedElement, string | undefined> {
+  const displays = new Map<CapturedElement, string | undefined>();
+  const visit = (c: CapturedElement, display: string | undefined): void => {
+    displays.set(c, display);
+    for (const child of c.children) visit(child, c.styles.display);
+  };
+  for (const e of elements) visit(e, undefined);
+  return displays;
+}
+
 /**
  * The boxes of `path` (`el`'s ancestors, outermost first) whose overflow clips
  * `el`: the clipping ones of its containing-block chain. An absolutely positioned
-- 
2.43.0


From 90da637b1e234bf1bcda7520f958a842491b3f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:35 +0000
Subject: [PATCH 38/55] fix: z-index has no effect on an unpositioned stacking
 context

---
 src/render/stacking.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index 4be490a..6715dee 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -773,7 +773,11 @@ export function paintOrderBuckets(
     const flt = c.styles.float ?? "none";
     const zRaw = c.styles.zIndex;
     const positioned = pos != null && pos !== "static";
-    const z = zRaw === "auto" || zRaw === "" || zRaw == null ? NaN : parseInt(zRaw, 10);
+    // z-index applies to positioned boxes and flex / grid items only; on any other
+    // stacking context (opacity, transform, …) it has no effect.
+    const isItem = isFlexGrid && (directChildren == null || directChildren.has(c));
+    const zApplies = positioned || isItem || paintAsZSorted?.has(c) === true;
+    const z = !zApplies || zRaw === "auto" || zRaw === "" || zRaw == null ? NaN : parseInt(zRaw, 10);
     // DM-939: per CSS 2.1 Appendix E step 6 a non-positioned element that
     // STILL establishes a stacking context (transform, opacity < 1,
     // filter, mix-blend-mode, mask, clip-path, isolation, will-change, …)
@@ -789,7 +793,7 @@ export function paintOrderBuckets(
       && establishesStackingContext(c, parentDisplay)
       && !isOverflowOnlySC(c);
     const treatAsZSorted = positioned
-      || (isFlexGrid && !isNaN(z))
+      || (isItem && !isNaN(z))
       || (paintAsZSorted?.has(c) === true)
       || isNonPosSc;
     if (!treatAsZSorted && flt !== "none") {
-- 
2.43.0


From e77a3e7719ea7217390d6a28de23a594a46a41d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:17 +0000
Subject: [PATCH 39/55] fix: hit testing clips to the region the renderer clips
 to

---
 src/render/paint-order.ts | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index c2bcace..dfac74a 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -63,8 +63,29 @@ interface HitEntry {
   clips: ClipRect[];
 }
 
-function rectOf(el: CapturedElement): ClipRect {
-  return { x: el.x, y: el.y, w: el.width, h: el.height };
+/** Reach of an axis that is not clipped. */
+const UNBOUNDED = 100000;
+
+/**
+ * The region `el` clips its overflow to, or null when it clips nothing: its padding
+ * box, unbounded on an axis left `visible`. Mirrors the renderer's overflow clip:
+ * paint containment clips both axes, and the body's overflow belongs to the viewport.
+ */
+function overflowClipRect(el: CapturedElement): ClipRect | null {
+  const { overflowX, overflowY, contain } = el.styles;
+  const contained = /\b(?:paint|strict|content)\b/i.test(contain ?? "");
+  if (el.tag === "body" || !(contained || overflowClips(el))) return null;
+  const px = (v: string | undefined): number => parseFloat(v ?? "0") || 0;
+  const left = px(el.styles.borderLeftWidth), top = px(el.styles.borderTopWidth);
+  const rect = {
+    x: el.x + left,
+    y: el.y + top,
+    w: Math.max(0, el.width - left - px(el.styles.borderRightWidth)),
+    h: Math.max(0, el.height - top - px(el.styles.borderBottomWidth)),
+  };
+  if (!contained && overflowX === "visible" && overflowY === "clip") return { ...rect, x: rect.x - UNBOUNDED, w: rect.w + 2 * UNBOUNDED };
+  if (!contained && overflowY === "visible" && overflowX === "clip") return { ...rect, y: rect.y - UNBOUNDED, h: rect.h + 2 * UNBOUNDED };
+  return rect;
 }
 
 /**
@@ -133,10 +154,11 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
     // A hoisted descendant keeps the clips of the overflow scrollers it was
     // hoisted past and is still clipped by.
     const escaped = clipForHoisted.get(el);
-    const clips = escaped != null ? [...parentClips, ...escaped.map(rectOf)] : parentClips;
+    const clips = escaped != null ? [...parentClips, ...escaped.map(overflowClipRect).filter((r) => r != null)] : parentClips;
     if (phase !== "inline") out.push({ el, clips });
     if (el.children.length === 0) return;
-    const childClips = overflowClips(el) ? [...clips, rectOf(el)] : clips;
+    const ownClip = overflowClipRect(el);
+    const childClips = ownClip != null ? [...clips, ownClip] : clips;
     const plan = planOf(el, displays.has(el) ? displays.get(el) : listDisplay);
     if (plan.flat3d != null) {
       if (phase !== "box") for (const c of plan.flat3d) visit(c, plan.display, childClips, "all");
-- 
2.43.0


From f70f4b7f38a47e1aad5225cff56ff83524a6d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:09 +0000
Subject: [PATCH 40/55] fix: layout containment and backdrop-filter establish
 stacking contexts

---
 src/render/stacking.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index 6715dee..abeb365 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -59,7 +59,7 @@ export function isFlexOrGridContainerDisplay(display: string | undefined | null)
  *   - `opacity` < 1
  *   - `transform` ≠ `none`
  *   - `perspective` ≠ `none`
- *   - `filter` ≠ `none`
+ *   - `filter` ≠ `none` / `backdrop-filter` ≠ `none`
  *   - `mix-blend-mode` ≠ `normal`
  *   - `mask-image` ≠ `none` / `clip-path` ≠ `none` (we already wrap these in
  *     a `<g mask=...>` / `<g clip-path=...>`, which isolates paint)
@@ -113,6 +113,7 @@ export function establishesStackingContext(el: CapturedElement, parentDisplay?:
   // serialized into a descendant's computed transform matrix.
   if (transformRelated && s.perspective != null && s.perspective !== "" && s.perspective !== "none") return true;
   if (s.filter != null && s.filter !== "" && s.filter !== "none") return true;
+  if (s.backdropFilter != null && s.backdropFilter !== "" && s.backdropFilter !== "none") return true;
   if (s.mixBlendMode != null && s.mixBlendMode !== "" && s.mixBlendMode !== "normal") return true;
   if (s.maskImage != null && s.maskImage !== "" && s.maskImage !== "none") return true;
   if (s.clipPath != null && s.clipPath !== "" && s.clipPath !== "none") return true;
@@ -140,9 +141,10 @@ export function establishesStackingContext(el: CapturedElement, parentDisplay?:
           && (transformRelated || !transformRelatedWillChangeProperties.has(lt))) return true;
     }
   }
-  // DM-498: `contain: paint | strict | content` creates an SC.
+  // DM-498: paint and layout containment create an SC (`strict` and `content`
+  // include both).
   if (s.contain != null && s.contain !== "" && s.contain !== "none") {
-    if (/\b(?:paint|strict|content)\b/i.test(s.contain)) return true;
+    if (/\b(?:paint|strict|content|layout)\b/i.test(s.contain)) return true;
   }
   // DM-498: `isolation: isolate` creates an SC.
   if (s.isolation === "isolate") return true;
@@ -556,12 +558,13 @@ export function isOverflowOnlySC(el: CapturedElement, parentDisplay?: string): b
   const op = parseFloat(s.opacity);
   if (Number.isFinite(op) && op < 1) return false;
   if (s.filter != null && s.filter !== "" && s.filter !== "none") return false;
+  if (s.backdropFilter != null && s.backdropFilter !== "" && s.backdropFilter !== "none") return false;
   if (s.mixBlendMode != null && s.mixBlendMode !== "" && s.mixBlendMode !== "normal") return false;
   if (s.maskImage != null && s.maskImage !== "" && s.maskImage !== "none") return false;
   if (s.clipPath != null && s.clipPath !== "" && s.clipPath !== "none") return false;
   if (s.isolation === "isolate") return false;
   if (s.contain != null && s.contain !== "" && s.contain !== "none") {
-    if (/\b(?:paint|strict|content)\b/i.test(s.contain)) return false;
+    if (/\b(?:paint|strict|content|layout)\b/i.test(s.contain)) return false;
   }
   if (s.willChange != null && s.willChange !== "" && s.willChange !== "auto") {
     const _scWcProps: ReadonlySet<string> = new Set([
@@ -615,6 +618,7 @@ export function isFixedContainingBlock(el: CapturedElement): boolean {
   if (transformRelated && s.perspective != null && s.perspective !== "" && s.perspective !== "none") return true;
   if (transformRelated && s.transformStyle === "preserve-3d") return true;
   if (s.filter != null && s.filter !== "" && s.filter !== "none") return true;
+  if (s.backdropFilter != null && s.backdropFilter !== "" && s.backdropFilter !== "none") return true;
   if (s.willChange != null && s.willChange !== "" && s.willChange !== "auto") {
     const tokens = s.willChange.split(/[\s,]+/);
     for (const t of tokens) {
-- 
2.43.0


From df7c3942b807d101812461d0c9735e128222aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:33 +0000
Subject: [PATCH 41/55] fix: a repeating animation runs on its own clock, so no
 scene-clock cull window applies to it

---
 src/tree-ops/swept-transform-bounds.ts | 18 ++++++++++++++++++
 src/tree-ops/viewbox-culling.ts        |  1 +
 2 files changed, 19 insertions(+)

diff --git a/src/tree-ops/swept-transform-bounds.ts b/src/tree-ops/swept-transform-bounds.ts
index 75e8d7c..9ed681d 100644
--- a/src/tree-ops/swept-transform-bounds.ts
+++ b/src/tree-ops/swept-transform-bounds.ts
@@ -34,6 +34,11 @@ export interface SweptAnimationContext {
   transformReferenceBox?: SweptBox;
   /** Exact frame origin when the tree walk has the global scene timeline. */
   frameStartPct?: number;
+  /**
+   * The repeat runs on its own document-time clock rather than restarting with
+   * the scene cycle these percentages describe (as the animator emits it).
+   */
+  repeatFreeRunning?: boolean;
 }
 
 export interface SweptBoxInterval {
@@ -66,6 +71,13 @@ interface TimingModel {
    * This loses correlation but contains every baked chord.
    */
   wholeActiveRange: boolean;
+  /**
+   * A repeating animation is emitted on its own document-time clock, not the
+   * scene's looping one: from the second scene cycle on (and after a finite
+   * repeat has finished) its phase at a given scene percentage is arbitrary.
+   * Its whole progress range therefore applies at every scene instant.
+   */
+  freeRunning: boolean;
 }
 
 interface AnimatedOperation {
@@ -382,6 +394,7 @@ function timingForTrack(
     alternate: repeating && ctx.anim.alternate === true,
     easing,
     wholeActiveRange: sampledFusion,
+    freeRunning: repeating && ctx.repeatFreeRunning === true,
   };
   return finite(result.startPct, result.durationPct) ? result : null;
 }
@@ -487,6 +500,7 @@ function timingIterationRange(timing: TimingModel): [number, number] | null {
 }
 
 function addTimingBoundaries(boundaries: Set<number>, timing: TimingModel): boolean {
+  if (timing.freeRunning) return true;
   if (!addBoundary(boundaries, timing.startPct)) return false;
   const range = timingIterationRange(timing);
   if (range == null) return false;
@@ -517,6 +531,10 @@ function progressRange(timing: TimingModel, startPct: number, endPct: number): [
   const activeEnd = timing.iterations === "infinite"
     ? Number.POSITIVE_INFINITY
     : timing.startPct + timing.durationPct * timing.iterations;
+  if (timing.freeRunning) {
+    const [lo, hi] = timing.easing.range(0, 1);
+    return [Math.min(0, lo), Math.max(1, hi)];
+  }
   if (midpoint < timing.startPct) return [0, 0];
   if (midpoint >= activeEnd) {
     const value = terminalProgress(timing);
diff --git a/src/tree-ops/viewbox-culling.ts b/src/tree-ops/viewbox-culling.ts
index c4da6f1..1a69ed8 100644
--- a/src/tree-ops/viewbox-culling.ts
+++ b/src/tree-ops/viewbox-culling.ts
@@ -208,6 +208,7 @@ export function cullElementsOutsideViewBox(
         animStartPct: (startMs / totalDurationMs) * 100,
         animEndPct: (endMs / totalDurationMs) * 100,
         frameStartPct: (frameStartMs / totalDurationMs) * 100,
+        repeatFreeRunning: true,
         anim: a,
       });
     }
-- 
2.43.0


From 287d59d963fc673856b006c7550aca3aa4efcc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:01 +0000
Subject: [PATCH 42/55] fix: a baked step track passes through its whole
 from-to range when culling is decided

---
 src/tree-ops/swept-transform-bounds.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tree-ops/swept-transform-bounds.ts b/src/tree-ops/swept-transform-bounds.ts
index 9ed681d..2a4739c 100644
--- a/src/tree-ops/swept-transform-bounds.ts
+++ b/src/tree-ops/swept-transform-bounds.ts
@@ -546,7 +546,12 @@ function progressRange(timing: TimingModel, startPct: number, endPct: number): [
   const hi = Math.max(0, Math.min(1, (endPct - iterationStart) / timing.durationPct));
   if (!finite(lo, hi)) return null;
   const reversed = timing.alternate && iteration % 2 === 1;
-  if (timing.wholeActiveRange) return timing.easing.range(0, 1);
+  if (timing.wholeActiveRange) {
+    // The baked chords join `from` to `to` whatever the easing: a step curve
+    // is baked linearly, so it also passes below its own first jump.
+    const [min, max] = timing.easing.range(0, 1);
+    return [Math.min(0, min), Math.max(1, max)];
+  }
   if (!reversed) return timing.easing.range(lo, hi);
   // Reversing the keyframe traversal evaluates the same timing curve with
   // reversed input: E(1-u). At u=0 this is the `to` value (progress 1), and
-- 
2.43.0


From 01be41b99af44f19d97ebfc433045cb6fde2840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 43/55] fix: a broken encoder pipe or an encoder that dies
 early rejects the export instead of ending the process, and a failed export
 ends the encoder

---
 src/cli/svg-to-video-core.ts | 84 +++++++++++++++++++++++-------------
 src/scrubber/server.ts       | 21 ++++-----
 2 files changed, 63 insertions(+), 42 deletions(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index df7a864..afa4135 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -18,7 +18,7 @@
  * `checkDiskSpace`) that are unit-tested without spawning Chromium/ffmpeg.
  */
 
-import { spawn, spawnSync } from "node:child_process";
+import { spawn, spawnSync, type ChildProcess, type StdioOptions } from "node:child_process";
 import { existsSync, mkdirSync, statfsSync, writeFileSync } from "node:fs";
 import path from "node:path";
 import { readFile } from "node:fs/promises";
@@ -592,6 +592,41 @@ export function htmlWrapper(svgMarkup: string, background: string, pauseAnimatio
   );
 }
 
+export interface FrameEncoder {
+  process: ChildProcess;
+  /** Hand one frame over; rejects when the pipe is gone. */
+  write(frame: Buffer): Promise<void>;
+  /** End the frame stream and wait for a clean exit. */
+  finish(): Promise<void>;
+  /** End a process that is still running (after a failure elsewhere). */
+  dispose(): void;
+}
+
+/**
+ * Start ffmpeg with the frame stream on its stdin. Its exit and a broken pipe
+ * can come at any moment, before anyone waits for them: both are observed here
+ * so that they reject `write` / `finish` instead of ending this process.
+ */
+export function startFrameEncoder(ffmpeg: string, args: string[], stdio: StdioOptions): FrameEncoder {
+  const ff = spawn(ffmpeg, args, { stdio });
+  const stdin = ff.stdin;
+  if (!stdin) throw new Error("ffmpeg stdin pipe unavailable");
+  const done = new Promise<void>((resolve, reject) => {
+    ff.on("error", reject);
+    ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}`))));
+  });
+  done.catch(() => { /* reported by finish() */ });
+  stdin.on("error", () => { /* reported by write() */ });
+  return {
+    process: ff,
+    write: (frame) => new Promise((resolve, reject) => {
+      stdin.write(frame, (err) => (err ? reject(err) : resolve()));
+    }),
+    finish: () => { stdin.end(); return done; },
+    dispose: () => { if (ff.exitCode == null && ff.signalCode == null) ff.kill(); },
+  };
+}
+
 /** End-to-end: load the SVG, step the animation, pipe frames to ffmpeg. */
 export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
   const { log } = opts;
@@ -773,36 +808,27 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
     });
 
     log(`ffmpeg ${ffArgs.join(" ")}`);
-    const ff = spawn(ffmpeg, ffArgs, { stdio: ["pipe", "inherit", opts.quiet ? "pipe" : "inherit"] });
-    const ffStdin = ff.stdin;
-    if (!ffStdin) throw new Error("ffmpeg stdin pipe unavailable");
-    const ffDone = new Promise<void>((resolve, reject) => {
-      ff.on("error", reject);
-      ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}`))));
-    });
-
-    const writeFrame = (buf: Buffer): Promise<void> =>
-      new Promise((resolve, reject) => {
-        ffStdin.write(buf, (err) => (err ? reject(err) : resolve()));
-      });
-
-    // frame 0 (already rendered)
-    if (framesDir) writeFileSync(path.join(framesDir, frameName(0)), firstFrame);
-    await writeFrame(firstFrame);
-
-    for (let i = 1; i < frameCount; i++) {
-      const t = frameSampleTimeMs(i, opts.fps);
-      await seekTo(page, t);
-      const buf = await screenshot(page, omitBackground);
-      if (framesDir) writeFileSync(path.join(framesDir, frameName(i)), buf);
-      await writeFrame(buf);
-      if (!opts.quiet && (i % opts.fps === 0 || i === frameCount - 1)) {
-        log(`  rendered ${i + 1}/${frameCount} frames`);
+    const encoder = startFrameEncoder(ffmpeg, ffArgs, ["pipe", "inherit", opts.quiet ? "pipe" : "inherit"]);
+    try {
+      // frame 0 (already rendered)
+      if (framesDir) writeFileSync(path.join(framesDir, frameName(0)), firstFrame);
+      await encoder.write(firstFrame);
+
+      for (let i = 1; i < frameCount; i++) {
+        const t = frameSampleTimeMs(i, opts.fps);
+        await seekTo(page, t);
+        const buf = await screenshot(page, omitBackground);
+        if (framesDir) writeFileSync(path.join(framesDir, frameName(i)), buf);
+        await encoder.write(buf);
+        if (!opts.quiet && (i % opts.fps === 0 || i === frameCount - 1)) {
+          log(`  rendered ${i + 1}/${frameCount} frames`);
+        }
       }
-    }
 
-    ffStdin.end();
-    await ffDone;
+      await encoder.finish();
+    } finally {
+      encoder.dispose();
+    }
     log(`wrote ${opts.output}`);
   } finally {
     await browser.close();
diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 2f0f0cb..2fb9e2a 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -21,13 +21,12 @@
 
 import type { IncomingMessage, ServerResponse } from "node:http";
 import { startLocalServer } from "../utils/local-server.js";
-import { spawn } from "node:child_process";
 import { mkdtempSync, readFileSync, rmSync, writeFileSync } from "node:fs";
 import { tmpdir } from "node:os";
 import { join } from "node:path";
 import { z } from "zod";
 import type { Browser, Page } from "@playwright/test";
-import { htmlWrapper, seekTo, screenshot, parseSvgIntrinsicSize, resolveDurationMs, findFfmpeg, resolveFormat, buildFfmpegArgs, fitContain, type AnimTiming } from "../cli/svg-to-video-core.js";
+import { htmlWrapper, seekTo, screenshot, parseSvgIntrinsicSize, resolveDurationMs, findFfmpeg, resolveFormat, buildFfmpegArgs, fitContain, startFrameEncoder, type AnimTiming, type FrameEncoder } from "../cli/svg-to-video-core.js";
 import { trimAnimatedSvg } from "./trim.js";
 import { clampCrop, cropSvgViewBox, type CropRect } from "./crop.js";
 import { SCRUBBER_CLIENT_JS } from "./client.bundle.generated.js";
@@ -151,27 +150,23 @@ async function renderRangeVideo(page: Page, svg: string, t0: number, t1: number,
   const dir = mkdtempSync(join(tmpdir(), "scrubber-mp4-"));
   const outPath = join(dir, "range.mp4");
   const args = buildFfmpegArgs({ fps: EXPORT_FPS, frameWidth: frameW, frameHeight: frameH, outWidth: frameW, outHeight: frameH, fmt, output: outPath, burnCaptions: false });
-  const ff = spawn(ffmpeg, args, { stdio: ["pipe", "ignore", "pipe"] });
+  let encoder: FrameEncoder | undefined;
   let ffErr = "";
-  ff.stderr?.on("data", (d: Buffer) => { ffErr += d.toString(); if (ffErr.length > 8192) ffErr = ffErr.slice(-8192); });
-  const ffDone = new Promise<void>((resolve, reject) => {
-    ff.on("error", reject);
-    ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}: ${ffErr.slice(-400)}`))));
-  });
-  const writeFrame = (buf: Buffer): Promise<void> =>
-    new Promise((res, rej) => ff.stdin!.write(buf, (err) => (err ? rej(err) : res())));
   try {
+    encoder = startFrameEncoder(ffmpeg, args, ["pipe", "ignore", "pipe"]);
+    encoder.process.stderr?.on("data", (d: Buffer) => { ffErr += d.toString(); if (ffErr.length > 8192) ffErr = ffErr.slice(-8192); });
     for (let i = 0; i < frameCount; i++) {
       await seekTo(page, t0 + (i * 1000) / EXPORT_FPS);
       const shot = clip != null
         ? await page.screenshot({ type: "png", scale: "device", clip })
         : await screenshot(page);
-      await writeFrame(shot);
+      await encoder.write(shot);
     }
-    ff.stdin!.end();
-    await ffDone;
+    try { await encoder.finish(); }
+    catch (err) { throw new Error(`${err instanceof Error ? err.message : String(err)}: ${ffErr.slice(-400)}`); }
     return readFileSync(outPath);
   } finally {
+    encoder?.dispose();
     rmSync(dir, { recursive: true, force: true });
   }
 }
-- 
2.43.0


From 47d1e545a6550ca181ca1598d0a923aadb2d0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:07 +0000
Subject: [PATCH 44/55] fix: the scrubber server reopens a page that failed to
 open and never leaves a browser behind

---
 src/scrubber/server.ts | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 2fb9e2a..7c2b2f3 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -339,13 +339,18 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
   const log = inputs.log ?? (() => {});
   let browser: Browser | null = null;
   let pagePromise: Promise<Page> | null = null;
+  let closed = false;
   // Serialize Chromium work — one reused page, one request at a time.
   let queue: Promise<unknown> = Promise.resolve();
 
   const getPage = async (): Promise<Page> => {
+    if (closed) throw new Error("the server is closed");
     if (browser == null) browser = await inputs.launchBrowser();
     if (pagePromise == null) {
-      pagePromise = browser.newContext({ deviceScaleFactor: 1 }).then((ctx) => ctx.newPage());
+      const opening = browser.newContext({ deviceScaleFactor: 1 }).then((ctx) => ctx.newPage());
+      pagePromise = opening;
+      // A page that could not be opened must not be handed to later requests.
+      opening.catch(() => { if (pagePromise === opening) pagePromise = null; });
     }
     return pagePromise;
   };
@@ -361,7 +366,13 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
       const msg = String(err instanceof Error ? err.message : err);
       if (/\b(closed|crashed|disconnected|Target (?:page|closed)|browser has been closed)\b/i.test(msg)) {
         pagePromise = null;
-        if (/browser/i.test(msg)) browser = null;
+        if (/browser/i.test(msg) && browser != null) {
+          // "Target page, context or browser has been closed" does not say
+          // which: a browser given up on must not be left running.
+          const abandoned = browser;
+          browser = null;
+          void abandoned.close().catch(() => {});
+        }
       }
     });
     return run;
@@ -502,7 +513,14 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
     port: local.port,
     close: async () => {
       await local.close();
-      if (browser != null) { await browser.close().catch(() => {}); browser = null; }
+      // Every client is gone; what is still queued belongs to aborted requests
+      // and must not bring up (or leave behind) a browser.
+      closed = true;
+      const current = browser;
+      if (current != null) await current.close().catch(() => {});
+      await queue;
+      if (browser != null && browser !== current) await browser.close().catch(() => {});
+      browser = null;
     },
   };
 }
-- 
2.43.0


From abdfff60629be419d3a18181db7ca1a9e09a65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:21 +0000
Subject: [PATCH 45/55] fix: tickets reported within one millisecond no longer
 overwrite each other

---
 src/scrubber/server.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 7c2b2f3..91e44e8 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -387,6 +387,7 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
   const shellHtml = SHELL(bootstrap);
   // DM-1445: review mode writes `.ticket` files here (the launch cwd).
   const ticketDir = inputs.ticketDir ?? process.cwd();
+  let lastStamp = 0;
 
   const handler = async (req: IncomingMessage, res: ServerResponse): Promise<void> => {
     const url = (req.url ?? "/").split("?")[0];
@@ -457,7 +458,8 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
         // launch cwd and return its absolute path (also logged).
         if (inputs.review !== true) throw new HttpError(404, "review mode is not enabled (run svg-scrubber --review)");
         const body = await parseBody(req, TICKET_BODY);
-        const stamp = Date.now();
+        // Two tickets of one millisecond are still two tickets.
+        const stamp = lastStamp = Math.max(Date.now(), lastStamp + 1);
         const slug = ticketSlug(body.svgName);
         // DM-1449: optionally render the current frame to a sibling PNG (the
         // whole frame at `frameTimeMs`, so it carries context for any number of
-- 
2.43.0


From f179f6ff9544808ecfcd890bd7b7f4b37e0cdcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:35 +0000
Subject: [PATCH 46/55] fix: an initial document or label containing </script>
 no longer breaks the preview shell

---
 src/review/server.ts   | 2 +-
 src/scrubber/server.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/review/server.ts b/src/review/server.ts
index ed5f2bf..a16c2c7 100644
--- a/src/review/server.ts
+++ b/src/review/server.ts
@@ -116,7 +116,7 @@ function renderShell(label: string): string {
   <textarea id="issue-text" readonly></textarea>
   <p class="hint">After clicking <em>File at github.com</em>, paste the text above into the issue body and attach <code>expected.png</code> and <code>actual.svg</code>.</p>
 </div>
-<script>window.__SVG_REVIEW__ = { label: ${JSON.stringify(label)} };</script>
+<script>window.__SVG_REVIEW__ = { label: ${JSON.stringify(label).replace(/</g, "\\u003c")} };</script>
 <script src="/client.js"></script>
 </body></html>`;
 }
diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 91e44e8..d7b7058 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -383,7 +383,7 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
     name: inputs.initialName ?? null,
     path: inputs.initialPath ?? null,
     review: inputs.review === true,
-  });
+  }).replace(/</g, "\\u003c"); // inert inside <script>, whatever the document contains
   const shellHtml = SHELL(bootstrap);
   // DM-1445: review mode writes `.ticket` files here (the launch cwd).
   const ticketDir = inputs.ticketDir ?? process.cwd();
-- 
2.43.0


From 4e94612826ce4f83aaf472c4d42068951c9a7f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:39 +0000
Subject: [PATCH 47/55] fix: a helper reaches the disk before its name does,
 under a temporary name of its own, and a failed install leaves nothing behind

---
 src/render/helper-acquire.ts     |  8 +++-----
 src/render/icu-helper-acquire.ts | 20 ++++++--------------
 src/render/install-file.ts       | 27 +++++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 19 deletions(-)
 create mode 100644 src/render/install-file.ts

diff --git a/src/render/helper-acquire.ts b/src/render/helper-acquire.ts
index 9097579..76add9b 100644
--- a/src/render/helper-acquire.ts
+++ b/src/render/helper-acquire.ts
@@ -25,8 +25,9 @@
 
 import { spawnSync } from "node:child_process";
 import { hostPlatform } from "./host-platform.js";
+import { installFile } from "./install-file.js";
 import { createHash } from "node:crypto";
-import { chmodSync, existsSync, mkdirSync, renameSync, writeFileSync } from "node:fs";
+import { existsSync, mkdirSync } from "node:fs";
 import { homedir } from "node:os";
 import path from "node:path";
 import { createRequire } from "node:module";
@@ -128,10 +129,7 @@ export async function downloadAndInstall(assetUrl: string, shaUrl: string, dest:
   const expected = parseSha256Sidecar(await shaRes.text());
   if (expected.length === 0 || sha256Hex(buf) !== expected) return false;
   mkdirSync(path.dirname(dest), { recursive: true });
-  const tmp = `${dest}.tmp-${process.pid}`;
-  writeFileSync(tmp, buf);
-  chmodSync(tmp, 0o755);
-  renameSync(tmp, dest); // atomic — avoids a torn binary if two processes race
+  installFile(dest, buf, 0o755); // atomic — avoids a torn binary if two processes race
   return true;
 }
 
diff --git a/src/render/icu-helper-acquire.ts b/src/render/icu-helper-acquire.ts
index 117b32f..d1159e2 100644
--- a/src/render/icu-helper-acquire.ts
+++ b/src/render/icu-helper-acquire.ts
@@ -1,11 +1,12 @@
 /** On-demand acquisition for the independently versioned ICU companion. */
 import { spawnSync } from "node:child_process";
 import { createHash } from "node:crypto";
-import { chmodSync, existsSync, mkdirSync, renameSync, writeFileSync } from "node:fs";
+import { existsSync, mkdirSync } from "node:fs";
 import { homedir } from "node:os";
 import path from "node:path";
 import { fileURLToPath } from "node:url";
 import { hostPlatform } from "./host-platform.js";
+import { installFile } from "./install-file.js";
 
 export const ICU_COMPANION_VERSION = "78.2-domotion.1";
 const RELEASE_BASE = `https://github.com/brianwestphal/domotion/releases/download/icu-v${ICU_COMPANION_VERSION}`;
@@ -92,22 +93,13 @@ export async function downloadIcuCompanion(target: IcuCompanionTarget): Promise<
   ]);
   if (executable == null || data == null || runtime.some(bytes => bytes == null)) return false;
   mkdirSync(target.directory, { recursive: true });
-  const nonce = `${process.pid}-${Date.now()}`;
-  const executableTmp = `${target.executablePath}.tmp-${nonce}`;
-  const dataTmp = `${target.dataPath}.tmp-${nonce}`;
-  writeFileSync(executableTmp, executable);
-  chmodSync(executableTmp, 0o755);
-  writeFileSync(dataTmp, data);
   // Install data first. A concurrent process can never observe a new helper
-  // without its matching data; rename is atomic within the cache directory.
-  renameSync(dataTmp, target.dataPath);
+  // without its matching data; each file appears atomically.
+  installFile(target.dataPath, data, 0o644);
   for (let i = 0; i < target.runtimeAssets.length; ++i) {
-    const item = target.runtimeAssets[i];
-    const tmp = `${item.path}.tmp-${nonce}`;
-    writeFileSync(tmp, runtime[i]!);
-    renameSync(tmp, item.path);
+    installFile(target.runtimeAssets[i].path, runtime[i]!, 0o644);
   }
-  renameSync(executableTmp, target.executablePath);
+  installFile(target.executablePath, executable, 0o755);
   return true;
 }
 
diff --git a/src/render/install-file.ts b/src/render/install-file.ts
new file mode 100644
index 0000000..79494b2
--- /dev/null
+++ b/src/render/install-file.ts
@@ -0,0 +1,27 @@
+import { randomUUID } from "node:crypto";
+import { chmodSync, closeSync, fsyncSync, openSync, renameSync, rmSync, writeFileSync } from "node:fs";
+
+/**
+ * Put already-verified bytes in place so that `dest` is only ever absent or
+ * whole. The temporary name is unique per call — a process id is shared by the
+ * worker threads of one process and by containers on one cache volume — the
+ * contents reach the disk before the name does, and a failed attempt takes its
+ * temporary file away again.
+ */
+export function installFile(dest: string, bytes: Buffer, mode: number): void {
+  const tmp = `${dest}.tmp-${process.pid}-${randomUUID()}`;
+  try {
+    const fd = openSync(tmp, "wx", mode);
+    try {
+      writeFileSync(fd, bytes);
+      fsyncSync(fd);
+    } finally {
+      closeSync(fd);
+    }
+    chmodSync(tmp, mode);
+    renameSync(tmp, dest);
+  } catch (err) {
+    try { rmSync(tmp, { force: true }); } catch { /* the first failure is the one to report */ }
+    throw err;
+  }
+}
-- 
2.43.0


From 95aca6d8aa3865d604bb5645123a504161db9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:51 +0000
Subject: [PATCH 48/55] fix: helper answers are decoded as one stream, an
 earlier helper's exit no longer disowns its successor, and a helper that
 cannot start is not fatal

---
 src/render/glyph-helper.ts | 48 ++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/render/glyph-helper.ts b/src/render/glyph-helper.ts
index 8749422..a315687 100644
--- a/src/render/glyph-helper.ts
+++ b/src/render/glyph-helper.ts
@@ -26,8 +26,9 @@
 
 import { spawn, spawnSync, type ChildProcess } from "node:child_process";
 import { hostPlatform } from "./host-platform.js";
-import { existsSync, openSync, readSync, writeSync } from "node:fs";
+import { closeSync, existsSync, openSync, readSync, writeSync } from "node:fs";
 import path from "node:path";
+import { StringDecoder } from "node:string_decoder";
 import { fileURLToPath } from "node:url";
 import { acquireGlyphHelperSync } from "./helper-acquire.js";
 import { profAccum, profNow, renderProfileEnabled } from "./render-profile.js";
@@ -403,7 +404,11 @@ interface HelperResponse {
 let serverProc: ChildProcess | null = null;
 let serverInFd: number | undefined;
 let serverOutFd: number | undefined;
-let serverLeftover = "";          // bytes read past one response (normally "")
+let serverPipeFd: number | undefined; // the named pipe WE opened (Windows), ours to close
+let serverLeftover = "";          // text read past one response (normally "")
+// A read may end anywhere, including inside a multi-byte character (a family
+// name, a path), so the bytes are decoded as a stream, not read by read.
+let serverDecoder = new StringDecoder("utf-8");
 let persistentDisabled = false;   // set once we know the binary can't serve
 let persistentEverWorked = false; // distinguishes "broken binary" from a transient crash
 
@@ -412,6 +417,20 @@ function fdOf(stream: unknown): number | undefined {
   return s?.fd ?? s?._handle?.fd;
 }
 
+/** Forget the channel to `proc`, unless another child has taken its place. */
+function dropPersistent(proc: ChildProcess | null): void {
+  if (proc !== serverProc) return;
+  if (serverPipeFd != null) {
+    try { closeSync(serverPipeFd); } catch { /* already gone */ }
+  }
+  serverProc = null;
+  serverInFd = undefined;
+  serverOutFd = undefined;
+  serverPipeFd = undefined;
+  serverLeftover = "";
+  serverDecoder = new StringDecoder("utf-8");
+}
+
 let _pipeSeq = 0;
 
 /**
@@ -464,6 +483,9 @@ function startPersistentViaPipe(bin: string): boolean {
     // stdin/stdout are unused on this path; stderr stays inherited so a helper
     // diagnostic still reaches the terminal.
     proc = spawn(bin, ["--serve-pipe", name], { stdio: ["ignore", "ignore", "inherit"] });
+    // From the start: a failed spawn is reported once the event loop turns, and
+    // an 'error' nobody listens to would end this process.
+    proc.on("error", () => { dropPersistent(proc); });
   } catch {
     persistentDisabled = true;
     return false;
@@ -500,9 +522,8 @@ function startPersistentViaPipe(bin: string): boolean {
   serverProc = proc;
   serverInFd = fd;
   serverOutFd = fd;
-  serverLeftover = "";
-  proc.on("error", () => { serverProc = null; });
-  proc.on("exit", () => { serverProc = null; });
+  serverPipeFd = fd;
+  proc.on("exit", () => { dropPersistent(proc); });
   if (!_persistentExitHookInstalled) {
     _persistentExitHookInstalled = true;
     process.once("exit", () => { try { serverProc?.kill(); } catch { /* ignore */ } });
@@ -549,6 +570,9 @@ function startPersistent(bin: string): boolean {
   if (hostPlatform() === "win32") return startPersistentViaPipe(bin);
   try {
     const proc = spawn(bin, ["--serve"], { stdio: ["pipe", "pipe", "inherit"] });
+    // From the start: a failed spawn is reported once the event loop turns, and
+    // an 'error' nobody listens to would end this process.
+    proc.on("error", () => { dropPersistent(proc); });
     const inFd = fdOf(proc.stdin);
     const outFd = fdOf(proc.stdout);
     // DM-1421: a Windows spawned pipe exposes fd `-1` (no real OS fd), so the
@@ -574,9 +598,7 @@ function startPersistent(bin: string): boolean {
     serverProc = proc;
     serverInFd = inFd;
     serverOutFd = outFd;
-    serverLeftover = "";
-    proc.on("error", () => { serverProc = null; });
-    proc.on("exit", () => { serverProc = null; });
+    proc.on("exit", () => { dropPersistent(proc); });
     if (!_persistentExitHookInstalled) {
       _persistentExitHookInstalled = true;
       process.once("exit", () => { try { serverProc?.kill(); } catch { /* ignore */ } });
@@ -637,7 +659,7 @@ function callHelperPersistent(request: HelperRequest, bin: string): HelperRespon
         }
         throw e;
       }
-      if (n > 0) { serverLeftover += tmp.toString("utf-8", 0, n); bytesIn += n; }
+      if (n > 0) { serverLeftover += serverDecoder.write(tmp.subarray(0, n)); bytesIn += n; }
       else if (n === 0) throw new Error("helper closed stdout"); // EOF
     }
     if (renderProfileEnabled) {
@@ -658,8 +680,7 @@ function callHelperPersistent(request: HelperRequest, bin: string): HelperRespon
     // session so we don't keep paying a failed spawn. If it had worked before,
     // this was a transient crash; leave it enabled so the next call respawns.
     try { serverProc?.kill(); } catch { /* ignore */ }
-    serverProc = null;
-    serverLeftover = "";
+    dropPersistent(serverProc);
     if (!persistentEverWorked) persistentDisabled = true;
     return null;
   }
@@ -2269,10 +2290,7 @@ export function clearGlyphHelperCache(): void {
   // process that had already opened a channel. That is exactly how the switch
   // looked like a no-op in its own test.
   try { serverProc?.kill(); } catch { /* already gone */ }
-  serverProc = null;
-  serverInFd = undefined;
-  serverOutFd = undefined;
-  serverLeftover = "";
+  dropPersistent(serverProc);
   persistentDisabled = false;
   clearGlyphHelperCodepointMemos();
   _installedFontCache.clear();
-- 
2.43.0


From eb2b8f6f63086b5bdf7c8e43663ddc7c9d15da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:54 +0000
Subject: [PATCH 49/55] fix: trimming keeps easings, step values, delays and
 inline declarations of the original, and leaves text alone

---
 src/scrubber/trim.ts | 334 +++++++++++++++++++++++++++----------------
 1 file changed, 209 insertions(+), 125 deletions(-)

diff --git a/src/scrubber/trim.ts b/src/scrubber/trim.ts
index 7918897..6926fc4 100644
--- a/src/scrubber/trim.ts
+++ b/src/scrubber/trim.ts
@@ -23,14 +23,17 @@
  * t0+k (the loop), across the window.
  *
  * Boundary interpolation handles the cart-htmx / `domotion animate` shapes:
- * opacity / transform / multi-component SMIL values (linear), and discrete
- * properties (`step-end` `visibility`, SMIL `calcMode="discrete"`) which SNAP to
- * the stop at-or-before the boundary. Documented edge cases that fall back to
- * pure re-basing (no slice): a CSS rule mixing period-spanning + scheduled
- * animations in one shorthand, SMIL `calcMode="paced"`/`"spline"`, and ranges
- * spanning multiple periods. Pure + DOM-free so it unit-tests without a browser.
+ * opacity / transform / multi-component SMIL values, along the easing in force
+ * there, and discrete properties (`step-end` `visibility`, SMIL
+ * `calcMode="discrete"`) which SNAP to the stop at-or-before the boundary.
+ * Documented edge cases that fall back to pure re-basing (no slice): keyframes
+ * shared with a scheduled animation or leaving a property out of some stops, SMIL
+ * `calcMode="paced"`/`"spline"`, and ranges spanning multiple periods. Pure +
+ * DOM-free so it unit-tests without a browser.
  */
 
+import { resolveEasing } from "../animation/easing.js";
+
 export interface TrimResult {
   svg: string;
   /** CSS animation rules / SMIL elements window-SLICED to the loop window. */
@@ -56,7 +59,7 @@ function secs(ms: number): string {
 
 /** Parse a SMIL/CSS clock-value ("1.85s", "500ms", "2") to ms, or null. */
 function parseClockMs(v: string): number | null {
-  const t = v.trim();
+  const t = v.trim().replace(/^\+/, "");
   let m = /^(-?\d*\.?\d+)ms$/.exec(t);
   if (m) return parseFloat(m[1]);
   m = /^(-?\d*\.?\d+)s$/.exec(t);
@@ -68,146 +71,213 @@ function parseClockMs(v: string): number | null {
 
 // ── value interpolation (shared by CSS decls + SMIL values) ─────────────────
 
-const NUM_RE = /-?\d*\.?\d+(?:[eE][+-]?\d+)?/g;
+const NUM_RE = /(-?\d*\.?\d+(?:[eE][+-]?\d+)?)(%|[a-zA-Z]+)?/g;
 
 /** Linear-interpolate two values that share an identical non-numeric skeleton
- *  (`translateX(10px)`↔`translateX(20px)`, `0`↔`1`, `0,0`↔`40,10`). Returns null
- *  when skeletons differ (discrete value like `visible`↔`hidden`) so the caller
- *  SNAPS. */
+ *  (`translateX(10px)`↔`translateX(20px)`, `0`↔`1`, `0,0`↔`40,10`); a zero needs no
+ *  unit, and a missing transform is the identity. Returns null when skeletons
+ *  differ (discrete value like `visible`↔`hidden`) so the caller SNAPS. */
 function lerpValue(a: string, b: string, t: number): string | null {
-  const an = a.match(NUM_RE);
-  const bn = b.match(NUM_RE);
-  if (a.replace(NUM_RE, "\0") !== b.replace(NUM_RE, "\0") || an == null || bn == null || an.length !== bn.length) return null;
-  const parts = a.replace(NUM_RE, "\0").split("\0");
-  let out = "";
-  for (let i = 0; i < parts.length; i++) {
-    out += parts[i];
-    if (i < an.length) out += num(parseFloat(an[i]) + (parseFloat(bn[i]) - parseFloat(an[i])) * t);
+  if (a === "none" && /^(translate|scale|rotate|skew)/.test(b)) a = identityOf(b);
+  else if (b === "none" && /^(translate|scale|rotate|skew)/.test(a)) b = identityOf(a);
+  const an = [...a.matchAll(NUM_RE)], bn = [...b.matchAll(NUM_RE)];
+  if (an.length === 0 || an.length !== bn.length || a.replace(NUM_RE, "\0") !== b.replace(NUM_RE, "\0")) return null;
+  let out = "", last = 0;
+  for (let i = 0; i < an.length; i++) {
+    const x = parseFloat(an[i][1]), y = parseFloat(bn[i][1]), ux = an[i][2] ?? "", uy = bn[i][2] ?? "";
+    if (ux !== uy && !(ux === "" && x === 0) && !(uy === "" && y === 0)) return null;
+    out += a.slice(last, an[i].index) + num(x + (y - x) * t) + (ux === "" ? uy : ux);
+    last = an[i].index + an[i][0].length;
   }
-  return out;
+  return out + a.slice(last);
 }
+const identityOf = (list: string): string => list.replace(/(\w+)\(([^)]*)\)/g, (_f, fn: string, args: string) => `${fn}(${args.replace(NUM_RE, fn.startsWith("scale") ? "1" : "0")})`);
 
 interface Stop { at: number; value: string }
 
-/** State of a single value channel at fraction `f`, given sorted stops. */
-function valueAt(stops: Stop[], f: number, discrete: boolean): string {
+/** State of a single value channel at fraction `f`, given sorted stops; where two
+ *  stops share an offset (a jump), the state before it if `before`, else after. */
+function valueAt(stops: Stop[], f: number, discrete: boolean, before: boolean): string {
   if (stops.length === 0) return "";
-  if (f <= stops[0].at) return stops[0].value;
-  if (f >= stops[stops.length - 1].at) return stops[stops.length - 1].value;
-  let lo = stops[0], hi = stops[stops.length - 1];
-  for (let i = 0; i < stops.length - 1; i++) {
-    if (stops[i].at <= f && f <= stops[i + 1].at) { lo = stops[i]; hi = stops[i + 1]; break; }
-  }
-  if (discrete) return lo.value; // hold the value of the stop at-or-before f
-  const span = hi.at - lo.at;
-  return span > 0 ? (lerpValue(lo.value, hi.value, (f - lo.at) / span) ?? lo.value) : lo.value;
+  let i = 0;
+  while (i + 1 < stops.length && (before && !discrete ? stops[i + 1].at < f : stops[i + 1].at <= f)) i++;
+  const lo = stops[i], hi = stops[i + 1];
+  if (discrete || hi == null || f <= lo.at) return lo.value; // hold the value of the stop at-or-before f
+  return f >= hi.at ? hi.value : lerpValue(lo.value, hi.value, (f - lo.at) / (hi.at - lo.at)) ?? lo.value;
 }
 
 /** Slice a sorted stop list to `[f0, f1]`, remapping to `[0, 1]`. */
 function windowStops(stops: Stop[], f0: number, f1: number, discrete: boolean): Stop[] {
   const span = f1 - f0;
   if (!(span > 0)) return stops;
-  const out: Stop[] = [{ at: 0, value: valueAt(stops, f0, discrete) }];
+  const out: Stop[] = [{ at: 0, value: valueAt(stops, f0, discrete, false) }];
   for (const s of stops) if (s.at > f0 && s.at < f1) out.push({ at: (s.at - f0) / span, value: s.value });
-  out.push({ at: 1, value: valueAt(stops, f1, discrete) });
-  // De-dup identical fractions (keep last).
-  const byAt = new Map<number, string>();
-  for (const s of out) byAt.set(Math.round(s.at * 1e6) / 1e6, s.value);
-  return [...byAt.entries()].sort((a, b) => a[0] - b[0]).map(([at, value]) => ({ at, value }));
+  out.push({ at: 1, value: valueAt(stops, f1, discrete, true) });
+  return out;
 }
 
 // ── CSS @keyframes parse / slice ────────────────────────────────────────────
 
-interface CssFrame { at: number; decls: Map<string, string> }
+const KEYFRAMES_RE = /@keyframes\s+([A-Za-z_][\w-]*)\s*\{((?:[^{}]|\{[^{}]*\})*)\}/g;
+
+interface CssFrame { at: number; decls: Map<string, string>; timing: string | null }
 
 function parseKeyframes(body: string): CssFrame[] {
-  const frames: CssFrame[] = [];
+  const byAt = new Map<number, CssFrame>();
   const re = /([^{}]+)\{([^{}]*)\}/g;
   let m: RegExpExecArray | null;
   while ((m = re.exec(body)) != null) {
-    const decls = new Map<string, string>();
-    for (const d of m[2].split(";")) {
-      const i = d.indexOf(":");
-      if (i < 0) continue;
-      const k = d.slice(0, i).trim();
-      if (k) decls.set(k, d.slice(i + 1).trim());
-    }
+    const decls = parseDecls(m[2]);
+    const timing = decls.get("animation-timing-function") ?? null;
+    decls.delete("animation-timing-function");
     for (const sel of m[1].split(",")) {
       const s = sel.trim();
       let at: number | null = null;
       if (s === "from") at = 0;
       else if (s === "to") at = 1;
       else if (s.endsWith("%")) { const v = parseFloat(s); if (Number.isFinite(v)) at = v / 100; }
-      if (at != null) frames.push({ at, decls: new Map(decls) });
+      if (at == null) continue;
+      // Stops at one offset cascade.
+      const prev = byAt.get(at);
+      byAt.set(at, { at, decls: new Map([...(prev?.decls ?? []), ...decls]), timing: timing ?? prev?.timing ?? null });
     }
   }
-  frames.sort((a, b) => a.at - b.at);
-  return frames;
+  return [...byAt.values()].sort((x, y) => x.at - y.at);
 }
 
-/** Decls are discrete (snap) when the property is non-interpolatable; we detect
- *  this lazily per-property in `cssStateAt` via the lerp-skeleton check. */
-function cssStateAt(frames: CssFrame[], f: number): Map<string, string> {
-  if (frames.length === 0) return new Map();
-  if (f <= frames[0].at) return new Map(frames[0].decls);
-  if (f >= frames[frames.length - 1].at) return new Map(frames[frames.length - 1].decls);
-  let lo = frames[0], hi = frames[frames.length - 1];
-  for (let i = 0; i < frames.length - 1; i++) {
-    if (frames[i].at <= f && f <= frames[i + 1].at) { lo = frames[i]; hi = frames[i + 1]; break; }
+function parseDecls(body: string): Map<string, string> {
+  const decls = new Map<string, string>();
+  for (const d of body.split(";")) {
+    const i = d.indexOf(":");
+    if (i < 0) continue;
+    const k = d.slice(0, i).trim();
+    if (k) decls.set(k, d.slice(i + 1).trim());
   }
-  const t = hi.at > lo.at ? (f - lo.at) / (hi.at - lo.at) : 0;
-  const out = new Map<string, string>();
-  for (const p of new Set([...lo.decls.keys(), ...hi.decls.keys()])) {
-    const a = lo.decls.get(p), b = hi.decls.get(p);
-    if (a != null && b != null) out.set(p, lerpValue(a, b, t) ?? a); // lerp, else snap to lo
-    else out.set(p, (a ?? b)!);
+  return decls;
+}
+
+/** The fractions of an eased segment at which its curve has to be known, and the
+ *  eased progress at each. `steps` curves jump there; all others run straight on
+ *  to the next. */
+function curveOf(timing: string): { jumps: boolean; points: number; ease: (p: number) => number } {
+  const t = timing.trim();
+  if (t === "linear") return { jumps: false, points: 1, ease: (p) => p };
+  if (t === "step-end") return { jumps: true, points: 1, ease: (p) => (p >= 1 ? 1 : 0) };
+  if (t === "step-start") return { jumps: true, points: 1, ease: () => 1 };
+  const steps = /^steps\(\s*(\d+)\s*(?:,\s*([\w-]+)\s*)?\)$/.exec(t);
+  if (steps != null) {
+    const n = Math.max(1, parseInt(steps[1], 10)), pos = steps[2] ?? "end";
+    const first = pos === "start" || pos === "jump-start" || pos === "jump-both" ? 1 : 0;
+    const last = pos === "jump-both" ? n + 1 : pos === "jump-none" ? Math.max(1, n - 1) : n;
+    return { jumps: true, points: n, ease: (p) => Math.min(1, (Math.floor(p * n + 1e-9) + first) / last) };
   }
-  return out;
+  const list = /^linear\(([\d\s.,%e+-]+)\)$/.exec(t);
+  if (list != null && !list[1].includes("%")) {
+    const v = list[1].split(",").map((x) => parseFloat(x)), n = v.length - 1;
+    if (n > 0) return { jumps: false, points: n, ease: (p) => { const i = Math.min(n - 1, Math.floor(p * n)); return v[i] + (v[i + 1] - v[i]) * (p * n - i); } };
+  }
+  return { jumps: false, points: EASED_POINTS, ease: resolveEasing(t) };
+}
+const EASED_POINTS = 48;
+
+/** One declaration part-way (eased progress `p`) between two stops. */
+function mixDecl(prop: string, a: string, b: string, p: number): string {
+  if (a === b) return a;
+  if (prop === "visibility") return p <= 0 ? a : p >= 1 ? b : "visible";
+  const ca = hexToRgb(a), cb = hexToRgb(b);
+  const mixed = a.includes("url(") ? null : lerpValue(ca ?? a, cb ?? b, p);
+  return p === 0 ? a : p === 1 ? b : mixed ?? (p < 0.5 ? a : b);
+}
+function hexToRgb(v: string): string | null {
+  const m = /^#([0-9a-f]{3}|[0-9a-f]{6})$/i.exec(v);
+  if (m == null) return null;
+  const h = m[1].length === 3 ? m[1].replace(/./g, "$&$&") : m[1];
+  return `rgb(${[0, 2, 4].map((i) => parseInt(h.slice(i, i + 2), 16)).join(",")})`;
 }
 
-function sliceKeyframesBody(body: string, f0: number, f1: number): string {
+/** The keyframes of `body` over `[f0, f1]`, as keyframes of their own. A segment
+ *  the window cuts through keeps its shape: it is re-emitted as the points of its
+ *  easing curve that fall inside. `timing` is the animation's own easing. */
+function sliceKeyframesBody(body: string, f0: number, f1: number, timing: string): string {
   const frames = parseKeyframes(body);
   if (frames.length === 0) return body;
   const span = f1 - f0;
   if (!(span > 0)) return body;
-  const stops: { at: number; decls: Map<string, string> }[] = [{ at: 0, decls: cssStateAt(frames, f0) }];
-  for (const fr of frames) if (fr.at > f0 && fr.at < f1) stops.push({ at: (fr.at - f0) / span, decls: fr.decls });
-  stops.push({ at: 1, decls: cssStateAt(frames, f1) });
-  const byPct = new Map<number, Map<string, string>>();
-  for (const s of stops) byPct.set(Math.round(s.at * 1e5) / 1e3, s.decls);
+  const stops: CssFrame[] = [];
+  const mixAll = (lo: CssFrame, hi: CssFrame, p: number): Map<string, string> => {
+    const out = new Map<string, string>();
+    for (const k of new Set([...lo.decls.keys(), ...hi.decls.keys()])) {
+      const a = lo.decls.get(k), b = hi.decls.get(k);
+      out.set(k, a != null && b != null ? mixDecl(k, a, b, p) : (a ?? b)!);
+    }
+    return out;
+  };
+  let end: Map<string, string> | null = null;
+  for (let i = 0; i + 1 < frames.length; i++) {
+    const lo = frames[i], hi = frames[i + 1];
+    const a = Math.max(f0, lo.at), b = Math.min(f1, hi.at);
+    if (b <= a) continue;
+    end = hi.decls;
+    if (a === lo.at && b === hi.at) { stops.push(lo); continue; }
+    const { jumps, points, ease } = curveOf(lo.timing ?? timing);
+    const seg = hi.at - lo.at;
+    const pts = [a];
+    for (let k = 1; k < points; k++) { const at = lo.at + (seg * k) / points; if (at > a && at < b) pts.push(at); }
+    // A curve that jumps at once leaves its first stop as the target of what came before.
+    if (a === lo.at && i > 0 && stops.length > 0 && ease(0) !== 0 && (frames[i - 1].timing ?? timing) !== "step-end") stops.push({ at: a - span * 1e-6, decls: lo.decls, timing: "step-end" });
+    for (const at of pts) stops.push({ at, decls: mixAll(lo, hi, ease((at - lo.at) / seg)), timing: jumps ? "step-end" : "linear" });
+    end = b === hi.at ? hi.decls : mixAll(lo, hi, ease((b - lo.at) / seg));
+  }
+  if (end != null) stops.push({ at: f1, decls: end, timing: null });
+  const byPct = new Map<number, CssFrame>();
+  for (const s of stops) byPct.set(Math.round(((s.at - f0) / span) * 1e6) / 1e4, s);
   return [...byPct.entries()].sort((a, b) => a[0] - b[0])
-    .map(([pct, decls]) => `${pct}% { ${[...decls.entries()].map(([k, v]) => `${k}: ${v}`).join("; ")} }`)
+    .map(([pct, s]) => `${pct}% { ${[...s.decls.entries()].map(([k, v]) => `${k}: ${v}`).concat(s.timing != null && pct < 100 ? [`animation-timing-function: ${s.timing}`] : []).join("; ")} }`)
     .join(" ");
 }
 
 // ── CSS animation shorthand parsing ─────────────────────────────────────────
 
-/** Split a comma list ignoring commas inside parens (cubic-bezier(...)). */
-function splitTopLevel(s: string): string[] {
+/** Split on `sep`, ignoring it inside parens (cubic-bezier(...)). */
+function splitTopLevel(s: string, sep = ","): string[] {
   const out: string[] = [];
   let depth = 0, cur = "";
   for (const ch of s) {
     if (ch === "(") depth++;
     else if (ch === ")") depth = Math.max(0, depth - 1);
-    if (ch === "," && depth === 0) { out.push(cur); cur = ""; } else cur += ch;
+    if (ch === sep && depth === 0) { out.push(cur); cur = ""; } else cur += ch;
   }
   if (cur.trim() !== "" || out.length > 0) out.push(cur);
   return out;
 }
 
-const TIME_RE = /(-?\d*\.?\d+)(ms|s)\b/;
-
-interface CssAnim { seg: string; name: string | null; durMs: number | null; infinite: boolean }
-
-function parseCssAnims(value: string, keyframeNames: Set<string>): CssAnim[] {
-  return splitTopLevel(value).map((seg) => {
-    const name = [...keyframeNames].find((n) => new RegExp(`(^|\\s)${n}(\\s|$)`).test(seg.trim())) ?? null;
-    const tm = TIME_RE.exec(seg);
-    const durMs = tm ? (tm[2] === "ms" ? parseFloat(tm[1]) : parseFloat(tm[1]) * 1000) : null;
-    return { seg, name, durMs, infinite: /\binfinite\b/.test(seg) };
+const TIME_RE = /(?<![\w.-])([-+]?\d*\.?\d+)(ms|s)\b/;
+const TIMING_RE = /^(linear|ease|ease-in|ease-out|ease-in-out|step-start|step-end|cubic-bezier\(.*|steps\(.*|linear\(.*)$/;
+
+interface CssAnim { seg: string; name: string | null; durMs: number | null; delayMs: number; infinite: boolean; plain: boolean; fill: string | null; timing: string }
+
+function parseCssAnims(value: string, keyframeNames: Set<string>, delays: string[] | null): CssAnim[] {
+  return splitTopLevel(value).map((seg, i) => {
+    const tokens = splitTopLevel(seg.trim().replace(/\s+/g, " "), " ");
+    const times = tokens.filter((t) => /^[-+]?\d*\.?\d+m?s$/.test(t)).map((t) => parseClockMs(t) ?? 0);
+    const longhand = delays == null ? null : parseClockMs(delays[i % delays.length]);
+    return {
+      seg, name: tokens.find((t) => keyframeNames.has(t)) ?? null, durMs: times[0] ?? null, delayMs: longhand ?? times[1] ?? 0,
+      infinite: tokens.includes("infinite"), plain: !tokens.some((t) => t === "reverse" || t.startsWith("alternate")),
+      fill: tokens.find((t) => t === "both" || t === "forwards" || t === "backwards") ?? null, timing: tokens.find((t) => TIMING_RE.test(t)) ?? "ease",
+    };
   });
 }
 
+/** The document with every CSS declaration block (`<style>` rules and `style`
+ *  attributes, never text) passed through `block`. */
+function mapCss(svg: string, style: (css: string) => string, block: (body: string) => string): string {
+  return svg.replace(/(<style\b[^>]*>)([\s\S]*?)(<\/style>)|<!--[\s\S]*?-->|<[A-Za-z](?:[^<>"']|"[^"]*"|'[^']*')*>/g, (full: string, open?: string, css?: string, close?: string) =>
+    open != null ? open + style(css!).replace(/\{([^{}]*)\}/g, (_b, body: string) => `{${block(body)}}`) + close!
+      : full.startsWith("<!--") ? full : full.replace(/(\sstyle=")([^"]*)(")/, (_a, pre: string, body: string, post: string) => pre + block(body) + post));
+}
+const ANIMATION_RE = /(^|[;\s])animation\s*:\s*([^;]*)/;
+
 // ── main ────────────────────────────────────────────────────────────────────
 
 export function trimAnimatedSvg(svgMarkup: string, startMs: number, endMs: number, periodMs?: number): TrimResult {
@@ -220,8 +290,10 @@ export function trimAnimatedSvg(svgMarkup: string, startMs: number, endMs: numbe
   const period = periodMs && periodMs > 0 ? periodMs : t1; // fall back: treat the window's end as the period
   const f0 = t0 / period;
   const f1 = Math.min(1, t1 / period);
-  const isPeriod = (durMs: number | null): boolean => durMs != null && Math.abs(durMs - period) <= Math.max(4, period * 0.02);
-  const negT0 = secs(-t0);
+  const slack = Math.max(4, period * 0.02);
+  // A window that reaches past the period (beyond rounding) cannot be sliced out of it.
+  const sliceable = t1 <= period + slack;
+  const isPeriod = (durMs: number | null): boolean => sliceable && durMs != null && Math.abs(durMs - period) <= slack;
   const winSec = secs(win);
 
   // Collect @keyframes names.
@@ -229,43 +301,55 @@ export function trimAnimatedSvg(svgMarkup: string, startMs: number, endMs: numbe
   for (const m of svgMarkup.matchAll(/@keyframes\s+([A-Za-z_][\w-]*)/g)) keyframeNames.add(m[1]);
 
   // Decide, per @keyframes name, whether it should be sliced — true only when
-  // EVERY CSS animation referencing it is period-spanning (so the rule is a
-  // clean all-period-spanning rule). Mixed rules fall back to re-basing.
-  const sliceNames = new Set<string>();
-  const rebaseRuleNames = new Set<string>(); // names whose rule is re-based (don't slice)
-  for (const m of svgMarkup.matchAll(/animation\s*:\s*([^;}]+)/g)) {
-    const anims = parseCssAnims(m[1], keyframeNames);
-    const allPeriod = anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite);
-    for (const a of anims) {
+  // EVERY CSS animation referencing it is period-spanning with one easing.
+  // Anything else falls back to re-basing.
+  const animsOf = (body: string): CssAnim[] => {
+    const value = ANIMATION_RE.exec(body)?.[2];
+    const delay = /(?:^|[;\s])animation-delay\s*:\s*([^;]*)/.exec(body)?.[1];
+    return value == null ? [] : parseCssAnims(value.replace(/!important/i, ""), keyframeNames, delay == null ? null : splitTopLevel(delay));
+  };
+  const sliceTiming = new Map<string, string>();
+  const rebased = new Set<string>();
+  mapCss(svgMarkup, (css) => css, (body) => {
+    for (const a of animsOf(body)) {
       if (a.name == null) continue;
-      if (allPeriod) sliceNames.add(a.name); else rebaseRuleNames.add(a.name);
+      const known = sliceTiming.get(a.name);
+      if (isPeriod(a.durMs) && a.infinite && a.plain && a.delayMs === 0 && (known == null || known === a.timing)) sliceTiming.set(a.name, a.timing);
+      else rebased.add(a.name);
     }
-  }
-  for (const n of rebaseRuleNames) sliceNames.delete(n); // a name used by any re-based rule is never sliced
-
-  let out = svgMarkup;
-
-  // 1. Slice the @keyframes bodies that belong to period-spanning rules.
-  out = out.replace(/@keyframes\s+([A-Za-z_][\w-]*)\s*\{((?:[^{}]|\{[^{}]*\})*)\}/g, (full, name: string, body: string) => {
-    if (!sliceNames.has(name)) return full;
-    return `@keyframes ${name} {${sliceKeyframesBody(body, f0, f1)}}`;
+    return body;
   });
+  for (const n of rebased) sliceTiming.delete(n); // a name used by any re-based animation is never sliced
+  // Slicing needs to know every property at every stop; keyframes that leave some
+  // to the element's own style are re-based.
+  for (const m of svgMarkup.matchAll(KEYFRAMES_RE)) {
+    const frames = parseKeyframes(m[2]);
+    const props = new Set(frames.flatMap((f) => [...f.decls.keys()]));
+    if (frames[0]?.at !== 0 || frames[frames.length - 1].at !== 1 || frames.some((f) => f.decls.size !== props.size)) sliceTiming.delete(m[1]);
+  }
 
-  // 2. Rewrite each `animation` shorthand.
-  out = out.replace(/animation\s*:\s*([^;}]+)/g, (full, value: string) => {
-    const anims = parseCssAnims(value, keyframeNames);
-    const allPeriod = anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite);
-    if (allPeriod) {
-      // Sliced: set each segment's duration to the window length; no delay.
-      result.slicedCss++;
-      const newVal = splitTopLevel(value).map((seg) => seg.replace(TIME_RE, winSec)).join(",");
-      return `animation:${newVal}`;
-    }
-    // Re-based: shift the whole rule back by t0 (single delay applies to all
-    // animations in the list) and hold pre/post states.
-    result.shiftedCss++;
-    return `${full};animation-delay:${negT0};animation-fill-mode:both`;
-  });
+  let out = mapCss(svgMarkup,
+    // 1. Slice the @keyframes bodies that belong to period-spanning animations.
+    (css) => css.replace(KEYFRAMES_RE, (full, name: string, body: string) => {
+      const timing = sliceTiming.get(name);
+      return timing == null ? full : `@keyframes ${name} {${sliceKeyframesBody(body, f0, f1, timing)}}`;
+    }),
+    // 2. Rewrite each `animation` shorthand.
+    (body) => {
+      const anims = animsOf(body);
+      if (!anims.some((a) => a.name != null)) return body;
+      const important = /!important/i.test(ANIMATION_RE.exec(body)![2]) ? "!important" : "";
+      const sliced = anims.map((a) => a.name != null && sliceTiming.has(a.name));
+      // Sliced: the duration is the window length; no delay. Re-based: shifted
+      // back by t0 from where it began.
+      const value = anims.map((a, i) => (sliced[i] ? a.seg.replace(TIME_RE, winSec) : a.seg)).join(",") + important;
+      if (sliced.every(Boolean)) result.slicedCss++;
+      else result.shiftedCss++;
+      const later = sliced.every(Boolean) ? "" : `;animation-delay:${anims.map((a, i) => secs(sliced[i] ? 0 : a.delayMs - t0)).join(",")}${important}`
+        + `;animation-fill-mode:${anims.map((a) => a.fill ?? (a.infinite && a.delayMs <= t0 ? "both" : "none")).join(",")}${important}`;
+      return body.replace(/(^|[;\s])animation-delay\s*:\s*[^;]*/g, "$1").replace(/(^|[;\s])animation-fill-mode\s*:\s*([^;]*)/g, "$1")
+        .replace(ANIMATION_RE, (_full, pre: string) => `${pre}animation:${value}${later}`);
+    });
 
   // 3. SMIL: slice period-spanning elements; window-loop / drop the rest.
   const idCounter = { n: 0 };
@@ -300,15 +384,16 @@ function rewriteSmil(
   // PERIOD-SPANNING (looping, dur ≈ period): window-slice the values/keyTimes so
   // it loops EXACTLY the window. (paced/spline carry extra timing data we don't
   // slice — they fall through to the scheduled path.)
-  if (isPeriod(durMs) && looping && values != null && calcMode !== "paced" && calcMode !== "spline") {
+  const begin = attr(tag, "begin");
+  if (isPeriod(durMs) && looping && values != null && (begin == null || parseClockMs(begin) === 0) && calcMode !== "paced" && calcMode !== "spline") {
     const vals = values.split(";").map((s) => s.trim());
     const ktAttr = attr(tag, "keyTimes");
     const kt = ktAttr != null
       ? ktAttr.split(";").map((s) => parseFloat(s))
-      : vals.map((_, i) => (vals.length === 1 ? 0 : i / (vals.length - 1)));
+      : vals.map((_, i) => (vals.length === 1 ? 0 : i / (calcMode === "discrete" ? vals.length : vals.length - 1)));
     const sliced = windowStops(vals.map((value, i) => ({ at: kt[i] ?? 0, value })), f0, f1, calcMode === "discrete");
     let t = setAttr(tag, "values", sliced.map((s) => s.value).join(";"));
-    t = setAttr(t, "keyTimes", sliced.map((s) => num(s.at)).join(";"));
+    t = setAttr(t, "keyTimes", sliced.map((s) => s.at.toFixed(6).replace(/\.?0+$/, "")).join(";"));
     t = setAttr(t, "dur", winSec);
     t = setAttr(t, "begin", "0s");
     result.slicedSmil++;
@@ -317,8 +402,7 @@ function rewriteSmil(
 
   // SCHEDULED (e.g. a `begin="1.85s" dur="0.5s"` ripple). Re-time it relative to
   // the window and make it RE-FIRE every loop so the windowed export loops.
-  const beginAttr = attr(tag, "begin");
-  const beginMs = beginAttr == null ? 0 : parseClockMs(beginAttr);
+  const beginMs = begin == null ? 0 : parseClockMs(begin);
   if (beginMs == null) return tag; // event/syncbase begin — leave alone
   const delta = beginMs - t0; // begin time relative to the window start
   const dur = durMs ?? 0;
-- 
2.43.0


From 39dab7c93b81afb9d4786cebe922dc752817c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:01 +0000
Subject: [PATCH 50/55] fix: embedded animations keep their names apart and
 their own clock

Names are rewritten only where something is named (not in text, functions or
other quotings' blind spots), a layer's own names never clash with its
content's, and re-anchoring covers windows that end after the master loop,
content that is stretched over it, and animation lists where only some entries
run on the content's period.
---
 src/animation/animator.ts        |  26 +++---
 src/animation/composite.ts       |  31 ++++---
 src/animation/embed-namespace.ts | 100 ++++++++++----------
 src/animation/embed-timeline.ts  | 122 +++++++++++++++---------
 src/animation/keyframe-slice.ts  | 154 +++++++++++++++++++++++++++++++
 src/animation/svg-markup.ts      |  92 ++++++++++++++++++
 src/scrubber/trim.ts             | 146 +----------------------------
 7 files changed, 405 insertions(+), 266 deletions(-)
 create mode 100644 src/animation/keyframe-slice.ts
 create mode 100644 src/animation/svg-markup.ts

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index c767c01..867970a 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -18,6 +18,7 @@ import { rootSvgA11y } from "../render/format.js";
 import { getFontInstance, resolveFontKey, withRenderTextMode, glyphDefCount, getGlyphDefsSince, truncateGlyphDefs, beginCharacterFallbackDocument, endCharacterFallbackDocument } from "../render/font-resolution.js";
 import { renderTextAsPath } from "../render/text-to-path.js";
 import { DEFAULT_TRANSITION_MS, frameAdvanceMs, transitionDurationMs } from "./frame-timeline.js";
+import { collectIds, renameIds } from "./svg-markup.js";
 import { offsetEmbeddedAnimatedSvgTimeline } from "./embed-timeline.js";
 import { KEYFRAME_EPSILON, cullOverlapPct, padAfter, padBefore } from "../utils/keyframe-pad.js";
 import { interpolateCssValue, resolveEasing } from "./easing.js";
@@ -393,26 +394,21 @@ function emitCrossfadeOrCutFrame(
  */
 export function dedupeFrameIds(frames: AnimationFrame[]): AnimationFrame[] {
   const seen = new Set<string>();
-  const esc = (s: string) => s.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");
   return frames.map((frame, i) => {
     const svg = frame.svgContent;
     if (svg == null || svg === "") return frame;
-    const defined = new Set<string>();
-    for (const m of svg.matchAll(/\sid="([^"]+)"/g)) defined.add(m[1]);
-    const colliding = [...defined].filter((id) => seen.has(id));
-    for (const id of defined) seen.add(id);
-    if (colliding.length === 0) return frame;
-    let out = svg;
-    for (const id of colliding) {
-      const nid = `d${i}-${id}`;
-      const e = esc(id);
-      out = out
-        .replace(new RegExp(`(\\sid=")${e}(")`, "g"), `$1${nid}$2`)
-        .replace(new RegExp(`url\\(#${e}\\)`, "g"), `url(#${nid})`)
-        .replace(new RegExp(`((?:xlink:)?href=")#${e}(")`, "g"), `$1#${nid}$2`);
+    const defined = collectIds(svg);
+    const renames = new Map<string, string>();
+    for (const id of defined) {
+      if (!seen.has(id)) continue;
+      let nid = `d${i}-${id}`;
+      while (seen.has(nid) || defined.has(nid)) nid = `d${i}-${nid}`;
+      renames.set(id, nid);
       seen.add(nid);
     }
-    return { ...frame, svgContent: out };
+    for (const id of defined) seen.add(id);
+    if (renames.size === 0) return frame;
+    return { ...frame, svgContent: renameIds(svg, (id) => renames.get(id) ?? id) };
   });
 }
 
diff --git a/src/animation/composite.ts b/src/animation/composite.ts
index 538abf4..5576d8e 100644
--- a/src/animation/composite.ts
+++ b/src/animation/composite.ts
@@ -34,6 +34,7 @@ import { isTransparentBackground } from "../utils/transparent-background.js";
 import { findFillBoxInClipOrMask } from "../post-processing/clip-transform-safety.js";
 import { namespaceEmbeddedAnimatedSvg } from "./embed-namespace.js";
 import { offsetEmbeddedAnimatedSvgTimeline, type EmbeddedTimelineMode } from "./embed-timeline.js";
+import { sliceKeyframesBody } from "./keyframe-slice.js";
 import { parseSvgIntrinsicSize, fmt, clampPct } from "./svg-meta.js";
 
 /** A layer-level animation: move / scale / fade / transform / resize-clip the whole layer. */
@@ -181,6 +182,14 @@ function renderAnimValue(property: "scale" | "translateX" | "translateY" | "opac
   }
 }
 
+/** The keyframes of a layer animation over the master loop: held before its start
+ *  and after its end, and cut where the master loop ends first. */
+function layerKeyframes(a: CompositeLayerAnimation, master: number, prop: string, from: string, to: string): string {
+  const start = a.start ?? 0, end = a.duration != null ? start + a.duration : Math.max(master, start), whole = Math.max(master, end);
+  const body = `0%,${fmt(clampPct((start / whole) * 100))}%{${prop}:${from}}${fmt(clampPct((end / whole) * 100))}%,100%{${prop}:${to}}`;
+  return whole > master ? sliceKeyframesBody(body, 0, master / whole, a.easing ?? "ease") : body;
+}
+
 /**
  * Stack `layers` (z-ordered, first = bottom) into one self-contained animated SVG.
  */
@@ -254,6 +263,8 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
         mode: r.mode, windowMs: r.windowMs,
       });
     }
+    // The layer's own names must not be ones its content already has.
+    const own = (name: string): string => (content.includes(token + name) ? own(`${name}-`) : token + name);
     // 3. Strip the outer wrapper and re-nest at the layer's box (a nested <svg>
     //    with a viewBox scales the content to width×height and positions it).
     const inner = innerOf(content);
@@ -261,7 +272,7 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
     let nested = `<svg x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}" viewBox="${vb}" preserveAspectRatio="none" overflow="visible">${inner}</svg>`;
 
     if (r.layer.clip === true) {
-      const clipId = `${token}clip`;
+      const clipId = own("clip");
       const rad = r.layer.clipRadius ?? 0;
       defsParts.push(`<clipPath id="${clipId}"><rect x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}"${rad ? ` rx="${fmt(rad)}"` : ""}/></clipPath>`);
       nested = `<g clip-path="url(#${clipId})">${nested}</g>`;
@@ -276,13 +287,11 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
     const clipScales: CompositeLayerAnimation[] = [];
     (r.layer.animations ?? []).forEach((a, ai) => {
       if (a.property === "clipScaleX" || a.property === "clipScaleY") { clipScales.push(a); return; }
-      const name = `${token}a${ai}`;
-      const sPct = clampPct(((a.start ?? 0) / master) * 100);
-      const ePct = clampPct((((a.start ?? 0) + (a.duration ?? master)) / master) * 100);
+      const name = own(`a${ai}`);
       const prop = a.property === "opacity" ? "opacity" : "transform";
       const from = renderAnimValue(a.property, a.from);
       const to = renderAnimValue(a.property, a.to);
-      styleParts.push(`@keyframes ${name}{0%,${fmt(sPct)}%{${prop}:${from}}${fmt(ePct)}%,100%{${prop}:${to}}}`);
+      styleParts.push(`@keyframes ${name}{${layerKeyframes(a, master, prop, from, to)}}`);
       groupDecls.push(`${name} ${fmt(masterSec)}s ${a.easing ?? "ease"} infinite`);
       if (a.property !== "opacity" && transformOrigin == null) transformOrigin = a.transformOrigin ?? "0 0";
     });
@@ -299,10 +308,8 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
       const sx = clipScales.find((a) => a.property === "clipScaleX");
       const sy = clipScales.find((a) => a.property === "clipScaleY");
       const anchor = clipScales[0];
-      const name = `${token}clipa`;
-      const clipId = `${token}rclip`;
-      const sPct = clampPct(((anchor.start ?? 0) / master) * 100);
-      const ePct = clampPct((((anchor.start ?? 0) + (anchor.duration ?? master)) / master) * 100);
+      const name = own("clipa");
+      const clipId = own("rclip"), clipper = own("clipper");
       const fromT = `scale(${Number(sx?.from ?? 1)},${Number(sy?.from ?? 1)})`;
       const toT = `scale(${Number(sx?.to ?? 1)},${Number(sy?.to ?? 1)})`;
       // Origin: shrink from the left/top edge by default (a window's fixed corner).
@@ -318,12 +325,12 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
       const ox = resolveClipOriginPx(sx?.transformOrigin ?? "left", r.x, r.w);
       const oy = resolveClipOriginPx(sy?.transformOrigin ?? "top", r.y, r.h);
       const rad = r.layer.clipRadius != null ? ` rx="${fmt(r.layer.clipRadius)}"` : "";
-      defsParts.push(`<clipPath id="${clipId}" clipPathUnits="userSpaceOnUse"><rect class="${token}clipper" x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}"${rad}/></clipPath>`);
-      styleParts.push(`@keyframes ${name}{0%,${fmt(sPct)}%{transform:${fromT}}${fmt(ePct)}%,100%{transform:${toT}}} .${token}clipper{transform-origin:${fmt(ox)}px ${fmt(oy)}px;animation:${name} ${fmt(masterSec)}s ${anchor.easing ?? "ease"} infinite}`);
+      defsParts.push(`<clipPath id="${clipId}" clipPathUnits="userSpaceOnUse"><rect class="${clipper}" x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}"${rad}/></clipPath>`);
+      styleParts.push(`@keyframes ${name}{${layerKeyframes(anchor, master, "transform", fromT, toT)}} .${clipper}{transform-origin:${fmt(ox)}px ${fmt(oy)}px;animation:${name} ${fmt(masterSec)}s ${anchor.easing ?? "ease"} infinite}`);
       clipAttr = ` clip-path="url(#${clipId})"`;
     }
 
-    groups.push(`<g class="${token}layer"${clipAttr}${groupStyle}>${nested}</g>`);
+    groups.push(`<g class="${own("layer")}"${clipAttr}${groupStyle}>${nested}</g>`);
   }
 
   // Transparent (no backdrop rect) for every transparent CSS form — keywords,
diff --git a/src/animation/embed-namespace.ts b/src/animation/embed-namespace.ts
index b20aeca..0f351b3 100644
--- a/src/animation/embed-namespace.ts
+++ b/src/animation/embed-namespace.ts
@@ -29,8 +29,7 @@
  * namespaced after the fact instead.
  */
 
-const escapeRe = (s: string): string => s.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");
-const byLengthDesc = (a: string, b: string): number => b.length - a.length;
+import { collectIds, idRenamer, rewriteMarkup } from "./svg-markup.js";
 
 /** Options for {@link namespaceEmbeddedAnimatedSvg}. */
 export interface NamespaceEmbedOptions {
@@ -55,58 +54,55 @@ export interface NamespaceEmbedOptions {
  * to be a single `<svg>…</svg>` document as produced by `generateAnimatedSvg`.
  */
 export function namespaceEmbeddedAnimatedSvg(svg: string, token: string, opts: NamespaceEmbedOptions = {}): string {
-  let out = svg;
-
-  // 1. Element ids + every reference (url(#id) / (xlink:)href="#id"). Longest
-  //    name first so an id that is a textual prefix of another can't partial-match.
-  const ids = new Set<string>();
-  for (const m of out.matchAll(/\sid="([^"]+)"/g)) ids.add(m[1]);
-  for (const id of [...ids].sort(byLengthDesc)) {
-    const e = escapeRe(id);
-    out = out
-      .replace(new RegExp(`(\\sid=")${e}(")`, "g"), `$1${token}${id}$2`)
-      .replace(new RegExp(`url\\(#${e}\\)`, "g"), `url(#${token}${id})`)
-      .replace(new RegExp(`((?:xlink:)?href=")#${e}(")`, "g"), `$1#${token}${id}$2`);
-  }
-
-  // 2. Embedded-font families (`dmfN`). Only the `@font-face` declaration and the
-  //    `font-family` attr/decl contexts — never a bare global replace, since the
-  //    base64 `src` payload could contain the same byte sequence. Skipped when the
-  //    fonts are deferred to a shared outer builder (see NamespaceEmbedOptions).
-  if (opts.namespaceFonts !== false) {
-    out = out
-      .replace(/(font-family:\s*")(dmf\d+)(")/g, `$1${token}$2$3`)
-      .replace(/(font-family=")(dmf\d+)(")/g, `$1${token}$2$3`);
-  }
-
-  // 3. `@keyframes` names + their `animation:` references. A keyframe name is a
-  //    domotion-generated token (`fv-0`, `f0-f0a0-0`, …) that never appears as an
-  //    id, class, or inside the (hyphen-free) base64 font data, so a word-boundary
-  //    replace across the whole doc is safe. Longest-first for prefix safety.
+  // Only names in name positions are rewritten: attributes, selectors and
+  // declarations. Text that happens to read like one, and functions or properties
+  // that share one (`@keyframes rotate` / `transform: rotate(…)`), stay.
+  const ids = collectIds(svg);
   const keyframes = new Set<string>();
-  for (const m of out.matchAll(/@keyframes\s+([A-Za-z0-9_-]+)/g)) keyframes.add(m[1]);
-  for (const name of [...keyframes].sort(byLengthDesc)) {
-    out = out.replace(new RegExp(`\\b${escapeRe(name)}\\b`, "g"), `${token}${name}`);
-  }
-
-  // 4. Classes. Collect the names from `class="…"` attrs (every token is renderer-
-  //    generated), then (a) prefix each token in every class attr, and (b) prefix
-  //    each known name where it appears as a `.name` selector. The selector pass is
-  //    boundary-guarded (`(?![\w-])`) and limited to the collected names so it can
-  //    never touch a decimal like `0.22` / `22.500%` in the CSS.
   const classes = new Set<string>();
-  for (const m of out.matchAll(/\sclass="([^"]+)"/g)) {
-    for (const t of m[1].split(/\s+/)) if (t !== "") classes.add(t);
-  }
-  out = out.replace(/(\sclass=")([^"]+)(")/g, (_full, a: string, cls: string, c: string) =>
-    a + cls.split(/\s+/).map((t) => (t !== "" ? token + t : t)).join(" ") + c,
-  );
-  for (const name of [...classes].sort(byLengthDesc)) {
-    out = out.replace(new RegExp(`\\.${escapeRe(name)}(?![\\w-])`, "g"), `.${token}${name}`);
-  }
+  rewriteMarkup(svg, {
+    attribute: (name, value) => {
+      if (name === "class") for (const t of value.split(/\s+/)) if (t !== "") classes.add(t);
+      return value;
+    },
+    prelude: (text) => {
+      const m = /^@keyframes\s+([A-Za-z0-9_-]+)/.exec(text);
+      if (m != null) keyframes.add(m[1]);
+      return text;
+    },
+  });
 
-  // 5. The `--scene-dur` custom property (declaration on `:root` + any `var()`).
-  out = out.replace(/--scene-dur\b/g, `--scene-dur-${token}`);
+  const id = idRenamer((name) => (ids.has(name) ? token + name : name));
+  const fonts = opts.namespaceFonts !== false;
+  const font = (name: string): string => (fonts && /^(?:[\w-]+_)?dmf\d+$/.test(name) ? token + name : name);
+  const sceneDur = (text: string): string => text.replace(/--scene-dur\b/g, `--scene-dur-${token}`);
+  return rewriteMarkup(svg, {
+    attribute: (name, value) => {
+      if (name === "class") return value.replace(/\S+/g, (t) => token + t);
+      if (name === "font-family") return font(value);
+      return id.attribute(name, value);
+    },
+    prelude: (text) => {
+      if (text.startsWith("@")) return text.replace(/^(@keyframes\s+)([A-Za-z0-9_-]+)/, (_f, a: string, name: string) => a + token + name);
+      return id.prelude(text).replace(/\.(-?[A-Za-z_][\w-]*)/g, (full, name: string) => (classes.has(name) ? `.${token}${name}` : full));
+    },
+    declaration: (prop, value, text) => {
+      const head = text.slice(0, text.length - value.length);
+      if (prop === "font-family") return head + value.replace(/^(["'])([\w-]+)\1/, (_f, q: string, name: string) => q + font(name) + q);
+      const named = prop === "animation" || prop === "animation-name" ? renameAnimations(value, keyframes, token) : value;
+      return sceneDur(head) + sceneDur(id.value(named));
+    },
+  });
+}
 
-  return out;
+/** The keyframe names in an `animation` / `animation-name` value, renamed; functions
+ *  and their arguments stay. */
+function renameAnimations(value: string, keyframes: Set<string>, token: string): string {
+  let depth = 0;
+  return value.replace(/[()]|(?<![\w-])-?[A-Za-z_][\w-]*(?!\w|-|\()/g, (t) => {
+    if (t === "(") depth++;
+    else if (t === ")") depth--;
+    else if (depth === 0 && keyframes.has(t)) return token + t;
+    return t;
+  });
 }
diff --git a/src/animation/embed-timeline.ts b/src/animation/embed-timeline.ts
index 67db620..2840caf 100644
--- a/src/animation/embed-timeline.ts
+++ b/src/animation/embed-timeline.ts
@@ -43,7 +43,9 @@
  * (correct only when the host frame started at t = 0).
  */
 
-import { fmt, clampPct } from "./svg-meta.js";
+import { sliceKeyframesBody } from "./keyframe-slice.js";
+import { fmt } from "./svg-meta.js";
+import { rewriteMarkup } from "./svg-markup.js";
 
 /**
  * How an embedded layer's own timeline maps onto its container's master loop
@@ -122,12 +124,21 @@ function tokenizeEntry(entry: string): string[] {
   return tokens;
 }
 
+/** A keyframe offset, precise enough that stops a moment apart stay apart in a
+ *  master loop many times as long. */
+const pctOf = (p: number): string => (p <= 0 ? "0" : p >= 100 ? "100" : p.toFixed(8).replace(/\.?0+$/, ""));
+
 /**
  * Remap a single `@keyframes` block's stop percentages into the sub-window and
  * add the leading / trailing hold stops. `inner` is the block body (the stops);
- * returns the rewritten body.
+ * returns the rewritten body. A window that the master loop ends first is cut
+ * there, `timing` being the easing in force.
  */
-function remapKeyframeBody(inner: string, offsetPct: number, scale: number): string {
+function remapKeyframeBody(inner: string, offsetPct: number, scale: number, timing: string): string {
+  const fits = (100 - offsetPct) / (100 * scale);
+  // Entering when the loop is already over: only ever the first frame.
+  if (fits <= 0) return remapKeyframeBody(inner, 0, 1, timing).replace(/^0%(\s*\{[^{}]*\})[\s\S]*$/, "0%, 100%$1");
+  if (fits < 1 - 1e-9) { inner = sliceKeyframesBody(inner, 0, fits, timing); scale *= fits; }
   const stopRe = /(from|to|[\d.]+%(?:\s*,\s*[\d.]+%)*)\s*\{([^{}]*)\}/g;
   const remapped: string[] = [];
   let firstDecls: string | null = null;
@@ -150,7 +161,7 @@ function remapKeyframeBody(inner: string, offsetPct: number, scale: number): str
         maxOrig = orig;
         lastDecls = decls;
       }
-      newSelectors.push(`${fmt(clampPct(offsetPct + orig * scale))}%`);
+      newSelectors.push(`${pctOf(offsetPct + orig * scale)}%`);
     }
     remapped.push(`${newSelectors.join(", ")} { ${decls} }`);
   }
@@ -183,70 +194,97 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
   // Duration match tolerance — generous enough to absorb the animator's 2- vs
   // 3-decimal formatting, tight enough not to catch a distinct fixed period.
   const tol = Math.max(0.02, periodSec * 0.01);
+  // The document's own clock, under the name its rules may use for it.
+  const sceneSec = new Map([...svg.matchAll(/(--scene-dur[\w-]*)\s*:\s*([\d.]+m?s)/g)].map((m) => [`var(${m[1]})`, parseTimeSec(m[2])]));
+  const timeOf = (t: string): number | null => sceneSec.get(t) ?? parseTimeSec(t);
+  /** Where an `animation` entry that runs on the content's own timeline gives its
+   *  duration; -1 for one with a clock of its own (a blink, a delayed or turning loop). */
+  const onPeriod = (tokens: string[]): number => {
+    const times = tokens.flatMap((t, i) => (timeOf(t) != null ? [i] : []));
+    if (times.length === 0 || Math.abs(timeOf(tokens[times[0]])! - periodSec) > tol) return -1;
+    if (times.length > 1 && timeOf(tokens[times[1]]) !== 0) return -1;
+    return tokens.some((t) => t === "reverse" || t.startsWith("alternate")) ? -1 : times[0];
+  };
 
   // `loop`: keep the content's own period; just delay its start to `startMs` and
   // hold frame 0 until then (`animation-fill-mode: backwards`). It then repeats
   // for the rest of the master loop. No keyframe remap.
   if (mode === "loop") {
     if (startMs <= 0) return svg; // already starts at the origin and loops
-    const delayCss = (css: string): string =>
-      css.replace(/animation:\s*([^;}"]+)/g, (full: string, value: string) => {
-        const isPeriodMatch = splitTopLevel(value).some((entry) =>
-          tokenizeEntry(entry).some((t) => {
-            const sec = parseTimeSec(t);
-            return sec != null && Math.abs(sec - periodSec) <= tol;
-          }),
-        );
-        return isPeriodMatch ? `${full};animation-delay:${fmt(startSec)}s;animation-fill-mode:backwards` : full;
-      });
-    return svg
-      .replace(/<style>([\s\S]*?)<\/style>/g, (_full, css: string) => `<style>${delayCss(css)}</style>`)
-      .replace(/style="([^"]*animation:[^"]*)"/g, (_full, css: string) => `style="${delayCss(css)}"`);
+    return rewriteMarkup(svg, {
+      declaration: (prop, value, text) => {
+        if (prop !== "animation") return text;
+        const entries = splitTopLevel(value).map(tokenizeEntry), ours = entries.map((tokens) => onPeriod(tokens) >= 0);
+        if (!ours.includes(true)) return text;
+        // The other animations of the list keep their own delay and fill.
+        const delays = entries.map((tokens, i) => (ours[i] ? `${fmt(startSec)}s` : tokens.filter((t) => parseTimeSec(t) != null)[1] ?? "0s"));
+        const fills = entries.map((tokens, i) => (ours[i] ? "backwards" : tokens.find((t) => t === "both" || t === "forwards" || t === "backwards") ?? "none"));
+        const list = (v: string[]): string => (new Set(v).size === 1 ? v[0] : v.join(","));
+        return `${text};animation-delay:${list(delays)};animation-fill-mode:${list(fills)}`;
+      },
+    });
   }
 
   // Nothing to do: content already starts at the origin and fills the loop.
-  if (offsetPct <= 1e-6 && Math.abs(scale - 1) <= 1e-6) return svg;
+  if (offsetPct <= 1e-6 && Math.abs(scale - 1) <= 1e-6 && Math.abs(periodMs / masterMs - 1) <= 1e-6) return svg;
 
   // Pass 1: retime matching animations + collect the keyframe names they drive.
   // Untouched declarations (e.g. a fixed-period cursor blink) are returned
   // byte-for-byte so only the retimed lines change. The set is shared across
   // every `<style>` block AND inline `style` attribute — the caret track's
   // shorthands live inline while its `@keyframes` live in its local `<style>`.
-  const retimed = new Set<string>();
-  const retimeCss = (css: string): string =>
-    css.replace(/animation:\s*([^;}"]+)/g, (full: string, value: string) => {
+  //
+  // Keyframes are shared where several animations name them; each timing they are
+  // remapped for gets its own copy, and one that is also used by an animation
+  // with a clock of its own stays as it is.
+  const nameOf = (tokens: string[]): string | undefined => tokens.find((t) => timeOf(t) == null && /^[A-Za-z_-][\w-]*$/.test(t) && !ANIM_KEYWORDS.has(t));
+  const kept = new Set<string>();
+  rewriteMarkup(svg, {
+    declaration: (prop, value, text) => {
+      if (prop === "animation") for (const tokens of splitTopLevel(value).map(tokenizeEntry)) if (onPeriod(tokens) < 0) kept.add(nameOf(tokens) ?? "");
+      return text;
+    },
+  });
+  const retimed = new Map<string, Map<string, string>>();
+  const retimedName = (name: string, timing: string): string => {
+    const copies = retimed.get(name) ?? new Map<string, string>(kept.has(name) ? [["", name]] : []);
+    retimed.set(name, copies);
+    let copy = copies.get(timing) ?? (copies.size === 0 ? name : `${name}-r${copies.size}`);
+    while (!copies.has(timing) && copy !== name && svg.includes(copy)) copy += "-";
+    copies.set(timing, copy);
+    return copy;
+  };
+  const out = rewriteMarkup(svg, {
+    declaration: (prop, value, text) => {
+      if (prop !== "animation") return text;
       let changed = false;
       const entries = splitTopLevel(value).map((entry) => {
         const tokens = tokenizeEntry(entry);
-        for (let i = 0; i < tokens.length; i++) {
-          const sec = parseTimeSec(tokens[i]);
-          if (sec == null) continue;
-          if (Math.abs(sec - periodSec) <= tol) {
-            const name = tokens.find((t) => parseTimeSec(t) == null && /^[A-Za-z_-][\w-]*$/.test(t) && !ANIM_KEYWORDS.has(t));
-            if (name != null) {
-              retimed.add(name);
-              tokens[i] = `${fmt(masterSec)}s`;
-              changed = true;
-            }
-          }
-          break; // the first <time> in a shorthand entry is its duration
+        const at = onPeriod(tokens);
+        const name = at < 0 ? null : nameOf(tokens);
+        if (name != null) {
+          tokens[at] = `${fmt(masterSec)}s`;
+          tokens[tokens.indexOf(name)] = retimedName(name, tokens.find((t) => TIMING_RE.test(t)) ?? "ease");
+          changed = true;
         }
         return tokens.join(" ");
       });
-      return changed ? `animation:${entries.join(",")}` : full;
-    });
-  let out = svg
-    .replace(/<style>([\s\S]*?)<\/style>/g, (_full, css: string) => `<style>${retimeCss(css)}</style>`)
-    .replace(/style="([^"]*animation:[^"]*)"/g, (_full, css: string) => `style="${retimeCss(css)}"`);
+      return changed ? `animation:${entries.join(",")}` : text;
+    },
+  });
   // Pass 2: remap the keyframes those animations drive.
-  out = out.replace(
+  return out.replace(
     /@keyframes\s+([\w-]+)\s*\{((?:[^{}]*\{[^{}]*\})*[^{}]*)\}/g,
-    (full: string, name: string, inner: string) =>
-      retimed.has(name) ? `@keyframes ${name} { ${remapKeyframeBody(inner, offsetPct, scale)} }` : full,
+    (full: string, name: string, inner: string) => {
+      const copies = retimed.get(name);
+      if (copies == null) return full;
+      return [...copies].map(([timing, copy]) => (timing === "" ? full : `@keyframes ${copy} { ${remapKeyframeBody(inner, offsetPct, scale, timing)} }`)).join(" ");
+    },
   );
-  return out;
 }
 
+const TIMING_RE = /^(?:linear|ease|ease-in|ease-out|ease-in-out|step-start|step-end|cubic-bezier\(.*|steps\(.*|linear\(.*)$/;
+
 /** Animation-shorthand keywords that are never the `animation-name`. */
 const ANIM_KEYWORDS = new Set<string>([
   "linear", "ease", "ease-in", "ease-out", "ease-in-out", "step-start", "step-end",
diff --git a/src/animation/keyframe-slice.ts b/src/animation/keyframe-slice.ts
new file mode 100644
index 0000000..8fbdf6d
--- /dev/null
+++ b/src/animation/keyframe-slice.ts
@@ -0,0 +1,154 @@
+/**
+ * CSS `@keyframes` as data: parse a block, interpolate between its stops the way
+ * the easing in force does, and cut a window out of it. Used wherever an animation
+ * plays only in part (trimming, an embedded timeline that its host ends early).
+ */
+
+import { resolveEasing } from "./easing.js";
+
+export function num(n: number): string {
+  if (Number.isInteger(n)) return String(n);
+  return n.toFixed(4).replace(/0+$/, "").replace(/\.$/, "");
+}
+
+// ── value interpolation (shared by CSS decls + SMIL values) ─────────────────
+
+const NUM_RE = /(-?\d*\.?\d+(?:[eE][+-]?\d+)?)(%|[a-zA-Z]+)?/g;
+
+/** Linear-interpolate two values that share an identical non-numeric skeleton
+ *  (`translateX(10px)`↔`translateX(20px)`, `0`↔`1`, `0,0`↔`40,10`); a zero needs no
+ *  unit, and a missing transform is the identity. Returns null when skeletons
+ *  differ (discrete value like `visible`↔`hidden`) so the caller SNAPS. */
+export function lerpValue(a: string, b: string, t: number): string | null {
+  if (a === "none" && /^(translate|scale|rotate|skew)/.test(b)) a = identityOf(b);
+  else if (b === "none" && /^(translate|scale|rotate|skew)/.test(a)) b = identityOf(a);
+  const an = [...a.matchAll(NUM_RE)], bn = [...b.matchAll(NUM_RE)];
+  if (an.length === 0 || an.length !== bn.length || a.replace(NUM_RE, "\0") !== b.replace(NUM_RE, "\0")) return null;
+  let out = "", last = 0;
+  for (let i = 0; i < an.length; i++) {
+    const x = parseFloat(an[i][1]), y = parseFloat(bn[i][1]), ux = an[i][2] ?? "", uy = bn[i][2] ?? "";
+    if (ux !== uy && !(ux === "" && x === 0) && !(uy === "" && y === 0)) return null;
+    out += a.slice(last, an[i].index) + num(x + (y - x) * t) + (ux === "" ? uy : ux);
+    last = an[i].index + an[i][0].length;
+  }
+  return out + a.slice(last);
+}
+const identityOf = (list: string): string => list.replace(/(\w+)\(([^)]*)\)/g, (_f, fn: string, args: string) => `${fn}(${args.replace(NUM_RE, fn.startsWith("scale") ? "1" : "0")})`);
+
+// ── @keyframes parse / slice ────────────────────────────────────────────────
+
+export interface CssFrame { at: number; decls: Map<string, string>; timing: string | null }
+
+export function parseKeyframes(body: string): CssFrame[] {
+  const byAt = new Map<number, CssFrame>();
+  const re = /([^{}]+)\{([^{}]*)\}/g;
+  let m: RegExpExecArray | null;
+  while ((m = re.exec(body)) != null) {
+    const decls = parseDecls(m[2]);
+    const timing = decls.get("animation-timing-function") ?? null;
+    decls.delete("animation-timing-function");
+    for (const sel of m[1].split(",")) {
+      const s = sel.trim();
+      let at: number | null = null;
+      if (s === "from") at = 0;
+      else if (s === "to") at = 1;
+      else if (s.endsWith("%")) { const v = parseFloat(s); if (Number.isFinite(v)) at = v / 100; }
+      if (at == null) continue;
+      // Stops at one offset cascade.
+      const prev = byAt.get(at);
+      byAt.set(at, { at, decls: new Map([...(prev?.decls ?? []), ...decls]), timing: timing ?? prev?.timing ?? null });
+    }
+  }
+  return [...byAt.values()].sort((x, y) => x.at - y.at);
+}
+
+function parseDecls(body: string): Map<string, string> {
+  const decls = new Map<string, string>();
+  for (const d of body.split(";")) {
+    const i = d.indexOf(":");
+    if (i < 0) continue;
+    const k = d.slice(0, i).trim();
+    if (k) decls.set(k, d.slice(i + 1).trim());
+  }
+  return decls;
+}
+
+/** The fractions of an eased segment at which its curve has to be known, and the
+ *  eased progress at each. `steps` curves jump there; all others run straight on
+ *  to the next. */
+function curveOf(timing: string): { jumps: boolean; points: number; ease: (p: number) => number } {
+  const t = timing.trim();
+  if (t === "linear") return { jumps: false, points: 1, ease: (p) => p };
+  if (t === "step-end") return { jumps: true, points: 1, ease: (p) => (p >= 1 ? 1 : 0) };
+  if (t === "step-start") return { jumps: true, points: 1, ease: () => 1 };
+  const steps = /^steps\(\s*(\d+)\s*(?:,\s*([\w-]+)\s*)?\)$/.exec(t);
+  if (steps != null) {
+    const n = Math.max(1, parseInt(steps[1], 10)), pos = steps[2] ?? "end";
+    const first = pos === "start" || pos === "jump-start" || pos === "jump-both" ? 1 : 0;
+    const last = pos === "jump-both" ? n + 1 : pos === "jump-none" ? Math.max(1, n - 1) : n;
+    return { jumps: true, points: n, ease: (p) => Math.min(1, (Math.floor(p * n + 1e-9) + first) / last) };
+  }
+  const list = /^linear\(([\d\s.,%e+-]+)\)$/.exec(t);
+  if (list != null && !list[1].includes("%")) {
+    const v = list[1].split(",").map((x) => parseFloat(x)), n = v.length - 1;
+    if (n > 0) return { jumps: false, points: n, ease: (p) => { const i = Math.min(n - 1, Math.floor(p * n)); return v[i] + (v[i + 1] - v[i]) * (p * n - i); } };
+  }
+  return { jumps: false, points: EASED_POINTS, ease: resolveEasing(t) };
+}
+const EASED_POINTS = 48;
+
+/** One declaration part-way (eased progress `p`) between two stops. */
+function mixDecl(prop: string, a: string, b: string, p: number): string {
+  if (a === b) return a;
+  if (prop === "visibility") return p <= 0 ? a : p >= 1 ? b : "visible";
+  const ca = hexToRgb(a), cb = hexToRgb(b);
+  const mixed = a.includes("url(") ? null : lerpValue(ca ?? a, cb ?? b, p);
+  return p === 0 ? a : p === 1 ? b : mixed ?? (p < 0.5 ? a : b);
+}
+function hexToRgb(v: string): string | null {
+  const m = /^#([0-9a-f]{3}|[0-9a-f]{6})$/i.exec(v);
+  if (m == null) return null;
+  const h = m[1].length === 3 ? m[1].replace(/./g, "$&$&") : m[1];
+  return `rgb(${[0, 2, 4].map((i) => parseInt(h.slice(i, i + 2), 16)).join(",")})`;
+}
+
+/** The keyframes of `body` over `[f0, f1]`, as keyframes of their own. A segment
+ *  the window cuts through keeps its shape: it is re-emitted as the points of its
+ *  easing curve that fall inside. `timing` is the animation's own easing. */
+export function sliceKeyframesBody(body: string, f0: number, f1: number, timing: string): string {
+  const frames = parseKeyframes(body);
+  if (frames.length === 0) return body;
+  const span = f1 - f0;
+  if (!(span > 0)) return body;
+  const stops: CssFrame[] = [];
+  const mixAll = (lo: CssFrame, hi: CssFrame, p: number): Map<string, string> => {
+    const out = new Map<string, string>();
+    for (const k of new Set([...lo.decls.keys(), ...hi.decls.keys()])) {
+      const a = lo.decls.get(k), b = hi.decls.get(k);
+      out.set(k, a != null && b != null ? mixDecl(k, a, b, p) : (a ?? b)!);
+    }
+    return out;
+  };
+  let end: Map<string, string> | null = null;
+  for (let i = 0; i + 1 < frames.length; i++) {
+    const lo = frames[i], hi = frames[i + 1];
+    const a = Math.max(f0, lo.at), b = Math.min(f1, hi.at);
+    if (b <= a) continue;
+    end = hi.decls;
+    if (a === lo.at && b === hi.at) { stops.push(lo); continue; }
+    const { jumps, points, ease } = curveOf(lo.timing ?? timing);
+    const seg = hi.at - lo.at;
+    const pts = [a];
+    for (let k = 1; k < points; k++) { const at = lo.at + (seg * k) / points; if (at > a && at < b) pts.push(at); }
+    // A curve that jumps at once leaves its first stop as the target of what came before.
+    if (a === lo.at && i > 0 && stops.length > 0 && ease(0) !== 0 && (frames[i - 1].timing ?? timing) !== "step-end") stops.push({ at: a - span * 1e-6, decls: lo.decls, timing: "step-end" });
+    for (const at of pts) stops.push({ at, decls: mixAll(lo, hi, ease((at - lo.at) / seg)), timing: jumps ? "step-end" : "linear" });
+    end = b === hi.at ? hi.decls : mixAll(lo, hi, ease((b - lo.at) / seg));
+  }
+  if (end != null) stops.push({ at: f1, decls: end, timing: null });
+  const byPct = new Map<number, CssFrame>();
+  for (const s of stops) byPct.set(Math.round(((s.at - f0) / span) * 1e6) / 1e4, s);
+  return [...byPct.entries()].sort((a, b) => a[0] - b[0])
+    .map(([pct, s]) => `${pct}% { ${[...s.decls.entries()].map(([k, v]) => `${k}: ${v}`).concat(s.timing != null && pct < 100 ? [`animation-timing-function: ${s.timing}`] : []).join("; ")} }`)
+    .join(" ");
+}
diff --git a/src/animation/svg-markup.ts b/src/animation/svg-markup.ts
new file mode 100644
index 0000000..8bd4900
--- /dev/null
+++ b/src/animation/svg-markup.ts
@@ -0,0 +1,92 @@
+/**
+ * Rewriting the parts of an SVG document that carry names and declarations —
+ * attributes and style sheets — and nothing else: text, comments and CSS strings
+ * come through untouched, whatever they look like.
+ */
+
+/** What to do with each part; whatever is left out stays as it is. */
+export interface MarkupRewrite {
+  /** An attribute's value as written (entities included); `style` attributes go to `declaration`. */
+  attribute?: (name: string, value: string) => string;
+  /** A rule's prelude: a selector list, or an at-rule up to its block. */
+  prelude?: (text: string) => string;
+  /** One declaration of a rule or a `style` attribute, property and value. The text
+   *  it returns replaces the whole `property: value`. */
+  declaration?: (property: string, value: string, text: string) => string;
+}
+
+const MARKUP_RE = /<!--[\s\S]*?-->|<!\[CDATA\[[\s\S]*?\]\]>|(<style\b[^>]*>)([\s\S]*?)(<\/style\s*>)|<[A-Za-z](?:[^<>"']|"[^"]*"|'[^']*')*>/g;
+const ATTRIBUTE_RE = /(\s)([\w:.-]+)(\s*=\s*)("[^"]*"|'[^']*')/g;
+
+export function rewriteMarkup(svg: string, rw: MarkupRewrite): string {
+  return svg.replace(MARKUP_RE, (full: string, open?: string, css?: string, close?: string) => {
+    if (open != null) return rewriteTag(open, rw) + rewriteCss(css!, rw, false) + close!;
+    return full.startsWith("<!") ? full : rewriteTag(full, rw);
+  });
+}
+
+function rewriteTag(tag: string, rw: MarkupRewrite): string {
+  return tag.replace(ATTRIBUTE_RE, (_full, space: string, name: string, eq: string, quoted: string) => {
+    const quote = quoted[0], value = quoted.slice(1, -1);
+    return space + name + eq + quote + (name === "style" ? rewriteCss(value, rw, true) : rw.attribute?.(name, value) ?? value) + quote;
+  });
+}
+
+/** Rewrite a style sheet, or (`bare`) the contents of a `style` attribute. */
+function rewriteCss(css: string, rw: MarkupRewrite, bare: boolean): string {
+  const part = (text: string, end: string): string => {
+    const [, lead, body, tail] = /^((?:\s|\/\*[\s\S]*?\*\/|<!\[CDATA\[)*)([\s\S]*?)(\s*)$/.exec(text)!;
+    if (body === "") return text;
+    if (end === "{") return lead + (rw.prelude?.(body) ?? body) + tail;
+    const m = /^([\w-]+)\s*:\s*([\s\S]*)$/.exec(body);
+    return m == null ? text : lead + (rw.declaration?.(m[1], m[2], body) ?? body) + tail;
+  };
+  let out = "", from = 0, depth = 0, block = bare ? 1 : 0;
+  for (let i = 0; i < css.length; i++) {
+    const c = css[i];
+    if (c === "\\") i++;
+    else if (c === "/" && css[i + 1] === "*") { const e = css.indexOf("*/", i + 2); i = e < 0 ? css.length : e + 1; }
+    else if (c === '"' || c === "'") { while (++i < css.length && css[i] !== c) if (css[i] === "\\") i++; }
+    else if (c === "&") { const m = /^&#?\w+;/.exec(css.slice(i, i + 10)); if (m != null) i += m[0].length - 1; }
+    else if (c === "(") depth++;
+    else if (c === ")") depth = Math.max(0, depth - 1);
+    else if (depth === 0 && (c === "{" || c === "}" || c === ";")) {
+      if (c !== "{" || !bare) { out += part(css.slice(from, i), c) + c; from = i + 1; }
+      block += c === "{" ? 1 : c === "}" ? -1 : 0;
+    }
+  }
+  const rest = css.slice(from);
+  return out + (block > 0 ? part(rest, ";") : rest);
+}
+
+/** `url(#id)` references, quoted in any of the ways an attribute or a style sheet can. */
+const URL_REF_RE = /url\(\s*(["']|&quot;|&apos;|&#3[49];|)#([^"'&)\s]+)\1\s*\)/g;
+
+/** The ids an SVG document or fragment defines. */
+export function collectIds(svg: string): Set<string> {
+  const ids = new Set<string>();
+  rewriteMarkup(svg, { attribute: (name, value) => { if (name === "id" && value !== "") ids.add(value); return value; } });
+  return ids;
+}
+
+/** How references to renamed ids read: attributes, preludes and declaration values. */
+export function idRenamer(rename: (id: string) => string): { attribute: (name: string, value: string) => string; prelude: (text: string) => string; value: (text: string) => string } {
+  const value = (text: string): string => text.replace(URL_REF_RE, (_f, q: string, id: string) => `url(${q}#${rename(id)}${q})`);
+  return {
+    value,
+    attribute: (name, v) => {
+      if (name === "id") return rename(v);
+      if (name === "href" || name === "xlink:href") return v.startsWith("#") ? `#${rename(v.slice(1))}` : v;
+      if (name === "aria-labelledby" || name === "aria-describedby" || name === "aria-controls" || name === "aria-owns") return v.replace(/\S+/g, rename);
+      if (name === "begin" || name === "end") return v.replace(/(^|;\s*)([A-Za-z_][\w-]*)(?=\.(?:begin|end|repeat)\b)/g, (_f, pre: string, id: string) => pre + rename(id));
+      return name === "aria-label" ? v : value(v);
+    },
+    prelude: (text) => (text.startsWith("@") ? text : text.replace(/#(-?[A-Za-z_][\w-]*)/g, (_f, id: string) => `#${rename(id)}`)),
+  };
+}
+
+/** Rename ids and every reference to them; ids `rename` returns unchanged stay. */
+export function renameIds(svg: string, rename: (id: string) => string): string {
+  const r = idRenamer(rename);
+  return rewriteMarkup(svg, { attribute: r.attribute, prelude: r.prelude, declaration: (_p, _v, text) => r.value(text) });
+}
diff --git a/src/scrubber/trim.ts b/src/scrubber/trim.ts
index 6926fc4..8cbf546 100644
--- a/src/scrubber/trim.ts
+++ b/src/scrubber/trim.ts
@@ -32,7 +32,7 @@
  * DOM-free so it unit-tests without a browser.
  */
 
-import { resolveEasing } from "../animation/easing.js";
+import { lerpValue, num, parseKeyframes, sliceKeyframesBody } from "../animation/keyframe-slice.js";
 
 export interface TrimResult {
   svg: string;
@@ -48,10 +48,6 @@ const SMIL_TAGS = "animate|animateTransform|animateMotion|animateColor|set";
 
 // ── small formatters ────────────────────────────────────────────────────────
 
-function num(n: number): string {
-  if (Number.isInteger(n)) return String(n);
-  return n.toFixed(4).replace(/0+$/, "").replace(/\.$/, "");
-}
 function secs(ms: number): string {
   const s = num(ms / 1000);
   return `${s === "" || s === "-0" ? "0" : s}s`;
@@ -69,30 +65,6 @@ function parseClockMs(v: string): number | null {
   return null;
 }
 
-// ── value interpolation (shared by CSS decls + SMIL values) ─────────────────
-
-const NUM_RE = /(-?\d*\.?\d+(?:[eE][+-]?\d+)?)(%|[a-zA-Z]+)?/g;
-
-/** Linear-interpolate two values that share an identical non-numeric skeleton
- *  (`translateX(10px)`↔`translateX(20px)`, `0`↔`1`, `0,0`↔`40,10`); a zero needs no
- *  unit, and a missing transform is the identity. Returns null when skeletons
- *  differ (discrete value like `visible`↔`hidden`) so the caller SNAPS. */
-function lerpValue(a: string, b: string, t: number): string | null {
-  if (a === "none" && /^(translate|scale|rotate|skew)/.test(b)) a = identityOf(b);
-  else if (b === "none" && /^(translate|scale|rotate|skew)/.test(a)) b = identityOf(a);
-  const an = [...a.matchAll(NUM_RE)], bn = [...b.matchAll(NUM_RE)];
-  if (an.length === 0 || an.length !== bn.length || a.replace(NUM_RE, "\0") !== b.replace(NUM_RE, "\0")) return null;
-  let out = "", last = 0;
-  for (let i = 0; i < an.length; i++) {
-    const x = parseFloat(an[i][1]), y = parseFloat(bn[i][1]), ux = an[i][2] ?? "", uy = bn[i][2] ?? "";
-    if (ux !== uy && !(ux === "" && x === 0) && !(uy === "" && y === 0)) return null;
-    out += a.slice(last, an[i].index) + num(x + (y - x) * t) + (ux === "" ? uy : ux);
-    last = an[i].index + an[i][0].length;
-  }
-  return out + a.slice(last);
-}
-const identityOf = (list: string): string => list.replace(/(\w+)\(([^)]*)\)/g, (_f, fn: string, args: string) => `${fn}(${args.replace(NUM_RE, fn.startsWith("scale") ? "1" : "0")})`);
-
 interface Stop { at: number; value: string }
 
 /** State of a single value channel at fraction `f`, given sorted stops; where two
@@ -120,122 +92,6 @@ function windowStops(stops: Stop[], f0: number, f1: number, discrete: boolean):
 
 const KEYFRAMES_RE = /@keyframes\s+([A-Za-z_][\w-]*)\s*\{((?:[^{}]|\{[^{}]*\})*)\}/g;
 
-interface CssFrame { at: number; decls: Map<string, string>; timing: string | null }
-
-function parseKeyframes(body: string): CssFrame[] {
-  const byAt = new Map<number, CssFrame>();
-  const re = /([^{}]+)\{([^{}]*)\}/g;
-  let m: RegExpExecArray | null;
-  while ((m = re.exec(body)) != null) {
-    const decls = parseDecls(m[2]);
-    const timing = decls.get("animation-timing-function") ?? null;
-    decls.delete("animation-timing-function");
-    for (const sel of m[1].split(",")) {
-      const s = sel.trim();
-      let at: number | null = null;
-      if (s === "from") at = 0;
-      else if (s === "to") at = 1;
-      else if (s.endsWith("%")) { const v = parseFloat(s); if (Number.isFinite(v)) at = v / 100; }
-      if (at == null) continue;
-      // Stops at one offset cascade.
-      const prev = byAt.get(at);
-      byAt.set(at, { at, decls: new Map([...(prev?.decls ?? []), ...decls]), timing: timing ?? prev?.timing ?? null });
-    }
-  }
-  return [...byAt.values()].sort((x, y) => x.at - y.at);
-}
-
-function parseDecls(body: string): Map<string, string> {
-  const decls = new Map<string, string>();
-  for (const d of body.split(";")) {
-    const i = d.indexOf(":");
-    if (i < 0) continue;
-    const k = d.slice(0, i).trim();
-    if (k) decls.set(k, d.slice(i + 1).trim());
-  }
-  return decls;
-}
-
-/** The fractions of an eased segment at which its curve has to be known, and the
- *  eased progress at each. `steps` curves jump there; all others run straight on
- *  to the next. */
-function curveOf(timing: string): { jumps: boolean; points: number; ease: (p: number) => number } {
-  const t = timing.trim();
-  if (t === "linear") return { jumps: false, points: 1, ease: (p) => p };
-  if (t === "step-end") return { jumps: true, points: 1, ease: (p) => (p >= 1 ? 1 : 0) };
-  if (t === "step-start") return { jumps: true, points: 1, ease: () => 1 };
-  const steps = /^steps\(\s*(\d+)\s*(?:,\s*([\w-]+)\s*)?\)$/.exec(t);
-  if (steps != null) {
-    const n = Math.max(1, parseInt(steps[1], 10)), pos = steps[2] ?? "end";
-    const first = pos === "start" || pos === "jump-start" || pos === "jump-both" ? 1 : 0;
-    const last = pos === "jump-both" ? n + 1 : pos === "jump-none" ? Math.max(1, n - 1) : n;
-    return { jumps: true, points: n, ease: (p) => Math.min(1, (Math.floor(p * n + 1e-9) + first) / last) };
-  }
-  const list = /^linear\(([\d\s.,%e+-]+)\)$/.exec(t);
-  if (list != null && !list[1].includes("%")) {
-    const v = list[1].split(",").map((x) => parseFloat(x)), n = v.length - 1;
-    if (n > 0) return { jumps: false, points: n, ease: (p) => { const i = Math.min(n - 1, Math.floor(p * n)); return v[i] + (v[i + 1] - v[i]) * (p * n - i); } };
-  }
-  return { jumps: false, points: EASED_POINTS, ease: resolveEasing(t) };
-}
-const EASED_POINTS = 48;
-
-/** One declaration part-way (eased progress `p`) between two stops. */
-function mixDecl(prop: string, a: string, b: string, p: number): string {
-  if (a === b) return a;
-  if (prop === "visibility") return p <= 0 ? a : p >= 1 ? b : "visible";
-  const ca = hexToRgb(a), cb = hexToRgb(b);
-  const mixed = a.includes("url(") ? null : lerpValue(ca ?? a, cb ?? b, p);
-  return p === 0 ? a : p === 1 ? b : mixed ?? (p < 0.5 ? a : b);
-}
-function hexToRgb(v: string): string | null {
-  const m = /^#([0-9a-f]{3}|[0-9a-f]{6})$/i.exec(v);
-  if (m == null) return null;
-  const h = m[1].length === 3 ? m[1].replace(/./g, "$&$&") : m[1];
-  return `rgb(${[0, 2, 4].map((i) => parseInt(h.slice(i, i + 2), 16)).join(",")})`;
-}
-
-/** The keyframes of `body` over `[f0, f1]`, as keyframes of their own. A segment
- *  the window cuts through keeps its shape: it is re-emitted as the points of its
- *  easing curve that fall inside. `timing` is the animation's own easing. */
-function sliceKeyframesBody(body: string, f0: number, f1: number, timing: string): string {
-  const frames = parseKeyframes(body);
-  if (frames.length === 0) return body;
-  const span = f1 - f0;
-  if (!(span > 0)) return body;
-  const stops: CssFrame[] = [];
-  const mixAll = (lo: CssFrame, hi: CssFrame, p: number): Map<string, string> => {
-    const out = new Map<string, string>();
-    for (const k of new Set([...lo.decls.keys(), ...hi.decls.keys()])) {
-      const a = lo.decls.get(k), b = hi.decls.get(k);
-      out.set(k, a != null && b != null ? mixDecl(k, a, b, p) : (a ?? b)!);
-    }
-    return out;
-  };
-  let end: Map<string, string> | null = null;
-  for (let i = 0; i + 1 < frames.length; i++) {
-    const lo = frames[i], hi = frames[i + 1];
-    const a = Math.max(f0, lo.at), b = Math.min(f1, hi.at);
-    if (b <= a) continue;
-    end = hi.decls;
-    if (a === lo.at && b === hi.at) { stops.push(lo); continue; }
-    const { jumps, points, ease } = curveOf(lo.timing ?? timing);
-    const seg = hi.at - lo.at;
-    const pts = [a];
-    for (let k = 1; k < points; k++) { const at = lo.at + (seg * k) / points; if (at > a && at < b) pts.push(at); }
-    // A curve that jumps at once leaves its first stop as the target of what came before.
-    if (a === lo.at && i > 0 && stops.length > 0 && ease(0) !== 0 && (frames[i - 1].timing ?? timing) !== "step-end") stops.push({ at: a - span * 1e-6, decls: lo.decls, timing: "step-end" });
-    for (const at of pts) stops.push({ at, decls: mixAll(lo, hi, ease((at - lo.at) / seg)), timing: jumps ? "step-end" : "linear" });
-    end = b === hi.at ? hi.decls : mixAll(lo, hi, ease((b - lo.at) / seg));
-  }
-  if (end != null) stops.push({ at: f1, decls: end, timing: null });
-  const byPct = new Map<number, CssFrame>();
-  for (const s of stops) byPct.set(Math.round(((s.at - f0) / span) * 1e6) / 1e4, s);
-  return [...byPct.entries()].sort((a, b) => a[0] - b[0])
-    .map(([pct, s]) => `${pct}% { ${[...s.decls.entries()].map(([k, v]) => `${k}: ${v}`).concat(s.timing != null && pct < 100 ? [`animation-timing-function: ${s.timing}`] : []).join("; ")} }`)
-    .join(" ");
-}
-
 // ── CSS animation shorthand parsing ─────────────────────────────────────────
 
 /** Split on `sep`, ignoring it inside parens (cubic-bezier(...)). */
-- 
2.43.0


From de9cfc223644a981895ab6fabdb921e00b595649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:13 +0000
Subject: [PATCH 51/55] fix: a compressed run keeps each state's paint order
 and text

Visibility tracks no longer turn the elements they switch into stacking
contexts, a reopened subtree is compared as it is now, text under a shadow, an
outline or other text stays where it paints, and text whose baseline moved
under the same declared style is drawn afresh.
---
 src/animation/compressed-run.ts | 60 ++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index 5a3de25..f068c6f 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -106,6 +106,7 @@
 import type { CapturedElement, TextSegment } from "../capture/types.js";
 import { elementTreeToSvgInner } from "../render/element-tree-to-svg.js";
 import { paintOrderHitSequence } from "../render/paint-order.js";
+import { establishesStackingContext } from "../render/stacking.js";
 import { clearEmbeddedFonts, clearGlyphDefs, getEmbeddedFontFaceCss } from "../render/index.js";
 import { alignLineGlyphs, type AlignGlyph } from "./glyph-align.js";
 import { textTrackMarkup, CARET_BLINK_MS, DEFAULT_SELECTION_COLOR, type ResolvedTextTrack, type ResolvedSelection } from "./caret-track.js";
@@ -323,6 +324,18 @@ function paintsBox(el: CapturedElement): boolean {
   return REPLACED.has(el.tag);
 }
 
+/** How far an element's shadows and outline paint beyond its border box. */
+function overhang(el: CapturedElement): number {
+  const s = el.styles;
+  let reach = s.outlineStyle != null && s.outlineStyle !== "none" ? num(s.outlineWidth) + Math.max(0, num(s.outlineOffset)) : 0;
+  for (const shadow of (s.boxShadow ?? "").split(/,(?![^(]*\))/)) {
+    if (/\binset\b/.test(shadow)) continue;
+    const [dx = 0, dy = 0, blur = 0, spread = 0] = (shadow.match(/-?[\d.]+px/g) ?? []).map(num);
+    reach = Math.max(reach, Math.max(Math.abs(dx), Math.abs(dy)) + blur + spread);
+  }
+  return reach;
+}
+
 /** Ancestor state threaded down the eligibility walk. */
 interface AncestorCtx {
   blocked: boolean;
@@ -528,6 +541,10 @@ function styleKeyOf(el: CapturedElement, seg: TextSegment): string {
     s.fontVariationSettings,
     s.fontFeatureSettings,
     s.lang ?? "",
+    // Where the baseline sits: a web font that arrives between two states changes
+    // it under the same declared style.
+    seg.fontAscent ?? el.fontAscent ?? "",
+    el.textTop != null ? round2(el.textTop - (el.textSegments?.[0]?.y ?? el.textTop)) : "",
   ].join("|");
 }
 
@@ -561,15 +578,24 @@ function extractState(tree: CapturedElement[], regionRootIds: ReadonlySet<string
   const paintIndex = new Map<CapturedElement, number>();
   for (let i = 0; i < order.length; i++) paintIndex.set(order[i].el, i);
 
+  // Text that paints over other text is an occluder too: the glyph layer is above
+  // all text that stays in the chrome, and ordered by line within. Lines that
+  // merely touch (a tight line height) are not.
+  const textOver = (el: CapturedElement, other: CapturedElement): boolean => (other.textSegments ?? []).some((o) => el.textSegments!.some((seg) =>
+    Math.min(seg.x + seg.width, o.x + o.width) - Math.max(seg.x, o.x) > 0.5
+    && Math.min(seg.y + seg.height, o.y + o.height) - Math.max(seg.y, o.y) > Math.min(seg.height, o.height) / 2));
+
   const occluded = (el: CapturedElement): boolean => {
     const mine = paintIndex.get(el);
     if (mine == null || el.textSegments == null) return true;
     for (let i = mine + 1; i < order.length; i++) {
       const f = order[i];
+      if (f.el !== el && textOver(el, f.el)) return true;
       if (!paintsBox(f.el)) continue;
       // The occluder only paints inside its own overflow clips.
-      let fx = f.el.x, fy = f.el.y;
-      let fr = fx + f.el.width, fb = fy + f.el.height;
+      const over = overhang(f.el);
+      let fx = f.el.x - over, fy = f.el.y - over;
+      let fr = f.el.x + f.el.width + over, fb = f.el.y + f.el.height + over;
       for (const c of f.clips) {
         fx = Math.max(fx, c.x); fy = Math.max(fy, c.y);
         fr = Math.min(fr, c.x + c.w); fb = Math.min(fb, c.y + c.h);
@@ -1113,6 +1139,12 @@ function activeDeepKey(n: UnionNode, s: number): string {
   return fnv(n.shallowKey + "[" + kids.map((c) => activeDeepKey(c, s)).join(",") + "]");
 }
 
+/** May the renderer paint this element away from its place in the tree? */
+function paintsAway(el: CapturedElement, parentDisplay: string | undefined): boolean {
+  const s = el.styles;
+  return (s.position != null && s.position !== "static") || (s.float ?? "none") !== "none" || establishesStackingContext(el, parentDisplay);
+}
+
 function nodeFromEl(el: CapturedElement, s: number): UnionNode {
   return {
     el,
@@ -1135,14 +1167,8 @@ function extendDeep(n: UnionNode, s: number): void {
  *  A node whose subtree accumulated variants (children with disjoint windows)
  *  simply won't match a plain captured subtree, so it falls back to a fresh
  *  variant — the reopen path only fires on a genuinely identical subtree. */
-const fullDeepKeyCache = new WeakMap<UnionNode, string>();
 function fullDeepKey(n: UnionNode): string {
-  let k = fullDeepKeyCache.get(n);
-  if (k == null) {
-    k = fnv(n.shallowKey + "[" + n.children.map(fullDeepKey).join(",") + "]");
-    fullDeepKeyCache.set(n, k);
-  }
-  return k;
+  return fnv(n.shallowKey + "[" + n.children.map(fullDeepKey).join(",") + "]");
 }
 
 /** Append a visibility window for state `s` to a node and its whole subtree —
@@ -1427,12 +1453,16 @@ export function composeCompressedRun(states: CompressedRunState[], opts: Compres
   // Chrome union → element tree + display tracks.
   let chromeTrackCount = 0;
   const fullWindows = JSON.stringify([{ start: 0, end: stateCount }]);
-  const emitUnion = (node: UnionNode, parentWindows: string): CapturedElement => {
+  // The track rides a cull class, not an `animId`: it only switches the element on
+  // and off, so it must not make it a stacking context of its own. What the
+  // renderer hoists out of a tracked element carries the track along.
+  const emitUnion = (node: UnionNode, parentWindows: string, parentTrack: string | null, parentDisplay?: string): CapturedElement => {
     const mine = JSON.stringify(node.windows);
-    const el: CapturedElement = { ...node.el, children: node.children.map((c) => emitUnion(c, mine)) };
-    if (mine !== parentWindows) {
-      const id = `${uid}c${chromeTrackCount++}`;
-      el.animId = id;
+    const id = mine !== parentWindows ? `${uid}c${chromeTrackCount++}` : null;
+    const track = id != null ? `anim-${id}` : parentTrack;
+    const el: CapturedElement = { ...node.el, children: node.children.map((c) => emitUnion(c, mine, track, node.el.styles.display)) };
+    if (track != null && (id != null || paintsAway(el, parentDisplay))) el.cullClass = track;
+    if (id != null) {
       const visible: string[] = [];
       for (let s = 0; s < stateCount; s++) {
         visible.push(node.windows.some((w) => s >= w.start && s < w.end) ? "inline" : "none");
@@ -1443,7 +1473,7 @@ export function composeCompressedRun(states: CompressedRunState[], opts: Compres
     }
     return el;
   };
-  const chromeTree = plan.chromeRoots.map((n) => emitUnion(n, fullWindows));
+  const chromeTree = plan.chromeRoots.map((n) => emitUnion(n, fullWindows, null));
 
   // Glyph groups → synthetic elements + opacity/transform/fill tracks.
   const glyphEls: CapturedElement[] = [];
-- 
2.43.0


From 0aed8f4b06975b98892183052a9e4bcddc74c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:37 +0000
Subject: [PATCH 52/55] fix: overlays keep to their windows and play every
 authored slide

---
 src/animation/animator.ts | 73 ++++++++++++++++++++++++++++-----------
 src/animation/shine.ts    | 10 +++---
 2 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 867970a..d270cce 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -2229,7 +2229,7 @@ function buildTypingCaret(
     // on/off every half-period until the overlay disappears.
     const blinkStops: string[] = [
       `0%, ${typeStartPct} { opacity: 0; }`,
-      `${pct(typeStartMs + 30, totalDuration)} { opacity: 1; }`,
+      `${pct(Math.min(typeStartMs + 30, holdEndMs), totalDuration)} { opacity: 1; }`,
       `${pct(textEndMs, totalDuration)} { opacity: 1; }`,
     ];
     let t = textEndMs + blinkMs / 2;
@@ -2340,6 +2340,9 @@ function renderTypingOverlay(
   const color = overlay.color ?? "#e6edf3";
   const typeStartMs = frameStart + delay;
   const id = `t${idBase}`;
+  // A window that closes before the first keystroke shows nothing (as `tap`):
+  // the reveal must not slide into the frame that follows.
+  if (typeStartMs >= frameEnd) return { svgMarkup: "", css: "" };
 
   // DM-840 / DM-1134: wrap to `wrapWidth` so typed text behaves like a browser
   // field (textarea) — wrapping to the next line instead of running off the
@@ -2416,7 +2419,8 @@ function renderTypingOverlay(
   // timing function (`holdAtf`, appended to the hold stop of the fade-driven
   // `-bg` / `-vis` keyframes) so no fade ramp is emitted at all. The reveal
   // clips and caret already animate step-end, so the epsilon stop alone makes
-  // their drop a hard cut too.
+  // their drop a hard cut too. At the very end of the scene the two stops share
+  // 100%, so the constant hold segment before them steps as well.
   const disappearPct = hardCut
     ? `${padAfter(pctNum(disappearMs, totalDuration), KEYFRAME_EPSILON.display, 2)}%`
     : pct(disappearMs, totalDuration);
@@ -2437,7 +2441,7 @@ function renderTypingOverlay(
       `  <rect class="${id}-bg" x="${overlay.x - 2}" y="${overlay.y - fontSize + 2}" width="${bgW}" height="${bgH}" fill="${maskColor}" rx="2" />`,
     );
     cssRules.push(`
-    @keyframes ${id}-bg { 0%, ${bgStartPct} { opacity: 0; } ${pct(typeStartMs + 50, totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
+    @keyframes ${id}-bg { 0%, ${bgStartPct} { opacity: 0; } ${pct(Math.min(typeStartMs + 50, holdEndMs), totalDuration)} { opacity: 1;${holdAtf} } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
     .${id}-bg { animation: ${id}-bg ${totalSec.toFixed(2)}s infinite; }`);
   }
 
@@ -2463,7 +2467,7 @@ function renderTypingOverlay(
   // Whole-overlay visibility — shared by every line's glyph group.
   const typeStartPct = pct(typeStartMs, totalDuration);
   cssRules.push(`
-    @keyframes ${id}-vis { 0%, ${typeStartPct} { opacity: 0; } ${pct(typeStartMs + 30, totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
+    @keyframes ${id}-vis { 0%, ${typeStartPct} { opacity: 0; } ${pct(Math.min(typeStartMs + 30, holdEndMs), totalDuration)} { opacity: 1;${holdAtf} } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
     .${id}-text { animation: ${id}-vis ${totalSec.toFixed(2)}s infinite; }`);
 
   // Optional blinking insertion caret glued to the growing text edge. In paste
@@ -2503,12 +2507,13 @@ function renderTapOverlay(
   // A window that closes before the ripple even starts means the tap belongs to
   // a moment that is no longer on screen — emit nothing rather than a ripple
   // squeezed into zero time.
-  if (windowEnd != null && windowEnd <= tapMs) return { svgMarkup: "", css: "" };
+  // The same goes for the scene's own end: a keyframe past 100% is dropped.
+  const cut = Math.min(windowEnd ?? Infinity, totalDuration);
+  if (cut <= tapMs) return { svgMarkup: "", css: "" };
   // Cut the ripple short at the window edge (never stretch it): each stop is
   // clamped, then nudged so the three keyframe stops stay strictly increasing.
-  const cut = windowEnd ?? Infinity;
-  const peakMs = Math.max(tapMs + 1, Math.min(tapMs + rippleDur * 0.3, cut));
-  const endMs = Math.max(peakMs + 1, Math.min(tapMs + rippleDur, cut));
+  const peakMs = Math.min(totalDuration, Math.max(tapMs + 1, Math.min(tapMs + rippleDur * 0.3, cut)));
+  const endMs = Math.min(totalDuration, Math.max(peakMs + 1, Math.min(tapMs + rippleDur, cut)));
 
   const tapStartPct = pct(tapMs, totalDuration);
   const tapPeakPct = pct(peakMs, totalDuration);
@@ -2545,11 +2550,14 @@ function renderShineOverlay(
   const delay = overlay.delay ?? DEFAULT_EFFECT_DELAY_MS;
   const duration = overlay.duration ?? 900;
   const sweepStartMs = frameStart + delay;
+  const windowEndMs = frameStart + frameHoldMs;
+  // A window that closes before the sweep starts shows nothing (as `tap`).
+  if (sweepStartMs >= windowEndMs) return { svgMarkup: "", css: "" };
   const sweep = buildShineSweep({
     id: `sh${idBase}`,
     x: overlay.x, y: overlay.y, width: overlay.width, height: overlay.height,
     startPct: pct(sweepStartMs, totalDuration),
-    endPct: pct(Math.min(frameStart + frameHoldMs, sweepStartMs + duration), totalDuration),
+    endPct: pct(Math.min(windowEndMs, sweepStartMs + duration), totalDuration),
     totalSec,
     color: overlay.color,
     opacity: overlay.opacity,
@@ -2561,7 +2569,24 @@ function renderShineOverlay(
     repeat: overlay.repeat,
     repeatPeriodMs: overlay.repeatPeriodMs,
   });
-  return { svgMarkup: sweep.markup, css: sweep.css };
+  if (overlay.repeat == null) return { svgMarkup: sweep.markup, css: sweep.css };
+  const gate = gateToWindow(`sh${idBase}-win`, sweep.markup, sweepStartMs, windowEndMs, totalDuration, totalSec);
+  return { svgMarkup: gate.svgMarkup, css: sweep.css + gate.css };
+}
+
+/**
+ * Show `markup` during `[startMs, endMs)` of the scene only. An ambient
+ * (`repeat`) overlay loops on its own clock, which knows nothing of its frame.
+ */
+function gateToWindow(
+  id: string, markup: string, startMs: number, endMs: number, totalDuration: number, totalSec: number,
+): { svgMarkup: string; css: string } {
+  return {
+    svgMarkup: `  <g class="${id}">\n${markup}\n  </g>`,
+    css: `
+    @keyframes ${id} { 0% { opacity: 0; } ${pct(startMs, totalDuration)} { opacity: 1; } ${pct(endMs, totalDuration)}, 100% { opacity: 0; } }
+    .${id} { animation: ${id} ${totalSec.toFixed(2)}s step-end infinite; }`,
+  };
 }
 
 function renderBlinkOverlay(
@@ -2639,6 +2664,9 @@ function renderInteractOverlay(
   const duration = overlay.duration ?? 240;
   const releaseMs = overlay.releaseMs ?? 180;
 
+  // A window that closes before the treatment appears shows nothing (as `tap`).
+  if (frameStart + delay >= frameEnd) return { svgMarkup: "", css: "" };
+
   // Timeline (all clamped to the frame so the treatment can't leak past the cut).
   const appearMs = Math.min(frameStart + delay, frameEnd);
   const peakMs = Math.min(appearMs + duration, frameEnd);
@@ -2665,7 +2693,9 @@ function renderInteractOverlay(
   const svgMarkup = `  <g class="${id}">\n${layers.join("\n")}\n  </g>`;
 
   // One fused animation: opacity + transform at each stop (single timeline). The
-  // in-segment eases out (decelerates into peak); the release eases in.
+  // in-segment eases out (decelerates into peak); the release eases in. The two
+  // constant segments step, so that a zero-length rise or release (whose stops
+  // share an offset, where the later one wins) is no ramp across them.
   const s = (ms: number): string => pct(ms, totalDuration);
   let css: string;
   if (overlay.repeat != null) {
@@ -2689,13 +2719,14 @@ function renderInteractOverlay(
       100% { opacity: 0; transform: scale(1); }
     }
     .${id} { animation: ${id} ${period}ms linear ${appearMs.toFixed(0)}ms ${iterations} both; transform-origin: ${cx}px ${cy}px; }`;
-    return { svgMarkup, css };
+    const gate = gateToWindow(`${id}-win`, svgMarkup, appearMs, frameEnd, totalDuration, totalSec);
+    return { svgMarkup: gate.svgMarkup, css: css + gate.css };
   }
   css = `
     @keyframes ${id} {
-      0% { opacity: 0; transform: scale(1); }
+      0% { opacity: 0; transform: scale(1); animation-timing-function: step-end; }
       ${s(appearMs)} { opacity: 0; transform: scale(1); animation-timing-function: ease-out; }
-      ${s(peakMs)} { opacity: 1; transform: scale(${scaleTo}); }
+      ${s(peakMs)} { opacity: 1; transform: scale(${scaleTo}); animation-timing-function: step-end; }
       ${s(holdEndMs)} { opacity: 1; transform: scale(${scaleTo}); animation-timing-function: ease-in; }
       ${s(releaseEndMs)} { opacity: 0; transform: scale(1); }
       100% { opacity: 0; transform: scale(1); }
@@ -2887,7 +2918,7 @@ function renderSvgOverlay(
   // overlap with the next frame/overlay at an exact shared boundary.
   cssRules.push(`
     @keyframes ${visibilityId} { 0%, ${pct(Math.max(0, appearMs - 1), totalDuration)} { opacity: 0; } ${visStart} { opacity: 1; } ${pct(Math.max(appearMs, overlayEnd - 1), totalDuration)} { opacity: 1; } ${visEnd}, 100% { opacity: 0; } }
-    .${id} { animation: ${visibilityId} ${totalSec.toFixed(2)}s infinite; }`);
+    .${id} { animation: ${visibilityId} ${totalSec.toFixed(2)}s step-end infinite; }`);
 
   // Slide-in entrance (DM-211): translate from off-screen to (0, 0) over
   // duration ms, starting at frame start + delay.
@@ -2920,13 +2951,15 @@ function renderSvgOverlay(
   }
 
   // Markup: outer wrapper translates to (x, y) and clips, inner wrapper
-  // carries the visibility class, then the enter/exit transform wrapper, then
-  // the inlined SVG content.
-  const enterClass = overlay.enter != null ? ` ${id}-enter` : "";
-  const exitClass = overlay.exit != null ? ` ${id}-exit` : "";
+  // carries the visibility class, then the enter/exit transform wrappers, then
+  // the inlined SVG content. One wrapper per track: on a shared element only the
+  // last rule's `animation` would apply.
+  let content = overlay.innerSvg;
+  if (overlay.exit != null) content = `<g class="${id}-exit">${content}</g>`;
+  if (overlay.enter != null) content = `<g class="${id}-enter">${content}</g>`;
   const svgMarkup = `  <g transform="translate(${overlay.x} ${overlay.y})" clip-path="url(#${clipId})">
     <defs><clipPath id="${clipId}"><rect width="${overlay.width}" height="${overlay.height}"/></clipPath></defs>
-    <g class="${id}${enterClass}${exitClass}">${overlay.innerSvg}</g>
+    <g class="${id}">${content}</g>
   </g>`;
 
   return { svgMarkup, css: cssRules.join("") };
diff --git a/src/animation/shine.ts b/src/animation/shine.ts
index 6a40297..2b047a9 100644
--- a/src/animation/shine.ts
+++ b/src/animation/shine.ts
@@ -96,9 +96,11 @@ export function buildShineSweep(opts: ShineSweepOptions): ShineSweepResult {
   // Travel: the band's local x runs from `-band` (fully left of the box) to
   // `width + band` (fully right of it). Skewing the band would let its top/bottom
   // corners poke outside the sweep, so the band rect is over-tall (from -height to
-  // +2·height) and the skew pivots about the box center; the clip trims the rest.
-  const startX = -band;
-  const endX = width + band;
+  // +2·height) and the skew pivots about the box's top edge; the clip trims the
+  // rest. `lean` is how far the skew carries the band's bottom to the left.
+  const lean = Math.tan((skew * Math.PI) / 180) * height;
+  const startX = -band + Math.min(0, lean);
+  const endX = width + Math.max(band, lean);
   const bandH = height * 3;
 
   // Rounded clip so the glint follows a pill/button's corners rather than
@@ -144,7 +146,7 @@ export function buildShineSweep(opts: ShineSweepOptions): ShineSweepResult {
     </linearGradient>
   </defs>
   <g clip-path="url(#${clipId})">
-    <g class="${cls}"><rect x="0" y="${y - height}" width="${band}" height="${bandH}" fill="url(#${gradId})" transform="translate(${x} 0) skewX(${-skew})" /></g>
+    <g class="${cls}"><rect x="0" y="${-height}" width="${band}" height="${bandH}" fill="url(#${gradId})" transform="translate(${x} ${y}) skewX(${-skew})" /></g>
   </g>`;
 
   return { markup, css };
-- 
2.43.0


From 506a21075b56ac441dbdea6bee2d3b338a1abe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:10 +0000
Subject: [PATCH 53/55] fix: the cursor jumps, stops and clicks where its
 script says

---
 src/animation/cursor-overlay.ts | 56 +++++++++++++++++++++++----------
 src/cli/animate.ts              |  6 +++-
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/animation/cursor-overlay.ts b/src/animation/cursor-overlay.ts
index 45e1d83..8ce6932 100644
--- a/src/animation/cursor-overlay.ts
+++ b/src/animation/cursor-overlay.ts
@@ -106,7 +106,8 @@ export type SelectorResolver = (sel: string, frameIndex: number) => { x: number;
 /** DM-1106: hit-tester for the cursor TYPE at a viewport point in a given frame. */
 export type CursorAtResolver = (x: number, y: number, frameIndex: number) => string;
 
-interface KeyframePoint { t: number; x: number; y: number; visible: boolean; cursor?: string }
+/** `jump`: the pointer stays at the previous key's point until `t`, then jumps here (no slide). */
+interface KeyframePoint { t: number; x: number; y: number; visible: boolean; cursor?: string; jump?: boolean }
 interface ResolvedClick { t: number; x: number; y: number; button: "primary" | "secondary" | "middle"; style: CursorStyle }
 /** A cursor-keyword timeline entry: from time `t` the active glyph is `cursor`
  *  (or null = cursor hidden). DM-1106. */
@@ -161,12 +162,25 @@ export function resolveCursorScript(
 
   const positions: KeyframePoint[] = [];
   const clicks: ResolvedClick[] = [];
-  let curX = 0;
-  let curY = 0;
 
+  /** Where the pointer is once everything scripted so far up to `t` has happened. */
+  const currentAt = (t: number): { x: number; y: number } => {
+    if (positions.length === 0) return { x: 0, y: 0 };
+    const last = positions[positions.length - 1];
+    return last.t <= t ? last : stateAtTime(positions, t);
+  };
+
+  // Start a new segment at `t`. A slide still under way is cut off where the
+  // pointer is by then, and a new point is jumped to rather than drifted to.
   const pushKey = (t: number, x: number, y: number, vis: boolean, cursor?: string): void => {
-    positions.push({ t, x, y, visible: vis, cursor });
-    curX = x; curY = y;
+    const before = positions.length > 0 ? stateAtTime(positions, t) : null;
+    while (positions.length > 0 && positions[positions.length - 1].t >= t) positions.pop();
+    const last = positions[positions.length - 1];
+    const jump = last != null && before != null && (before.x !== x || before.y !== y);
+    if (jump && (before.x !== last.x || before.y !== last.y)) {
+      positions.push({ t: Math.max(last.t, t - totalDurationMs * 1e-5), x: before.x, y: before.y, visible: last.visible, cursor: last.cursor });
+    }
+    positions.push(jump ? { t, x, y, visible: vis, cursor, jump } : { t, x, y, visible: vis, cursor });
   };
 
   const frameForT = (t: number): number => {
@@ -182,10 +196,12 @@ export function resolveCursorScript(
     if (ev.type === "show") {
       pushKey(ev.t, ev.x, ev.y, true, ev.cursor);
     } else if (ev.type === "hide") {
-      pushKey(ev.t, curX, curY, false);
+      const cur = currentAt(ev.t);
+      pushKey(ev.t, cur.x, cur.y, false);
     } else if (ev.type === "move") {
       const dur = ev.duration ?? 0;
-      const target = resolveMoveTarget(ev, curX, curY, frameForT(ev.t), resolveSelector);
+      const cur = currentAt(ev.t);
+      const target = resolveMoveTarget(ev, cur.x, cur.y, frameForT(ev.t), resolveSelector);
       if (target == null) continue;
       if (dur > 0) {
         // Anchor the cursor at its previous spot when the move begins, then
@@ -193,15 +209,16 @@ export function resolveCursorScript(
         // in mid-frame. (Both the first-positioning and subsequent-move cases
         // emit the same start keyframe — DM-1073 collapsed a no-op branch here.)
         // The `cursor` override (if any) rides the whole slide.
-        pushKey(ev.t, curX, curY, true, ev.cursor);
-        pushKey(ev.t + dur, target.x, target.y, true, ev.cursor);
+        pushKey(ev.t, cur.x, cur.y, true, ev.cursor);
+        positions.push({ t: ev.t + dur, x: target.x, y: target.y, visible: true, cursor: ev.cursor });
       } else {
         pushKey(ev.t, target.x, target.y, true, ev.cursor);
       }
     } else if (ev.type === "click") {
       const button = ev.button ?? "primary";
       const style: CursorStyle = { ...baseStyle, ...(ev.style ?? {}) };
-      clicks.push({ t: ev.t, x: curX, y: curY, button, style });
+      const cur = currentAt(ev.t);
+      clicks.push({ t: ev.t, x: cur.x, y: cur.y, button, style });
     }
   }
 
@@ -211,6 +228,12 @@ export function resolveCursorScript(
   if (positions.length === 0 || positions[0].t > 0) {
     positions.unshift({ t: 0, x: positions[0]?.x ?? 0, y: positions[0]?.y ?? 0, visible: false });
   }
+  // Cut a script that runs past the scene's end at the end.
+  if (positions[positions.length - 1].t > totalDurationMs) {
+    const end = stateAtTime(positions, totalDurationMs);
+    while (positions[positions.length - 1].t >= totalDurationMs) positions.pop();
+    positions.push({ t: totalDurationMs, x: end.x, y: end.y, visible: end.visible, cursor: end.cursor });
+  }
   // Anchor a final keyframe at totalDurationMs so animateTransform interpolates
   // through the whole loop.
   if (positions[positions.length - 1].t < totalDurationMs) {
@@ -226,7 +249,7 @@ export function resolveCursorScript(
 }
 
 /** Interpolated cursor state at time `t` from the position keyframes. Position
- *  lerps within a keyframe interval; visibility + the per-segment cursor
+ *  lerps within a keyframe interval, unless it ends in a jump; visibility + the per-segment cursor
  *  override are step-held from the interval's start keyframe. */
 function stateAtTime(positions: KeyframePoint[], t: number): { x: number; y: number; visible: boolean; cursor?: string } {
   if (t <= positions[0].t) return positions[0];
@@ -234,7 +257,7 @@ function stateAtTime(positions: KeyframePoint[], t: number): { x: number; y: num
   for (let i = 0; i < n - 1; i++) {
     const a = positions[i], b = positions[i + 1];
     if (t >= a.t && t <= b.t) {
-      const span = b.t - a.t;
+      const span = b.jump === true ? 0 : b.t - a.t;
       const f = span > 0 ? (t - a.t) / span : 0;
       return { x: a.x + (b.x - a.x) * f, y: a.y + (b.y - a.y) * f, visible: a.visible, cursor: a.cursor };
     }
@@ -361,9 +384,10 @@ export function cursorOverlayMarkup(
   const kf: string[] = []; // @keyframes collected here, injected into <style>
 
   // Position track — linear translate along the keyframes (holds are duplicate
-  // consecutive values, exactly as under SMIL). keyTimes start at 0 and end at 1.
+  // consecutive values, exactly as under SMIL; `step-end` before a jump). keyTimes
+  // start at 0 and end at 1.
   const posName = `co-pos-${uid}`;
-  kf.push(`@keyframes ${posName}{${positions.map((p) => `${pct(p.t / totalDurationMs)}{transform:translate(${num(p.x)}px,${num(p.y)}px)}`).join("")}}`);
+  kf.push(`@keyframes ${posName}{${positions.map((p, i) => `${pct(p.t / totalDurationMs)}{transform:translate(${num(p.x)}px,${num(p.y)}px)${positions[i + 1]?.jump === true ? ";animation-timing-function:step-end" : ""}}`).join("")}}`);
   const posAnim = `${posName} ${totalSec}s linear infinite`;
 
   // Pulse fragments — one per click; each pushes its own keyframes into `kf`.
@@ -426,8 +450,8 @@ function buildPulseFragment(c: ResolvedClick, idx: number, uid: string, kf: stri
   // Fractions of the full loop where this pulse's window lands. The window's
   // start/peak/end map to the old one-shot's 0% / 15% / 100% keyframes.
   const fStart = c.t / totalDurationMs;
-  const fPeak = Math.min(1, (c.t + 0.15 * durMs) / totalDurationMs);
   const fEnd = Math.min(1, (c.t + durMs) / totalDurationMs);
+  const fPeak = fStart + 0.15 * (fEnd - fStart);
   // Hold scale(1)+opacity 0 before the click (only needed when the click is not
   // at t=0) and after the window (reset for the next loop, unless the window
   // already reaches the loop end).
@@ -443,7 +467,7 @@ function buildPulseFragment(c: ResolvedClick, idx: number, uid: string, kf: stri
   if (c.button === "secondary") {
     const halfPath = `M ${num(c.x)} ${num(c.y - innerR)} A ${num(innerR)} ${num(innerR)} 0 0 1 ${num(c.x)} ${num(c.y + innerR)} Z`;
     const halfName = `co-pulse-${uid}-${idx}h`;
-    const fHalfPeak = Math.min(1, (c.t + 0.20 * durMs) / totalDurationMs);
+    const fHalfPeak = fStart + 0.20 * (fEnd - fStart);
     const leadH = fStart > 0 ? `${pct(fStart)}{opacity:0}` : "";
     const tailH = fEnd < 1 ? `100%{opacity:0}` : "";
     const peakH = fHalfPeak < fEnd ? `${pct(fHalfPeak)}{opacity:1}` : "";
diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index c0833ce..c9c617a 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -3631,12 +3631,16 @@ export function buildCursorOverlay(
       const tail = Math.min(CURSOR_CLICK_TAIL_MAX_MS, frames[stage].duration * CURSOR_CLICK_TAIL_FRAC);
       const lastHit = holdEnd - tail;
       const span = Math.max(0, lastHit - start);
+      let free = start;
       targets.forEach((tg, m) => {
         // Single click → land at `lastHit` (just before the transition).
         // Multiple → spread across the hold so the LAST still lands at lastHit.
         const tHit = targets.length === 1 ? lastHit : start + (span * (m + 1)) / targets.length;
-        events.push({ type: "move", t: Math.max(start, tHit - moveDur), duration: moveDur, to: { x: tg.cx, y: tg.cy }, cursor: tg.cursor });
+        // Set off after the previous click and arrive for this one, however short the hold.
+        const tMove = Math.max(free, tHit - moveDur);
+        events.push({ type: "move", t: tMove, duration: tHit - tMove, to: { x: tg.cx, y: tg.cy }, cursor: tg.cursor });
         events.push({ type: "click", t: tHit });
+        free = tHit;
       });
     }
   } else {
-- 
2.43.0


From 8f2e1147e55de9d3f9aa57f19451239750c2a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:39 +0000
Subject: [PATCH 54/55] fix: form text, markers, captured ids and inline svg
 stay well-formed and inert

Captured strings reached the markup unescaped or only partly escaped in form
controls, list markers, text-overflow strings, device-frame labels and
compressed runs; data-domotion-anim ids unescaped. Inline <svg>, <mask>,
<clipPath> and <filter> markup is HTML's serialisation, which XML parsers
reject for &nbsp;, control characters and an undeclared xlink prefix. Ids in
their text were rewritten. border-image and list-style-image dropped urls
with quotes or parentheses.
---
 src/animation/compressed-run.ts   |  3 +-
 src/render/borders.ts             | 13 ++---
 src/render/css-tokens.ts          |  5 +-
 src/render/device-chrome.ts       | 14 ++----
 src/render/element-tree-to-svg.ts | 18 +++----
 src/render/form-controls.ts       | 10 ++--
 src/render/format.ts              |  2 +-
 src/render/mask.ts                |  3 +-
 src/render/svg-inline.ts          | 79 +++++++++++++++----------------
 9 files changed, 70 insertions(+), 77 deletions(-)

diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index f068c6f..553eaca 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -107,6 +107,7 @@ import type { CapturedElement, TextSegment } from "../capture/types.js";
 import { elementTreeToSvgInner } from "../render/element-tree-to-svg.js";
 import { paintOrderHitSequence } from "../render/paint-order.js";
 import { establishesStackingContext } from "../render/stacking.js";
+import { esc } from "../render/format.js";
 import { clearEmbeddedFonts, clearGlyphDefs, getEmbeddedFontFaceCss } from "../render/index.js";
 import { alignLineGlyphs, type AlignGlyph } from "./glyph-align.js";
 import { textTrackMarkup, CARET_BLINK_MS, DEFAULT_SELECTION_COLOR, type ResolvedTextTrack, type ResolvedSelection } from "./caret-track.js";
@@ -1416,8 +1417,6 @@ export function buildCompressedRunPlan(
 
 // ── Composition ─────────────────────────────────────────────────────────────
 
-const esc = (s: string): string => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;");
-
 /**
  * Compose N captured continue+cut states into one nested animated SVG. See
  * the module header for the emission model. The input trees are not mutated.
diff --git a/src/render/borders.ts b/src/render/borders.ts
index a45ad10..91af29a 100644
--- a/src/render/borders.ts
+++ b/src/render/borders.ts
@@ -4,6 +4,7 @@
  * emitter (`renderBorderImage`).
  */
 
+import { parseCssUrl } from "./css-tokens.js";
 import { r, esc } from "./format.js";
 import { parseColor, type RGBA } from "./colors.js";
 import type { CapturedElement } from "../capture/types.js";
@@ -898,10 +899,11 @@ export function dashArrayForStyle(style: string, width: number): string {
  */
 export function injectSvgSize(svgHtml: string, w: number, h: number): string {
   if (w <= 0 || h <= 0) return svgHtml;
-  const m = /^(<svg\b)([^>]*)(>)/i.exec(svgHtml);
+  const m = /^(<svg\b)((?:[^>"']|"[^"]*"|'[^']*')*)(>)/i.exec(svgHtml);
   if (m == null) return svgHtml;
-  let attrs = m[2];
-  attrs = attrs.replace(/\s(?:width|height)\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+)/gi, "");
+  // Attribute by attribute: a quoted value may itself hold `>` or ` width=5`.
+  const attrs = m[2].replace(/(\s[^\s=>"']+)(\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?/g, (attr: string, name: string) =>
+    /^\s(?:width|height)$/i.test(name) ? "" : attr);
   return `<svg${attrs} width="${r(w)}" height="${r(h)}">` + svgHtml.slice(m[0].length);
 }
 
@@ -1185,12 +1187,11 @@ export function renderBorderImage(
   // than `1` or `1 fill` (with non-degenerate edge tiling) fall through
   // unsupported for gradient sources; the rasterise-during-capture path is
   // tracked separately for that.
-  const urlMatch = /^url\((?:"|')?([^"')]+)(?:"|')?\)$/i.exec(src);
-  if (urlMatch == null) {
+  const url = parseCssUrl(src);
+  if (url == null) {
     if (!/-gradient\(/i.test(src)) return { svg: "", usedIds: 0 };
     return renderBorderImageGradient(el, indent, idPrefix, defsParts, clipIdx, src);
   }
-  const url = urlMatch[1];
   // DM-2242: every slice must sample the same source texture. A border image
   // uses multiple scale transforms by design; asking the resize cache for each
   // transform first creates multiple resampled full images whose bilinear edge
diff --git a/src/render/css-tokens.ts b/src/render/css-tokens.ts
index 3ce1a53..27b5c54 100644
--- a/src/render/css-tokens.ts
+++ b/src/render/css-tokens.ts
@@ -32,7 +32,10 @@ export function splitTopLevelCommas(s: string): string[] {
   let start = 0;
   for (let i = 0; i < s.length; i++) {
     const c = s[i];
-    if (c === "(") depth++;
+    if (c === '"' || c === "'") {
+      // A quoted string (a data: URL, say) may hold any of these.
+      while (++i < s.length && s[i] !== c) if (s[i] === "\\") i++;
+    } else if (c === "(") depth++;
     else if (c === ")") depth--;
     else if (c === "," && depth === 0) {
       out.push(s.slice(start, i));
diff --git a/src/render/device-chrome.ts b/src/render/device-chrome.ts
index 66c9fdf..1684c8a 100644
--- a/src/render/device-chrome.ts
+++ b/src/render/device-chrome.ts
@@ -21,6 +21,8 @@
  * the `domotion capture --chrome` flag) crib from.
  */
 
+import { esc } from "./format.js";
+
 /** Devices the `--chrome` flag understands. */
 export const DEVICE_CHROMES = ["phone", "browser", "window"] as const;
 export type DeviceChrome = (typeof DEVICE_CHROMES)[number];
@@ -89,14 +91,6 @@ export interface FramedSvg {
 const MONO = "ui-monospace, 'SF Mono', Menlo, monospace";
 const SANS = "-apple-system, system-ui, 'Segoe UI', sans-serif";
 
-function escapeXml(s: string): string {
-  return s
-    .replace(/&/g, "&amp;")
-    .replace(/</g, "&lt;")
-    .replace(/>/g, "&gt;")
-    .replace(/"/g, "&quot;");
-}
-
 /**
  * Strip the outer `<svg …>…</svg>` wrapper off a complete SVG document, leaving
  * the body markup so it can be re-nested at an offset. Tolerates a leading XML
@@ -281,12 +275,12 @@ function windowFrame(
       lockGlyph(pillX + q(12), cy, p.glyph, q);
     if (label != null && label !== "") {
       barContent +=
-        `<text x="${pillX + q(28)}" y="${cy + q(4)}" font-family="${MONO}" font-size="${q(12)}" fill="${p.glyph}">${escapeXml(label)}</text>`;
+        `<text x="${pillX + q(28)}" y="${cy + q(4)}" font-family="${MONO}" font-size="${q(12)}" fill="${p.glyph}">${esc(label)}</text>`;
     }
   } else if (label != null && label !== "") {
     // Centered window title.
     barContent +=
-      `<text x="${outerW / 2}" y="${BAR / 2 + q(4)}" text-anchor="middle" font-family="${SANS}" font-size="${q(13)}" font-weight="600" fill="${p.glyph}">${escapeXml(label)}</text>`;
+      `<text x="${outerW / 2}" y="${BAR / 2 + q(4)}" text-anchor="middle" font-family="${SANS}" font-size="${q(13)}" font-weight="600" fill="${p.glyph}">${esc(label)}</text>`;
   }
 
   const svg =
diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 7d8fb6d..8ace913 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -73,7 +73,7 @@ import {
   setActiveHiDPIFactor,
   type EmbedRemoteImagesOptions,
 } from "../capture/embed.js";
-import { inlineImgSvg, prefixSvgClasses, prefixSvgIds } from "./svg-inline.js";
+import { htmlSvgToXml, inlineImgSvg, prefixSvgClasses, prefixSvgIds } from "./svg-inline.js";
 import { hoistDuplicateImagePayloads } from "../post-processing/hoist-image-payloads.js";
 import { propagateTextDecorations } from "../tree-ops/decoration-propagation.js";
 import { getLastCaptureWarnings, logCaptureWarnings, _resetLastCaptureWarnings } from "../capture/warnings.js";
@@ -729,7 +729,7 @@ function paintSyntheticListMarker(
     const renderLabel = outside ? label : collapseMarkerWhitespace(label);
     const mx = contentEdge;
     const anchor = outside ? "end" : "start";
-    const escLabel = renderLabel.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
+    const escLabel = esc(renderLabel);
     // DM-1258: outside markers preserve their suffix spaces (white-space: pre);
     // inside markers fold into the content line, so let SVG collapse there.
     const xmlSpace = outside ? ' xml:space="preserve"' : "";
@@ -834,8 +834,8 @@ function paintListMarker(
       const lineHeightPx = parseFloat(el.styles.lineHeight) || fontSizePx * 1.2;
       const outside = (el.summaryMarkerGeometry?.listStylePosition ?? el.styles.listStylePosition) !== "inside";
       if (lsImage != null && lsImage !== "none") {
-        const urlMatch = /^url\((?:"|')?([^"')]+)(?:"|')?\)$/i.exec(lsImage);
-        if (urlMatch != null) {
+        const url = parseCssUrl(lsImage);
+        if (url != null) {
           const intrinsic = el.listMarkerIntrinsic;
           const markerW = intrinsic != null && intrinsic.w > 0 ? intrinsic.w : 16;
           const markerH = intrinsic != null && intrinsic.h > 0 ? intrinsic.h : 16;
@@ -852,7 +852,7 @@ function paintListMarker(
           const mx = outside ? el.x - markerW - 7 : el.x;
           const my = outside ? el.y : el.y + (el.height - markerH) / 2;
           out.push(
-            `${indent}<image href="${esc(embedResizedDataUri(urlMatch[1], markerW, markerH))}" x="${r(mx)}" y="${r(my)}" width="${r(markerW)}" height="${r(markerH)}" preserveAspectRatio="xMidYMid meet" />`,
+            `${indent}<image href="${esc(embedResizedDataUri(url, markerW, markerH))}" x="${r(mx)}" y="${r(my)}" width="${r(markerW)}" height="${r(markerH)}" preserveAspectRatio="xMidYMid meet" />`,
           );
         }
       } else if (lsType !== "none" && lsType !== "") {
@@ -2374,7 +2374,7 @@ function paintInlineSvg(el: CapturedElement, indent: string, allocClassPrefix?:
   // fall back to its 300x150 default viewport, and the defs contents would
   // paint visibly. Skip emission for 0x0 host elements.
   if (contentW <= 0 || contentH <= 0) return { svg, handled: true };
-  let sized = injectSvgSize(el.svgContent, contentW, contentH);
+  let sized = injectSvgSize(htmlSvgToXml(el.svgContent), contentW, contentH);
   const referencePrefix = el.svgReferenceScope != null ? `${idPrefix}svgscope${el.svgReferenceScope}-` : allocClassPrefix?.();
   if (referencePrefix != null) sized = prefixSvgIds(sized, referencePrefix);
   // DM-1595: namespace CSS class names when this inline SVG carries a `<style>`
@@ -2565,7 +2565,7 @@ function paintTruncationMarker(el: CapturedElement, textColor: ReturnType<typeof
     const ty = (el.textTop != null && el.fontAscent != null)
       ? el.textTop + el.fontAscent
       : el.y + fontSizePx * 1.1;
-    const escMarker = marker.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
+    const escMarker = esc(marker);
     // Paint a background rect under the marker so the overflowing text
     // behind it gets visually erased — mirrors Chrome where the
     // truncated text doesn't bleed past the marker. Extend the rect all
@@ -3345,7 +3345,7 @@ function elementTreeToSvgInnerImpl(
   // and the rest of the SVG filter primitive set all round-trip cleanly
   // since the browser's SVG renderer interprets them directly.
   for (const def of fragmentFilterDefs.values()) {
-    defsParts.push(def.outerHTML);
+    defsParts.push(htmlSvgToXml(def.outerHTML));
   }
 
   // Sort top-level siblings by CSS paint order too. captureElementTree
@@ -4301,7 +4301,7 @@ function computeGroupWrapperAttrs(
   // The class lives on a SEPARATE wrapper from any merger-added visibility
   // class (which gets applied to the outer group) so the two `animation`
   // declarations don't clobber each other.
-  const animClass = el.animId != null && el.animId !== "" ? `anim-${el.animId}` : "";
+  const animClass = el.animId != null && el.animId !== "" ? `anim-${esc(el.animId)}` : "";
   // DM-603: viewBox-cull class (`cull-<start>-<end>`) goes on the OUTER group so it
   // composes with any inner animation/transform wrappers cleanly. Likewise
   // `style="display:none"` is on the outer group so the entire subtree is
diff --git a/src/render/form-controls.ts b/src/render/form-controls.ts
index c04e08a..81ef769 100644
--- a/src/render/form-controls.ts
+++ b/src/render/form-controls.ts
@@ -1197,7 +1197,7 @@ function renderDatePicker(el: CapturedElement, indent: string): string {
   // the canonical ISO form (`2026-04-21`). DM-263.
   const display = formatDateInputDisplay(t, val);
   if (display !== "") {
-    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="ui-monospace, Menlo, monospace" fill="${textFill}">${display.replace(/[&<>]/g, (c) => ({"&":"&amp;","<":"&lt;",">":"&gt;"}[c]!))}</text>`);
+    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="ui-monospace, Menlo, monospace" fill="${textFill}">${esc(display)}</text>`);
   }
   // Picker icon on the right edge: calendar for date / month / week / datetime-local,
   // clock for time. Chrome paints these monochrome at ~14px in the input's
@@ -1505,8 +1505,8 @@ function renderListbox(el: CapturedElement, indent: string): string {
     const fontStyleAttr = fontStyle !== "normal" ? ` font-style="${fontStyle}"` : "";
     const fontWeightAttr = fontWeight !== "normal" && fontWeight !== "400" ? ` font-weight="${fontWeight}"` : "";
     const opacityAttr = o.disabled ? ` opacity="0.5"` : "";
-    const escaped = o.text.replace(/[&<>]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;" }[c]!));
-    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(optionFontSize)}" font-family="${(o.fontFamily ?? fontFamily).replace(/"/g, "&quot;")}" fill="${o.color ?? color}"${fontStyleAttr}${fontWeightAttr}${opacityAttr}>${escaped}</text>`);
+    const escaped = esc(o.text);
+    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(optionFontSize)}" font-family="${esc(o.fontFamily ?? fontFamily)}" fill="${o.color ?? color}"${fontStyleAttr}${fontWeightAttr}${opacityAttr}>${escaped}</text>`);
   }
   return parts.join("\n");
 }
@@ -1534,8 +1534,8 @@ function renderSelectChevron(el: CapturedElement, indent: string, defCtx?: DefCt
     const bwL = parseFloat(el.styles.borderLeftWidth ?? "0") || 0;
     const tx = el.x + bwL + padL;
     const ty = el.y + el.height / 2 + fontSize * 0.35;
-    const escaped = display.replace(/[&<>]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;" }[c]!));
-    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="${fontFamily.replace(/"/g, "&quot;")}" fill="${color}">${escaped}</text>`);
+    const escaped = esc(display);
+    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="${esc(fontFamily)}" fill="${color}">${escaped}</text>`);
   }
   // Chromium macOS default: small down-chevron near the right edge. Skip
   // when the page set appearance: none — the chevron is the page's
diff --git a/src/render/format.ts b/src/render/format.ts
index 53ff321..ad6eff7 100644
--- a/src/render/format.ts
+++ b/src/render/format.ts
@@ -39,7 +39,7 @@ export function r(n: number): string {
  * private-use codepoint anyway), and a screen reader has nothing to say about a
  * codepoint permanently guaranteed never to be a character.
  */
-const XML_ILLEGAL = /[\x00-\x08\x0B\x0C\x0E-\x1F\uFFFE\uFFFF]|[\uD800-\uDBFF](?![\uDC00-\uDFFF])|(?<![\uD800-\uDBFF])[\uDC00-\uDFFF]/g;
+export const XML_ILLEGAL = /[\x00-\x08\x0B\x0C\x0E-\x1F\uFFFE\uFFFF]|[\uD800-\uDBFF](?![\uDC00-\uDFFF])|(?<![\uD800-\uDBFF])[\uDC00-\uDFFF]/g;
 
 export function esc(s: string): string {
   return s
diff --git a/src/render/mask.ts b/src/render/mask.ts
index cc37769..11cb5ab 100644
--- a/src/render/mask.ts
+++ b/src/render/mask.ts
@@ -7,6 +7,7 @@
  */
 
 import { r, esc } from "./format.js";
+import { htmlSvgToXml } from "./svg-inline.js";
 import { embedResizedDataUri } from "../capture/embed.js";
 import { parseCssUrl, splitTopLevelCommas } from "./css-tokens.js";
 import { buildImagePatternDef } from "./image-pattern.js";
@@ -65,7 +66,7 @@ export function rewriteFragmentMaskDef(
   }
   // Substitute id="X" — only ids we discovered, to avoid touching id strings
   // that happen to appear inside attribute values that aren't id attributes.
-  let out = outerHTML.replace(/(\sid\s*=\s*)("([^"]+)"|'([^']+)')/g, (_, prefix, _full, dq, sq) => {
+  let out = htmlSvgToXml(outerHTML).replace(/(\sid\s*=\s*)("([^"]+)"|'([^']+)')/g, (_, prefix, _full, dq, sq) => {
     const original = dq ?? sq ?? "";
     const replaced = idMap.get(original);
     if (replaced == null) return prefix + (dq != null ? `"${original}"` : `'${original}'`);
diff --git a/src/render/svg-inline.ts b/src/render/svg-inline.ts
index 7add301..221834e 100644
--- a/src/render/svg-inline.ts
+++ b/src/render/svg-inline.ts
@@ -21,7 +21,8 @@
  * exactly one place.
  */
 
-import { r } from "./format.js";
+import { r, XML_ILLEGAL } from "./format.js";
+import { collectIds, rewriteMarkup } from "../animation/svg-markup.js";
 
 /**
  * Prefix every `id="…"`, `href="#…"`, `xlink:href="#…"`, and `url(#…)` in an
@@ -31,34 +32,36 @@ import { r } from "./format.js";
  * `<style>` block are intentionally NOT rewritten — see the module note.
  */
 export function prefixSvgIds(svg: string, prefix: string): string {
-  const ids = new Set<string>();
-  for (const match of svg.matchAll(/\bid\s*=\s*(?:"([^"]+)"|'([^']+)')/gi)) ids.add(match[1] ?? match[2]);
-  const mapped = (id: string) => ids.has(id) ? `${prefix}${id}` : id;
-  let out = svg;
-  out = out.replace(/\bid="([^"]+)"/g, (_m, id: string) => `id="${prefix}${id}"`);
-  out = out.replace(/\bid='([^']+)'/g, (_m, id: string) => `id='${prefix}${id}'`);
-  out = out.replace(
-    /\b(href|xlink:href)="#([^"]+)"/g,
-    (_m, attr: string, id: string) => `${attr}="#${mapped(id)}"`,
-  );
-  out = out.replace(
-    /\b(href|xlink:href)='#([^']+)'/g,
-    (_m, attr: string, id: string) => `${attr}='#${mapped(id)}'`,
-  );
-  out = out.replace(/url\(\s*(['"]?)#([^)'"\s]+)\1\s*\)/gi, (_m, quote: string, id: string) => `url(${quote}#${mapped(id)}${quote})`);
-  const idRefAttrs = "aria-activedescendant|aria-controls|aria-describedby|aria-details|aria-errormessage|aria-flowto|aria-labelledby|aria-owns|for";
-  out = out.replace(new RegExp(`\\b(${idRefAttrs})=("|')([^"']*)\\2`, "gi"), (_m, attr: string, quote: string, value: string) =>
-    `${attr}=${quote}${value.split(/\s+/).map(mapped).join(" ")}${quote}`,
-  );
-  out = out.replace(/\b(begin|end)=("|')([^"']*)\2/gi, (_m, attr: string, quote: string, value: string) =>
-    `${attr}=${quote}${value.split(";").map((part) => part.replace(/^(\s*)([\w:.-]+)(\.)/, (_r, space: string, id: string, dot: string) => `${space}${mapped(id)}${dot}`)).join(";")}${quote}`,
-  );
-  out = out.replace(/(<style\b[^>]*>)([\s\S]*?)(<\/style>)/gi, (_m, open: string, css: string, close: string) =>
-    open + css.replace(/([^{}]*)(\{[^{}]*\})/g, (_rule, selectors: string, body: string) =>
-      selectors.replace(/#(-?[_a-zA-Z][-_a-zA-Z0-9:.]*)/g, (_s, id: string) => `#${mapped(id)}`) + body,
-    ) + close,
-  );
-  return out;
+  const ids = collectIds(svg);
+  const mapped = (id: string): string => ids.has(id) ? `${prefix}${id}` : id;
+  const urls = (v: string): string => v.replace(/url\(\s*(['"]|&quot;|)#([^)'"\s&]+)\1\s*\)/gi, (_m, quote: string, id: string) => `url(${quote}#${mapped(id)}${quote})`);
+  return rewriteMarkup(svg, {
+    attribute: (name, value) => {
+      const n = name.toLowerCase();
+      if (n === "id") return `${prefix}${value}`;
+      if (n === "href" || n === "xlink:href") return value.startsWith("#") ? `#${mapped(value.slice(1))}` : value;
+      if (ID_REF_ATTRS.has(n)) return value.split(/\s+/).map(mapped).join(" ");
+      if (n === "begin" || n === "end") return value.split(";").map((part) => part.replace(/^(\s*)([\w:.-]+)(\.)/, (_r, space: string, id: string, dot: string) => `${space}${mapped(id)}${dot}`)).join(";");
+      return n === "aria-label" ? value : urls(value);
+    },
+    prelude: (text) => text.startsWith("@") ? text : text.replace(/#(-?[_a-zA-Z][-_a-zA-Z0-9:.]*)/g, (_s, id: string) => `#${mapped(id)}`),
+    declaration: (_p, _v, text) => urls(text),
+  });
+}
+
+/** Attributes holding ids, which have to follow the ids they name. */
+const ID_REF_ATTRS = new Set(["aria-activedescendant", "aria-controls", "aria-describedby", "aria-details", "aria-errormessage", "aria-flowto", "aria-labelledby", "aria-owns", "for"]);
+
+/**
+ * Captured SVG subtrees arrive as `outerHTML`, HTML's serialisation. An XML parser
+ * knows no `&nbsp;`, admits no control character or lone surrogate, and wants the
+ * `xlink` prefix declared, so any of these would take the whole document down.
+ */
+export function htmlSvgToXml(html: string): string {
+  const out = html.replace(XML_ILLEGAL, "").replace(/&nbsp;/g, "&#160;");
+  return out.includes("xlink:") && !out.includes("xmlns:xlink")
+    ? out.replace(/^\s*<[A-Za-z][\w:.-]*/, (open) => `${open} xmlns:xlink="http://www.w3.org/1999/xlink"`)
+    : out;
 }
 
 /**
@@ -80,20 +83,12 @@ export function prefixSvgIds(svg: string, prefix: string): string {
  * `selector { … }` rule shape that design tools emit is.
  */
 export function prefixSvgClasses(svg: string, prefix: string): string {
-  let out = svg;
-  // (a) class selectors inside <style> … </style>, selector-portion only.
-  out = out.replace(/(<style\b[^>]*>)([\s\S]*?)(<\/style>)/gi, (_m, open: string, css: string, close: string) => {
-    const rewritten = css.replace(/([^{}]*)(\{[^{}]*\})/g, (_r, sel: string, block: string) =>
-      sel.replace(/\.(-?[_a-zA-Z][-_a-zA-Z0-9]*)/g, (_c, name: string) => `.${prefix}${name}`) + block,
-    );
-    return open + rewritten + close;
+  return rewriteMarkup(svg, {
+    attribute: (name, value) => name.toLowerCase() === "class"
+      ? value.split(/\s+/).filter(Boolean).map((t) => `${prefix}${t}`).join(" ")
+      : value,
+    prelude: (text) => text.startsWith("@") ? text : text.replace(/\.(-?[_a-zA-Z][-_a-zA-Z0-9]*)/g, (_c, name: string) => `.${prefix}${name}`),
   });
-  // (b) class attribute tokens (single- or double-quoted).
-  out = out.replace(/\bclass=("|')([^"']*)\1/gi, (_m, q: string, val: string) => {
-    const toks = val.split(/\s+/).filter(Boolean).map((t) => `${prefix}${t}`).join(" ");
-    return `class=${q}${toks}${q}`;
-  });
-  return out;
 }
 
 /** Read a numeric SVG length attribute (`width`/`height`), stripping a `px`
-- 
2.43.0


From 617b74122ee0cf3d4b6ee439046521edf1adeeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:31 +0000
Subject: [PATCH 55/55] fix: re-nested SVG documents keep the namespace
 prefixes their root declared

---
 src/animation/composite.ts  |  4 ++--
 src/animation/svg-meta.ts   | 11 +++++++++++
 src/cli/animate.ts          |  5 ++++-
 src/render/device-chrome.ts |  4 +++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/animation/composite.ts b/src/animation/composite.ts
index 5576d8e..6296c0b 100644
--- a/src/animation/composite.ts
+++ b/src/animation/composite.ts
@@ -35,7 +35,7 @@ import { findFillBoxInClipOrMask } from "../post-processing/clip-transform-safet
 import { namespaceEmbeddedAnimatedSvg } from "./embed-namespace.js";
 import { offsetEmbeddedAnimatedSvgTimeline, type EmbeddedTimelineMode } from "./embed-timeline.js";
 import { sliceKeyframesBody } from "./keyframe-slice.js";
-import { parseSvgIntrinsicSize, fmt, clampPct } from "./svg-meta.js";
+import { parseSvgIntrinsicSize, svgNamespaces, fmt, clampPct } from "./svg-meta.js";
 
 /** A layer-level animation: move / scale / fade / transform / resize-clip the whole layer. */
 export interface CompositeLayerAnimation {
@@ -269,7 +269,7 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
     //    with a viewBox scales the content to width×height and positions it).
     const inner = innerOf(content);
     const vb = `0 0 ${r.intrinsic.w || r.w} ${r.intrinsic.h || r.h}`;
-    let nested = `<svg x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}" viewBox="${vb}" preserveAspectRatio="none" overflow="visible">${inner}</svg>`;
+    let nested = `<svg x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}" viewBox="${vb}" preserveAspectRatio="none" overflow="visible"${svgNamespaces(r.layer.svg)}>${inner}</svg>`;
 
     if (r.layer.clip === true) {
       const clipId = own("clip");
diff --git a/src/animation/svg-meta.ts b/src/animation/svg-meta.ts
index dd45f58..4b2d2ef 100644
--- a/src/animation/svg-meta.ts
+++ b/src/animation/svg-meta.ts
@@ -24,6 +24,17 @@ export function parseSvgIntrinsicSize(svg: string): { w: number; h: number } | n
   return null;
 }
 
+/**
+ * The namespace prefixes an SVG document's root declares (`xmlns:xlink="…"`), as
+ * attribute text with a leading space. A caller that strips the root and re-nests
+ * the body has to re-declare them, or the first prefixed name in the body
+ * (`xlink:href`) makes the whole outer document ill-formed XML.
+ */
+export function svgNamespaces(svg: string): string {
+  const open = /<svg\b[^>]*>/i.exec(svg)?.[0] ?? "";
+  return (open.match(/\sxmlns:[\w.-]+\s*=\s*(?:"[^"]*"|'[^']*')/g) ?? []).map((a) => ` ${a.trim()}`).join("");
+}
+
 /**
  * An animated SVG's own play length (ms): from its `--scene-dur` custom property
  * when present (full-mode casts / `animate` output), else the longest `animation:`
diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index c9c617a..f670c2c 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -64,6 +64,7 @@ import { captureElementTreeSelfContained, launchChromium, attachWebfontTracker,
 import { loadBrand, brandSchema, type Brand } from "../templates/brand.js";
 import { type BoxAnchor, borderBox } from "../capture/content-box.js";
 import type { CapturedElement } from "../capture/types.js";
+import { svgNamespaces } from "../animation/svg-meta.js";
 import { clearEmbeddedFonts, clearGlyphDefs, clearWebfonts, elementTreeToSvgInner, getEmbeddedFontFaceCss } from "../render/index.js";
 // Speculative composition (kept off the package barrel — import direct, as the
 // animator does). Brackets each per-region trial compose so its PUA / dmfN
@@ -3763,7 +3764,9 @@ function namespaceSvgIds(svg: string, prefix: string): string {
   // cross-contaminate. Gated on `<style>` presence → no-op (byte-identical) for
   // the common presentation-attribute overlay.
   if (/<style[\s>]/i.test(inner)) inner = prefixSvgClasses(inner, prefix);
-  return inner;
+  // The stripped root's namespace prefixes (`xmlns:xlink`) go with its content.
+  const namespaces = svgNamespaces(svg);
+  return namespaces === "" ? inner : `<g${namespaces}>${inner}</g>`;
 }
 
 function resolveFrameInput(input: string, configDir: string): string {
diff --git a/src/render/device-chrome.ts b/src/render/device-chrome.ts
index 1684c8a..30273de 100644
--- a/src/render/device-chrome.ts
+++ b/src/render/device-chrome.ts
@@ -21,6 +21,7 @@
  * the `domotion capture --chrome` flag) crib from.
  */
 
+import { svgNamespaces } from "../animation/svg-meta.js";
 import { esc } from "./format.js";
 
 /** Devices the `--chrome` flag understands. */
@@ -120,7 +121,8 @@ export function wrapInDeviceChrome(
   screenH: number,
   opts: DeviceChromeOptions = {},
 ): FramedSvg {
-  const inner = innerOf(captureSvg);
+  const namespaces = svgNamespaces(captureSvg);
+  const inner = namespaces === "" ? innerOf(captureSvg) : `<g${namespaces}>${innerOf(captureSvg)}</g>`;
   const palette = PALETTES[opts.theme ?? "dark"];
   switch (device) {
     case "phone":
-- 
2.43.0

